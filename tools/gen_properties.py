#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Messages match in order, exactly once, whichever side is posted first",
 "A receive takes the earliest sent, still unreceived message of its communicator whose tag equals the requested tag (any tag when MPI_ANY_TAG is given), and a send goes to the earliest posted, still unmatched receive that accepts its tag. Every message is received exactly once and every receive gets exactly one message, for every interleaving of the blocking and nonblocking send modes (Send, Ssend, Rsend, Isend, Irsend, Sendrecv) and receives (Recv, Irecv), whichever side is posted first, for every legal tag value and any number of outstanding messages. Two messages that both fit a receive are never delivered out of the order in which they were sent.",
 ["histories", "programs"], "all sequences of send/receive calls over several tags, wildcards, modes and communicators; all queue lengths and tag values",
 "ctest/ftest post one fixed order of a few messages; matching is a property of every interleaving of posted operations.",
 ["send.c", "recv.c", "list.c", "probe.c"],
 [("list search for first match", "list.c:AP_list_search_func"), ("tag predicates", "send.c:mpi_match_recv, recv.c:mpi_match_send"), ("append to tail", "list.c:AP_list_append"), ("removal of a matched item", "list.c:AP_list_delete_item")],
 ["payload in the receive buffer", "MPI_TAG of the status", "request completion"],
 [("sendlist", "sends waiting for a receive, in order", "mpiP.h:Comm"), ("recvlist", "receives waiting for a send, in order", "mpiP.h:Comm")])

prop("C02", "A receive delivers exactly the sent data, for any pair of datatypes",
 "When a send and a receive match, element k of the sender's message (walking the sender's count and datatype) ends up as element k of the receiver's buffer (walking the receiver's count and datatype), bit for bit, whichever side was posted first and however the two layouts differ. If the message is shorter than the receive the rest of the receive buffer keeps its content, if it is longer the receive gets the leading elements, and a zero-count message moves nothing. No byte outside the receiver's described elements is ever written, no byte outside the sender's described elements is read, and the send buffer never changes.",
 ["inputs", "histories"], "all send/receive datatype and count pairs, buffer positions (including absolute addresses with MPI_BOTTOM, negative and >2 GiB displacements), and both posting orders",
 "The tests use equal types and counts on both sides and mostly post the receive first; the data path depends on both layouts and the posting order.",
 ["copy.c", "send.c", "recv.c", "type.c"],
 [("element-wise copy of two typemaps", "copy.c"), ("data moved at match time from either side", "send.c:MPI_Isend, recv.c:MPI_Irecv")],
 ["bytes of both buffers and their surroundings after each call"])

prop("C03", "A request completes exactly when its message is matched and is released once",
 "MPI_Test reports a nonblocking operation complete if and only if its message has been matched, MPI_Wait returns exactly then, and completing it sets the caller's handle to MPI_REQUEST_NULL; a request that is not complete keeps its handle. Testing or waiting on MPI_REQUEST_NULL succeeds at once with the empty status (any source, any tag, zero count). MPI_Request_free nulls the handle at any time without disturbing the message, which is still delivered to its peer, and never disturbs any other request.",
 ["histories"], "all sequences of posting, testing, waiting and freeing over several requests, pending or complete",
 "Tests wait for each request once right after it is complete; request states form a lifecycle explored only by sequences of calls.",
 ["req.c", "handles.c", "send.c", "recv.c"],
 [("completion flag", "req.c:MPI_Test"), ("handle recycling", "handles.c:mpi_free_handle")],
 ["flag, request handle value and status returned by Test/Wait", "delivery of data for freed requests"])

prop("C04", "Waitany/Waitall/Waitsome and their Test forms report exactly what completed",
 "For any array of requests mixing null, pending and complete entries, the any-forms complete exactly one complete request and report its index and status; the all-forms complete all of them with one status per entry (empty for null entries), and MPI_Testall completes none while any is pending. The some-forms complete every complete request and report their number, distinct indices and statuses in matching order. Entries not reported keep their handles, null entries are never counted as completed (an array with no active entry gives MPI_UNDEFINED as index or output count, flag true), and ignoring the statuses changes none of this.",
 ["inputs", "histories"], "all request arrays up to a length over {null, pending send/receive, complete send/receive, null-process} and all six calls, in sequence, with and without ignored statuses",
 "Only Waitall on fully complete arrays is used by the tests.",
 ["req.c"],
 [("array completion calls built on single test", "req.c:MPI_Testany, MPI_Testall, MPI_Testsome, MPI_Waitany, MPI_Waitall, MPI_Waitsome")],
 ["flag/index/outcount/indices/statuses and the request array after the call"])

prop("C05", "Probing reports precisely the message the next receive would get",
 "MPI_Iprobe returns a true flag if and only if a sent and not yet received message on that communicator fits the given source and tag, and then its status (source, tag, element count) describes precisely the message that a receive with the same arguments issued next would get. MPI_Probe does the same when such a message exists. Probing never consumes, reorders or alters a message or a request.",
 ["histories"], "all sequences of sends, posted receives and probes over tags, wildcards and communicators",
 "No test probes; the answer depends on the whole history of pending messages.",
 ["probe.c", "list.c"],
 [("search of pending sends without removal", "probe.c:MPI_Iprobe")],
 ["flag and status of Iprobe/Probe followed by a receive"])

prop("C06", "Receive statuses carry the true source, tag and element count",
 "After every completed receive, through whichever completion call its status is obtained, the status holds source 0, the tag of the message actually received, and a count such that MPI_Get_count gives the number of whole items of the given datatype that were received (MPI_UNDEFINED when it is not a whole number) and MPI_Get_elements the number of basic elements. Both reflect the message transferred, not the receive's capacity. Passing an ignored status never changes the outcome or writes anything.",
 ["inputs", "histories"], "all message lengths vs receive capacities, datatypes and query datatypes, completion calls, wildcard or exact tags, ignored or not",
 "The tests never query a status after a receive smaller or larger than the message.",
 ["req.c", "recv.c", "getcount.c"],
 [("status filled at completion", "req.c:MPI_Test"), ("count conversion", "getcount.c")],
 ["MPI_SOURCE, MPI_TAG, MPI_Get_count and MPI_Get_elements"])

prop("C07", "Messages never cross from one communicator to another",
 "A message sent on one communicator is visible to receives and probes on that communicator only, for every pair of live communicators however they were created (dup, create, split, Cartesian, intercommunicator create and merge), even with equal tags and wildcards. Creating or freeing other communicators at any moment neither loses nor delivers any pending message of a live communicator. A communicator created after another was freed starts with no messages.",
 ["histories"], "all interleavings of communicator creation/freeing with sends, receives and probes on them",
 "The tests use MPI_COMM_WORLD for communication.",
 ["comm.c", "cart.c", "ic_merge.c", "send.c", "recv.c", "probe.c"],
 [("per-communicator send and receive lists", "comm.c:mpi_comm_new")],
 ["delivery and probe results per communicator"])

prop("C08", "Hopeless or erroneous calls end the process; satisfiable calls never do",
 "A call that can never be satisfied with one process (a blocking send, receive, wait or probe with no counterpart, a ready-mode send without a posted receive, Waitany/Waitall/Waitsome when nothing they need is complete) and a call with an invalid rank or root terminates the process with a failure status instead of returning, hanging or crashing, whatever error handler was set with MPI_Errhandler_set, and MPI_Abort exits with the given code. Every call that can be satisfied returns MPI_SUCCESS.",
 ["histories", "inputs"], "all states of pending/complete operations x all blocking calls; all rank and root arguments",
 "A test cannot survive termination, so none checks it; deadlock detection depends on the history.",
 ["req.c", "send.c", "recv.c", "probe.c", "collective.c", "mpi.c"],
 [("deadlock detection", "req.c:MPI_Wait, MPI_Waitall, MPI_Waitany, MPI_Waitsome; probe.c:MPI_Probe; send.c:MPI_Irsend"), ("rank and root checks", "send.c, recv.c, collective.c")],
 ["termination kind and exit code, return code"])

prop("C09", "Communication with MPI_PROC_NULL completes at once and moves nothing",
 "Any send, receive, sendrecv or probe naming MPI_PROC_NULL succeeds immediately in every state, whatever the tag, count and datatype. A receive or probe then reports source MPI_PROC_NULL, tag MPI_ANY_TAG and count 0, and leaves the receive buffer unchanged. It neither consumes nor matches any real message or posted receive, before or after.",
 ["histories", "inputs"], "all sequences mixing null-process and real operations",
 "The tests never use MPI_PROC_NULL in communication.",
 ["send.c", "recv.c", "probe.c"],
 [("early completion for the null process", "send.c:MPI_Isend, recv.c:MPI_Irecv, probe.c:MPI_Iprobe")],
 ["status, buffer, and effect on other operations"])

prop("C10", "Live objects have distinct, stable handles however many there are",
 "At any moment all live requests, communicators and derived datatypes have pairwise distinct non-null handles that never coincide with predefined ones, and every handle keeps denoting its own object, whatever other objects are created or released in between, up to 262143 objects alive at once. A released handle may be reused only for objects created later. Trying to exceed the limit terminates the process instead of corrupting anything, and releasing objects makes room again.",
 ["histories", "inputs"], "all create/release sequences up to a depth, from every block-boundary fill level, and growth to the documented maximum",
 "The tests keep fewer than one block (256) of objects alive.",
 ["handles.c"],
 [("block table and free list", "handles.c:mpi_alloc_handle, mpi_free_handle, mpi_handle_to_ptr")],
 ["handle values; behaviour of each object through its handle"])

prop("C11", "Initialization state is reported truthfully across init and finalize cycles",
 "MPI_Initialized is true exactly between MPI_Init (or MPI_Init_thread) and MPI_Finalize, in C and Fortran alike, and may be called at any time. After initialization MPI_COMM_WORLD exists, is empty of messages, has size 1 and rank 0. After any activity, finalizing and initializing again gives a fresh library equivalent to the first initialization, while initializing twice without finalizing terminates the process.",
 ["histories"], "all sequences of init, init_thread, initialized, finalize, and activity between them (any number of live objects, pending or leaked)",
 "Each test program initializes once and finalizes once.",
 ["mpi.c", "handles.c", "fort.F90"],
 [("initialized flag", "mpi.c:MPI_Init, MPI_Finalize"), ("handle table reset", "handles.c:mpi_destroy_handles")],
 ["MPI_Initialized; behaviour of MPI_COMM_WORLD after each init"])

prop("C12", "Derived datatypes describe exactly the layout their constructor specifies",
 "Every datatype built by contiguous, vector, hvector (and create_hvector), indexed, hindexed, create_indexed_block or struct, nested to any depth over any base types, denotes exactly the sequence of (basic type, displacement) elements defined by the MPI standard for those arguments, in that order. This holds for zero and large counts and block lengths, zero, negative, overlapping, descending and very large displacements and strides. Constructing a datatype does not depend on memory contents or on earlier constructions.",
 ["inputs", "programs"], "all constructor expressions up to a nesting depth over boundary arguments",
 "The tests build about fifteen fixed datatypes.",
 ["type.c"],
 [("flattening of nested types", "type.c:Type_struct"), ("constructors reduce to struct", "type.c:Type_contiguous, Type_hvector, Type_vector, Type_indexed, Type_hindexed, Type_create_indexed_block")],
 ["bytes and order of data moved with the type by pack and send"])

prop("C13", "Size, extent and bounds of every datatype follow the stated rules",
 "For every datatype MPI_Type_size is the sum of the sizes of its basic elements, and lb and ub satisfy ub = lb + extent. Without explicit bounds lb is the lowest displacement and the extent is the span up to the highest element end rounded up to a multiple of the largest basic element size; MPI_LB and MPI_UB markers, directly or inherited from component types, replace the respective bound and then no rounding is applied. Empty datatypes have size, lb, ub and extent 0 unless a marker says otherwise.",
 ["inputs", "programs"], "all constructor expressions up to a nesting depth, with markers, negative and large displacements",
 "The tests query the extent of a handful of types and never use markers.",
 ["type.c", "type_const.c"],
 [("bound computation", "type.c:Type_struct, calc_lb, calc_ub, calc_padding, Type_extent")],
 ["MPI_Type_size, MPI_Type_extent, MPI_Type_lb, MPI_Type_ub"])

prop("C14", "Predefined datatypes have the sizes and layouts of the language types they name",
 "Every predefined datatype constant of mpi.h and mpif.h is usable in communication without committing, is distinct from the others, has the size and extent of the C or Fortran type it names (pair types: the C struct, both members at the struct's offsets), including the configured sizes of Fortran REAL and DOUBLE PRECISION. Constants of the same name have the same value in mpi.h and mpif.h. The reserved values (wildcards, null process, root, undefined, null handles) never collide with legal ranks, tags, handles or counts they must be told apart from.",
 ["inputs", "configurations"], "all predefined datatypes, all constants, configured Fortran real/double sizes",
 "The tests use five or six predefined types.",
 ["mpi.h", "mpif.h", "type_const.c", "type.c", "type.h", "configure.ac"],
 [("table of predefined types", "type_const.c:simpletypes"), ("element sizes", "type.c:Simpletype_length"), ("verification at init", "mpi.c:mpi_init_fort")],
 ["type size/extent, data moved by a send/pack of each type, constant values in both languages"])

prop("C15", "A derived datatype must be committed before it can move data",
 "Using a derived datatype that has not been committed in a send/receive pair or collective copy terminates the process with a failure status instead of moving data, while after MPI_Type_commit the same call succeeds; predefined datatypes count as committed. Building further datatypes from it and querying its properties work without commit, and a datatype built from committed ones is itself uncommitted. Committing one datatype never commits, changes or uncommits another, and committing twice is harmless.",
 ["histories"], "all sequences of construct/commit/derive/dup/free/use over several datatypes and both sides of a transfer",
 "The tests always commit first.",
 ["type.c", "copy.c", "type_const.c"],
 [("commit flag checked on every copy", "copy.c:Pcopy_data2")],
 ["termination or success of the transfer"])

prop("C16", "Datatypes are independent of each other and of later frees",
 "Freeing a datatype sets its handle to MPI_DATATYPE_NULL and affects neither datatypes derived or duplicated from it, nor other datatypes, nor communication already started with it, which completes as if it had not been freed. A duplicate has the same layout, bounds and commit state as the original and lives on its own. The arrays passed to a constructor may be changed or freed immediately afterwards.",
 ["histories"], "all sequences of construct/dup/commit/free/post/match over several datatypes",
 "The tests free types only at the end, or not at all, and never duplicate.",
 ["type.c", "send.c", "recv.c"],
 [("deep copy of component maps", "type.c:Type_struct, Type_dup"), ("free", "type.c:MPI_Type_free")],
 ["bytes moved and properties after frees"])

prop("C17", "Packing and unpacking are exact inverses within the stated buffer size",
 "MPI_Pack appends the elements described by count and datatype, in order and without gaps, at the given position and advances the position by exactly their total size, which is what MPI_Pack_size reports; MPI_Unpack reverses it. Any sequence of packs can be unpacked in the same order with the same or a differently laid out datatype of equal element sequence, also after being sent as MPI_PACKED, and only bytes of described elements or of the filled part of the pack buffer change. A pack or unpack that would pass the end of the buffer terminates the process without writing beyond it, while one that exactly fits succeeds.",
 ["inputs", "histories"], "all sequences of packs/unpacks over datatypes, counts, positions and buffer sizes around the exact fit",
 "Two fixed pack scenarios are tested, none at a buffer boundary.",
 ["pack.c"],
 [("element-wise pack/unpack with bound check", "pack.c:Pack, Unpack, Pack_size")],
 ["bytes of both buffers, position, termination"])

prop("C18", "Collectives on one process move exactly the contribution and nothing else",
 "For every collective (bcast, gather(v), scatter(v), allgather(v), alltoall(v,w), reduce, allreduce, reduce_scatter, scan, barrier) the result is what the standard defines for one process: the contribution, laid out by the receive count and datatype at the given displacement (counted in receive extents; bytes for alltoallw), for any operation and datatype. Every byte outside the result elements, the send side, and the count and displacement arrays keep their content. Only the single process's entry of vector arguments is used.",
 ["inputs"], "all collectives x send/receive datatypes x counts x displacements (positive, negative, beyond 2 GiB) x operations",
 "Tests run each collective once with plain integers and zero displacements.",
 ["collective.c", "copy.c"],
 [("collectives are typed copies", "collective.c"), ("typed copy", "copy.c")],
 ["bytes of both buffers and surroundings"])

prop("C19", "In-place and root arguments of collectives are honoured",
 "Passing MPI_IN_PLACE where the standard allows it leaves the result buffer exactly as the in-place result on one process, that is unchanged, for every rooted, all-to-all and reduction collective, in C and Fortran. Rooted collectives accept root 0, treat MPI_ROOT as a call that returns at once touching nothing where they support it (bcast, gather, gatherv, scatter, scatterv), and terminate the process for any other root. None of these calls reads or writes any user memory.",
 ["inputs"], "all collectives x in-place position x root value x language x datatype",
 "ctest and ftest use MPI_IN_PLACE for a few collectives with valid roots only.",
 ["collective.c", "mpi.c", "fort.F90", "mpif.h"],
 [("in-place test", "collective.c"), ("Fortran in-place translation", "mpi.c:mpi_c_in_place"), ("root checks", "collective.c")],
 ["bytes of buffers, termination"])

prop("C20", "Group operations obey set algebra over the single process",
 "Groups behave as subsets of the single process: union, intersection, difference, inclusion by rank list or rank range, and translation of ranks return the empty group or the one-process group exactly as set algebra says, for every combination of live groups, however they were obtained. Rank translation maps rank 0 to 0 when the target group contains the process and to MPI_UNDEFINED when it does not. Inclusion from the empty group gives the empty group. Null groups, and ranks a non-empty group does not contain, terminate the process; freeing a group nulls that handle only.",
 ["inputs", "histories"], "all sequences of group operations over all groups and rank lists",
 "No test exercises group operations.",
 ["group.c", "comm.c"],
 [("three-valued group representation", "group.c")],
 ["resulting groups, observed by further operations and communicator creation"])

prop("C21", "Communicator constructors return the right communicator or the null one",
 "Dup, create with a non-empty group, split with a defined color, Cartesian creation over dimensions of size at most 1, and intercommunicator create and merge each return a new communicator distinct from every live one with size 1 and rank 0; create with an empty group, split with color MPI_UNDEFINED and an intercommunicator between null communicators, or a merge of the null one, return MPI_COMM_NULL. Freeing nulls the caller's handle. Cartesian and dimension queries report every dimension as 1, coordinate 0 and the periodicity given at creation, and impossible topologies (a dimension, process count or rank beyond one process) terminate the process.",
 ["inputs", "histories"], "all constructor sequences and arguments, dimension counts and values",
 "No test creates a communicator or topology.",
 ["comm.c", "cart.c", "ic_merge.c"],
 [("communicator creation", "comm.c:mpi_comm_new"), ("Cartesian helpers", "cart.c")],
 ["returned handles, size, rank, coordinates, termination"])

prop("C22", "Every Fortran binding has the same effect as the C call it mirrors",
 "For every routine with a Fortran binding, calling it with the Fortran calling convention (all arguments by reference, integer handles, status arrays, error in the last argument) has the same effects and results as the C routine with the same values, in every history, and always sets the error argument. The Fortran spellings of ignored statuses, in-place and MPI_BOTTOM are recognised wherever the C ones are, and ordinary Fortran variables are never mistaken for them. Handles may be passed freely between the languages.",
 ["histories", "programs"], "all bindings over call sequences mixing languages",
 "ftest calls about half of the bindings in one order each and cannot compare with C.",
 ["fort.F90", "mpi.c", "send.c", "recv.c", "req.c", "probe.c", "collective.c", "type.c", "pack.c", "comm.c", "group.c", "cart.c", "getcount.c", "op.c", "info.c", "time.c", "mpif.h"],
 [("Fortran wrappers", "FC_FUNC definitions in every .c file"), ("special address registration", "fort.F90:mpi_get_fort_pointers, mpi.c:mpi_save_fort_pointers")],
 ["all output arguments and buffers, ierror, guard words around INTEGER outputs"])

prop("C23", "Environment queries are faithful and stay within their buffers",
 "MPI_Wtime returns the system clock's time in seconds with microsecond resolution, so differences of readings measure elapsed time for every clock value. The processor name is the host name (cut to MPI_MAX_PROCESSOR_NAME-1 characters, a fixed text if it cannot be obtained), the library version, error strings and numeric version are reported with exactly their length, always terminated in C and blank-padded for the Fortran library version. An error string names the code it was asked for. None of them writes outside the buffer sizes published in mpi.h, for every host name, error code or clock value.",
 ["inputs", "configurations"], "all host name lengths and failures, error codes, clock values",
 "Output depends on the environment, which the tests do not vary.",
 ["time.c", "mpi.c", "mpi.h", "mpif.h"],
 [("clock", "time.c:MPI_Wtime"), ("name and version strings", "mpi.c:MPI_Get_processor_name, MPI_Get_library_version, MPI_Error_string")],
 ["returned values, strings, lengths and bytes around the buffers"])

prop("C24", "Running out of memory ends the process cleanly, never corrupts",
 "If any single or all memory allocations made by the library fail from some point of a program on, the call that needed the memory terminates the process with a failure status, instead of returning success, crashing on an invalid address, hanging or writing anywhere. Calls completed before keep their results, and calls needing no memory still work.",
 ["fault_sequences", "histories"], "every allocation failure point of every short call sequence, one-shot and persistent",
 "No test can make malloc fail.",
 ["handles.c", "list.c", "type.c", "comm.c"],
 [("checked allocation", "handles.c:mpi_malloc, list.c:AP_listitem_malloc, AP_list_new, type.c:Type_struct")],
 ["termination kind, memory around allocations"])

prop("C25", "Serialized calls from several threads act as if made by one thread",
 "MPI_Init_thread grants a level not above the one requested, in C and Fortran, and initializes the library like MPI_Init. When several threads call the library one at a time, in any interleaving and with any assignment of calls to threads, each call has the same result as if one thread had made all calls in that order. No library state is tied to the thread that initialized, posted or created an object.",
 ["schedules", "histories"], "all interleavings at call granularity of several threads' call sequences, all assignments of calls to threads, all requested levels",
 "The tests are single-threaded.",
 ["mpi.c", "fort.F90", "handles.c", "list.c"],
 [("process-global state only", "handles.c, list.c, mpi.c statics"), ("thread level", "mpi.c:MPI_Init_thread")],
 ["results per call, provided level"])

prop("C26", "The type-checking build refuses exactly the transfers whose types differ",
 "In a library built with type checking, a point-to-point transfer or collective copy whose i-th sent and i-th received basic types differ, for some element that would be transferred, terminates the process with a failure status; if all transferred pairs agree it succeeds with the same result as the ordinary build. Built without the option the same program is never refused for its types. How the types were constructed or on which side the operation was posted first makes no difference.",
 ["configurations", "inputs"], "both build configurations x pairs of datatypes and counts x transfers",
 "The tests run one build configuration and only matching types.",
 ["copy.c", "type.c", "configure.ac"],
 [("pairwise basic type comparison under TYPE_CHECKING", "copy.c:Pcopy_data2")],
 ["termination or success, transferred bytes"])

prop("C27", "Repeated balanced use neither grows memory nor changes behaviour",
 "A program that releases everything it creates (completes or frees its requests, frees its datatypes and communicators, finalizes what it initialized) can repeat any cycle of calls without bound: memory held by the library after each cycle returns to what it was, and every repetition behaves exactly as the first. Handles used by completed or freed objects become available again. No internal memory is released twice or used after release in any such cycle.",
 ["histories"], "all balanced cycles up to a length, repeated, from different starting states",
 "The tests run each scenario once and do not observe memory.",
 ["handles.c", "list.c", "comm.c", "type.c", "req.c", "mpi.c"],
 [("handle and list item recycling", "handles.c:mpi_free_handle, list.c:AP_listitem_free"), ("object release", "type.c:MPI_Type_free, comm.c:MPI_Comm_free, mpi.c:MPI_Finalize")],
 ["live allocations and bytes after each cycle, results of each repetition"])

prop("C28", "Fortran initialization refuses constants or sizes that do not fit the library",
 "MPI_Init and MPI_Init_thread called from Fortran compare what the Fortran code was compiled with to the library: the constants MPI_COMM_WORLD, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_PROC_NULL, MPI_ROOT, MPI_COMM_NULL, MPI_REQUEST_NULL, MPI_GROUP_NULL, MPI_GROUP_EMPTY, MPI_UNDEFINED, MPI_MAX_ERROR_STRING, MPI_MAX_PROCESSOR_NAME, MPI_STATUS_SIZE, MPI_INTEGER and MPI_DOUBLE_PRECISION must equal those of mpi.h, the indices MPI_SOURCE, MPI_TAG and MPI_ERROR must be the places of these fields in MPI_Status, and the storage size of INTEGER, LOGICAL, REAL, DOUBLE PRECISION and COMPLEX must be that of the datatype the constant of that name denotes in the library as configured. If anything differs the process terminates with a failure status, however many other things agree; if everything fits, initialization succeeds as from C.",
 ["inputs"], "all deviations of one or two constants over sets of values, all combinations of storage sizes and status indices, in every configuration of the Fortran sizes, and real Fortran code compiled to fit or not",
 "The tests are always compiled to fit, so the comparison never has to refuse anything.",
 ["mpi.c", "fort.F90", "mpif.h", "mpi.h"],
 [("comparison of the two sides", "mpi.c:mpi_init_fort"), ("passing the Fortran side", "fort.F90:mpi_init, mpi_init_thread")],
 ["termination or success of the initialization, use of the library afterwards"])

prop("C29", "A list is exactly the sequence its operations make it",
 "The list routines beneath every queue of the library (AP_list_new, _append, _prepend, _delete, _delete_item, _duplicate, _free and the routines that read a list) keep each list exactly the sequence its operations define: items stay in order and keep their identity and data (NULL included) until deleted, forward and backward links, head, tail, size, search by data or function, apply, printing and every traversal agree with that sequence, deletion by data removes the first item that holds it, and a traversal in progress goes on with the item that follows now. A duplicate has the same data in items of its own, no operation on one list affects another, the verification routine reports anything outstanding exactly when a list has not been freed, MPI_Finalize leaves nothing outstanding once the communicators made by the program are freed, even with messages pending, and an operation that runs out of memory ends the process.",
 ["histories"], "all histories of list operations up to a depth over up to three lists, all patterns of additions and deletions, long lists, and histories next to the library in use",
 "No test calls the list routines; the library itself exercises only appending, searching and deleting.",
 ["list.c", "listP.h", "listops.h"],
 [("linking and unlinking", "list.c:AP_list_append, AP_list_prepend, AP_list_delete_item"), ("copying", "list.c:AP_list_duplicate"), ("outstanding items", "list.c:AP_listitem_verify")],
 ["items reached in both directions, data, sizes and return values of all reading routines after every operation"])

for d in P:
    assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
