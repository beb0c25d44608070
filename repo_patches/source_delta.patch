From 73ab0a2f259253e61d8b2fa247277d13c3197af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 01/37] fix: make MPI_Aint a signed type

Addresses displacements are signed: with an unsigned MPI_Aint the MPI_UB marker
was never honoured and negative displacements gave wrong lower bounds.
---
 mpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi.h b/mpi.h
index 82cff25..b66e48f 100644
--- a/mpi.h
+++ b/mpi.h
@@ -63,7 +63,7 @@ typedef int MPI_Group;
  * Data types etc.
  */
 
-typedef unsigned long int MPI_Aint;
+typedef long int MPI_Aint;
 #define MPI_BOTTOM (0)
 #define MPI_IN_PLACE (void *)(-1)
 typedef int MPI_Datatype;
-- 
2.43.0


From aa207331238b6c6009bfe4581eac978008a6261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 02/37] fix: initialize the bound override flags of constructed
 datatypes

The flags were left with whatever the heap held, so the extent of a new
datatype depended on memory contents.
---
 type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/type.c b/type.c
index 4e7d661..e751c0e 100644
--- a/type.c
+++ b/type.c
@@ -359,6 +359,9 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   //type is NOT committed
   temp->committed = 0;
 
+  temp->o_lb = 0;
+  temp->o_ub = 0;
+
   //assign upper and lower bounds here
   if (override_lower)
   {
-- 
2.43.0


From 721d3876d283e78d1dd78b17b3ec7f93605a3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 03/37] fix: compute datatype bounds in long arithmetic

Displacements beyond 2 GiB (absolute addresses with MPI_BOTTOM in particular)
were truncated to int when the bounds were computed.
---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index e751c0e..f7d6e75 100644
--- a/type.c
+++ b/type.c
@@ -147,7 +147,7 @@ int Simpletype_length(Simpletype t)
 long calc_lb(Datatype type)
 {
   int i;
-  int min_disp = INT_MAX;
+  long min_disp = LONG_MAX;
   typepair * tp;
 
   for(i =0; i < type->count; i++)
@@ -168,7 +168,7 @@ long calc_lb(Datatype type)
 long calc_ub(Datatype type)
 {
   int i;
-  long max_disp = INT_MIN;
+  long max_disp = LONG_MIN;
   typepair * tp;
 
   for(i = 0; i < type->count; i++)
-- 
2.43.0


From 112524bece65c9a48bb2209122a452f418bb18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 04/37] fix: keep buffer offsets in MPI_Aint

Offsets beyond 2 GiB were truncated to int in the typed copy, in the extent
padding and in the collectives with displacements.
---
 collective.c | 10 +++++-----
 copy.c       |  2 +-
 type.c       |  4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/collective.c b/collective.c
index 39c5361..607fd66 100644
--- a/collective.c
+++ b/collective.c
@@ -108,7 +108,7 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		void* recvbuf, int *recvcounts, int *displs,
 		MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -186,7 +186,7 @@ int MPI_Allgatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		   void* recvbuf, int *recvcounts, int *displs,
                    MPI_Datatype recvtype, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -266,7 +266,7 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
 		 MPI_Datatype sendtype, void* recvbuf, int recvcount,
 		 MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint st_extent;
 
   if (recvbuf==MPI_IN_PLACE)
@@ -449,8 +449,8 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
-  int send_offset;
-  int recv_offset;
+  MPI_Aint send_offset;
+  MPI_Aint recv_offset;
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
diff --git a/copy.c b/copy.c
index f231600..90601cc 100644
--- a/copy.c
+++ b/copy.c
@@ -43,7 +43,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
   int i;
-  int soffset, doffset;
+  MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
   //commit checking here, since if any datatype is used in this function
diff --git a/type.c b/type.c
index f7d6e75..9dea39b 100644
--- a/type.c
+++ b/type.c
@@ -190,9 +190,9 @@ int Type_extent(Datatype datatype, MPI_Aint * extent)
 
   if (!(datatype->o_lb || datatype->o_ub))
   {
-    int epsilon = calc_padding(datatype);
+    long epsilon = calc_padding(datatype);
     //current epsilon value is based off of largest datatype size
-    int mod = (datatype->ub - datatype->lb) % epsilon;
+    long mod = (datatype->ub - datatype->lb) % epsilon;
     if (mod == 0)
       epsilon = 0;
     else
-- 
2.43.0


From a921c3fff51a184cf7103435fa10b7b5802a6bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 05/37] fix: give empty datatypes well-defined bounds

A datatype without elements had garbage bounds (INT_MAX and INT_MIN), and as
a component its uninitialized first element was read.  The MPI_LB and MPI_UB
markers themselves have size and extent 0.
---
 type.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/type.c b/type.c
index 9dea39b..8651a93 100644
--- a/type.c
+++ b/type.c
@@ -45,7 +45,7 @@ Datatype* mpi_handle_to_datatype(int handle)
 
 int calc_padding(Datatype datatype)
 {
-  long size_max = INT_MIN;
+  long size_max = 1;   //an empty typemap needs no padding
   long type_len;
   int i;
   //find the largest datatype size.  The epsilon padding is (probably) based on this.
@@ -133,6 +133,9 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_LOWER:
+    case SIMPLE_UPPER:
+      return 0; break;
 
     default:
       printf("Invalid simple type\n");
@@ -150,6 +153,9 @@ long calc_lb(Datatype type)
   long min_disp = LONG_MAX;
   typepair * tp;
 
+  if (type->count == 0)
+    return 0;
+
   for(i =0; i < type->count; i++)
   {
     tp =  type->pairs+i;
@@ -171,6 +177,9 @@ long calc_ub(Datatype type)
   long max_disp = LONG_MIN;
   typepair * tp;
 
+  if (type->count == 0)
+    return 0;
+
   for(i = 0; i < type->count; i++)
   {
     tp = type->pairs+i;
@@ -250,6 +259,14 @@ int Copy_type(typepair *source, typepair *dest)
 
 }
 
+/* Is the type the MPI_LB (SIMPLE_LOWER) or MPI_UB (SIMPLE_UPPER) marker?
+ * (the typemap of an empty type has no first element to look at)
+ */
+static int is_marker(Datatype type, Simpletype marker)
+{
+  return type->count > 0 && type->pairs[0].type == marker;
+}
+
 /*******************************************************/
 /* MPI_Type_struct is the most general type constructor that
  * does the common work other constructors.
@@ -277,14 +294,14 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     // cases and will be skipped over
 
     temp2 = oldtypes_ptr[i];
-    if (temp2->pairs[0].type == SIMPLE_LOWER)
+    if (is_marker(temp2, SIMPLE_LOWER))
     {
       //found MPI_LB.  This is a candidate for the actual lb
       if (new_lb > displacements[i])
         new_lb = displacements[i];
       override_lower = 1;
     }
-    else if (temp2->pairs[0].type == SIMPLE_UPPER)
+    else if (is_marker(temp2, SIMPLE_UPPER))
     {
       //same as above, but ub
       if (new_ub < displacements[i])
@@ -324,8 +341,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     //test for previous MPI_LB or MPI_UB in one of the comprising types.
     //If found, skip over.
-    if (!((temp2->pairs[0].type == SIMPLE_LOWER) ||
-          (temp2->pairs[0].type == SIMPLE_UPPER)))
+    if (!(is_marker(temp2, SIMPLE_LOWER) ||
+          is_marker(temp2, SIMPLE_UPPER)))
     {
       for (j = 0; j < blocklens[i]; j++)
       {
-- 
2.43.0


From 805d164ebd5a28988e81a1f2f31c76323c0c09da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 06/37] fix: ignore zero-length blocks when computing datatype
 bounds

A block of length 0 of a marker, or of a datatype with overridden bounds,
overrode the bounds of the new datatype.
---
 type.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/type.c b/type.c
index 8651a93..ff8b7fb 100644
--- a/type.c
+++ b/type.c
@@ -294,6 +294,11 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     // cases and will be skipped over
 
     temp2 = oldtypes_ptr[i];
+
+    //a block of length 0 contributes neither elements nor bounds
+    if (blocklens[i] == 0)
+      continue;
+
     if (is_marker(temp2, SIMPLE_LOWER))
     {
       //found MPI_LB.  This is a candidate for the actual lb
-- 
2.43.0


From e74540e0046d5384c186b18e99277b5f0058e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 07/37] fix: MPI_Type_ub includes the padding counted in the
 extent

The upper bound is lb + extent by definition; the padding was left out.
---
 type.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index ff8b7fb..db272d9 100644
--- a/type.c
+++ b/type.c
@@ -762,7 +762,10 @@ int MPI_Type_lb(MPI_Datatype type, MPI_Aint * lb)
  */
 int Type_ub(Datatype type, MPI_Aint * ub)
 {
-    *ub = type->ub;
+  MPI_Aint extent;
+
+  Type_extent(type, &extent);
+  *ub = type->lb + extent;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 4f11ae57e5bd0b98ed54e94bb53c1e517757892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 08/37] fix: check the allocation of a datatype's typemap

A failed malloc was written through, and the element count could overflow.
---
 type.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index db272d9..4262a3c 100644
--- a/type.c
+++ b/type.c
@@ -283,7 +283,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
        override_upper = 0;
   MPI_Aint  new_lb = LONG_MAX,
       new_ub = LONG_MIN;
-  int simpletype_count = 0; //total additional blocks for malloc
+  long simpletype_count = 0; //total additional blocks for malloc
   MPI_Aint tmp_offset;      //for contiguous blocks of type
   MPI_Aint extent;
 
@@ -327,11 +327,23 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
         //same as above, but ub
         override_upper = 1;
 
-      simpletype_count += blocklens[i] * oldtypes_ptr[i]->count;
+      simpletype_count += (long) blocklens[i] * oldtypes_ptr[i]->count;
     }
   }
+
+  if (simpletype_count > INT_MAX)
+  {
+    fprintf(stderr, "Type_struct: too many elements in datatype\n");
+    abort();
+  }
+
   temp = malloc(sizeof(Typestruct) +
                ((simpletype_count-1) * sizeof(typepair)));
+  if (!temp)
+  {
+    fprintf(stderr, "Type_struct: failed to allocate datatype\n");
+    abort();
+  }
 
   temp->count = simpletype_count;
 
-- 
2.43.0


From a949fb1b1905736eaf245a51591910b3b469dd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 09/37] fix: implement MPI_Type_dup

mpi.h declares it, but it was not defined; the internal copy allocated only a
pointer's worth of memory and left the element count unset.
---
 type.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 4262a3c..1aa6c59 100644
--- a/type.c
+++ b/type.c
@@ -706,7 +706,15 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 {
   int i;
   //create a deep copy of given Datatype
-  *newtype = malloc(sizeof(oldtype));
+  *newtype = malloc(sizeof(Typestruct) +
+                    ((long) oldtype->count-1) * sizeof(typepair));
+  if (!*newtype)
+  {
+    fprintf(stderr, "Type_dup: failed to allocate datatype\n");
+    abort();
+  }
+
+  (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
   (*newtype)->ub = oldtype->ub;
@@ -721,6 +729,21 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   return MPI_SUCCESS;
 }
 
+int FC_FUNC( mpi_type_dup, MPI_TYPE_DUP )(int * oldtype, int * newtype, int * ierr)
+{
+  *ierr = MPI_Type_dup(*oldtype, newtype);
+  return MPI_SUCCESS;
+}
+
+int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype * newtype)
+{
+  Datatype old_ptr = *(Datatype*) mpi_handle_to_datatype(oldtype);
+  Datatype * new_ptr;
+
+  mpi_alloc_handle(newtype, (void**) &new_ptr);
+  return Type_dup(old_ptr, new_ptr);
+}
+
 /* MPI_Type_size:  Returns the sum of the lengths of each simple
  * type that makes up the data type argument
  */
-- 
2.43.0


From 445c3c4e97dfff90bea2f687636d087ab0409b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 10/37] fix: add the missing MPI_SIGNED_CHAR and MPI_WCHAR
 table entries

mpi.h defines the constants, but any use of them dereferenced a null pointer.
---
 type.c       |  4 ++++
 type.h       |  3 +++
 type_const.c | 10 +++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 1aa6c59..bd73e1f 100644
--- a/type.c
+++ b/type.c
@@ -133,6 +133,10 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_SCHAR:
+      return sizeof(signed char); break;
+    case SIMPLE_WCHAR:
+      return sizeof(wchar_t); break;
     case SIMPLE_LOWER:
     case SIMPLE_UPPER:
       return 0; break;
diff --git a/type.h b/type.h
index f495289..069b9a2 100644
--- a/type.h
+++ b/type.h
@@ -79,6 +79,9 @@ typedef Typestruct* Datatype;
 
 #define SIMPLE_OFFSET      34
 
+#define SIMPLE_SCHAR       35
+#define SIMPLE_WCHAR       36
+
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
diff --git a/type_const.c b/type_const.c
index 6afa7f0..d1fab90 100644
--- a/type_const.c
+++ b/type_const.c
@@ -161,6 +161,14 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                             .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_OFFSET }};
 
+Typestruct TSschar = {.count = 1,   .lb = 0,   .ub=sizeof(signed char),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_SCHAR }};
+
+Typestruct TSwchar = {.count = 1,   .lb = 0,   .ub=sizeof(wchar_t),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_WCHAR }};
+
 
 
  /* RML NOTE: the order and numbering of the elements of simpletypes[] MUST match
@@ -180,7 +188,7 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                        &TSinteger2, &TSinteger4  , &TSinteger8   , &TSinteger16,  //32
                        &TSreal4	  , &TSreal8	 , &TSreal16     , &TScomplex8,   //36
                        &TScomplex16, &TScomplex32, &TSlonglong   , &TSulonglong,  //40
-                       &TSoffset
+                       &TSoffset  , &TSschar     , &TSwchar                          //44
                        };
 
 
-- 
2.43.0


From 1be1db20f0accdb6a5c95f0f4e22f16d5f969cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 11/37] fix: MPI_INTEGER16 has a size

Any use of MPI_INTEGER16 ended the process with "Invalid simple type".
---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index bd73e1f..d513b5f 100644
--- a/type.c
+++ b/type.c
@@ -115,6 +115,8 @@ int Simpletype_length(Simpletype t)
       return 4; break;
     case SIMPLE_FINTEGER8:
       return 8; break;
+    case SIMPLE_FINTEGER16:
+      return 16; break;
     case SIMPLE_FREAL4:
       return 4; break;
     case SIMPLE_FREAL8:
-- 
2.43.0


From 7a1bbe857e75b5b8fd312d1cc49aec2152db0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 12/37] fix: MPI_Type_free sets the caller's handle to
 MPI_DATATYPE_NULL

---
 type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.c b/type.c
index d513b5f..11a6f53 100644
--- a/type.c
+++ b/type.c
@@ -884,9 +884,9 @@ int MPI_Type_free(MPI_Datatype * datatype)
 {
   Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(*datatype);
   free(type_ptr);
-  type_ptr = MPI_DATATYPE_NULL;
 
   mpi_free_handle(*datatype);
+  *datatype = MPI_DATATYPE_NULL;
 
   return MPI_SUCCESS;
 }
-- 
2.43.0


From 4f755b40c1dea45030af6242014953cda973cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 13/37] fix: Fortran mpi_pack_size writes an INTEGER, not eight
 bytes

The wrapper overwrote the word after the size argument.  Also drop a leftover
debugging printf.
---
 pack.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pack.c b/pack.c
index e7efba2..65eba6a 100644
--- a/pack.c
+++ b/pack.c
@@ -70,14 +70,16 @@ int Pack_size(int incount, Datatype datatype,
         *size += Simpletype_length(datatype->pairs[i].type);
     }
     *size *= incount;
-    printf("Size = %d\n", *size);
   return MPI_SUCCESS;
 }
 
 int FC_FUNC( mpi_pack_size, MPI_PACK_SIZE )(int * incount, int * datatype,
-                                          int * comm, MPI_Aint * size, int *ierr)
+                                          int * comm, int * size, int *ierr)
 {
-  *ierr = MPI_Pack_size(*incount, *datatype, *comm, size);
+  MPI_Aint csize;
+
+  *ierr = MPI_Pack_size(*incount, *datatype, *comm, &csize);
+  *size = csize;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 2bcb30bd78bd2e29153f4751c6f2c70c4e2bf64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 14/37] fix: the Fortran hvector bindings take the block length
 as an INTEGER

Reading it as an eight-byte integer picked up whatever followed it in memory.
---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 11a6f53..c21d0a5 100644
--- a/type.c
+++ b/type.c
@@ -527,7 +527,7 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_hvector(*count, *blocklen, *stride, *oldtype, newtype);
@@ -545,7 +545,7 @@ int MPI_Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_create_hvector, MPI_TYPE_CREATE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_create_hvector(*count, *blocklen, *stride, *oldtype, newtype);
-- 
2.43.0


From 46c3f04196440714666f13b07fde5940751f831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 15/37] fix: MPI_Intercomm_merge returns a communicator

The output argument was never set.
---
 ic_merge.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ic_merge.c b/ic_merge.c
index e6465c1..9c2a6da 100644
--- a/ic_merge.c
+++ b/ic_merge.c
@@ -3,13 +3,15 @@
 
 /*
  * MPI_Intercomm_merge - Creates an intracommunicator from an intercommunicator
- * This is just a stub for now to support mpi function calls even in Serial
- * applications. In the case of a serial program, this function is a no-op and
- * only ever returns MPI_SUCCESS
+ * In the case of a serial program, this is a new communicator of one process
  */
 
 int MPI_Intercomm_merge( MPI_Comm intercomm, int high, MPI_Comm *newintracomm )
 {
-  newintracomm =  &intercomm;
+  if (intercomm==MPI_COMM_NULL)
+    *newintracomm= MPI_COMM_NULL;
+  else
+    *newintracomm= mpi_comm_new();
+
   return(MPI_SUCCESS);
 }
-- 
2.43.0


From dbba3b6d3c887fd02e2526ec635be0233208fda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 16/37] fix: honour MPI_IN_PLACE in every reduction and
 all-to-all

MPI_Reduce, MPI_Reduce_scatter, MPI_Scan and MPI_Alltoall(v,w) used it as an
address, and the Fortran bindings of these and of mpi_allreduce did not
recognize it.
---
 collective.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/collective.c b/collective.c
index 607fd66..e9a9188 100644
--- a/collective.c
+++ b/collective.c
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -317,6 +317,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 //  memcpy(recvbuf,sendbuf,count * datatype);
 
@@ -331,7 +334,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -364,7 +367,8 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(sendbuf, recvbuf, recvcounts, *datatype, *op, *comm);
+  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), recvbuf, recvcounts,
+                             *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
 
@@ -372,6 +376,9 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
 int MPI_Reduce_scatter(void* sendbuf, void* recvbuf, int *recvcounts,
                          MPI_Datatype datatype, MPI_Op op, MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, recvcounts[0], datatype, recvbuf, recvcounts[0], datatype);
   return MPI_SUCCESS;
 }
@@ -385,7 +392,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( sendbuf, recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -395,6 +402,9 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
 int MPI_Scan(void* sendbuf, void* recvbuf, int count,
              MPI_Datatype datatype, MPI_Op op, MPI_Comm comm )
 {
+    if (sendbuf==MPI_IN_PLACE)
+      return(MPI_SUCCESS);
+
     copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 
     return(MPI_SUCCESS);
@@ -408,7 +418,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
 			  void *recvbuf, int *recvcount, int *recvtype,
                           int *comm, int *ierror )
 {
-  *ierror=MPI_Alltoall(sendbuf, *sendcount, *sendtype,
+  *ierror=MPI_Alltoall(mpi_c_in_place(sendbuf), *sendcount, *sendtype,
 		       recvbuf, *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
@@ -419,6 +429,9 @@ int MPI_Alltoall(void *sendbuf, int sendcount, MPI_Datatype sendtype,
 		 void *recvbuf, int recvcount, MPI_Datatype recvtype,
 		 MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype, recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount * sendtype);
 
@@ -435,7 +448,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallv(sendbuf, sendcounts, sdispls, *sendtype,
+  *ierror=MPI_Alltoallv(mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
 			recvbuf, recvcounts, rdispls, *recvtype,
 			*comm);
 
@@ -454,6 +467,9 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   MPI_Type_extent(recvtype, &rt_extent);
 
@@ -480,7 +496,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallw(sendbuf, sendcounts, sdispls, sendtypes,
+  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
 			recvbuf, recvcounts, rdispls, recvtypes,
 			*comm);
 
@@ -496,6 +512,9 @@ int MPI_Alltoallw(void *sendbuf, int *sendcounts,
 
 {
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],
              (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);
 
-- 
2.43.0


From 1814fd3444ae915e7183ec108257ef3cc60b1c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 17/37] fix: check the root of gather and scatter before
 MPI_IN_PLACE

An invalid root went unnoticed when the call was in place.
---
 collective.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/collective.c b/collective.c
index e9a9188..26a4298 100644
--- a/collective.c
+++ b/collective.c
@@ -69,9 +69,6 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 	       void* recvbuf, int recvcount, MPI_Datatype recvtype,
 	       int root, MPI_Comm comm)
 {
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -81,6 +78,9 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount*sendtype);
@@ -111,9 +111,6 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
   MPI_Aint offset;
   MPI_Aint rt_extent;
 
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -123,6 +120,9 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(recvtype, &rt_extent);
   offset=displs[0]*rt_extent;
 
@@ -226,9 +226,6 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
 		void * recvbuf, int recvcount, MPI_Datatype recvtype,
 		int root, MPI_Comm comm)
 {
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -238,6 +235,9 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 
@@ -269,9 +269,6 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
   MPI_Aint offset;
   MPI_Aint st_extent;
 
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -280,6 +277,9 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
       fprintf(stderr,"MPI_Scatterv: bad root = %d\n",root);
       abort();
     }
+
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
   MPI_Type_extent(sendtype, &st_extent);
   offset=displs[0]*st_extent;
 
-- 
2.43.0


From 5efb38dc1ce55f18203c92c541b7c3ca2038b0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 18/37] fix: MPI_Cart_get returns the periodicity given to
 MPI_Cart_create

The periods argument was never set.
---
 cart.c |  8 +++++++-
 comm.c | 34 ++++++++++++++++++++++++++++++++++
 mpiP.h |  4 ++++
 3 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/cart.c b/cart.c
index ee8ea0b..b88aa74 100644
--- a/cart.c
+++ b/cart.c
@@ -28,7 +28,8 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
       abort();
     }
 
-  MPI_Comm_dup(comm_old, comm_cart);
+  *comm_cart= mpi_comm_new();
+  mpi_comm_set_periods(*comm_cart,ndims,periods);
 
   return MPI_SUCCESS;
 }
@@ -58,9 +59,14 @@ int MPI_Cart_get(MPI_Comm comm, int maxdims, int *dims,
                  int *periods, int *coords)
 {
   int i;
+  Comm *mycomm;
+
+  mycomm=mpi_handle_to_ptr(comm);
+
   for (i=0;i<maxdims;i++)
   {
     dims[i]=1;
+    periods[i]= (i<mycomm->ndims ? mycomm->periods[i] : 0);
     coords[i]=0;
   }
   return(MPI_SUCCESS);
diff --git a/comm.c b/comm.c
index c9c1ecb..fbabc73 100644
--- a/comm.c
+++ b/comm.c
@@ -23,6 +23,9 @@ MPI_Comm mpi_comm_new(void)
 
   cptr->num=num++;
 
+  cptr->ndims=0;
+  cptr->periods=NULL;
+
   return(chandle);
 }
 
@@ -30,6 +33,28 @@ MPI_Comm mpi_comm_new(void)
 /*********/
 
 
+/* Remember the periodicity of a Cartesian communicator */
+
+void mpi_comm_set_periods(MPI_Comm comm, int ndims, int *periods)
+{
+  Comm *mycomm;
+  int i;
+
+  if (ndims<=0)
+    return;
+
+  mycomm=mpi_handle_to_ptr(comm);
+  mycomm->periods= mpi_malloc(ndims*sizeof(int));
+  mycomm->ndims= ndims;
+
+  for (i=0; i<ndims; i++)
+    mycomm->periods[i]= (periods[i]!=0);
+}
+
+
+/*********/
+
+
 int FC_FUNC( mpi_comm_free , MPI_COMM_FREE )(int *comm, int *ierror)
 {
   *ierror=MPI_Comm_free(comm);
@@ -71,6 +96,8 @@ int MPI_Comm_free(MPI_Comm *comm)
 	    size);
   AP_list_free(recvlist);
 
+  mpi_free(mycomm->periods);
+
   mpi_free_handle(*comm);            /* free(mycomm); */
   *comm=MPI_COMM_NULL;
 
@@ -131,8 +158,15 @@ int FC_FUNC( mpi_comm_dup , MPI_COMM_DUP )(int *comm, int *newcomm, int *ierror)
 
 int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *newcomm)
 {
+  Comm *mycomm;
+
   *newcomm= mpi_comm_new();
 
+  /* the copy has the same topology */
+
+  mycomm=mpi_handle_to_ptr(comm);
+  mpi_comm_set_periods(*newcomm,mycomm->ndims,mycomm->periods);
+
 #ifdef INFO
   fflush(stdout);
   fprintf(stderr,"MPI_Comm_dup: new comm handle=%d\n",*newcomm);
diff --git a/mpiP.h b/mpiP.h
index b03794f..88c5968 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -86,6 +86,9 @@ typedef struct
 
   int num;
 
+  int ndims;                 /* Cartesian topology: periods[ndims], or NULL */
+  int *periods;
+
 } Comm;
 
 
@@ -113,6 +116,7 @@ extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
+extern void mpi_comm_set_periods(MPI_Comm comm, int ndims, int *periods);
 
 extern void mpi_destroy_handles(void);
 extern void mpi_alloc_handle(int *handle, void **data);
-- 
2.43.0


From b18973c7ec230059207cc98d134b1fa39b10b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 19/37] fix: MPI_Testany and MPI_Waitany report the index and
 skip null requests

---
 req.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/req.c b/req.c
index 6049663..b95eebc 100644
--- a/req.c
+++ b/req.c
@@ -85,6 +85,10 @@ int FC_FUNC( mpi_waitany , MPI_WAITANY )(int *count, int *requests,
 {
 
   *ierror=MPI_Waitany(*count, (void *)requests,index,mpi_c_status(status));
+
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                         /* Fortran arrays start at 1 */
+
   return MPI_SUCCESS;
 }
 
@@ -120,6 +124,10 @@ int FC_FUNC(mpi_testany, MPI_TESTANY)
 {
   *ierr = MPI_Testany(*count, array_of_requests, index,
                       flag, mpi_c_status(status));
+
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                         /* Fortran arrays start at 1 */
+
   return MPI_SUCCESS;
 }
 
@@ -127,15 +135,29 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
                 int *index, int *flag, MPI_Status *status)
 {
   int i;
+  int active=0;
+  MPI_Request null=MPI_REQUEST_NULL;
 
   for (i=0; i<count; i++)
     {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       MPI_Test(&array_of_requests[i],flag,status);
 
       if (*flag)
-        return(MPI_SUCCESS);
+        {
+          *index=i;
+          return(MPI_SUCCESS);
+        }
     }
 
+  *index=MPI_UNDEFINED;
+
+  if (!active)                          /* nothing to wait for */
+    return(MPI_Test(&null,flag,status));
+
   /* none are completed */
 
   *flag=0;
-- 
2.43.0


From 1218fda2875fbb19b3ff0ec69cd55cccf372ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 20/37] fix: MPI_Testall completes no request unless all are
 complete

---
 req.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/req.c b/req.c
index b95eebc..448573d 100644
--- a/req.c
+++ b/req.c
@@ -185,14 +185,21 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 
   *flag = 1;
 
-  for (i=0; i<count && flag; i++)
-  {
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+  /* complete all of them or none */
 
-      if (!iflag)
-        *flag=0;
+  for (i=0; i<count; i++)
+  {
+      if (array_of_requests[i]!=MPI_REQUEST_NULL &&
+          !((Req *)mpi_handle_to_ptr(array_of_requests[i]))->complete)
+        {
+          *flag=0;
+          return(MPI_SUCCESS);
+        }
   }
 
+  for (i=0; i<count; i++)
+      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+
   return(MPI_SUCCESS);
 }
 
-- 
2.43.0


From a247a3a96a671cf8821b12c7758d2e9fd0516f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 21/37] fix: MPI_Testsome and MPI_Waitsome report indices and
 skip null requests

---
 req.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/req.c b/req.c
index 448573d..f5f7be5 100644
--- a/req.c
+++ b/req.c
@@ -247,8 +247,14 @@ int FC_FUNC(mpi_testsome, MPI_TESTSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int * array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Testsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;              /* Fortran arrays start at 1 */
+
   return MPI_SUCCESS;
 }
 
@@ -258,16 +264,27 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
   int i;
   int flag;
 
+  int active=0;
+
   *outcount = 0;
   for (i=0; i<incount; i++)
   {
-      flag=0;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
-      
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
+      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[*outcount]);
+
       if (flag)
-	  (*outcount)++;
+        {
+          array_of_indices[*outcount]=i;
+          (*outcount)++;
+        }
   }
 
+  if (!active)                          /* nothing to wait for */
+    *outcount=MPI_UNDEFINED;
+
   return(MPI_SUCCESS);
 
 }
@@ -280,8 +297,14 @@ int FC_FUNC(mpi_waitsome, MPI_WAITSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int *array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Waitsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;              /* Fortran arrays start at 1 */
+
   return MPI_SUCCESS;
 }
 
@@ -291,7 +314,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   MPI_Testsome(incount, array_of_requests, outcount,
                array_of_indices, array_of_statuses);
 
-  if (!outcount)
+  if (!*outcount)
   {
     fprintf(stderr,"Waitsome: No requests complete, deadlock\n");
     abort();
-- 
2.43.0


From cb047f96c9dae0b6af2b8380873ef9fdba35de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 22/37] fix: MPI_STATUSES_IGNORE works for more than one
 request

---
 req.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/req.c b/req.c
index f5f7be5..1444e4e 100644
--- a/req.c
+++ b/req.c
@@ -77,6 +77,17 @@ int MPI_Wait(MPI_Request *request, MPI_Status *status)
 }
 
 
+/* The i-th of an array of statuses, which may be MPI_STATUSES_IGNORE */
+
+static MPI_Status *nth_status(MPI_Status *array_of_statuses, int i)
+{
+  if (array_of_statuses==MPI_STATUSES_IGNORE)
+    return(MPI_STATUS_IGNORE);
+
+  return(&array_of_statuses[i]);
+}
+
+
 /*********/
 
 
@@ -198,7 +209,7 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
   }
 
   for (i=0; i<count; i++)
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&iflag,nth_status(array_of_statuses,i));
 
   return(MPI_SUCCESS);
 }
@@ -227,7 +238,7 @@ int MPI_Waitall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count; i++)
     {
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,nth_status(array_of_statuses,i));
 
       if (!flag)
         {
@@ -273,7 +284,7 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
         continue;
 
       active=1;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[*outcount]);
+      MPI_Test(&array_of_requests[i],&flag,nth_status(array_of_statuses,*outcount));
 
       if (flag)
         {
-- 
2.43.0


From dfe7e7d1885a6825b85bde73dec91605f7b61cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 23/37] fix: a receive uses the sender's count and datatype and
 may be longer than the message

---
 copy.c | 60 +++++++++++++++++++++++++++++++++++++++++++++-------------
 mpiP.h |  5 +++--
 recv.c |  8 +++++---
 send.c |  7 ++++++-
 type.h |  4 +++-
 5 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/copy.c b/copy.c
index 90601cc..67a950f 100644
--- a/copy.c
+++ b/copy.c
@@ -39,10 +39,14 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 
 
 
-int Pcopy_data2(void *source, int src_count, Datatype src_type,
-                void *dest, int dest_count, Datatype dest_type)
+/*
+ * copy the first nelements basic elements
+ */
+
+static void copy_elements(void *source, Datatype src_type,
+                          void *dest, Datatype dest_type, long nelements)
 {
-  int i;
+  long i;
   MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
@@ -55,19 +59,10 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
     exit(-1);
   }
 
-  // A receive of less elements than sent
-  // is valid, but the reverse is a violation
-
-  if (src_type->count * src_count < dest_type->count * dest_count)
-  {
-    printf("copy_data: Trying to over-receive\n");
-    exit(1);
-  }
-
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
 
-  for (i = 0; i < dest_count * dest_type->count; i++)
+  for (i = 0; i < nelements; i++)
   {
 
 #ifdef TYPE_CHECKING
@@ -84,9 +79,48 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 
     memcpy(dest+doffset, source+soffset, Simpletype_length(dest_type->pairs[i % dest_type->count].type));
   }
+}
+
+
+
+int Pcopy_data2(void *source, int src_count, Datatype src_type,
+                void *dest, int dest_count, Datatype dest_type)
+{
+  long dest_elements = (long) dest_type->count * dest_count;
+
+  // A receive of less elements than sent
+  // is valid, but the reverse is a violation
+
+  if ((long) src_type->count * src_count < dest_elements)
+  {
+    printf("copy_data: Trying to over-receive\n");
+    exit(1);
+  }
+
+  copy_elements(source, src_type, dest, dest_type, dest_elements);
   return MPI_SUCCESS;
 }
 
 
 
+/*
+ * Deliver a point-to-point message.  It may have fewer elements than
+ * the receive; returns the number of basic elements transferred.
+ */
+
+long mpi_deliver(void *source, int src_count, Datatype src_type,
+                 void *dest, int dest_count, Datatype dest_type)
+{
+  long src_elements = (long) src_type->count * src_count;
+  long dest_elements = (long) dest_type->count * dest_count;
+
+  if (dest_elements > src_elements)
+    dest_elements = src_elements;
+
+  copy_elements(source, src_type, dest, dest_type, dest_elements);
+  return dest_elements;
+}
+
+
+
 
diff --git a/mpiP.h b/mpiP.h
index 88c5968..2957707 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -97,12 +97,13 @@ typedef struct
 {
   pListitem listitem;        /* to allow Req to be removed from list */
 
-  int *buf;
+  void *buf;
   int source;
   int tag;
   int complete;
   int count;
-  MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  struct _Typestruct *type;  /* needed for test_simple_bindexed2 */
+  int elements;              /* basic elements received */
 } Req;
 
 
diff --git a/recv.c b/recv.c
index 37aa2c4..9bd0836 100644
--- a/recv.c
+++ b/recv.c
@@ -1,5 +1,6 @@
 
 #include "mpiP.h"
+#include "type.h"
 
 
 
@@ -60,8 +61,6 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **)&rreq);
-  rreq->type = datatype;
-  rreq->count = count;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -71,6 +70,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       return(MPI_SUCCESS);
     }
 
+  rreq->type = *mpi_handle_to_datatype(datatype);
+  rreq->count = count;
 
   if (( match=AP_list_search_func(mycomm->sendlist,mpi_match_send,&tag) ))
     {
@@ -78,7 +79,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, count, datatype, buf, count, datatype);
+      rreq->elements=mpi_deliver(sreq->buf, sreq->count, sreq->type,
+                                 buf, count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
diff --git a/send.c b/send.c
index b2a0475..f6437c8 100644
--- a/send.c
+++ b/send.c
@@ -1,4 +1,5 @@
 #include "mpiP.h"
+#include "type.h"
 
 
 /*
@@ -67,7 +68,9 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_data2(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      rreq->elements=mpi_deliver(buf, count,
+                                 *mpi_handle_to_datatype(datatype),
+                                 rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -83,6 +86,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   sreq->buf=buf;
+  sreq->count=count;
+  sreq->type=*mpi_handle_to_datatype(datatype);
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
diff --git a/type.h b/type.h
index 069b9a2..631a996 100644
--- a/type.h
+++ b/type.h
@@ -20,7 +20,7 @@ typedef struct
   Simpletype type;
 } typepair;
 
-typedef struct
+typedef struct _Typestruct
 {
   int count;
   long ub;
@@ -85,6 +85,8 @@ typedef Typestruct* Datatype;
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
+extern long mpi_deliver(void *source, int src_count, Datatype src_type,
+                        void *dest, int dest_count, Datatype dest_type);
 
 //testing only
 int print_typemap(MPI_Datatype in);
-- 
2.43.0


From ff0d4d3942ac36a6a4fd26e08990cfb2fd7bac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 24/37] fix: receive and probe statuses hold the number of
 elements of the message

---
 getcount.c | 15 ++++++++++++---
 probe.c    |  2 ++
 recv.c     |  4 +---
 req.c      |  2 ++
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/getcount.c b/getcount.c
index 565f107..008083c 100644
--- a/getcount.c
+++ b/getcount.c
@@ -18,7 +18,17 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
+
+  /* get_count is the number of basic elements */
+
+  if (dt_ptr->count == 0)
+    *count = 0;
+  else if (status->get_count % dt_ptr->count != 0)
+    *count = MPI_UNDEFINED;
+  else
+    *count = status->get_count / dt_ptr->count;
+
   return(MPI_SUCCESS);
 }
 
@@ -36,8 +46,7 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-  *count = status->get_count * dt_ptr->count;
+  *count = status->get_count;
   return(MPI_SUCCESS);
 }
 
diff --git a/probe.c b/probe.c
index 8b66042..fbc07e7 100644
--- a/probe.c
+++ b/probe.c
@@ -1,5 +1,6 @@
 //probe.c
 #include "mpiP.h"
+#include "type.h"
 
 static int mpi_match_send(void *r, void *tag)
 {
@@ -53,6 +54,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
+	  status->get_count= sreq->count * sreq->type->count;
 	}
     }
 
diff --git a/recv.c b/recv.c
index 9bd0836..ed6c934 100644
--- a/recv.c
+++ b/recv.c
@@ -66,6 +66,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->complete=1;
       rreq->source=MPI_PROC_NULL;
       rreq->tag=MPI_ANY_TAG;
+      rreq->elements=0;
 
       return(MPI_SUCCESS);
     }
@@ -136,9 +137,6 @@ int MPI_Recv(void *buf, int count, MPI_Datatype datatype, int source,
   MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
   MPI_Wait(&request,status);
 
-  if (status!=MPI_STATUS_IGNORE)
-    status->get_count = count;   // rml: shouldn't this depend on send?
-
   return(MPI_SUCCESS);
 }
 
diff --git a/req.c b/req.c
index 1444e4e..6b94bb5 100644
--- a/req.c
+++ b/req.c
@@ -26,6 +26,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
+	  status->get_count= 0;
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -42,6 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
+	  status->get_count= req->elements;
 	}
 
       mpi_free_handle(*request);
-- 
2.43.0


From d3da10119f5e5a34d6b55bf41df9d13660fcc69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 25/37] fix: MPI_Probe and MPI_Iprobe accept MPI_PROC_NULL

---
 probe.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/probe.c b/probe.c
index fbc07e7..7fcd75b 100644
--- a/probe.c
+++ b/probe.c
@@ -36,6 +36,20 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 #endif
 
 
+  if (source==MPI_PROC_NULL)
+    {
+      *flag=1;
+
+      if (status!=MPI_STATUS_IGNORE)
+	{
+	  status->MPI_SOURCE= MPI_PROC_NULL;
+	  status->MPI_TAG= MPI_ANY_TAG;
+	  status->get_count= 0;
+	}
+
+      return(MPI_SUCCESS);
+    }
+
   if (source!=0 && source!=MPI_ANY_SOURCE)
     {
       fprintf(stderr,"MPI_Irecv: bad source %d\n",source);
-- 
2.43.0


From 84738b18fdc410f0f6084b6facb5920efb4c55e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 26/37] fix: a datatype freed while communication is pending
 stays usable by it

---
 mpiP.h |  2 +-
 recv.c |  2 ++
 send.c |  2 ++
 type.c | 20 +++++++++++++++++++-
 type.h |  3 +++
 5 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/mpiP.h b/mpiP.h
index 2957707..dff7dd5 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -102,7 +102,7 @@ typedef struct
   int tag;
   int complete;
   int count;
-  struct _Typestruct *type;  /* needed for test_simple_bindexed2 */
+  struct _Typestruct *type;  /* retained while the request is pending */
   int elements;              /* basic elements received */
 } Req;
 
diff --git a/recv.c b/recv.c
index ed6c934..d986324 100644
--- a/recv.c
+++ b/recv.c
@@ -82,6 +82,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
 //      memcpy(buf,sreq->buf,count * datatype);
       rreq->elements=mpi_deliver(sreq->buf, sreq->count, sreq->type,
                                  buf, count, rreq->type);
+      Type_release(sreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -96,6 +97,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       return(MPI_SUCCESS);
     }
 
+  Type_retain(rreq->type);
   rreq->buf=buf;
   rreq->tag=tag;
   rreq->complete=0;
diff --git a/send.c b/send.c
index f6437c8..9025601 100644
--- a/send.c
+++ b/send.c
@@ -71,6 +71,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq->elements=mpi_deliver(buf, count,
                                  *mpi_handle_to_datatype(datatype),
                                  rreq->buf, rreq->count, rreq->type);
+      Type_release(rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
@@ -88,6 +89,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
   sreq->buf=buf;
   sreq->count=count;
   sreq->type=*mpi_handle_to_datatype(datatype);
+  Type_retain(sreq->type);
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
diff --git a/type.c b/type.c
index c21d0a5..2aea2c0 100644
--- a/type.c
+++ b/type.c
@@ -398,6 +398,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   }
   //type is NOT committed
   temp->committed = 0;
+  temp->pending = 0;
 
   temp->o_lb = 0;
   temp->o_ub = 0;
@@ -722,6 +723,7 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 
   (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
+  (*newtype)->pending = 0;
   (*newtype)->lb = oldtype->lb;
   (*newtype)->ub = oldtype->ub;
   (*newtype)->o_lb = oldtype->o_lb;
@@ -873,6 +875,22 @@ int MPI_Type_commit(MPI_Datatype * datatype)
   return MPI_SUCCESS;
 }
 
+/**********************/
+/* A pending request keeps its datatype alive, even if the user frees it.
+ * Type_release undoes one Type_retain; without any it frees the type.
+ */
+
+void Type_retain(Datatype datatype)
+{
+  datatype->pending++;
+}
+
+void Type_release(Datatype datatype)
+{
+  if (datatype->pending-- == 0)
+    free(datatype);
+}
+
 /**********************/
 int FC_FUNC( mpi_type_free, MPI_TYPE_FREE )(int * datatype, int * ierr)
 {
@@ -883,7 +901,7 @@ int FC_FUNC( mpi_type_free, MPI_TYPE_FREE )(int * datatype, int * ierr)
 int MPI_Type_free(MPI_Datatype * datatype)
 {
   Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(*datatype);
-  free(type_ptr);
+  Type_release(type_ptr);
 
   mpi_free_handle(*datatype);
   *datatype = MPI_DATATYPE_NULL;
diff --git a/type.h b/type.h
index 631a996..40d74b3 100644
--- a/type.h
+++ b/type.h
@@ -28,6 +28,7 @@ typedef struct _Typestruct
   int committed; //type has been committed
   int o_lb; //overridden lower/upper bound
   int o_ub; // "
+  int pending; //pending requests that still need the type
   /* pairs[] is size 2 because of predefined types
    * such as MPI_2INT that have 2 typemap entries
    * upon initialization.
@@ -85,6 +86,8 @@ typedef Typestruct* Datatype;
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
+void Type_retain(Datatype datatype);
+void Type_release(Datatype datatype);
 extern long mpi_deliver(void *source, int src_count, Datatype src_type,
                         void *dest, int dest_count, Datatype dest_type);
 
-- 
2.43.0


From 3c0097b507cbe8d1141231a0751084c122b5a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 27/37] fix: MPI_Request_free of a pending request keeps its
 message

---
 comm.c | 11 +++++++++++
 mpiP.h |  3 +++
 recv.c |  5 ++++-
 req.c  | 25 ++++++++++++++++++++++++-
 send.c |  6 ++++--
 5 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/comm.c b/comm.c
index fbabc73..42655c6 100644
--- a/comm.c
+++ b/comm.c
@@ -62,6 +62,15 @@ int FC_FUNC( mpi_comm_free , MPI_COMM_FREE )(int *comm, int *ierror)
 }
 
 
+/* The requests still pending on a communicator will never complete */
+
+static int drop_request(void *req, void *unused)
+{
+  mpi_complete_pending((Req *)req);
+  return(0);
+}
+
+
 /*
  * MPI_Comm_free()
  *
@@ -87,6 +96,7 @@ int MPI_Comm_free(MPI_Comm *comm)
   if (size!=0)
     fprintf(stderr,"MPI_Comm_free: warning: %d pending send reqs\n",
 	    size);
+  AP_list_apply(sendlist,drop_request,NULL);
   AP_list_free(sendlist);
 
 
@@ -94,6 +104,7 @@ int MPI_Comm_free(MPI_Comm *comm)
   if (size!=0)
     fprintf(stderr,"MPI_Comm_free: warning: %d pending receive reqs\n",
 	    size);
+  AP_list_apply(recvlist,drop_request,NULL);
   AP_list_free(recvlist);
 
   mpi_free(mycomm->periods);
diff --git a/mpiP.h b/mpiP.h
index dff7dd5..46fa525 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -104,6 +104,8 @@ typedef struct
   int count;
   struct _Typestruct *type;  /* retained while the request is pending */
   int elements;              /* basic elements received */
+  MPI_Request handle;
+  int freed;                 /* by MPI_Request_free while pending */
 } Req;
 
 
@@ -117,6 +119,7 @@ extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
+extern void mpi_complete_pending(Req *req);
 extern void mpi_comm_set_periods(MPI_Comm comm, int ndims, int *periods);
 
 extern void mpi_destroy_handles(void);
diff --git a/recv.c b/recv.c
index d986324..ebcccc0 100644
--- a/recv.c
+++ b/recv.c
@@ -61,6 +61,9 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **)&rreq);
+  rreq->handle=*request;
+  rreq->listitem=NULL;
+  rreq->freed=0;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -82,12 +85,12 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
 //      memcpy(buf,sreq->buf,count * datatype);
       rreq->elements=mpi_deliver(sreq->buf, sreq->count, sreq->type,
                                  buf, count, rreq->type);
-      Type_release(sreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
       sreq->complete=1;
+      mpi_complete_pending(sreq);
 
 #ifdef DEBUG
       printf("Completion(recv) value=%d tag=%d\n",
diff --git a/req.c b/req.c
index 6b94bb5..3b1cc0d 100644
--- a/req.c
+++ b/req.c
@@ -1,4 +1,5 @@
 #include "mpiP.h"
+#include "type.h"
 
 
 /*
@@ -349,12 +350,34 @@ int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
 
 int MPI_Request_free(MPI_Request * req)
 {
-  mpi_free_handle(*req);
+  Req *r;
+
+  r=mpi_handle_to_ptr(*req);
+
+  if (r && r->listitem)
+    r->freed=1;                       /* still pending: free when matched */
+  else
+    mpi_free_handle(*req);
+
   *req = MPI_REQUEST_NULL;
   return (MPI_SUCCESS);
 }
 
 
+/* A pending request leaves its list: nothing will need its datatype
+ * any more, nor the request itself if the user has freed it already.
+ */
+
+void mpi_complete_pending(Req *req)
+{
+  Type_release(req->type);
+  req->listitem=NULL;
+
+  if (req->freed)
+    mpi_free_handle(req->handle);
+}
+
+
 
 /*********/
 
diff --git a/send.c b/send.c
index 9025601..0416518 100644
--- a/send.c
+++ b/send.c
@@ -56,7 +56,9 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
-
+  sreq->handle=*request;
+  sreq->listitem=NULL;
+  sreq->freed=0;
 
   if (dest==MPI_PROC_NULL)
     {
@@ -71,10 +73,10 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq->elements=mpi_deliver(buf, count,
                                  *mpi_handle_to_datatype(datatype),
                                  rreq->buf, rreq->count, rreq->type);
-      Type_release(rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
+      mpi_complete_pending(rreq);
 
       sreq->complete=1;
 
-- 
2.43.0


From 812d9da6c0ccb054ebc8ce5f79c3500c9572f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 28/37] fix: large datatype constructor counts do not overflow
 the stack

---
 type.c | 86 ++++++++++++++++++++++++++++++++++------------------------
 1 file changed, 50 insertions(+), 36 deletions(-)

diff --git a/type.c b/type.c
index 2aea2c0..45eebd3 100644
--- a/type.c
+++ b/type.c
@@ -273,6 +273,22 @@ static int is_marker(Datatype type, Simpletype marker)
   return type->count > 0 && type->pairs[0].type == marker;
 }
 
+/* Array of count items for the arguments of a constructor
+ * (too big for the stack if count is large)
+ */
+static void *arg_array(int count, size_t itemsize)
+{
+  void *array = malloc(((size_t) count + 1) * itemsize);
+
+  if (!array)
+  {
+    fprintf(stderr, "arg_array: failed to allocate %d items\n", count);
+    abort();
+  }
+
+  return array;
+}
+
 /*******************************************************/
 /* MPI_Type_struct is the most general type constructor that
  * does the common work other constructors.
@@ -447,8 +463,8 @@ int FC_FUNC( mpi_type_struct, MPI_TYPE_STRUCT )
 int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                     MPI_Datatype *oldtypes,     MPI_Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes_ptr[count];
+    int i, ret;
+    Datatype * oldtypes_ptr = arg_array(count, sizeof(Datatype));
     Datatype * newtype_ptr;
 
     for (i = 0; i < count; i++)
@@ -458,34 +474,22 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     mpi_alloc_handle(newtype, (void**) &newtype_ptr);
 
-    return Type_struct(count, blocklens, displacements,
-                       oldtypes_ptr, newtype_ptr);
+    ret = Type_struct(count, blocklens, displacements,
+                      oldtypes_ptr, newtype_ptr);
+    free(oldtypes_ptr);
+    return ret;
 }
 
 /*******************************************************/
-/*  MPI_Type_contiguous.  Create count copies of a type.
- *  this creates arrays of the singleton arguments and use them to call
- *  MPI_Type_struct()
+/*  MPI_Type_contiguous.  Create count copies of a type, i.e. one block
+ *  of MPI_Type_struct() (each copy is strided by the extent of the datatype)
  */
 
 int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
-    MPI_Aint extent;
+    MPI_Aint offset = 0;
 
-    //each copy is strided by the extent of the datatype.
-    // Calculate that here.
-    Type_extent(oldtype, &extent);
-    for (i = 0; i < count; i++)
-    {
-        blocklengths[i] = 1;
-        offsets[i] = extent * i;
-        oldtypes[i] = oldtype;
-    }
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    return Type_struct(1, &count, &offset, &oldtype, newtype);
 }
 
 int FC_FUNC( mpi_type_contiguous, MPI_TYPE_CONTIGUOUS )
@@ -510,10 +514,10 @@ int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype * new)
 int Type_hvector(int count, int blocklen, MPI_Aint stride,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int * blocklengths = arg_array(count, sizeof(int));
+    Datatype * oldtypes = arg_array(count, sizeof(Datatype));
+    MPI_Aint * offsets = arg_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     Type_extent(oldtype, &extent);
@@ -524,7 +528,11 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    free(blocklengths);
+    free(oldtypes);
+    free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
@@ -606,15 +614,17 @@ int MPI_Type_vector(int count, int blocklen, int stride,
 int Type_hindexed(int count, int *blocklens, MPI_Aint *displacements,
                   Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes[count];
+    int i, ret;
+    Datatype * oldtypes = arg_array(count, sizeof(Datatype));
 
     for (i = 0; i < count; i++)
     {
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    ret = Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    free(oldtypes);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hindexed, MPI_TYPE_HINDEXED )
@@ -642,9 +652,9 @@ int MPI_Type_hindexed(int count, int *blocklens, MPI_Aint * disps,
 int Type_indexed(int count, int *blocklens, int *displacements,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
+    int i, ret;
     MPI_Aint extent;
-    MPI_Aint bdisps[count];
+    MPI_Aint * bdisps = arg_array(count, sizeof(MPI_Aint));
 
     for (i = 0; i < count; i++)
     {
@@ -652,7 +662,9 @@ int Type_indexed(int count, int *blocklens, int *displacements,
         bdisps[i] = displacements[i] * extent;
     }
 
-    return Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    ret = Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    free(bdisps);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_indexed, MPI_TYPE_INDEXED )
@@ -679,13 +691,15 @@ int MPI_Type_indexed(int count, int *blocklens, int *displacements,
 int Type_create_indexed_block(int count, int blocklen, int *displacements,
 			      Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklens[count];
+    int i, ret;
+    int * blocklens = arg_array(count, sizeof(int));
 
     for (i = 0; i < count; i++)
         blocklens[i] = blocklen;
 
-    return Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    ret = Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    free(blocklens);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_create_indexed_block, MPI_TYPE_CREATE_INDEXED_BLOCK )
-- 
2.43.0


From 8101dc2401eeb0c67cbeefa9a2bcb3eb5d5801f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 29/37] fix: MPI_Finalize frees the message lists of
 MPI_COMM_WORLD

---
 comm.c | 21 +++++++++++++++------
 mpi.c  |  3 +++
 mpiP.h |  1 +
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/comm.c b/comm.c
index 42655c6..ebb83f6 100644
--- a/comm.c
+++ b/comm.c
@@ -71,6 +71,20 @@ static int drop_request(void *req, void *unused)
 }
 
 
+/* Free what a communicator owns (but not its handle) */
+
+void mpi_comm_clear(Comm *mycomm)
+{
+  AP_list_apply(mycomm->sendlist,drop_request,NULL);
+  AP_list_free(mycomm->sendlist);
+
+  AP_list_apply(mycomm->recvlist,drop_request,NULL);
+  AP_list_free(mycomm->recvlist);
+
+  mpi_free(mycomm->periods);
+}
+
+
 /*
  * MPI_Comm_free()
  *
@@ -96,18 +110,13 @@ int MPI_Comm_free(MPI_Comm *comm)
   if (size!=0)
     fprintf(stderr,"MPI_Comm_free: warning: %d pending send reqs\n",
 	    size);
-  AP_list_apply(sendlist,drop_request,NULL);
-  AP_list_free(sendlist);
-
 
   size=AP_list_size(recvlist);
   if (size!=0)
     fprintf(stderr,"MPI_Comm_free: warning: %d pending receive reqs\n",
 	    size);
-  AP_list_apply(recvlist,drop_request,NULL);
-  AP_list_free(recvlist);
 
-  mpi_free(mycomm->periods);
+  mpi_comm_clear(mycomm);
 
   mpi_free_handle(*comm);            /* free(mycomm); */
   *comm=MPI_COMM_NULL;
diff --git a/mpi.c b/mpi.c
index 08417cf..40989dc 100644
--- a/mpi.c
+++ b/mpi.c
@@ -210,6 +210,9 @@ int FC_FUNC( mpi_finalize, MPI_FINALIZE )(int *ierror)
 
 int MPI_Finalize(void)
 {
+  if (initialized)
+    mpi_comm_clear(mpi_handle_to_ptr(MPI_COMM_WORLD));
+
   initialized=0;
 
   mpi_destroy_handles();
diff --git a/mpiP.h b/mpiP.h
index 46fa525..9338123 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -119,6 +119,7 @@ extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
+extern void mpi_comm_clear(Comm *mycomm);
 extern void mpi_complete_pending(Req *req);
 extern void mpi_comm_set_periods(MPI_Comm comm, int ndims, int *periods);
 
-- 
2.43.0


From cd97176aef059091ad02c88a0ea91f25599bdab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 30/37] fix: MPI_Pack and MPI_Unpack check the buffer end
 without overflow

---
 pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 65eba6a..201990a 100644
--- a/pack.c
+++ b/pack.c
@@ -46,7 +46,7 @@ int Pack(void *inbuf, int incount, Datatype type,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > outsize)
+      if (Simpletype_length(type->pairs[j].type) > outsize - *position)
       {
         printf("MPI_Pack: data exceeds buffer size\n");
         exit(1);
@@ -137,7 +137,7 @@ int Unpack(void * inbuf, int insize, int * position, void *outbuf,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > insize)
+      if (Simpletype_length(type->pairs[j].type) > insize - *position)
       {
         printf("MPI_Unpack: Data exceeds buffer size\n");
 	exit(1);
-- 
2.43.0


From 6cfa31b9b04413935cc4ef60dd5f62da824eb91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:22 +0000
Subject: [PATCH 31/37] fix: MPI_Dims_create refuses a given dimension beyond
 one process

---
 cart.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cart.c b/cart.c
index b88aa74..5d5803b 100644
--- a/cart.c
+++ b/cart.c
@@ -132,6 +132,13 @@ int MPI_Dims_create(int nnodes, int ndims, int *dims)
     abort();
   }
 
+  for (i=0; i<ndims; i++)
+    if (dims[i] > 1)
+    {
+      printf("MPI_Dims_create: Greater dimension than no. of nodes.\n");
+      abort();
+    }
+
   for (i=0; i<ndims; i++)
     dims[i] = 1;
 
-- 
2.43.0


From ee115849a8ad13c9fa13ceed4ef36679696122da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:06 +0000
Subject: [PATCH 32/37] fix: mpi_malloc takes a size_t

---
 handles.c | 5 +++--
 mpiP.h    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/handles.c b/handles.c
index 7618498..0579f6f 100644
--- a/handles.c
+++ b/handles.c
@@ -76,7 +76,7 @@ static Handleitem *nextfree;
 
 /************************************************************************/
 
-void *mpi_malloc(int size)
+void *mpi_malloc(size_t size)
 {
   void *ret;
 
@@ -84,7 +84,8 @@ void *mpi_malloc(int size)
 
   if (!ret)
     {
-      fprintf(stderr,"mpi_malloc: failed to allocate %d bytes\n",size);
+      fprintf(stderr,"mpi_malloc: failed to allocate %lu bytes\n",
+              (unsigned long) size);
       abort();
     }
 
diff --git a/mpiP.h b/mpiP.h
index 9338123..e89fd73 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -115,7 +115,7 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
-extern void *mpi_malloc(int size);
+extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
-- 
2.43.0


From 420b3505fa465b832230556f8671c5a43d6acd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 33/37] fix: statuses count messages of more than INT_MAX basic
 elements

---
 getcount.c | 37 ++++++++++++++++++++++++++++++++-----
 mpi.h      |  3 ++-
 mpiP.h     |  3 ++-
 mpif.h     |  2 +-
 probe.c    |  4 ++--
 req.c      |  4 ++--
 6 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/getcount.c b/getcount.c
index 008083c..6351b20 100644
--- a/getcount.c
+++ b/getcount.c
@@ -6,6 +6,28 @@
 
 #include "type.h"
 #include "mpiP.h"
+#include <limits.h>
+
+
+/*
+ * The number of basic elements of a message may exceed what fits in an
+ * int, and is kept in two parts of the status.
+ */
+
+void mpi_set_elements(MPI_Status *status, long elements)
+{
+  status->get_count = (unsigned int) (elements & 0xffffffffL);
+  status->get_count_high = (int) ((long long) elements >> 32);
+}
+
+
+static long long get_elements(MPI_Status *status)
+{
+  return ((long long) status->get_count_high << 32) | status->get_count;
+}
+
+
+/********/
 
 
 int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
@@ -19,15 +41,14 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
   Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-
-  /* get_count is the number of basic elements */
+  long long elements = get_elements(status);
 
   if (dt_ptr->count == 0)
     *count = 0;
-  else if (status->get_count % dt_ptr->count != 0)
+  else if (elements % dt_ptr->count != 0 || elements / dt_ptr->count > INT_MAX)
     *count = MPI_UNDEFINED;
   else
-    *count = status->get_count / dt_ptr->count;
+    *count = (int) (elements / dt_ptr->count);
 
   return(MPI_SUCCESS);
 }
@@ -46,7 +67,13 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  long long elements = get_elements(status);
+
+  if (elements > INT_MAX)
+    *count = MPI_UNDEFINED;
+  else
+    *count = (int) elements;
+
   return(MPI_SUCCESS);
 }
 
diff --git a/mpi.h b/mpi.h
index b66e48f..9b9085a 100644
--- a/mpi.h
+++ b/mpi.h
@@ -185,7 +185,8 @@ typedef struct                  /* Fortran: INTEGER status(MPI_STATUS_SIZE) */
   MPI_Status_int MPI_SOURCE;    /* Fortran: status(MPI_SOURCE) */
   MPI_Status_int MPI_TAG;       /* Fortran: status(MPI_TAG) */
   MPI_Status_int MPI_ERROR;     /* Fortran: status(MPI_ERROR) */
-  int            get_count;     /* Number specified for send */
+  unsigned int   get_count;     /* Number of basic elements received, */
+  int            get_count_high; /*   in two parts */
 
 } MPI_Status;
 
diff --git a/mpiP.h b/mpiP.h
index e89fd73..f9140b9 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -103,7 +103,7 @@ typedef struct
   int complete;
   int count;
   struct _Typestruct *type;  /* retained while the request is pending */
-  int elements;              /* basic elements received */
+  long elements;             /* basic elements received */
   MPI_Request handle;
   int freed;                 /* by MPI_Request_free while pending */
 } Req;
@@ -121,6 +121,7 @@ extern void mpi_free(void *ptr);
 extern MPI_Comm mpi_comm_new(void);
 extern void mpi_comm_clear(Comm *mycomm);
 extern void mpi_complete_pending(Req *req);
+extern void mpi_set_elements(MPI_Status *status, long elements);
 extern void mpi_comm_set_periods(MPI_Comm comm, int ndims, int *periods);
 
 extern void mpi_destroy_handles(void);
diff --git a/mpif.h b/mpif.h
index aa0009c..632dfde 100644
--- a/mpif.h
+++ b/mpif.h
@@ -132,7 +132,7 @@ parameter (MPI_BOTTOM=0)
 
 
   INTEGER MPI_STATUS_SIZE
-  PARAMETER (MPI_STATUS_SIZE=4)
+  PARAMETER (MPI_STATUS_SIZE=5)
 
   INTEGER MPI_SOURCE, MPI_TAG, MPI_ERROR
   PARAMETER(MPI_SOURCE=1, MPI_TAG=2, MPI_ERROR=3)
diff --git a/probe.c b/probe.c
index 7fcd75b..4e18333 100644
--- a/probe.c
+++ b/probe.c
@@ -44,7 +44,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE= MPI_PROC_NULL;
 	  status->MPI_TAG= MPI_ANY_TAG;
-	  status->get_count= 0;
+	  mpi_set_elements(status,0);
 	}
 
       return(MPI_SUCCESS);
@@ -68,7 +68,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
-	  status->get_count= sreq->count * sreq->type->count;
+	  mpi_set_elements(status,(long) sreq->type->count * sreq->count);
 	}
     }
 
diff --git a/req.c b/req.c
index 3b1cc0d..3b9923b 100644
--- a/req.c
+++ b/req.c
@@ -27,7 +27,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
-	  status->get_count= 0;
+	  mpi_set_elements(status,0);
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -44,7 +44,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
-	  status->get_count= req->elements;
+	  mpi_set_elements(status,req->elements);
 	}
 
       mpi_free_handle(*request);
-- 
2.43.0


From 8c73161220f819985a08a9a3c96858e13c79e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:47 +0000
Subject: [PATCH 34/37] fix: MPI_BOTTOM is recognised by the Fortran bindings

In mpif.h MPI_BOTTOM was a constant, so a Fortran program that passed it as a
buffer passed the address of some zero, and absolute addresses were taken
relative to that.  It is now a variable in the common block, recognised like
MPI_IN_PLACE.
---
 collective.c | 28 ++++++++++++++--------------
 fort.F90     |  5 +++--
 mpi.c        | 13 ++++++++++++-
 mpiP.h       |  1 +
 mpif.h       | 10 +++++++---
 pack.c       |  4 ++--
 recv.c       |  4 ++--
 send.c       | 14 +++++++-------
 type.c       |  5 ++---
 9 files changed, 50 insertions(+), 34 deletions(-)

diff --git a/collective.c b/collective.c
index 26a4298..46b69bf 100644
--- a/collective.c
+++ b/collective.c
@@ -27,7 +27,7 @@ int MPI_Barrier(MPI_Comm comm )
 int FC_FUNC( mpi_bcast , MPI_BCAST )(void *buffer, int *count, int *datatype,
 				   int *root, int *comm, int *ierror )
 {
-  *ierror=MPI_Bcast(buffer, *count, *datatype, *root, *comm);
+  *ierror=MPI_Bcast(mpi_c_bottom(buffer), *count, *datatype, *root, *comm);
   return MPI_SUCCESS;
 }
 
@@ -59,7 +59,7 @@ int FC_FUNC( mpi_gather , MPI_GATHER )
 			int *root, int *comm, int *ierror)
 {
   *ierror=MPI_Gather( mpi_c_in_place(sendbuf), *sendcount, *sendtype,
-		      recvbuf, *recvcount, *recvtype,
+		      mpi_c_bottom(recvbuf), *recvcount, *recvtype,
 		      *root, *comm);
   return MPI_SUCCESS;
 }
@@ -98,7 +98,7 @@ int FC_FUNC( mpi_gatherv , MPI_GATHERV )
 			  int *recvtype, int *root, int *comm, int *ierror)
 {
   *ierror=MPI_Gatherv( mpi_c_in_place(sendbuf), *sendcount, *sendtype,
-		       recvbuf, recvcounts, displs,
+		       mpi_c_bottom(recvbuf), recvcounts, displs,
 		       *recvtype, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -145,7 +145,7 @@ int FC_FUNC( mpi_allgather , MPI_ALLGATHER )
 			    int *comm, int *ierror)
 {
   *ierror=MPI_Allgather( mpi_c_in_place(sendbuf), *sendcount, *sendtype,
-			 recvbuf, *recvcount, *recvtype,
+			 mpi_c_bottom(recvbuf), *recvcount, *recvtype,
 			 *comm );
   return MPI_SUCCESS;
 }
@@ -176,7 +176,7 @@ int FC_FUNC( mpi_allgatherv , MPI_ALLGATHERV )
                             int *recvtype, int *comm, int *ierror)
 {
   *ierror=MPI_Allgatherv( mpi_c_in_place(sendbuf), *sendcount, *sendtype,
-			  recvbuf, recvcounts, displs,
+			  mpi_c_bottom(recvbuf), recvcounts, displs,
                           *recvtype, *comm );
   return MPI_SUCCESS;
 }
@@ -216,7 +216,7 @@ int FC_FUNC( mpi_scatter, MPI_SCATTER )
 			 void *recvbuf, int *recvcount, int *recvtype,
 			 int *root, int *comm, int *ierror)
 {
-  *ierror = MPI_Scatter(sendbuf, *sendcount, *sendtype,
+  *ierror = MPI_Scatter(mpi_c_bottom(sendbuf), *sendcount, *sendtype,
   			mpi_c_in_place(recvbuf), *recvcount, *recvtype,
 			*root, *comm);
   return MPI_SUCCESS;
@@ -254,7 +254,7 @@ int FC_FUNC( mpi_scatterv , MPI_SCATTERV )
 			   int *sendtype, void *recvbuf, int *recvcount,
 			   int *recvtype, int *root, int *comm, int *ierror)
 {
-  *ierror=MPI_Scatterv(sendbuf, sendcounts, displs,
+  *ierror=MPI_Scatterv(mpi_c_bottom(sendbuf), sendcounts, displs,
 		       *sendtype, mpi_c_in_place(recvbuf), *recvcount,
 		       *recvtype, *root, *comm);
   return MPI_SUCCESS;
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), recvbuf, *count,
+  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), mpi_c_bottom(recvbuf), *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -334,7 +334,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), recvbuf, *count,
+  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), mpi_c_bottom(recvbuf), *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -367,7 +367,7 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), recvbuf, recvcounts,
+  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), mpi_c_bottom(recvbuf), recvcounts,
                              *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -392,7 +392,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), mpi_c_bottom(recvbuf), *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -419,7 +419,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
                           int *comm, int *ierror )
 {
   *ierror=MPI_Alltoall(mpi_c_in_place(sendbuf), *sendcount, *sendtype,
-		       recvbuf, *recvcount, *recvtype,
+		       mpi_c_bottom(recvbuf), *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
 }
@@ -449,7 +449,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
 {
 
   *ierror=MPI_Alltoallv(mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
-			recvbuf, recvcounts, rdispls, *recvtype,
+			mpi_c_bottom(recvbuf), recvcounts, rdispls, *recvtype,
 			*comm);
 
   return MPI_SUCCESS;
@@ -497,7 +497,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
 {
 
   *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
-			recvbuf, recvcounts, rdispls, recvtypes,
+			mpi_c_bottom(recvbuf), recvcounts, rdispls, recvtypes,
 			*comm);
 
   return MPI_SUCCESS;
diff --git a/fort.F90 b/fort.F90
index d8da36b..f4e1c8a 100644
--- a/fort.F90
+++ b/fort.F90
@@ -55,7 +55,7 @@
 ! mpi_get_fort_pointers
 !
 ! In Fortran, various values e.g. MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE,
-! and MPI_IN_PLACE are in a COMMON block and not accessible by C code.
+! MPI_IN_PLACE and MPI_BOTTOM are in a COMMON block and not accessible by C code.
 ! This routine calls back a C routine to store the addresses.
 !
 
@@ -63,6 +63,7 @@
 	implicit none
 	include "mpif.h"
 
-	call mpi_save_fort_pointers(MPI_STATUS_IGNORE,MPI_STATUSES_IGNORE,MPI_IN_PLACE)
+	call mpi_save_fort_pointers(MPI_STATUS_IGNORE,MPI_STATUSES_IGNORE, &
+	                            MPI_IN_PLACE,MPI_BOTTOM)
 
 	end subroutine mpi_get_fort_pointers
diff --git a/mpi.c b/mpi.c
index 40989dc..34190ca 100644
--- a/mpi.c
+++ b/mpi.c
@@ -12,6 +12,7 @@ static int initialized=0;
 static int *f_MPI_STATUS_IGNORE;
 static int *f_MPI_STATUSES_IGNORE;
 static int *f_MPI_IN_PLACE;
+static int *f_MPI_BOTTOM;
 
 static char *mpi_version_string="mpi-serial 2.5.0";
 
@@ -356,11 +357,12 @@ void FC_FUNC( mpi_get_version, MPI_GET_VERSION )(int *mpi_vers, int *mpi_subvers
 /**********/
 
 
-void FC_FUNC( mpi_save_fort_pointers, MPI_SAVE_FORT_POINTERS ) (int *status, int *statuses, int *in_place)
+void FC_FUNC( mpi_save_fort_pointers, MPI_SAVE_FORT_POINTERS ) (int *status, int *statuses, int *in_place, int *bottom)
 {
   f_MPI_STATUS_IGNORE=status;
   f_MPI_STATUSES_IGNORE=statuses;
   f_MPI_IN_PLACE=in_place;
+  f_MPI_BOTTOM=bottom;
 }
 
 
@@ -388,5 +390,14 @@ void *mpi_c_in_place(void *buffer)
   if (buffer==(void *)f_MPI_IN_PLACE)
     return(MPI_IN_PLACE);
 
+  return(mpi_c_bottom(buffer));
+}
+
+
+void *mpi_c_bottom(void *buffer)
+{
+  if (buffer==(void *)f_MPI_BOTTOM)
+    return(MPI_BOTTOM);
+
   return(buffer);
 }
diff --git a/mpiP.h b/mpiP.h
index f9140b9..a52b5f4 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -134,6 +134,7 @@ extern void FC_FUNC(mpi_get_fort_pointers,MPI_GET_FORT_POINTERS)(void);
 extern MPI_Status *mpi_c_status(int *status);
 extern MPI_Status *mpi_c_statuses(int *statuses);
 extern void *mpi_c_in_place(void *buffer);
+extern void *mpi_c_bottom(void *buffer);
 
 
 #endif /* _MPIP_H */
diff --git a/mpif.h b/mpif.h
index 632dfde..1868017 100644
--- a/mpif.h
+++ b/mpif.h
@@ -10,9 +10,6 @@ parameter (mpi_comm_world=1)
 !
 !
 
-integer MPI_BOTTOM
-parameter (MPI_BOTTOM=0)
-
 
 !
 ! source,tag
@@ -150,6 +147,13 @@ parameter (MPI_BOTTOM=0)
   INTEGER MPI_IN_PLACE
   COMMON /MPISERIAL/ MPI_IN_PLACE
 
+  !
+  ! MPI_BOTTOM
+  !
+
+  INTEGER MPI_BOTTOM
+  COMMON /MPISERIAL/ MPI_BOTTOM
+
   SAVE   /MPISERIAL/   ! Technically needed in case goes out of scope
 
 
diff --git a/pack.c b/pack.c
index 201990a..478509f 100644
--- a/pack.c
+++ b/pack.c
@@ -13,7 +13,7 @@ int FC_FUNC( mpi_pack , MPI_PACK )
      ( void *inbuf, int *incount, int *datatype,
        void *outbuf, int *outsize, int *position, int *comm, int *ierror)
 {
-  *ierror=MPI_Pack(inbuf, *incount,* datatype,
+  *ierror=MPI_Pack(mpi_c_bottom(inbuf), *incount,* datatype,
   	           outbuf, *outsize, position, *comm);
   return MPI_SUCCESS;
 }
@@ -108,7 +108,7 @@ int FC_FUNC( mpi_unpack , MPI_UNPACK )
        int *comm, int *ierror )
 {
   *ierror=MPI_Unpack( inbuf, *insize, position,
-                      outbuf, *outcount, *datatype, *comm);
+                      mpi_c_bottom(outbuf), *outcount, *datatype, *comm);
   return MPI_SUCCESS;
 }
 
diff --git a/recv.c b/recv.c
index ebcccc0..3eae411 100644
--- a/recv.c
+++ b/recv.c
@@ -30,7 +30,7 @@ int FC_FUNC( mpi_irecv , MPI_IRECV )(void *buf, int *count, int *datatype,
 				   int *request, int *ierror)
 {
 
-  *ierror=MPI_Irecv(buf,*count,*datatype,*source,*tag,
+  *ierror=MPI_Irecv(mpi_c_bottom(buf),*count,*datatype,*source,*tag,
 		    *comm, (void *)request);
   return MPI_SUCCESS;
 
@@ -121,7 +121,7 @@ int FC_FUNC( mpi_recv , MPI_RECV )(void *buf, int *count, int *datatype,
 				 int *source, int *tag, int *comm,
 				 int *status, int *ierror)
 {
-  *ierror=MPI_Recv(buf,*count,*datatype,*source,*tag,*comm,
+  *ierror=MPI_Recv(mpi_c_bottom(buf),*count,*datatype,*source,*tag,*comm,
 		   mpi_c_status(status));
   return MPI_SUCCESS;
 }
diff --git a/send.c b/send.c
index 0416518..dde7656 100644
--- a/send.c
+++ b/send.c
@@ -26,7 +26,7 @@ int FC_FUNC( mpi_isend , MPI_ISEND )(void *buf, int *count, int *datatype,
    int *dest, int *tag, int *comm, int *req, int *ierror)
 {
 
-  *ierror=MPI_Isend(buf,*count,*datatype,*dest,*tag,
+  *ierror=MPI_Isend(mpi_c_bottom(buf),*count,*datatype,*dest,*tag,
 		    *comm, (void *)req);
 
   return MPI_SUCCESS;
@@ -110,7 +110,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 int FC_FUNC(mpi_send, MPI_SEND) ( void *buf, int *count, int *datatype,
  		                int *dest, int *tag, int *comm, int *ierror)
 {
-  *ierror=MPI_Send(buf, *count, *datatype, *dest, *tag, *comm);
+  *ierror=MPI_Send(mpi_c_bottom(buf), *count, *datatype, *dest, *tag, *comm);
   return MPI_SUCCESS;
 }
 
@@ -143,7 +143,7 @@ int MPI_Send(void* buf, int count, MPI_Datatype datatype,
 int FC_FUNC(mpi_ssend, MPI_SSEND) ( void *buf, int *count, int *datatype,
                                   int *dest, int *tag, int *comm, int *ierror)
 {
-  *ierror=MPI_Send(buf, *count, *datatype, *dest, *tag, *comm);
+  *ierror=MPI_Send(mpi_c_bottom(buf), *count, *datatype, *dest, *tag, *comm);
   return MPI_SUCCESS;
 }
 
@@ -163,7 +163,7 @@ int MPI_Ssend(void* buf, int count, MPI_Datatype datatype,
 int FC_FUNC(mpi_rsend, MPI_RSEND) ( void *buf, int *count, int *datatype,
                                   int *dest, int *tag, int *comm, int *ierror)
 {
-  *ierror=MPI_Send(buf, *count, *datatype, *dest, *tag, *comm);
+  *ierror=MPI_Send(mpi_c_bottom(buf), *count, *datatype, *dest, *tag, *comm);
   return MPI_SUCCESS;
 }
 
@@ -186,7 +186,7 @@ int FC_FUNC( mpi_irsend , MPI_IRSEND )(void *buf, int *count, int *datatype,
    int *dest, int *tag, int *comm, int *req, int *ierror)
 {
 
-  *ierror=MPI_Irsend(buf,*count,*datatype,*dest,*tag,
+  *ierror=MPI_Irsend(mpi_c_bottom(buf),*count,*datatype,*dest,*tag,
                     *comm, (void *)req);
 
   return MPI_SUCCESS;
@@ -231,8 +231,8 @@ int FC_FUNC(mpi_sendrecv, MPI_SENDRECV) (
      int *comm, int *status,
      int *ierror)
 {
-  *ierror=MPI_Sendrecv(sendbuf, *sendcount, *sendtype, *dest, *sendtag,
-                       recvbuf, *recvcount, *recvtype, *source, *recvtag,
+  *ierror=MPI_Sendrecv(mpi_c_bottom(sendbuf), *sendcount, *sendtype, *dest, *sendtag,
+                       mpi_c_bottom(recvbuf), *recvcount, *recvtype, *source, *recvtag,
                        *comm, mpi_c_status(status));
   return MPI_SUCCESS;
 }
diff --git a/type.c b/type.c
index 45eebd3..209f7db 100644
--- a/type.c
+++ b/type.c
@@ -851,7 +851,7 @@ int FGet_address(void * loc, long * address)
 
 int FC_FUNC( mpi_get_address, MPI_ADDRESS )(void * loc, long * address, int * ierr)
 {
-  *ierr = FGet_address(loc, address);
+  *ierr = FGet_address(mpi_c_bottom(loc), address);
   return MPI_SUCCESS;
 }
 
@@ -863,8 +863,7 @@ int MPI_Get_address(void * loc, MPI_Aint * address)
 
 int FC_FUNC( mpi_address, MPI_ADDRESS )(void * loc, long * address, int * ierr)
 {
-  *address = (long) loc;
-  *ierr = FGet_address(loc, address);
+  *ierr = FGet_address(mpi_c_bottom(loc), address);
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From c14192780904f4c42b048a38844ee800df159397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 35/37] fix: MPI_Group_range_incl accepts a range whose stride
 oversteps its last rank

---
 group.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/group.c b/group.c
index e7efcb2..f5b6399 100644
--- a/group.c
+++ b/group.c
@@ -68,7 +68,11 @@ int MPI_Group_range_incl(MPI_Group group, int n, int ranges[][3],
   if (group==MPI_GROUP_EMPTY || n==0)
     *newgroup=MPI_GROUP_EMPTY;
   else
-    if (n==1 && ranges[0][0]==0 && ranges[0][1]==0)
+    /* a stride that oversteps the last rank leaves only the first one */
+    if (n==1 && ranges[0][0]==0 &&
+	(ranges[0][1]==0 ||
+	 (ranges[0][1]>0 && ranges[0][2]>ranges[0][1]) ||
+	 (ranges[0][1]<0 && ranges[0][2]<ranges[0][1])))
       *newgroup=MPI_GROUP_ONE;
     else
       {
-- 
2.43.0


From 06459913a1ec87e7c224e39ed151c3eb5c732ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 36/37] fix: MPI_Comm_dup of MPI_COMM_NULL does not crash

---
 comm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comm.c b/comm.c
index ebb83f6..94cc537 100644
--- a/comm.c
+++ b/comm.c
@@ -185,7 +185,8 @@ int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *newcomm)
   /* the copy has the same topology */
 
   mycomm=mpi_handle_to_ptr(comm);
-  mpi_comm_set_periods(*newcomm,mycomm->ndims,mycomm->periods);
+  if (mycomm)
+    mpi_comm_set_periods(*newcomm,mycomm->ndims,mycomm->periods);
 
 #ifdef INFO
   fflush(stdout);
-- 
2.43.0


From 1490245ec1ee78e57c32bec206cf0c5a936e21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 37/37] fix: MPI_WTIME returns a DOUBLE PRECISION of the
 configured size

---
 time.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/time.c b/time.c
index 6170009..eedcba6 100644
--- a/time.c
+++ b/time.c
@@ -9,8 +9,18 @@
 double MPI_Wtime(void);
 
 
+/* What a Fortran function of type DOUBLE PRECISION returns */
 
-double FC_FUNC( mpi_wtime, MPI_WTIME )(void)
+#if !defined(CONFIG_FORT_DOUBLE) || CONFIG_FORT_DOUBLE != 16
+typedef double Fort_double;
+#elif defined(__SIZEOF_FLOAT128__)
+typedef __float128 Fort_double;
+#else
+typedef long double Fort_double;
+#endif
+
+
+Fort_double FC_FUNC( mpi_wtime, MPI_WTIME )(void)
 {
   return(MPI_Wtime());
 }
-- 
2.43.0

