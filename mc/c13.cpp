#define C13
#include "c12.cpp"
