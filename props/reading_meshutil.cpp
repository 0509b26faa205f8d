// the obligations of meshutil.cpp, for objects of which everything has been read before
#include "reading.h"
#include "meshutil.cpp"
