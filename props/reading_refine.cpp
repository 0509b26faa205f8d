// the obligations of refine.cpp, for objects of which everything has been read before
#include "reading.h"
#include "refine.cpp"
