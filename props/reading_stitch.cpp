// the obligations of stitch.cpp, for objects of which everything has been read before
#include "reading.h"
#include "stitch.cpp"
