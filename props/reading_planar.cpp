// the obligations of planar.cpp, for objects of which everything has been read before
#include "reading.h"
#include "planar.cpp"
