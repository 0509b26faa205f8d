// the obligations of axisym.cpp, for objects of which everything has been read before
#include "reading.h"
#include "axisym.cpp"
