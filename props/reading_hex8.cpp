// the obligations of hex8.cpp, for objects of which everything has been read before
#include "reading.h"
#include "hex8.cpp"
