// flags: -fno-access-control
// the obligations of finelayer.cpp, for objects of which everything has been read before
#include "reading.h"
#include "finelayer.cpp"
