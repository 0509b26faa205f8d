// flags: -fno-access-control
// the obligations of fine2regular.cpp, for objects of which everything has been read before
#define NODATA
#include "reading.h"
#include "fine2regular.cpp"
