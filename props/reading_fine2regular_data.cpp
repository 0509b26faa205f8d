// flags: -fno-access-control
// the obligations of fine2regular_data.cpp, for objects of which everything has been read before
#include "reading.h"
#include "fine2regular_data.cpp"
