// the obligations of vectorpartitioned.cpp, for objects of which everything has been read before
#include "reading.h"
#include "vectorpartitioned.cpp"
