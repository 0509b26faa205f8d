// the obligations of stoplist.cpp, for objects of which everything has been read before
#include "reading.h"
#include "stoplist.cpp"
