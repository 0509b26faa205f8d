// the obligations of vectortyings.cpp, for objects of which everything has been read before
#include "reading.h"
#include "vectortyings.cpp"
