// the obligations of stitch.cpp, for objects that are made of data that is overwritten afterwards
#include "owning.h"
#define READ(object) reading_overwrite(xa); reading_overwrite(ca); reading_overwrite(xb); reading_overwrite(cb)
#include "stitch.cpp"
