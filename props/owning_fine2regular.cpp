// flags: -fno-access-control
// the obligations of fine2regular.cpp, for objects that are made of data that is overwritten afterwards
#include "owning.h"
#define READ(object) reading_overwrite(m.m_nhx); reading_overwrite(m.m_nhy); reading_overwrite(m.m_layer_nelx); reading_overwrite(m.m_startElem)
#include "fine2regular.cpp"
