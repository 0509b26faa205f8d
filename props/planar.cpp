#define NNE 4
#define ND 2
#define TD 3
#define GRADN
#define THICK
#define FREE
#include "common.h"
#include <GooseFEM/ElementQuad4Planar.h>
using Q = GooseFEM::Element::Quad4::QuadraturePlanar;
#include "element.h"
