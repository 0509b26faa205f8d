#define NNE 4
#define ND 2
#define TD 2
#define GRADN
#include "common.h"
#include <GooseFEM/ElementQuad4.h>
using Q = GooseFEM::Element::Quad4::Quadrature;
#include "element.h"
