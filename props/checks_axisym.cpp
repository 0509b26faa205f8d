#define NNE 4
#define ND 2
#define TD 3
#define AXI
#define FREE
#include "common.h"
#include <GooseFEM/ElementQuad4Axisymmetric.h>
using Q = GooseFEM::Element::Quad4::QuadratureAxisymmetric;
#include "checks_element.h"
