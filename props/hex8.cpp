#define NNE 8
#define ND 3
#define TD 3
#define GRADN
#define FREE
#include "common.h"
#include <GooseFEM/ElementHex8.h>
using Q = GooseFEM::Element::Hex8::Quadrature;
#include "element.h"
