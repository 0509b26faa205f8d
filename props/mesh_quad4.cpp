// Regular mesh of quadrilaterals.
#include "mesh2d.h"
#include <GooseFEM/MeshQuad4.h>
using Mesh = GooseFEM::Mesh::Quad4::Regular;
#define NEL (nx * ny)
#define NNE 4
ENTRIES2D(GooseFEM::Mesh::ElementType::Quad4)
namespace pre {
COMMON2D
}
namespace entry {
I2 elementgrid(size_t nx, size_t ny, double h) { MADE; return m.elementgrid(); }
} // namespace entry
namespace spec {
SPEC2D
I2 elementgrid(size_t nx, size_t ny, double h)
{
    I2 r;
    vf::shape(r, ny, nx);
    FOR(j, ny) FOR(i, nx) r(j, i) = j * nx + i;
    return r;
}
I2 conn(size_t nx, size_t ny, double h)
{
    I2 r;
    vf::shape(r, nx * ny, 4);
    FOR(j, ny) FOR(i, nx)
    {
        r(j * nx + i, 0) = j * (nx + 1) + i;
        r(j * nx + i, 1) = j * (nx + 1) + i + 1;
        r(j * nx + i, 2) = (j + 1) * (nx + 1) + i + 1;
        r(j * nx + i, 3) = (j + 1) * (nx + 1) + i;
    }
    return r;
}
} // namespace spec
