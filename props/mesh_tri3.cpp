// Regular mesh of triangles: each cell is split along the diagonal from bottom-right to top-left.
#include "mesh2d.h"
#include <GooseFEM/MeshTri3.h>
using Mesh = GooseFEM::Mesh::Tri3::Regular;
#define NEL (2 * nx * ny)
#define NNE 3
ENTRIES2D(GooseFEM::Mesh::ElementType::Tri3)
namespace pre {
COMMON2D
}
namespace spec {
SPEC2D
I2 conn(size_t nx, size_t ny, double h)
{
    I2 r;
    vf::shape(r, 2 * nx * ny, 3);
    FOR(j, ny) FOR(i, nx)
    {
        r(2 * (j * nx + i), 0) = j * (nx + 1) + i;
        r(2 * (j * nx + i), 1) = j * (nx + 1) + i + 1;
        r(2 * (j * nx + i), 2) = (j + 1) * (nx + 1) + i;
        r(2 * (j * nx + i) + 1, 0) = j * (nx + 1) + i + 1;
        r(2 * (j * nx + i) + 1, 1) = (j + 1) * (nx + 1) + i + 1;
        r(2 * (j * nx + i) + 1, 2) = (j + 1) * (nx + 1) + i;
    }
    return r;
}
} // namespace spec
