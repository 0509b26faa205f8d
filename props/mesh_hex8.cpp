// Regular mesh of hexahedra. Written by tool/gen_mesh_hex8.py: node sets by their position.
// Left/Right: first/last in x. Bottom/Top: first/last in y. Front/Back: first/last in z.
#include "common.h"
#include <GooseFEM/Mesh.h>
#include <GooseFEM/MeshHex8.h>
using Mesh = GooseFEM::Mesh::Hex8::Regular;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
namespace pre {
void common(size_t nx, size_t ny, size_t nz, double h)
{
    vf::assume(nx >= 1);
    vf::assume(ny >= 1);
    vf::assume(nz >= 1);
    vf::assume(h > 0);
}
} // namespace pre
#define MADE Mesh m(nx, ny, nz, h); READ(m)
namespace entry {
size_t nelem(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nelem(); }
size_t nnode(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nnode(); }
size_t nne(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nne(); }
size_t ndim(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.ndim(); }
size_t nelx(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nelx(); }
size_t nely(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nely(); }
size_t nelz(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nelz(); }
double h(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.h(); }
bool elementType(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.elementType() == GooseFEM::Mesh::ElementType::Hex8; }
A2 coor(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.coor(); }
I2 conn(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.conn(); }
I2 dofs(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.dofs(); }
I2 nodesPeriodic(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesPeriodic(); }
I2 dofsPeriodic(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.dofsPeriodic(); }
size_t nodesOrigin(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesOrigin(); }
I1 nodesBack(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBack(); }
I1 nodesBackBottomEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackBottomEdge(); }
I1 nodesBackBottomEdge__nodesBottomBackEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomBackEdge(); }
size_t nodesBackBottomLeftCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackBottomLeftCorner(); }
size_t nodesBackBottomLeftCorner__nodesBackLeftBottomCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackLeftBottomCorner(); }
size_t nodesBackBottomLeftCorner__nodesBottomBackLeftCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomBackLeftCorner(); }
size_t nodesBackBottomLeftCorner__nodesBottomLeftBackCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomLeftBackCorner(); }
size_t nodesBackBottomLeftCorner__nodesLeftBackBottomCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftBackBottomCorner(); }
size_t nodesBackBottomLeftCorner__nodesLeftBottomBackCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftBottomBackCorner(); }
I1 nodesBackBottomOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackBottomOpenEdge(); }
I1 nodesBackBottomOpenEdge__nodesBottomBackOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomBackOpenEdge(); }
size_t nodesBackBottomRightCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackBottomRightCorner(); }
size_t nodesBackBottomRightCorner__nodesBackRightBottomCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackRightBottomCorner(); }
size_t nodesBackBottomRightCorner__nodesBottomBackRightCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomBackRightCorner(); }
size_t nodesBackBottomRightCorner__nodesBottomRightBackCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomRightBackCorner(); }
size_t nodesBackBottomRightCorner__nodesRightBackBottomCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightBackBottomCorner(); }
size_t nodesBackBottomRightCorner__nodesRightBottomBackCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightBottomBackCorner(); }
I1 nodesBackFace(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackFace(); }
I1 nodesBackLeftEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackLeftEdge(); }
I1 nodesBackLeftEdge__nodesLeftBackEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftBackEdge(); }
I1 nodesBackLeftOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackLeftOpenEdge(); }
I1 nodesBackLeftOpenEdge__nodesLeftBackOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftBackOpenEdge(); }
I1 nodesBackRightEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackRightEdge(); }
I1 nodesBackRightEdge__nodesRightBackEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightBackEdge(); }
I1 nodesBackRightOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackRightOpenEdge(); }
I1 nodesBackRightOpenEdge__nodesRightBackOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightBackOpenEdge(); }
I1 nodesBackTopEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackTopEdge(); }
I1 nodesBackTopEdge__nodesTopBackEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopBackEdge(); }
size_t nodesBackTopLeftCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackTopLeftCorner(); }
size_t nodesBackTopLeftCorner__nodesBackLeftTopCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackLeftTopCorner(); }
size_t nodesBackTopLeftCorner__nodesLeftBackTopCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftBackTopCorner(); }
size_t nodesBackTopLeftCorner__nodesLeftTopBackCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftTopBackCorner(); }
size_t nodesBackTopLeftCorner__nodesTopBackLeftCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopBackLeftCorner(); }
size_t nodesBackTopLeftCorner__nodesTopLeftBackCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopLeftBackCorner(); }
I1 nodesBackTopOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackTopOpenEdge(); }
I1 nodesBackTopOpenEdge__nodesTopBackOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopBackOpenEdge(); }
size_t nodesBackTopRightCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackTopRightCorner(); }
size_t nodesBackTopRightCorner__nodesBackRightTopCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBackRightTopCorner(); }
size_t nodesBackTopRightCorner__nodesRightBackTopCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightBackTopCorner(); }
size_t nodesBackTopRightCorner__nodesRightTopBackCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightTopBackCorner(); }
size_t nodesBackTopRightCorner__nodesTopBackRightCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopBackRightCorner(); }
size_t nodesBackTopRightCorner__nodesTopRightBackCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopRightBackCorner(); }
I1 nodesBottom(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottom(); }
I1 nodesBottomFace(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomFace(); }
I1 nodesBottomLeftEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomLeftEdge(); }
I1 nodesBottomLeftEdge__nodesLeftBottomEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftBottomEdge(); }
I1 nodesBottomLeftOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomLeftOpenEdge(); }
I1 nodesBottomLeftOpenEdge__nodesLeftBottomOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftBottomOpenEdge(); }
I1 nodesBottomRightEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomRightEdge(); }
I1 nodesBottomRightEdge__nodesRightBottomEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightBottomEdge(); }
I1 nodesBottomRightOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomRightOpenEdge(); }
I1 nodesBottomRightOpenEdge__nodesRightBottomOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightBottomOpenEdge(); }
I1 nodesFront(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFront(); }
I1 nodesFrontBottomEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontBottomEdge(); }
I1 nodesFrontBottomEdge__nodesBottomFrontEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomFrontEdge(); }
size_t nodesFrontBottomLeftCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontBottomLeftCorner(); }
size_t nodesFrontBottomLeftCorner__nodesBottomFrontLeftCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomFrontLeftCorner(); }
size_t nodesFrontBottomLeftCorner__nodesBottomLeftFrontCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomLeftFrontCorner(); }
size_t nodesFrontBottomLeftCorner__nodesFrontLeftBottomCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontLeftBottomCorner(); }
size_t nodesFrontBottomLeftCorner__nodesLeftBottomFrontCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftBottomFrontCorner(); }
size_t nodesFrontBottomLeftCorner__nodesLeftFrontBottomCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftFrontBottomCorner(); }
I1 nodesFrontBottomOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontBottomOpenEdge(); }
I1 nodesFrontBottomOpenEdge__nodesBottomFrontOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomFrontOpenEdge(); }
size_t nodesFrontBottomRightCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontBottomRightCorner(); }
size_t nodesFrontBottomRightCorner__nodesBottomFrontRightCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomFrontRightCorner(); }
size_t nodesFrontBottomRightCorner__nodesBottomRightFrontCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesBottomRightFrontCorner(); }
size_t nodesFrontBottomRightCorner__nodesFrontRightBottomCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontRightBottomCorner(); }
size_t nodesFrontBottomRightCorner__nodesRightBottomFrontCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightBottomFrontCorner(); }
size_t nodesFrontBottomRightCorner__nodesRightFrontBottomCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightFrontBottomCorner(); }
I1 nodesFrontFace(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontFace(); }
I1 nodesFrontLeftEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontLeftEdge(); }
I1 nodesFrontLeftEdge__nodesLeftFrontEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftFrontEdge(); }
I1 nodesFrontLeftOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontLeftOpenEdge(); }
I1 nodesFrontLeftOpenEdge__nodesLeftFrontOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftFrontOpenEdge(); }
I1 nodesFrontRightEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontRightEdge(); }
I1 nodesFrontRightEdge__nodesRightFrontEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightFrontEdge(); }
I1 nodesFrontRightOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontRightOpenEdge(); }
I1 nodesFrontRightOpenEdge__nodesRightFrontOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightFrontOpenEdge(); }
I1 nodesFrontTopEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontTopEdge(); }
I1 nodesFrontTopEdge__nodesTopFrontEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopFrontEdge(); }
size_t nodesFrontTopLeftCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontTopLeftCorner(); }
size_t nodesFrontTopLeftCorner__nodesFrontLeftTopCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontLeftTopCorner(); }
size_t nodesFrontTopLeftCorner__nodesLeftFrontTopCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftFrontTopCorner(); }
size_t nodesFrontTopLeftCorner__nodesLeftTopFrontCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftTopFrontCorner(); }
size_t nodesFrontTopLeftCorner__nodesTopFrontLeftCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopFrontLeftCorner(); }
size_t nodesFrontTopLeftCorner__nodesTopLeftFrontCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopLeftFrontCorner(); }
I1 nodesFrontTopOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontTopOpenEdge(); }
I1 nodesFrontTopOpenEdge__nodesTopFrontOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopFrontOpenEdge(); }
size_t nodesFrontTopRightCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontTopRightCorner(); }
size_t nodesFrontTopRightCorner__nodesFrontRightTopCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesFrontRightTopCorner(); }
size_t nodesFrontTopRightCorner__nodesRightFrontTopCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightFrontTopCorner(); }
size_t nodesFrontTopRightCorner__nodesRightTopFrontCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightTopFrontCorner(); }
size_t nodesFrontTopRightCorner__nodesTopFrontRightCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopFrontRightCorner(); }
size_t nodesFrontTopRightCorner__nodesTopRightFrontCorner(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopRightFrontCorner(); }
I1 nodesLeft(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeft(); }
I1 nodesLeftFace(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftFace(); }
I1 nodesRight(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRight(); }
I1 nodesRightFace(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightFace(); }
I1 nodesTop(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTop(); }
I1 nodesTopFace(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopFace(); }
I1 nodesTopLeftEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopLeftEdge(); }
I1 nodesTopLeftEdge__nodesLeftTopEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftTopEdge(); }
I1 nodesTopLeftOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopLeftOpenEdge(); }
I1 nodesTopLeftOpenEdge__nodesLeftTopOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesLeftTopOpenEdge(); }
I1 nodesTopRightEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopRightEdge(); }
I1 nodesTopRightEdge__nodesRightTopEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightTopEdge(); }
I1 nodesTopRightOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesTopRightOpenEdge(); }
I1 nodesTopRightOpenEdge__nodesRightTopOpenEdge(size_t nx, size_t ny, size_t nz, double h) { MADE; return m.nodesRightTopOpenEdge(); }
} // namespace entry
namespace spec {
size_t nelem(size_t nx, size_t ny, size_t nz, double h) { return nx * ny * nz; }
size_t nnode(size_t nx, size_t ny, size_t nz, double h) { return (nx + 1) * (ny + 1) * (nz + 1); }
size_t nne(size_t nx, size_t ny, size_t nz, double h) { return 8; }
size_t ndim(size_t nx, size_t ny, size_t nz, double h) { return 3; }
size_t nelx(size_t nx, size_t ny, size_t nz, double h) { return nx; }
size_t nely(size_t nx, size_t ny, size_t nz, double h) { return ny; }
size_t nelz(size_t nx, size_t ny, size_t nz, double h) { return nz; }
double h(size_t nx, size_t ny, size_t nz, double h) { return h; }
bool elementType(size_t nx, size_t ny, size_t nz, double h) { return true; }
A2 coor(size_t nx, size_t ny, size_t nz, double h)
{
    A2 r;
    vf::shape(r, (nx + 1) * (ny + 1) * (nz + 1), 3);
    FOR(k, nz + 1) FOR(j, ny + 1) FOR(i, nx + 1)
    {
        r((k * (ny + 1) + j) * (nx + 1) + i, 0) = h * static_cast<double>(i);
        r((k * (ny + 1) + j) * (nx + 1) + i, 1) = h * static_cast<double>(j);
        r((k * (ny + 1) + j) * (nx + 1) + i, 2) = h * static_cast<double>(k);
    }
    return r;
}
I2 conn(size_t nx, size_t ny, size_t nz, double h)
{
    I2 r;
    vf::shape(r, nx * ny * nz, 8);
    FOR(k, nz) FOR(j, ny) FOR(i, nx) FOR(m, 8)
    {
        size_t dx = (m % 4 == 1 || m % 4 == 2) ? 1 : 0;
        size_t dy = (m % 4 >= 2) ? 1 : 0;
        size_t dz = (m >= 4) ? 1 : 0;
        r((k * ny + j) * nx + i, m) = ((k + dz) * (ny + 1) + j + dy) * (nx + 1) + i + dx;
    }
    return r;
}
I2 dofs(size_t nx, size_t ny, size_t nz, double h)
{
    I2 r;
    vf::shape(r, (nx + 1) * (ny + 1) * (nz + 1), 3);
    FOR(n, (nx + 1) * (ny + 1) * (nz + 1)) FOR(i, 3) r(n, i) = n * 3 + i;
    return r;
}
size_t nodesOrigin(size_t nx, size_t ny, size_t nz, double h) { return 0; }
I1 nodesBack(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny + 1) * (nx + 1));
    FOR(j, (ny + 1)) FOR(i, (nx + 1)) r(j * (nx + 1) + i) = (nz * (ny + 1) + j) * (nx + 1) + i;
    return r;
}
I1 nodesBackBottomEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nx + 1));
    FOR(i, (nx + 1)) r(i) = (nz * (ny + 1) + 0) * (nx + 1) + i;
    return r;
}
size_t nodesBackBottomLeftCorner(size_t nx, size_t ny, size_t nz, double h) { return (nz * (ny + 1) + 0) * (nx + 1) + 0; }
I1 nodesBackBottomOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nx - 1));
    FOR(i, (nx - 1)) r(i) = (nz * (ny + 1) + 0) * (nx + 1) + (i + 1);
    return r;
}
size_t nodesBackBottomRightCorner(size_t nx, size_t ny, size_t nz, double h) { return (nz * (ny + 1) + 0) * (nx + 1) + nx; }
I1 nodesBackFace(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny - 1) * (nx - 1));
    FOR(j, (ny - 1)) FOR(i, (nx - 1)) r(j * (nx - 1) + i) = (nz * (ny + 1) + (j + 1)) * (nx + 1) + (i + 1);
    return r;
}
I1 nodesBackLeftEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny + 1));
    FOR(j, (ny + 1)) r(j) = (nz * (ny + 1) + j) * (nx + 1) + 0;
    return r;
}
I1 nodesBackLeftOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny - 1));
    FOR(j, (ny - 1)) r(j) = (nz * (ny + 1) + (j + 1)) * (nx + 1) + 0;
    return r;
}
I1 nodesBackRightEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny + 1));
    FOR(j, (ny + 1)) r(j) = (nz * (ny + 1) + j) * (nx + 1) + nx;
    return r;
}
I1 nodesBackRightOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny - 1));
    FOR(j, (ny - 1)) r(j) = (nz * (ny + 1) + (j + 1)) * (nx + 1) + nx;
    return r;
}
I1 nodesBackTopEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nx + 1));
    FOR(i, (nx + 1)) r(i) = (nz * (ny + 1) + ny) * (nx + 1) + i;
    return r;
}
size_t nodesBackTopLeftCorner(size_t nx, size_t ny, size_t nz, double h) { return (nz * (ny + 1) + ny) * (nx + 1) + 0; }
I1 nodesBackTopOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nx - 1));
    FOR(i, (nx - 1)) r(i) = (nz * (ny + 1) + ny) * (nx + 1) + (i + 1);
    return r;
}
size_t nodesBackTopRightCorner(size_t nx, size_t ny, size_t nz, double h) { return (nz * (ny + 1) + ny) * (nx + 1) + nx; }
I1 nodesBottom(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz + 1) * (nx + 1));
    FOR(k, (nz + 1)) FOR(i, (nx + 1)) r(k * (nx + 1) + i) = (k * (ny + 1) + 0) * (nx + 1) + i;
    return r;
}
I1 nodesBottomFace(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz - 1) * (nx - 1));
    FOR(k, (nz - 1)) FOR(i, (nx - 1)) r(k * (nx - 1) + i) = ((k + 1) * (ny + 1) + 0) * (nx + 1) + (i + 1);
    return r;
}
I1 nodesBottomLeftEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz + 1));
    FOR(k, (nz + 1)) r(k) = (k * (ny + 1) + 0) * (nx + 1) + 0;
    return r;
}
I1 nodesBottomLeftOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz - 1));
    FOR(k, (nz - 1)) r(k) = ((k + 1) * (ny + 1) + 0) * (nx + 1) + 0;
    return r;
}
I1 nodesBottomRightEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz + 1));
    FOR(k, (nz + 1)) r(k) = (k * (ny + 1) + 0) * (nx + 1) + nx;
    return r;
}
I1 nodesBottomRightOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz - 1));
    FOR(k, (nz - 1)) r(k) = ((k + 1) * (ny + 1) + 0) * (nx + 1) + nx;
    return r;
}
I1 nodesFront(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny + 1) * (nx + 1));
    FOR(j, (ny + 1)) FOR(i, (nx + 1)) r(j * (nx + 1) + i) = (0 * (ny + 1) + j) * (nx + 1) + i;
    return r;
}
I1 nodesFrontBottomEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nx + 1));
    FOR(i, (nx + 1)) r(i) = (0 * (ny + 1) + 0) * (nx + 1) + i;
    return r;
}
size_t nodesFrontBottomLeftCorner(size_t nx, size_t ny, size_t nz, double h) { return (0 * (ny + 1) + 0) * (nx + 1) + 0; }
I1 nodesFrontBottomOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nx - 1));
    FOR(i, (nx - 1)) r(i) = (0 * (ny + 1) + 0) * (nx + 1) + (i + 1);
    return r;
}
size_t nodesFrontBottomRightCorner(size_t nx, size_t ny, size_t nz, double h) { return (0 * (ny + 1) + 0) * (nx + 1) + nx; }
I1 nodesFrontFace(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny - 1) * (nx - 1));
    FOR(j, (ny - 1)) FOR(i, (nx - 1)) r(j * (nx - 1) + i) = (0 * (ny + 1) + (j + 1)) * (nx + 1) + (i + 1);
    return r;
}
I1 nodesFrontLeftEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny + 1));
    FOR(j, (ny + 1)) r(j) = (0 * (ny + 1) + j) * (nx + 1) + 0;
    return r;
}
I1 nodesFrontLeftOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny - 1));
    FOR(j, (ny - 1)) r(j) = (0 * (ny + 1) + (j + 1)) * (nx + 1) + 0;
    return r;
}
I1 nodesFrontRightEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny + 1));
    FOR(j, (ny + 1)) r(j) = (0 * (ny + 1) + j) * (nx + 1) + nx;
    return r;
}
I1 nodesFrontRightOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (ny - 1));
    FOR(j, (ny - 1)) r(j) = (0 * (ny + 1) + (j + 1)) * (nx + 1) + nx;
    return r;
}
I1 nodesFrontTopEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nx + 1));
    FOR(i, (nx + 1)) r(i) = (0 * (ny + 1) + ny) * (nx + 1) + i;
    return r;
}
size_t nodesFrontTopLeftCorner(size_t nx, size_t ny, size_t nz, double h) { return (0 * (ny + 1) + ny) * (nx + 1) + 0; }
I1 nodesFrontTopOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nx - 1));
    FOR(i, (nx - 1)) r(i) = (0 * (ny + 1) + ny) * (nx + 1) + (i + 1);
    return r;
}
size_t nodesFrontTopRightCorner(size_t nx, size_t ny, size_t nz, double h) { return (0 * (ny + 1) + ny) * (nx + 1) + nx; }
I1 nodesLeft(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz + 1) * (ny + 1));
    FOR(k, (nz + 1)) FOR(j, (ny + 1)) r(k * (ny + 1) + j) = (k * (ny + 1) + j) * (nx + 1) + 0;
    return r;
}
I1 nodesLeftFace(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz - 1) * (ny - 1));
    FOR(k, (nz - 1)) FOR(j, (ny - 1)) r(k * (ny - 1) + j) = ((k + 1) * (ny + 1) + (j + 1)) * (nx + 1) + 0;
    return r;
}
I1 nodesRight(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz + 1) * (ny + 1));
    FOR(k, (nz + 1)) FOR(j, (ny + 1)) r(k * (ny + 1) + j) = (k * (ny + 1) + j) * (nx + 1) + nx;
    return r;
}
I1 nodesRightFace(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz - 1) * (ny - 1));
    FOR(k, (nz - 1)) FOR(j, (ny - 1)) r(k * (ny - 1) + j) = ((k + 1) * (ny + 1) + (j + 1)) * (nx + 1) + nx;
    return r;
}
I1 nodesTop(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz + 1) * (nx + 1));
    FOR(k, (nz + 1)) FOR(i, (nx + 1)) r(k * (nx + 1) + i) = (k * (ny + 1) + ny) * (nx + 1) + i;
    return r;
}
I1 nodesTopFace(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz - 1) * (nx - 1));
    FOR(k, (nz - 1)) FOR(i, (nx - 1)) r(k * (nx - 1) + i) = ((k + 1) * (ny + 1) + ny) * (nx + 1) + (i + 1);
    return r;
}
I1 nodesTopLeftEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz + 1));
    FOR(k, (nz + 1)) r(k) = (k * (ny + 1) + ny) * (nx + 1) + 0;
    return r;
}
I1 nodesTopLeftOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz - 1));
    FOR(k, (nz - 1)) r(k) = ((k + 1) * (ny + 1) + ny) * (nx + 1) + 0;
    return r;
}
I1 nodesTopRightEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz + 1));
    FOR(k, (nz + 1)) r(k) = (k * (ny + 1) + ny) * (nx + 1) + nx;
    return r;
}
I1 nodesTopRightOpenEdge(size_t nx, size_t ny, size_t nz, double h)
{
    I1 r;
    vf::shape(r, (nz - 1));
    FOR(k, (nz - 1)) r(k) = ((k + 1) * (ny + 1) + ny) * (nx + 1) + nx;
    return r;
}
I2 nodesPeriodic(size_t nx, size_t ny, size_t nz, double h)
{
    I2 r;
    vf::shape(r, 7 + 3 * (nx - 1) + 3 * (ny - 1) + 3 * (nz - 1) + (nx - 1) * (ny - 1) + (nx - 1) * (nz - 1) + (ny - 1) * (nz - 1), 2);
    r(0, 0) = 0;
    r(0, 1) = (0 * (ny + 1) + 0) * (nx + 1) + nx;
    r(1, 0) = 0;
    r(1, 1) = (nz * (ny + 1) + 0) * (nx + 1) + nx;
    r(2, 0) = 0;
    r(2, 1) = (nz * (ny + 1) + 0) * (nx + 1) + 0;
    r(3, 0) = 0;
    r(3, 1) = (0 * (ny + 1) + ny) * (nx + 1) + 0;
    r(4, 0) = 0;
    r(4, 1) = (0 * (ny + 1) + ny) * (nx + 1) + nx;
    r(5, 0) = 0;
    r(5, 1) = (nz * (ny + 1) + ny) * (nx + 1) + nx;
    r(6, 0) = 0;
    r(6, 1) = (nz * (ny + 1) + ny) * (nx + 1) + 0;
    size_t at = 7;
    {
        I1 a = nodesFrontBottomOpenEdge(nx, ny, nz, h);
        I1 b = nodesBackBottomOpenEdge(nx, ny, nz, h);
        FOR(q, (nx - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (nx - 1);
    }
    {
        I1 a = nodesFrontBottomOpenEdge(nx, ny, nz, h);
        I1 b = nodesBackTopOpenEdge(nx, ny, nz, h);
        FOR(q, (nx - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (nx - 1);
    }
    {
        I1 a = nodesFrontBottomOpenEdge(nx, ny, nz, h);
        I1 b = nodesFrontTopOpenEdge(nx, ny, nz, h);
        FOR(q, (nx - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (nx - 1);
    }
    {
        I1 a = nodesBottomLeftOpenEdge(nx, ny, nz, h);
        I1 b = nodesBottomRightOpenEdge(nx, ny, nz, h);
        FOR(q, (nz - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (nz - 1);
    }
    {
        I1 a = nodesBottomLeftOpenEdge(nx, ny, nz, h);
        I1 b = nodesTopRightOpenEdge(nx, ny, nz, h);
        FOR(q, (nz - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (nz - 1);
    }
    {
        I1 a = nodesBottomLeftOpenEdge(nx, ny, nz, h);
        I1 b = nodesTopLeftOpenEdge(nx, ny, nz, h);
        FOR(q, (nz - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (nz - 1);
    }
    {
        I1 a = nodesFrontLeftOpenEdge(nx, ny, nz, h);
        I1 b = nodesFrontRightOpenEdge(nx, ny, nz, h);
        FOR(q, (ny - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (ny - 1);
    }
    {
        I1 a = nodesFrontLeftOpenEdge(nx, ny, nz, h);
        I1 b = nodesBackRightOpenEdge(nx, ny, nz, h);
        FOR(q, (ny - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (ny - 1);
    }
    {
        I1 a = nodesFrontLeftOpenEdge(nx, ny, nz, h);
        I1 b = nodesBackLeftOpenEdge(nx, ny, nz, h);
        FOR(q, (ny - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (ny - 1);
    }
    {
        I1 a = nodesFrontFace(nx, ny, nz, h);
        I1 b = nodesBackFace(nx, ny, nz, h);
        FOR(q, (ny - 1) * (nx - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (ny - 1) * (nx - 1);
    }
    {
        I1 a = nodesLeftFace(nx, ny, nz, h);
        I1 b = nodesRightFace(nx, ny, nz, h);
        FOR(q, (nz - 1) * (ny - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (nz - 1) * (ny - 1);
    }
    {
        I1 a = nodesBottomFace(nx, ny, nz, h);
        I1 b = nodesTopFace(nx, ny, nz, h);
        FOR(q, (nz - 1) * (nx - 1))
        {
            r(at + q, 0) = a(q);
            r(at + q, 1) = b(q);
        }
        at += (nz - 1) * (nx - 1);
    }
    return r;
}
I2 dofsPeriodic(size_t nx, size_t ny, size_t nz, double h)
{
    I2 d = dofs(nx, ny, nz, h);
    I2 d0 = d;
    I2 p = nodesPeriodic(nx, ny, nz, h);
    I1 ind = xt::view(p, xt::all(), 0);
    I1 dep = xt::view(p, xt::all(), 1);
    FOR(j, 3) FOR(q, p.shape(0)) d(dep(q), j) = d0(ind(q), j);
    I1 u = xt::unique(d);
    I1 index;
    vf::shape(index, xt::amax(d)() + 1);
    FOR(q, u.size()) index(u(q)) = q;
    I2 r;
    vf::shape(r, (nx + 1) * (ny + 1) * (nz + 1), 3);
    FOR(t, (nx + 1) * (ny + 1) * (nz + 1) * 3) r(t / 3, t % 3) = index(d(t / 3, t % 3));
    return r;
}
} // namespace spec
