#include "checks.h"
#include <GooseFEM/Mesh.h>
#include <GooseFEM/MeshHex8.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshTri3.h>
namespace M = GooseFEM::Mesh;
using GooseFEM::Mesh::ElementType;
using L1 = AT<int, 1>;
#define QUADS vf::require(coor.shape(1) == 2); vf::require(conn.shape(1) == 4); vf::require(xt::amax(conn)() < coor.shape(0));
#define TRIS vf::require(coor.shape(1) == 2); vf::require(conn.shape(1) == 3); vf::require(xt::amax(conn)() < coor.shape(0));
#define MESH const A2 &coor, const I2 &conn
REJECT(edgesize, (MESH), M::edgesize(coor, conn, ElementType::Quad4), QUADS)
REJECT(centers, (MESH), M::centers(coor, conn, ElementType::Quad4), QUADS)
REJECT(nodemap, (const I1& map, MESH), M::elemmap2nodemap(map, coor, conn, ElementType::Quad4), QUADS SIZE(map, conn.shape(0)) vf::require(xt::amax(map)() < conn.shape(0)))
REJECT(orientation, (MESH), M::Tri3::getOrientation(coor, conn), TRIS)
REJECT(orient, (MESH, int sign), M::Tri3::setOrientation(coor, conn, sign), TRIS vf::require(sign == -1 || sign == 1))
REJECT(orient_val, (MESH, const L1& val, int sign), M::Tri3::setOrientation(coor, conn, val, sign), vf::require(coor.shape(1) == 2); vf::require(conn.shape(1) == 3); SIZE(val, conn.shape(0)) vf::require(sign == -1 || sign == 1))
#define NXY (size_t nx, size_t ny, double h)
#define ONE2 vf::require(nx >= 1); vf::require(ny >= 1);
REJECT(quad4, NXY, M::Quad4::Regular made(nx, ny, h), ONE2)
REJECT(tri3, NXY, M::Tri3::Regular made(nx, ny, h), ONE2)
REJECT(finelayer, NXY, M::Quad4::FineLayer made(nx, ny, h), ONE2)
#define NXYZ (size_t nx, size_t ny, size_t nz, double h)
#define ONE3 ONE2 vf::require(nz >= 1);
REJECT(hex8, NXYZ, M::Hex8::Regular made(nx, ny, nz, h), ONE3)
REJECT(finelayer3, NXYZ, M::Hex8::FineLayer made(nx, ny, nz, h), ONE3)
// of the stitching
#define AB const A2 &xa, const I2 &ca, const I1 &oa, const A2 &xb, const I2 &cb, const I1 &ob
#define STITCHED SIZE(oa, ob.shape(0)) vf::require(xa.shape(1) == xb.shape(1)); vf::require(ca.shape(1) == cb.shape(1)); \
    vf::require(xt::amax(ca)() < xa.shape(0)); vf::require(xt::amax(cb)() < xb.shape(0)); \
    vf::require(xt::amax(oa)() < xa.shape(0)); vf::require(xt::amax(ob)() < xb.shape(0));
#define MANUAL M::ManualStitch made(xa, ca, oa, xb, cb, ob, false)
REJECT(manual, (AB), MANUAL, STITCHED)
REJECT(manual_nodemap, (AB, size_t i), MANUAL; made.nodemap(i), STITCHED vf::require(i <= 1))
REJECT(manual_elemmap, (AB, size_t i), MANUAL; made.elemmap(i), STITCHED vf::require(i <= 1))
REJECT(manual_nodeset_a, (AB, const I1& set), MANUAL; made.nodeset(set, 0), STITCHED vf::require(xt::amax(set)() < xa.shape(0)))
REJECT(manual_nodeset_b, (AB, const I1& set), MANUAL; made.nodeset(set, 1), STITCHED vf::require(xt::amax(set)() < xb.shape(0)))
REJECT(manual_elemset_a, (AB, const I1& set), MANUAL; made.elemset(set, 0), STITCHED vf::require(xt::amax(set)() < ca.shape(0)))
REJECT(manual_elemset_b, (AB, const I1& set), MANUAL; made.elemset(set, 1), STITCHED vf::require(xt::amax(set)() < cb.shape(0)))
REJECT(renumber, (const I2& dofs, const I1& list), M::Renumber made(dofs); made.apply(list), vf::require(xt::amax(list)() <= xt::amax(dofs)()))
REJECT(reorder, (const I1& a, const I1& b), M::Reorder made({a, b}), vf::require(GooseFEM::is_unique(a)); vf::require(GooseFEM::is_unique(b)))
#define LAYERED M::Vstack made(false); made.push_back(xa, ca, ba, ta); made.push_back(xb, cb, bb, tb)
#define LAYERS const A2& xa, const I2& ca, const I1& ba, const I1& ta, const A2& xb, const I2& cb, const I1& bb, const I1& tb
REJECT(vstack, (LAYERS), LAYERED, SIZE(bb, ta.shape(0)) vf::require(xa.shape(1) == xb.shape(1)); vf::require(ca.shape(1) == cb.shape(1)); \
    vf::require(xt::amax(ca)() < xa.shape(0)); vf::require(xt::amax(cb)() < xb.shape(0)); \
    vf::require(xt::amax(ta)() < xa.shape(0)); vf::require(xt::amax(bb)() < xb.shape(0)); vf::require(xt::amax(tb)() < xb.shape(0)))
// of the mapping
#define FINE (const A2& data, size_t nx, size_t ny, double h)
REJECT(elementsLayer, (size_t nx, size_t ny, double h, size_t i), M::Quad4::FineLayer made(nx, ny, h); made.elementsLayer(i), M::Quad4::FineLayer made(nx, ny, h); ONE2 vf::require(i < made.elemrow_nelem().size()))
#define REFINED M::Quad4::Regular grid(nx, ny, h); M::Quad4::Map::RefineRegular made(grid, 2, 3)
REJECT(mean, FINE, REFINED; made.meanToCoarse(data), ONE2 SIZE(data, nx * ny * 6))
REJECT(weighted, (const A2& data, const A2& w, size_t nx, size_t ny, double h), REFINED; made.averageToCoarse(data, w), ONE2 SIZE(data, nx * ny * 6) SIZE(w, nx * ny * 6))
REJECT(fine, FINE, REFINED; made.mapToFine(data), ONE2 SIZE(data, nx * ny))
REJECT(as3d, (const A2& a), GooseFEM::as3d(a), vf::require(a.shape(1) > 0); vf::require(a.shape(1) < 4))
