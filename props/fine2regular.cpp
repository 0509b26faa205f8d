// flags: -fno-access-control
// Map from a mesh with refined layers to the regular mesh of its finest elements, for any tables of element layers.
#include "common.h"
#include <GooseFEM/MeshQuad4.h>
namespace Q = GooseFEM::Mesh::Quad4;
using F = Q::FineLayer;
using Rows = std::vector<std::vector<size_t>>;
using Parts = std::vector<std::vector<double>>;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
namespace pre {
void common(const F& m)
{
    const size_t n = m.m_nhy.shape(0);
    vf::assume(n >= 1);
    vf::assume(n % 2 == 1);
    vf::shape(m.m_nhx, n);
    vf::shape(m.m_refine, n);
    vf::shape(m.m_layer_nelx, n);
    vf::shape(m.m_startElem, n);
    vf::shape(m.m_startNode, n + 1);
    vf::shape(m.m_nnd, n + 1);
}
} // namespace pre
namespace entry {
std::array<size_t, 2> regular(const F& m) { Q::Map::FineLayer2Regular r(m); READ(r); auto c = r.regularMesh(); return {c.nelx(), c.nely()}; }
std::array<size_t, 2> regular__get(const F& m) { Q::Map::FineLayer2Regular r(m); READ(r); auto c = r.getRegularMesh(); return {c.nelx(), c.nely()}; }
double size(const F& m) { Q::Map::FineLayer2Regular r(m); READ(r); return r.regularMesh().h(); }
I2 fine(const F& m) { Q::Map::FineLayer2Regular r(m); READ(r); return r.fineLayerMesh().conn(); }
Rows map(const F& m) { Q::Map::FineLayer2Regular r(m); READ(r); return r.map(); }
Rows map__get(const F& m) { Q::Map::FineLayer2Regular r(m); READ(r); return r.getMap(); }
Parts fraction(const F& m) { Q::Map::FineLayer2Regular r(m); READ(r); return r.mapFraction(); }
Parts fraction__get(const F& m) { Q::Map::FineLayer2Regular r(m); READ(r); return r.getMapFraction(); }
} // namespace entry

namespace spec {
std::array<size_t, 2> regular(const F& m) { return {m.nelx(), m.nely()}; }
double size(const F& m) { return m.h(); }
I2 fine(const F& m) { return m.conn(); }
// Cells of the regular mesh, row by row. Layer i starts at row below(i). A block of a layer is nhx(i) cells wide and
// nhy(i) rows high. A block that refines has four elements; its slanted edges cut cells in half.
I1 below(const F& m)
{
    return xt::concatenate(xt::xtuple(xt::zeros<size_t>({1}), xt::cumsum(m.m_nhy)));
}
#define CELL(row, col) ((row) * w + (col))
#define REST \
    const size_t w = m.nelx(); \
    const I1 row0 = below(m); \
    FOR(i, m.m_nhy.shape(0)) { \
        const size_t y = row0(i); \
        const size_t nx = m.m_nhx(i), ny = m.m_nhy(i), a = nx / 3; \
        (void)a; \
        FOR(b, m.m_layer_nelx(i)) { \
            const size_t x = b * nx; \
            if (m.m_refine(i) == -1) { \
                const size_t e = m.m_startElem(i) + b; \
                FOR(r, row0(i + 1) - y) FOR(c, nx) ADD(e, r, c, 1.0) \
            } \
            else if (m.m_refine(i) == 0 && i <= (m.m_nhy.shape(0) - 1) / 2) { \
                const size_t e = m.m_startElem(i) + 4 * b; \
                /* below: a trapezium that narrows */ \
                FOR(r, ny / 2) { \
                    ADD(e, r, r, 0.5) \
                    FOR(k, nx - 2 * r - 2) ADD(e, r, r + 1 + k, 1.0) \
                    ADD(e, r, nx - 1 - r, 0.5) \
                } \
                /* middle: a square */ \
                FOR(r, ny - ny / 2) FOR(c, 2 * nx / 3 - a) ADD(e + 2, ny / 2 + r, a + c, 1.0) \
                /* left and right: widen to a square */ \
                FOR(r, ny / 2) { \
                    FOR(c, r) ADD(e + 3, r, c, 1.0) \
                    ADD(e + 3, r, r, 0.5) \
                } \
                FOR(r, ny - ny / 2) FOR(c, a) ADD(e + 3, ny / 2 + r, c, 1.0) \
                FOR(r, ny / 2) { \
                    ADD(e + 1, r, nx - 1 - r, 0.5) \
                    FOR(c, r) ADD(e + 1, r, nx - r + c, 1.0) \
                } \
                FOR(r, ny - ny / 2) FOR(c, nx - 2 * nx / 3) ADD(e + 1, ny / 2 + r, 2 * nx / 3 + c, 1.0) \
            } \
            else if (m.m_refine(i) == 0) { \
                const size_t e = m.m_startElem(i) + 4 * b; \
                /* above: a trapezium that widens */ \
                FOR(r, ny / 2) { \
                    ADD(e + 3, ny / 2 + r, a - r - 1, 0.5) \
                    FOR(k, 2 * nx / 3 - a + 2 * r) ADD(e + 3, ny / 2 + r, a - r + k, 1.0) \
                    ADD(e + 3, ny / 2 + r, 2 * nx / 3 + r, 0.5) \
                } \
                FOR(r, ny / 2) FOR(c, 2 * nx / 3 - a) ADD(e + 1, r, a + c, 1.0) \
                FOR(r, ny / 2) FOR(c, a) ADD(e, r, c, 1.0) \
                FOR(r, ny / 2) { \
                    FOR(c, a - r - 1) ADD(e, ny / 2 + r, c, 1.0) \
                    ADD(e, ny / 2 + r, a - r - 1, 0.5) \
                } \
                FOR(r, ny / 2) FOR(c, nx - 2 * nx / 3) ADD(e + 2, r, 2 * nx / 3 + c, 1.0) \
                FOR(r, ny / 2) { \
                    ADD(e + 2, ny / 2 + r, 2 * nx / 3 + r, 0.5) \
                    FOR(c, nx - 2 * nx / 3 - r - 1) ADD(e + 2, ny / 2 + r, 2 * nx / 3 + r + 1 + c, 1.0) \
                } \
            } \
        } \
    }
Rows map(const F& m)
{
    Rows ret;
    ret.resize(m.m_nelem);
#define ADD(e, row, col, part) ret[e].push_back(CELL(y + (row), x + (col)));
    REST
#undef ADD
    return ret;
}
Parts fraction(const F& m)
{
    Parts ret;
    ret.resize(m.m_nelem);
#define ADD(e, row, col, part) ret[e].push_back(part);
    REST
#undef ADD
    return ret;
}
} // namespace spec
