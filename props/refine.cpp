// Refinement of a regular mesh, and mapping of data.
#include "common.h"
#include <GooseFEM/MeshQuad4.h>
namespace Q = GooseFEM::Mesh::Quad4;
using Q::Regular;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
#define ARGS size_t nelx, size_t nely, double h, size_t nx, size_t ny
#define NC (nelx * nely)
#define NF (nelx * nely * nx * ny)

namespace pre {
void common(ARGS)
{
    vf::assume(nelx >= 1);
    vf::assume(nely >= 1);
    vf::assume(nx >= 1);
    vf::assume(ny >= 1);
    vf::assume(h > 0);
}
void mean1(ARGS, const A1& data) { common(nelx, nely, h, nx, ny); vf::shape(data, NF); }
void mean2(ARGS, const A2& data) { common(nelx, nely, h, nx, ny); vf::shape(data, NF, data.shape(1)); }
void mean3(ARGS, const A3& data) { common(nelx, nely, h, nx, ny); vf::shape(data, NF, data.shape(1), data.shape(2)); }
void average1(ARGS, const A1& data, const A1& w) { mean1(nelx, nely, h, nx, ny, data); vf::shape(w, NF); }
void average2(ARGS, const A2& data, const A2& w) { mean2(nelx, nely, h, nx, ny, data); vf::shape(w, NF, data.shape(1)); }
void fine1(ARGS, const A1& data) { common(nelx, nely, h, nx, ny); vf::shape(data, NC); }
void fine2(ARGS, const A2& data) { common(nelx, nely, h, nx, ny); vf::shape(data, NC, data.shape(1)); }
void fine3(ARGS, const A3& data) { common(nelx, nely, h, nx, ny); vf::shape(data, NC, data.shape(1), data.shape(2)); }
} // namespace pre

namespace entry {
#define M Q::Map::RefineRegular m(Regular(nelx, nely, h), nx, ny); READ(m)
std::array<size_t, 2> factors(ARGS) { M; return {m.nx(), m.ny()}; }
std::array<size_t, 2> coarse(ARGS) { M; auto c = m.coarseMesh(); return {c.nelx(), c.nely()}; }
std::array<size_t, 2> coarse__get(ARGS) { M; auto c = m.getCoarseMesh(); return {c.nelx(), c.nely()}; }
std::array<size_t, 2> fine(ARGS) { M; auto c = m.fineMesh(); return {c.nelx(), c.nely()}; }
std::array<size_t, 2> fine__get(ARGS) { M; auto c = m.getFineMesh(); return {c.nelx(), c.nely()}; }
std::array<double, 2> size(ARGS) { M; return {m.coarseMesh().h(), m.fineMesh().h()}; }
I2 map(ARGS) { M; return m.map(); }
I2 map__get(ARGS) { M; return m.getMap(); }
A1 mean1(ARGS, const A1& data) { M; return m.meanToCoarse(data); }
A2 mean2(ARGS, const A2& data) { M; return m.meanToCoarse(data); }
A3 mean3(ARGS, const A3& data) { M; return m.meanToCoarse(data); }
A1 average1(ARGS, const A1& data, const A1& w) { M; return m.averageToCoarse(data, w); }
A2 average2(ARGS, const A2& data, const A2& w) { M; return m.averageToCoarse(data, w); }
A1 fine1(ARGS, const A1& data) { M; return m.mapToFine(data); }
A2 fine2(ARGS, const A2& data) { M; return m.mapToFine(data); }
A3 fine3(ARGS, const A3& data) { M; return m.mapToFine(data); }
} // namespace entry

namespace spec {
std::array<size_t, 2> factors(ARGS) { return {nx, ny}; }
std::array<size_t, 2> coarse(ARGS) { return {nelx, nely}; }
std::array<size_t, 2> fine(ARGS) { return {nelx * nx, nely * ny}; }
std::array<double, 2> size(ARGS) { return {h, h}; }
// fine cell (p, q) of coarse element (i, j): row-major
I2 map(ARGS)
{
    I2 r;
    vf::shape(r, NC, nx * ny);
    FOR(i, nely) FOR(j, nelx) FOR(k, nx * ny)
        r(i * nelx + j, k) = (i * ny + k / nx) * (nelx * nx) + j * nx + k % nx;
    return r;
}
A1 mean1(ARGS, const A1& data)
{
    I2 e = map(nelx, nely, h, nx, ny);
    A1 r;
    vf::shape(r, NC);
    FOR(c, NC)
    {
        double s = 0;
        FOR(k, nx * ny) s += data(e(c, k));
        r(c) = s / double(nx * ny);
    }
    return r;
}
A2 mean2(ARGS, const A2& data)
{
    I2 e = map(nelx, nely, h, nx, ny);
    A2 r;
    vf::shape(r, NC, data.shape(1));
    FOR(c, NC) FOR(a, data.shape(1))
    {
        double s = 0;
        FOR(k, nx * ny) s += data(e(c, k), a);
        r(c, a) = s / double(nx * ny);
    }
    return r;
}
A3 mean3(ARGS, const A3& data)
{
    I2 e = map(nelx, nely, h, nx, ny);
    A3 r;
    vf::shape(r, NC, data.shape(1), data.shape(2));
    FOR(c, NC) FOR(a, data.shape(1)) FOR(b, data.shape(2))
    {
        double s = 0;
        FOR(k, nx * ny) s += data(e(c, k), a, b);
        r(c, a, b) = s / double(nx * ny);
    }
    return r;
}
A1 average1(ARGS, const A1& data, const A1& w)
{
    I2 e = map(nelx, nely, h, nx, ny);
    A1 r;
    vf::shape(r, NC);
    FOR(c, NC)
    {
        double s = 0, n = 0;
        FOR(k, nx * ny) s += data(e(c, k)) * w(e(c, k));
        FOR(k, nx * ny) n += w(e(c, k));
        r(c) = s / n;
    }
    return r;
}
A2 average2(ARGS, const A2& data, const A2& w)
{
    I2 e = map(nelx, nely, h, nx, ny);
    A2 r;
    vf::shape(r, NC, data.shape(1));
    FOR(c, NC) FOR(a, data.shape(1))
    {
        double s = 0, n = 0;
        FOR(k, nx * ny) s += data(e(c, k), a) * w(e(c, k), a);
        FOR(k, nx * ny) n += w(e(c, k), a);
        r(c, a) = s / n;
    }
    return r;
}
A1 fine1(ARGS, const A1& data)
{
    I2 e = map(nelx, nely, h, nx, ny);
    A1 r;
    vf::shape(r, NF);
    FOR(c, NC) FOR(k, nx * ny) r(e(c, k)) = data(c);
    return r;
}
A2 fine2(ARGS, const A2& data)
{
    I2 e = map(nelx, nely, h, nx, ny);
    A2 r;
    vf::shape(r, NF, data.shape(1));
    FOR(c, NC) FOR(k, nx * ny) FOR(a, data.shape(1)) r(e(c, k), a) = data(c, a);
    return r;
}
A3 fine3(ARGS, const A3& data)
{
    I2 e = map(nelx, nely, h, nx, ny);
    A3 r;
    vf::shape(r, NF, data.shape(1), data.shape(2));
    FOR(c, NC) FOR(k, nx * ny) FOR(a, data.shape(1)) FOR(b, data.shape(2)) r(e(c, k), a, b) = data(c, a, b);
    return r;
}
} // namespace spec
