// flags: -fno-access-control
// Hex8::FineLayer: the tables that follow from the chosen element layers (the choice itself is left open).
#include "common.h"
#include <GooseFEM/MeshHex8.h>
using F = GooseFEM::Mesh::Hex8::FineLayer;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
#define ARGS size_t nelx, size_t nely, size_t nelz, double h, size_t nfine
#define M F m(nelx, nely, nelz, h, nfine)

namespace pre {
void common(ARGS)
{
    vf::assume(nelx >= 1);
    vf::assume(nely >= 1);
    vf::assume(nelz >= 1);
    vf::assume(h > 0);
}
} // namespace pre

namespace entry {
double edge(ARGS) { M; return m.m_h; }
double width(ARGS) { M; return m.m_Lx; }
double depth(ARGS) { M; return m.m_Lz; }
I1 nhz(ARGS) { M; return m.m_nhz; }
I1 layer_nelz(ARGS) { M; return m.m_layer_nelz; }
size_t ndim(ARGS) { M; return m.m_ndim; }
size_t nne(ARGS) { M; return m.m_nne; }
I1 nhx(ARGS) { M; return m.m_nhx; }
I1 nhy(ARGS) { M; return m.m_nhy; }
AT<int, 1> refine(ARGS) { M; return m.m_refine; }
I1 layer_nelx(ARGS) { M; return m.m_layer_nelx; }
I1 nnd(ARGS) { M; return m.m_nnd; }
I1 startElem(ARGS) { M; return m.m_startElem; }
I1 startNode(ARGS) { M; return m.m_startNode; }
size_t nelem(ARGS) { M; return m.m_nelem; }
size_t nnode(ARGS) { M; return m.m_nnode; }
} // namespace entry

namespace spec {
double edge(ARGS) { return h; }
double width(ARGS) { return h * double(nelx); }
double depth(ARGS) { return h * double(nelz); }
size_t ndim(ARGS) { return 3; }
size_t nne(ARGS) { return 8; }
// The element layers of the upper half: coarsen along x where the height does not exceed the distance to the middle,
// the size in x fits the mesh, and half the height is not exceeded; then, in the next layer, along z if that fits too.
// Otherwise coarsen along z on the same conditions.
struct Half {
    I1 nhx, nhy, nhz;
    AT<int, 1> refine;
    size_t n;
};
Half choose(size_t nelx, size_t nely, size_t nelz, size_t nfine)
{
    using xt::placeholders::_;
    size_t nmin, ntot;
    I1 nhx = xt::ones<size_t>({nely});
    I1 nhy = xt::ones<size_t>({nely});
    I1 nhz = xt::ones<size_t>({nely});
    AT<int, 1> refine = -1 * xt::ones<int>({nely});
    if (nely % 2 == 0) nmin = nely / 2;
    else nmin = (nely + 1) / 2;
    size_t fine;
    if (nfine % 2 == 0) fine = nfine / 2 + 1;
    else fine = (nfine + 1) / 2;
    if (fine < 1) fine = 1;
    if (fine > nmin) fine = nmin;
    for (size_t iy = fine;;) {
        if (iy == fine) ntot = fine;
        if (iy >= nely || ntot >= nmin) { nely = iy; break; }
        if (3 * nhy(iy) <= ntot && nelx % (3 * nhx(iy)) == 0 && ntot + nhy(iy) < nmin) {
            refine(iy) = 0;
            nhy(iy) *= 2;
            auto vnhy = xt::view(nhy, xt::range(iy + 1, _));
            auto vnhx = xt::view(nhx, xt::range(iy, _));
            vnhy *= 3;
            vnhx *= 3;
            if (iy + 1 < nely && ntot + 2 * nhy(iy) < nmin) {
                if (nelz % (3 * nhz(iy + 1)) == 0) {
                    ntot += nhy(iy);
                    ++iy;
                    refine(iy) = 2;
                    nhy(iy) = nhy(iy - 1);
                    auto vnhz = xt::view(nhz, xt::range(iy, _));
                    vnhz *= 3;
                }
            }
        }
        else if (3 * nhy(iy) <= ntot && nelz % (3 * nhz(iy)) == 0 && ntot + nhy(iy) < nmin) {
            refine(iy) = 2;
            nhy(iy) *= 2;
            auto vnhy = xt::view(nhy, xt::range(iy + 1, _));
            auto vnhz = xt::view(nhz, xt::range(iy, _));
            vnhy *= 3;
            vnhz *= 3;
        }
        ntot += nhy(iy);
        ++iy;
        if (iy >= nely || ntot >= nmin) { nely = iy; break; }
    }
    Half r;
    r.nhx = nhx;
    r.nhy = nhy;
    r.nhz = nhz;
    r.refine = refine;
    r.n = nely;
    return r;
}
// symmetric around the middle layer
template <class T>
T mirror(const T& v, size_t half)
{
    T r;
    vf::shape(r, 2 * half - 1);
    FOR(i, half) r(i) = v(half - i - 1);
    FOR(i, half - 1) r(i + half) = v(i + 1);
    return r;
}
I1 nhx(ARGS) { Half c = choose(nelx, nely, nelz, nfine); return mirror(c.nhx, c.n); }
I1 nhz(ARGS) { Half c = choose(nelx, nely, nelz, nfine); return mirror(c.nhz, c.n); }
I1 nhy(ARGS) { Half c = choose(nelx, nely, nelz, nfine); return mirror(c.nhy, c.n); }
AT<int, 1> refine(ARGS) { Half c = choose(nelx, nely, nelz, nfine); return mirror(c.refine, c.n); }
I1 layer_nelx(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    I1 r;
    vf::shape(r, n);
    FOR(i, n) r(i) = nelx / m.m_nhx(i);
    return r;
}
I1 layer_nelz(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    I1 r;
    vf::shape(r, n);
    FOR(i, n) r(i) = nelz / m.m_nhz(i);
    return r;
}
size_t row(const F& m, size_t nelx, size_t nelz, size_t i) { return (nelx / m.m_nhx(i) + 1) * (nelz / m.m_nhz(i) + 1); }
I1 nnd(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    I1 r;
    vf::shape(r, n + 1);
    FOR(i, (n + 1) / 2) r(i) = row(m, nelx, nelz, i);
    FOR(i, n - (n - 1) / 2) r((n - 1) / 2 + i + 1) = row(m, nelx, nelz, (n - 1) / 2 + i);
    return r;
}
// elements in each layer: a layer that refines has four times its number of (coarse) elements
size_t els(const F& m, size_t nelx, size_t nelz, size_t i)
{
    const size_t x = nelx / m.m_nhx(i), z = nelz / m.m_nhz(i);
    if (m.m_refine(i) == 0) return 4 * x * z;
    if (m.m_refine(i) == 2) return 4 * x * z;
    return x * z;
}
// nodes from the start of a layer to the start of the next
size_t below(const F& m, size_t nelx, size_t nelz, size_t i)
{
    const size_t x = nelx / m.m_nhx(i), z = nelz / m.m_nhz(i);
    if (m.m_refine(i) == 0) return (3 * x + 1) * (z + 1);
    if (m.m_refine(i) == 2) return (x + 1) * (3 * z + 1);
    return (x + 1) * (z + 1);
}
size_t above(const F& m, size_t nelx, size_t nelz, size_t i)
{
    const size_t x = nelx / m.m_nhx(i), z = nelz / m.m_nhz(i);
    if (m.m_refine(i) == 0) return (5 * x + 1) * (z + 1);
    if (m.m_refine(i) == 2) return (x + 1) * (5 * z + 1);
    return (x + 1) * (z + 1);
}
I1 startElem(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    const size_t half = (n - 1) / 2;
    I1 r;
    vf::shape(r, n);
    size_t k = 0;
    FOR(i, half) { r(i) = k; k += els(m, nelx, nelz, i); }
    FOR(i, n - half) { r(half + i) = k; k += els(m, nelx, nelz, half + i); }
    return r;
}
I1 startNode(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    const size_t half = (n - 1) / 2;
    I1 r;
    vf::shape(r, n + 1);
    size_t k = 0;
    r(0) = 0;
    FOR(i, half) { k += below(m, nelx, nelz, i); r(i + 1) = k; }
    FOR(i, n - half) { k += above(m, nelx, nelz, half + i); r(half + i + 1) = k; }
    return r;
}
size_t nelem(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    const size_t half = (n - 1) / 2;
    size_t k = 0;
    FOR(i, half) k += els(m, nelx, nelz, i);
    FOR(i, n - half) k += els(m, nelx, nelz, half + i);
    return k;
}
size_t nnode(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    const size_t half = (n - 1) / 2;
    size_t k = 0;
    FOR(i, half) k += below(m, nelx, nelz, i);
    FOR(i, n - half) k += above(m, nelx, nelz, half + i);
    return k + row(m, nelx, nelz, n - 1);
}
} // namespace spec
