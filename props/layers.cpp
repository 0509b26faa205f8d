// flags: -fno-access-control
// FineLayer: the tables that follow from the chosen element layers (the choice itself is left open).
#include "common.h"
#include <GooseFEM/MeshQuad4.h>
using F = GooseFEM::Mesh::Quad4::FineLayer;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
#define ARGS size_t nelx, size_t nely, double h, size_t nfine
#define M F m(nelx, nely, h, nfine)

namespace pre {
void common(ARGS)
{
    vf::assume(nelx >= 1);
    vf::assume(nely >= 1);
    vf::assume(h > 0);
}
} // namespace pre

namespace entry {
double edge(ARGS) { M; return m.m_h; }
double width(ARGS) { M; return m.m_Lx; }
size_t ndim(ARGS) { M; return m.m_ndim; }
size_t nne(ARGS) { M; return m.m_nne; }
I1 nhx(ARGS) { M; return m.m_nhx; }
I1 nhy(ARGS) { M; return m.m_nhy; }
AT<int, 1> refine(ARGS) { M; return m.m_refine; }
I1 layer_nelx(ARGS) { M; return m.m_layer_nelx; }
I1 nnd(ARGS) { M; return m.m_nnd; }
I1 startElem(ARGS) { M; return m.m_startElem; }
I1 startNode(ARGS) { M; return m.m_startNode; }
size_t nelem(ARGS) { M; return m.m_nelem; }
size_t nnode(ARGS) { M; return m.m_nnode; }
} // namespace entry

namespace spec {
double edge(ARGS) { return h; }
double width(ARGS) { return h * double(nelx); }
size_t ndim(ARGS) { return 2; }
size_t nne(ARGS) { return 4; }
// The element layers of the upper half: coarsen where the size in height does not exceed the distance to the
// middle, the size in width fits the mesh, and half the height is not exceeded.
struct Half {
    I1 nhx, nhy;
    AT<int, 1> refine;
    size_t n;
};
Half choose(size_t nelx, size_t nely, size_t nfine)
{
    size_t nmin, ntot;
    I1 nhx = xt::ones<size_t>({nely});
    I1 nhy = xt::ones<size_t>({nely});
    AT<int, 1> refine = -1 * xt::ones<int>({nely});
    if (nely % 2 == 0) nmin = nely / 2;
    else nmin = (nely + 1) / 2;
    size_t fine;
    if (nfine % 2 == 0) fine = nfine / 2 + 1;
    else fine = (nfine + 1) / 2;
    if (fine < 1) fine = 1;
    if (fine > nmin) fine = nmin;
    for (size_t iy = fine;;) {
        if (iy == fine) ntot = fine;
        if (iy >= nely || ntot >= nmin) { nely = iy; break; }
        if (3 * nhy(iy) <= ntot && nelx % (3 * nhx(iy)) == 0 && ntot + nhy(iy) < nmin) {
            refine(iy) = 0;
            nhy(iy) *= 2;
            auto vnhy = xt::view(nhy, xt::range(iy + 1, xt::placeholders::_));
            auto vnhx = xt::view(nhx, xt::range(iy, xt::placeholders::_));
            vnhy *= 3;
            vnhx *= 3;
        }
        ntot += nhy(iy);
        ++iy;
        if (iy >= nely || ntot >= nmin) { nely = iy; break; }
    }
    Half r;
    r.nhx = nhx;
    r.nhy = nhy;
    r.refine = refine;
    r.n = nely;
    return r;
}
// symmetric around the middle layer
template <class T>
T mirror(const T& v, size_t half)
{
    T r;
    vf::shape(r, 2 * half - 1);
    FOR(i, half) r(i) = v(half - i - 1);
    FOR(i, half - 1) r(i + half) = v(i + 1);
    return r;
}
I1 nhx(ARGS) { Half c = choose(nelx, nely, nfine); return mirror(c.nhx, c.n); }
I1 nhy(ARGS) { Half c = choose(nelx, nely, nfine); return mirror(c.nhy, c.n); }
AT<int, 1> refine(ARGS) { Half c = choose(nelx, nely, nfine); return mirror(c.refine, c.n); }
I1 layer_nelx(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    I1 r;
    vf::shape(r, n);
    FOR(i, n) r(i) = nelx / m.m_nhx(i);
    return r;
}
I1 nnd(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    I1 r;
    vf::shape(r, n + 1);
    FOR(i, (n + 1) / 2) r(i) = nelx / m.m_nhx(i) + 1;
    FOR(i, n - (n - 1) / 2) r((n - 1) / 2 + i + 1) = nelx / m.m_nhx((n - 1) / 2 + i) + 1;
    return r;
}
// elements in each layer: a layer that refines has four times its number of (coarse) elements
size_t els(const F& m, size_t nelx, size_t i)
{
    size_t k = nelx / m.m_nhx(i);
    if (m.m_refine(i) == 0) k = 4 * k;
    return k;
}
// nodes from the start of a layer to the start of the next
size_t below(const F& m, size_t nelx, size_t i)
{
    size_t k = nelx / m.m_nhx(i);
    if (m.m_refine(i) == 0) k = 3 * k;
    return k + 1;
}
size_t above(const F& m, size_t nelx, size_t i)
{
    size_t k = nelx / m.m_nhx(i);
    if (m.m_refine(i) == 0) k = 5 * k;
    return k + 1;
}
I1 startElem(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    const size_t half = (n - 1) / 2;
    I1 r;
    vf::shape(r, n);
    size_t k = 0;
    FOR(i, half) { r(i) = k; k += els(m, nelx, i); }
    FOR(i, n - half) { r(half + i) = k; k += els(m, nelx, half + i); }
    return r;
}
I1 startNode(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    const size_t half = (n - 1) / 2;
    I1 r;
    vf::shape(r, n + 1);
    size_t k = 0;
    r(0) = 0;
    FOR(i, half) { k += below(m, nelx, i); r(i + 1) = k; }
    FOR(i, n - half) { k += above(m, nelx, half + i); r(half + i + 1) = k; }
    return r;
}
size_t nelem(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    const size_t half = (n - 1) / 2;
    size_t k = 0;
    FOR(i, half) k += els(m, nelx, i);
    FOR(i, n - half) k += els(m, nelx, half + i);
    return k;
}
size_t nnode(ARGS)
{
    M;
    const size_t n = m.m_nhx.shape(0);
    const size_t half = (n - 1) / 2;
    size_t k = 0;
    FOR(i, half) k += below(m, nelx, i);
    FOR(i, n - half) k += above(m, nelx, half + i);
    return k + nelx / m.m_nhx(n - 1) + 1;
}
} // namespace spec
