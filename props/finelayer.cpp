// flags: -fno-access-control
// FineLayer: the numbering and the look-ups, for any tables of element layers.
#include "common.h"
#include <GooseFEM/MeshQuad4.h>
using F = GooseFEM::Mesh::Quad4::FineLayer;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)

namespace pre {
void common(const F& m)
{
    const size_t n = m.m_nhy.shape(0);
    vf::assume(n >= 1);
    vf::assume(n % 2 == 1);
    vf::shape(m.m_nhx, n);
    vf::shape(m.m_refine, n);
    vf::shape(m.m_layer_nelx, n);
    vf::shape(m.m_startElem, n);
    vf::shape(m.m_startNode, n + 1);
    vf::shape(m.m_nnd, n + 1);
}
void elementsLayer(const F& m, size_t layer)
{
    common(m);
    vf::assume(layer < m.m_nhy.shape(0));
}
// ranges within the mesh
void ravelcols(const F& m, size_t c, size_t d)
{
    common(m);
    vf::assume(c <= xt::amax(m.m_layer_nelx)());
    vf::assume(d <= xt::amax(m.m_layer_nelx)());
}
void ravelrows(const F& m, size_t a, size_t b)
{
    common(m);
    vf::assume(a <= xt::sum(m.m_nhy)());
    vf::assume(b <= xt::sum(m.m_nhy)());
}
void ravel(const F& m, size_t a, size_t b, size_t c, size_t d)
{
    ravelcols(m, c, d);
    ravelrows(m, a, b);
}
} // namespace pre

namespace entry {
size_t nelem(const F& m) { READ(m); return m.nelem(); }
size_t nnode(const F& m) { READ(m); return m.nnode(); }
size_t nne(const F& m) { READ(m); return m.nne(); }
size_t ndim(const F& m) { READ(m); return m.ndim(); }
double h(const F& m) { READ(m); return m.h(); }
size_t nely(const F& m) { READ(m); return m.nely(); }
I1 elemrow_nhx(const F& m) { READ(m); return m.elemrow_nhx(); }
I1 elemrow_nhy(const F& m) { READ(m); return m.elemrow_nhy(); }
AT<int, 1> elemrow_type(const F& m) { READ(m); return m.elemrow_type(); }
I1 elemrow_nelem(const F& m) { READ(m); return m.elemrow_nelem(); }
I1 elementsMiddleLayer(const F& m) { READ(m); return m.elementsMiddleLayer(); }
I1 elementsLayer(const F& m, size_t layer) { READ(m); return m.elementsLayer(layer); }
I1 nodesBottomEdge(const F& m) { READ(m); return m.nodesBottomEdge(); }
I1 nodesTopEdge(const F& m) { READ(m); return m.nodesTopEdge(); }
I1 nodesLeftEdge(const F& m) { READ(m); return m.nodesLeftEdge(); }
I1 nodesRightEdge(const F& m) { READ(m); return m.nodesRightEdge(); }
I1 nodesBottomOpenEdge(const F& m) { READ(m); return m.nodesBottomOpenEdge(); }
I1 nodesTopOpenEdge(const F& m) { READ(m); return m.nodesTopOpenEdge(); }
I1 nodesLeftOpenEdge(const F& m) { READ(m); return m.nodesLeftOpenEdge(); }
I1 nodesRightOpenEdge(const F& m) { READ(m); return m.nodesRightOpenEdge(); }
size_t nodesBottomLeftCorner(const F& m) { READ(m); return m.nodesBottomLeftCorner(); }
size_t nodesBottomRightCorner(const F& m) { READ(m); return m.nodesBottomRightCorner(); }
size_t nodesTopLeftCorner(const F& m) { READ(m); return m.nodesTopLeftCorner(); }
size_t nodesTopRightCorner(const F& m) { READ(m); return m.nodesTopRightCorner(); }
I2 conn(const F& m) { READ(m); return m.conn(); }
A2 coor(const F& m) { READ(m); return m.coor(); }
size_t nelx(const F& m) { READ(m); return m.nelx(); }
I1 roll(const F& m, size_t shift)
{
    F c = m;
    READ(c);
    return c.roll(shift);
}
I1 ravel(const F& m, size_t a, size_t b, size_t c, size_t d) { READ(m); return m.elementgrid_ravel({a, b}, {c, d}); }
I1 ravelcols(const F& m, size_t c, size_t d) { READ(m); return m.elementgrid_ravel({}, {c, d}); }
I1 ravelrows(const F& m, size_t a, size_t b) { READ(m); return m.elementgrid_ravel({a, b}, {}); }
I1 around(const F& m, size_t e, size_t size)
{
    F c = m;
    READ(c);
    return c.elementgrid_around_ravel(e, size);
}
I1 leftright(const F& m, size_t e, size_t left, size_t right)
{
    F c = m;
    READ(c);
    return c.elementgrid_leftright(e, left, right);
}
} // namespace entry

namespace spec {
size_t nelem(const F& m) { return m.m_nelem; }
size_t nnode(const F& m) { return m.m_nnode; }
size_t nne(const F& m) { return m.m_nne; }
size_t ndim(const F& m) { return m.m_ndim; }
double h(const F& m) { return m.m_h; }
size_t nely(const F& m)
{
    size_t n = 0;
    FOR(i, m.m_nhy.shape(0)) n += m.m_nhy(i);
    return n;
}
I1 elemrow_nhx(const F& m) { return m.m_nhx; }
I1 elemrow_nhy(const F& m) { return m.m_nhy; }
AT<int, 1> elemrow_type(const F& m) { return m.m_refine; }
I1 elemrow_nelem(const F& m) { return m.m_layer_nelx; }
I1 elementsMiddleLayer(const F& m)
{
    const size_t i = (m.m_nhy.shape(0) - 1) / 2;
    I1 r;
    vf::shape(r, m.m_layer_nelx(i));
    FOR(j, m.m_layer_nelx(i)) r(j) = m.m_startElem(i) + j;
    return r;
}
I1 elementsLayer(const F& m, size_t layer)
{
    size_t n = m.m_layer_nelx(layer);
    if (m.m_refine(layer) != -1) n = 4 * m.m_layer_nelx(layer);
    I1 r;
    vf::shape(r, n);
    FOR(j, n) r(j) = m.m_startElem(layer) + j;
    return r;
}
size_t nodesBottomLeftCorner(const F& m) { return m.m_startNode(0); }
size_t nodesBottomRightCorner(const F& m) { return m.m_startNode(0) + m.m_layer_nelx(0); }
size_t nodesTopLeftCorner(const F& m) { return m.m_startNode(m.m_nhy.shape(0)); }
size_t nodesTopRightCorner(const F& m) { return m.m_startNode(m.m_nhy.shape(0)) + m.m_layer_nelx(m.m_nhy.shape(0) - 1); }
I1 nodesBottomEdge(const F& m)
{
    I1 r;
    vf::shape(r, m.m_layer_nelx(0) + 1);
    FOR(j, m.m_layer_nelx(0) + 1) r(j) = m.m_startNode(0) + j;
    return r;
}
I1 nodesTopEdge(const F& m)
{
    const size_t n = m.m_nhy.shape(0);
    I1 r;
    vf::shape(r, m.m_layer_nelx(n - 1) + 1);
    FOR(j, m.m_layer_nelx(n - 1) + 1) r(j) = m.m_startNode(n) + j;
    return r;
}
I1 nodesBottomOpenEdge(const F& m)
{
    I1 r;
    vf::shape(r, m.m_layer_nelx(0) - 1);
    FOR(j, m.m_layer_nelx(0) - 1) r(j) = m.m_startNode(0) + 1 + j;
    return r;
}
I1 nodesTopOpenEdge(const F& m)
{
    const size_t n = m.m_nhy.shape(0);
    I1 r;
    vf::shape(r, m.m_layer_nelx(n - 1) - 1);
    FOR(j, m.m_layer_nelx(n - 1) - 1) r(j) = m.m_startNode(n) + 1 + j;
    return r;
}
// left: first node of each row of nodes; right: last one; number of nodes in a row: that of the finest adjacent layer
I1 nodesLeftEdge(const F& m)
{
    const size_t n = m.m_nhy.shape(0), j = (n + 1) / 2, k = (n - 1) / 2;
    I1 r;
    vf::shape(r, n + 1);
    FOR(i, j) r(i) = m.m_startNode(i);
    FOR(i, n - k) r(k + 1 + i) = m.m_startNode(k + 1 + i);
    return r;
}
I1 nodesRightEdge(const F& m)
{
    const size_t n = m.m_nhy.shape(0), j = (n + 1) / 2, k = (n - 1) / 2;
    I1 r;
    vf::shape(r, n + 1);
    FOR(i, j) r(i) = m.m_startNode(i) + m.m_layer_nelx(i);
    FOR(i, n - k) r(k + 1 + i) = m.m_startNode(k + 1 + i) + m.m_layer_nelx(k + i);
    return r;
}
I1 nodesLeftOpenEdge(const F& m)
{
    const size_t n = m.m_nhy.shape(0), j = (n + 1) / 2, k = (n - 1) / 2;
    I1 r;
    vf::shape(r, n - 1);
    FOR(i, j - 1) r(i) = m.m_startNode(i + 1);
    FOR(i, n - 1 - k) r(k + i) = m.m_startNode(k + 1 + i);
    return r;
}
I1 nodesRightOpenEdge(const F& m)
{
    const size_t n = m.m_nhy.shape(0), j = (n + 1) / 2, k = (n - 1) / 2;
    I1 r;
    vf::shape(r, n - 1);
    FOR(i, j - 1) r(i) = m.m_startNode(i + 1) + m.m_layer_nelx(i + 1);
    FOR(i, n - 1 - k) r(k + i) = m.m_startNode(k + 1 + i) + m.m_layer_nelx(k + i);
    return r;
}
// elements: layer by layer, column by column
I2 conn(const F& m)
{
    const size_t n = m.m_nhy.shape(0);
    I2 r;
    vf::shape(r, m.m_nelem, m.m_nne);
    size_t e = 0;
    FOR(i, n)
    {
        const size_t bot = m.m_startNode(i);
        const size_t mid = m.m_startNode(i) + m.m_nnd(i);
        const size_t top = m.m_startNode(i + 1);
        if (m.m_refine(i) == -1) {
            FOR(x, m.m_layer_nelx(i))
            {
                r(e + x, 0) = bot + x;
                r(e + x, 1) = bot + x + 1;
                r(e + x, 2) = top + x + 1;
                r(e + x, 3) = top + x;
            }
            e += m.m_layer_nelx(i);
        }
        else if (m.m_refine(i) == 0 && i <= (n - 1) / 2) {
            FOR(x, m.m_layer_nelx(i))
            {
                r(e + 4 * x, 0) = bot + x;
                r(e + 4 * x, 1) = bot + x + 1;
                r(e + 4 * x, 2) = mid + 2 * x + 1;
                r(e + 4 * x, 3) = mid + 2 * x;
                r(e + 4 * x + 1, 0) = bot + x + 1;
                r(e + 4 * x + 1, 1) = top + 3 * x + 3;
                r(e + 4 * x + 1, 2) = top + 3 * x + 2;
                r(e + 4 * x + 1, 3) = mid + 2 * x + 1;
                r(e + 4 * x + 2, 0) = mid + 2 * x;
                r(e + 4 * x + 2, 1) = mid + 2 * x + 1;
                r(e + 4 * x + 2, 2) = top + 3 * x + 2;
                r(e + 4 * x + 2, 3) = top + 3 * x + 1;
                r(e + 4 * x + 3, 0) = bot + x;
                r(e + 4 * x + 3, 1) = mid + 2 * x;
                r(e + 4 * x + 3, 2) = top + 3 * x + 1;
                r(e + 4 * x + 3, 3) = top + 3 * x;
            }
            e += 4 * m.m_layer_nelx(i);
        }
        else if (m.m_refine(i) == 0) {
            FOR(x, m.m_layer_nelx(i))
            {
                r(e + 4 * x, 0) = bot + 3 * x;
                r(e + 4 * x, 1) = bot + 3 * x + 1;
                r(e + 4 * x, 2) = mid + 2 * x;
                r(e + 4 * x, 3) = top + x;
                r(e + 4 * x + 1, 0) = bot + 3 * x + 1;
                r(e + 4 * x + 1, 1) = bot + 3 * x + 2;
                r(e + 4 * x + 1, 2) = mid + 2 * x + 1;
                r(e + 4 * x + 1, 3) = mid + 2 * x;
                r(e + 4 * x + 2, 0) = bot + 3 * x + 2;
                r(e + 4 * x + 2, 1) = bot + 3 * x + 3;
                r(e + 4 * x + 2, 2) = top + x + 1;
                r(e + 4 * x + 2, 3) = mid + 2 * x + 1;
                r(e + 4 * x + 3, 0) = mid + 2 * x;
                r(e + 4 * x + 3, 1) = mid + 2 * x + 1;
                r(e + 4 * x + 3, 2) = top + x + 1;
                r(e + 4 * x + 3, 3) = top + x;
            }
            e += 4 * m.m_layer_nelx(i);
        }
    }
    return r;
}
// rows of nodes, bottom to top; in a refinement layer also the row half-way
A2 coor(const F& m)
{
    const size_t n = m.m_nhy.shape(0), mid = (n - 1) / 2;
    A2 r;
    vf::shape(r, m.m_nnode, m.m_ndim);
    A1 y;
    vf::shape(y, n + 1);
    y(0) = 0;
    FOR(i, n)
    {
        double s = 0;
        FOR(k, i + 1) s += double(m.m_nhy(k)) * m.m_h;
        y(i + 1) = s;
    }
    size_t v = 0;
    FOR(i, mid + 1)
    {
        A1 x;
        vf::shape(x, m.m_layer_nelx(i) + 1);
        FOR(k, m.m_layer_nelx(i) + 1) x(k) = double(k) * (m.m_Lx / double(m.m_layer_nelx(i)));
        FOR(k, m.m_layer_nelx(i) + 1)
        {
            r(v + k, 0) = x(k);
            r(v + k, 1) = y(i);
        }
        v += m.m_layer_nelx(i) + 1;
        if (i != mid && m.m_refine(i) == 0) {
            FOR(k, m.m_layer_nelx(i))
            {
                r(v + 2 * k, 0) = x(k) + m.m_h * double(m.m_nhx(i) / 3);
                r(v + 2 * k, 1) = y(i) + m.m_h * double(m.m_nhy(i) / 2);
                r(v + 2 * k + 1, 0) = x(k) + 2 * m.m_h * double(m.m_nhx(i) / 3);
                r(v + 2 * k + 1, 1) = y(i) + m.m_h * double(m.m_nhy(i) / 2);
            }
            v += 2 * m.m_layer_nelx(i);
        }
    }
    for (size_t i = mid; i < n; ++i) {
        A1 x;
        vf::shape(x, m.m_layer_nelx(i) + 1);
        FOR(k, m.m_layer_nelx(i) + 1) x(k) = double(k) * (m.m_Lx / double(m.m_layer_nelx(i)));
        if (m.m_refine(i) == 0) {
            FOR(k, m.m_layer_nelx(i))
            {
                r(v + 2 * k, 0) = x(k) + m.m_h * double(m.m_nhx(i) / 3);
                r(v + 2 * k, 1) = y(i) + m.m_h * double(m.m_nhy(i) / 2);
                r(v + 2 * k + 1, 0) = x(k) + 2 * m.m_h * double(m.m_nhx(i) / 3);
                r(v + 2 * k + 1, 1) = y(i) + m.m_h * double(m.m_nhy(i) / 2);
            }
            v += 2 * m.m_layer_nelx(i);
        }
        FOR(k, m.m_layer_nelx(i) + 1)
        {
            r(v + k, 0) = x(k);
            r(v + k, 1) = y(i + 1);
        }
        v += m.m_layer_nelx(i) + 1;
    }
    return r;
}
size_t nelx(const F& m) { return xt::amax(m.m_layer_nelx)(); }
// elements of a layer: cyclic, in steps of the (coarse) elements of the bottom layer
I1 roll(const F& m, size_t shift)
{
    const size_t n = m.m_nhy.shape(0);
    I1 r;
    vf::shape(r, m.m_nelem);
    FOR(i, n)
    {
        const size_t k = m.m_refine(i) != -1 ? 4 : 1;
        const size_t w = k * m.m_layer_nelx(i);
        const size_t s = shift * (m.m_layer_nelx(i) / m.m_layer_nelx(0)) * k;
        FOR(e, w) r(m.m_startElem(i) + e) = m.m_startElem(i) + (e + w - s % w) % w;
    }
    return r;
}
// elements of the blocks within rows [a, b) and columns [c, d) (in units of h), rounded to blocks
I1 ravel(const F& m, size_t a, size_t b, size_t c, size_t d)
{
    I1 r;
    if (a == b || c == d) {
        vf::shape(r, 0);
        return r;
    }
    size_t lo = 0;
    if (a > 0) lo = xt::argmax(xt::cumsum(m.m_nhy) > a)();
    const size_t up = xt::argmax(xt::cumsum(m.m_nhy) >= b)();
    const size_t w = std::max(m.m_nhx(lo), m.m_nhx(up));
    size_t n = 0;
    FOR(j, up - lo + 1)
    {
        size_t k = (d / w - c / w) * w / m.m_nhx(lo + j);
        if (m.m_refine(lo + j) != -1) k = 4 * k;
        n += k;
    }
    vf::shape(r, n);
    n = 0;
    FOR(j, up - lo + 1)
    {
        const size_t i = lo + j;
        size_t k = (d / w - c / w) * w / m.m_nhx(i);
        size_t h = w;
        if (m.m_refine(i) != -1) {
            k = 4 * k;
            h = 4 * w;
        }
        FOR(e, k) r(n + e) = m.m_startElem(i) + c / w * h / m.m_nhx(i) + e;
        n += k;
    }
    return r;
}
I1 ravelcols(const F& m, size_t c, size_t d) { return ravel(m, 0, nely(m), c, d); }
I1 ravelrows(const F& m, size_t a, size_t b) { return ravel(m, a, b, 0, nelx(m)); }
// columns [lo, up) around column mid, in blocks of dx, within [0, nel)
std::array<size_t, 2> box(size_t mid, size_t left, size_t right, size_t nel, size_t dx)
{
    size_t lo = 0, up = nel;
    if (mid >= left) lo = mid - left;
    if (mid + right < nel) up = mid + right + 1;
    lo = lo - lo % dx;
    up = up - up % dx;
    if (mid - lo < left) lo = lo < dx ? 0 : lo - dx;
    if (up - mid < right) up = up > nel - dx ? nel : up + dx;
    return {lo, up};
}
// select around the middle column of the layer, then roll such that e is there
I1 select(const F& m, size_t e, size_t iy, size_t left, size_t right, size_t dx, size_t yl, size_t yu)
{
    const size_t nel = m.m_layer_nelx(iy);
    const size_t step = xt::amax(m.m_nhx)();
    const size_t mid = (nel / step - (nel / step) % 2) / 2 * step + (e - m.m_startElem(iy)) % step;
    auto b = box(mid, left, right, nel, dx);
    I1 in = ravel(m, yl, yu, b[0], b[1]);
    I1 map = roll(m, (nel - (nel - mid + e - m.m_startElem(iy)) % nel) / step);
    return xt::view(map, xt::keep(in));
}
size_t layer(const F& m, size_t e)
{
    size_t n = 0;
    FOR(i, m.m_nhy.shape(0)) n += m.m_startElem(i) <= e ? 1 : 0;
    return n - 1;
}
size_t height(const F& m, size_t i)
{
    size_t s = 0;
    FOR(j, i + 1) s += m.m_nhy(j);
    return s;
}
I1 around(const F& m, size_t e, size_t size)
{
    const size_t n = m.m_nhy.shape(0);
    const size_t iy = layer(m, e);
    I1 r;
    if (2 * size >= height(m, n - 1)) {
        vf::shape(r, m.m_nelem);
        FOR(i, m.m_nelem) r(i) = i;
        return r;
    }
    const size_t hy = height(m, iy);
    const size_t l = xt::argmax(xt::cumsum(m.m_nhy) > (hy - size - 1))();
    const size_t u = xt::argmax(xt::cumsum(m.m_nhy) >= (hy + size))();
    size_t lh = 0;
    if (l > 0) lh = height(m, l - 1);
    return select(m, e, iy, size, size, m.m_nhx(u), lh, height(m, u));
}
I1 leftright(const F& m, size_t e, size_t left, size_t right)
{
    const size_t iy = layer(m, e);
    size_t lh = 0;
    if (iy > 0) lh = height(m, iy - 1);
    return select(m, e, iy, left, right, m.m_nhx(iy), lh, height(m, iy));
}
} // namespace spec
