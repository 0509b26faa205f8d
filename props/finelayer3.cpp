// flags: -fno-access-control
// Hex8::FineLayer: the numbering and the sets of nodes, for any tables of element layers.
#include "common.h"
#include <GooseFEM/MeshHex8.h>
using F = GooseFEM::Mesh::Hex8::FineLayer;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
#define NX m.m_layer_nelx
#define NZ m.m_layer_nelz
#define START m.m_startNode
#define ROWS const size_t n = m.m_nhy.shape(0), mid = (n - 1) / 2; (void)mid

namespace pre {
void common(const F& m)
{
    const size_t n = m.m_nhy.shape(0);
    vf::assume(n >= 1);
    vf::assume(n % 2 == 1);
    vf::shape(m.m_nhx, n);
    vf::shape(m.m_nhz, n);
    vf::shape(m.m_refine, n);
    vf::shape(m.m_layer_nelx, n);
    vf::shape(m.m_layer_nelz, n);
    vf::shape(m.m_startElem, n);
    vf::shape(m.m_startNode, n + 1);
    vf::shape(m.m_nnd, n + 1);
}
} // namespace pre

namespace entry {
size_t nelem(const F& m) { READ(m); return m.nelem(); }
size_t nnode(const F& m) { READ(m); return m.nnode(); }
size_t nne(const F& m) { READ(m); return m.nne(); }
size_t ndim(const F& m) { READ(m); return m.ndim(); }
double h(const F& m) { READ(m); return m.h(); }
size_t nelx(const F& m) { READ(m); return m.nelx(); }
size_t nely(const F& m) { READ(m); return m.nely(); }
size_t nelz(const F& m) { READ(m); return m.nelz(); }
int elementType(const F& m) { READ(m); return static_cast<int>(m.elementType()); }
I1 elementsMiddleLayer(const F& m) { READ(m); return m.elementsMiddleLayer(); }
I2 conn(const F& m) { READ(m); return m.conn(); }
A2 coor(const F& m) { READ(m); return m.coor(); }
I1 nodesFront(const F& m) { READ(m); return m.nodesFront(); }
I1 nodesFrontFace(const F& m) { READ(m); return m.nodesFrontFace(); }
I1 nodesBack(const F& m) { READ(m); return m.nodesBack(); }
I1 nodesBackFace(const F& m) { READ(m); return m.nodesBackFace(); }
I1 nodesLeft(const F& m) { READ(m); return m.nodesLeft(); }
I1 nodesLeftFace(const F& m) { READ(m); return m.nodesLeftFace(); }
I1 nodesRight(const F& m) { READ(m); return m.nodesRight(); }
I1 nodesRightFace(const F& m) { READ(m); return m.nodesRightFace(); }
I1 nodesBottom(const F& m) { READ(m); return m.nodesBottom(); }
I1 nodesBottomFace(const F& m) { READ(m); return m.nodesBottomFace(); }
I1 nodesTop(const F& m) { READ(m); return m.nodesTop(); }
I1 nodesTopFace(const F& m) { READ(m); return m.nodesTopFace(); }
I1 nodesFrontBottomEdge(const F& m) { READ(m); return m.nodesFrontBottomEdge(); }
I1 nodesFrontTopEdge(const F& m) { READ(m); return m.nodesFrontTopEdge(); }
I1 nodesFrontLeftEdge(const F& m) { READ(m); return m.nodesFrontLeftEdge(); }
I1 nodesFrontRightEdge(const F& m) { READ(m); return m.nodesFrontRightEdge(); }
I1 nodesBackBottomEdge(const F& m) { READ(m); return m.nodesBackBottomEdge(); }
I1 nodesBackTopEdge(const F& m) { READ(m); return m.nodesBackTopEdge(); }
I1 nodesBackLeftEdge(const F& m) { READ(m); return m.nodesBackLeftEdge(); }
I1 nodesBackRightEdge(const F& m) { READ(m); return m.nodesBackRightEdge(); }
I1 nodesBottomLeftEdge(const F& m) { READ(m); return m.nodesBottomLeftEdge(); }
I1 nodesBottomRightEdge(const F& m) { READ(m); return m.nodesBottomRightEdge(); }
I1 nodesTopLeftEdge(const F& m) { READ(m); return m.nodesTopLeftEdge(); }
I1 nodesTopRightEdge(const F& m) { READ(m); return m.nodesTopRightEdge(); }
I1 nodesFrontBottomOpenEdge(const F& m) { READ(m); return m.nodesFrontBottomOpenEdge(); }
I1 nodesFrontTopOpenEdge(const F& m) { READ(m); return m.nodesFrontTopOpenEdge(); }
I1 nodesFrontLeftOpenEdge(const F& m) { READ(m); return m.nodesFrontLeftOpenEdge(); }
I1 nodesFrontRightOpenEdge(const F& m) { READ(m); return m.nodesFrontRightOpenEdge(); }
I1 nodesBackBottomOpenEdge(const F& m) { READ(m); return m.nodesBackBottomOpenEdge(); }
I1 nodesBackTopOpenEdge(const F& m) { READ(m); return m.nodesBackTopOpenEdge(); }
I1 nodesBackLeftOpenEdge(const F& m) { READ(m); return m.nodesBackLeftOpenEdge(); }
I1 nodesBackRightOpenEdge(const F& m) { READ(m); return m.nodesBackRightOpenEdge(); }
I1 nodesBottomLeftOpenEdge(const F& m) { READ(m); return m.nodesBottomLeftOpenEdge(); }
I1 nodesBottomRightOpenEdge(const F& m) { READ(m); return m.nodesBottomRightOpenEdge(); }
I1 nodesTopLeftOpenEdge(const F& m) { READ(m); return m.nodesTopLeftOpenEdge(); }
I1 nodesTopRightOpenEdge(const F& m) { READ(m); return m.nodesTopRightOpenEdge(); }
size_t nodesFrontBottomLeftCorner(const F& m) { READ(m); return m.nodesFrontBottomLeftCorner(); }
size_t nodesFrontBottomRightCorner(const F& m) { READ(m); return m.nodesFrontBottomRightCorner(); }
size_t nodesFrontTopLeftCorner(const F& m) { READ(m); return m.nodesFrontTopLeftCorner(); }
size_t nodesFrontTopRightCorner(const F& m) { READ(m); return m.nodesFrontTopRightCorner(); }
size_t nodesBackBottomLeftCorner(const F& m) { READ(m); return m.nodesBackBottomLeftCorner(); }
size_t nodesBackBottomRightCorner(const F& m) { READ(m); return m.nodesBackBottomRightCorner(); }
size_t nodesBackTopLeftCorner(const F& m) { READ(m); return m.nodesBackTopLeftCorner(); }
size_t nodesBackTopRightCorner(const F& m) { READ(m); return m.nodesBackTopRightCorner(); }
} // namespace entry

namespace spec {
size_t nelem(const F& m) { return m.m_nelem; }
size_t nnode(const F& m) { return m.m_nnode; }
size_t nne(const F& m) { return m.m_nne; }
size_t ndim(const F& m) { return m.m_ndim; }
double h(const F& m) { return m.m_h; }
size_t nelx(const F& m) { return xt::amax(m.m_layer_nelx)(); }
size_t nelz(const F& m) { return xt::amax(m.m_layer_nelz)(); }
size_t nely(const F& m)
{
    size_t n = 0;
    FOR(i, m.m_nhy.shape(0)) n += m.m_nhy(i);
    return n;
}
int elementType(const F& m) { return static_cast<int>(GooseFEM::Mesh::ElementType::Hex8); }
I1 elementsMiddleLayer(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(mid) * NZ(mid));
    FOR(x, NX(mid)) FOR(z, NZ(mid)) r(x + z * NX(mid)) = m.m_startElem(mid) + x + z * NX(mid);
    return r;
}
// Rows of nodes per layer of elements: bottom half "row, extra", top half "extra, row". The extra rows of a layer
// that refines in x: (nz + 1) x (2 nx), in z: (2 nz) x (nx + 1). The top row of layer i starts at START(i + 1).

I1 nodesFront(const F& m)
{
    ROWS;
    size_t c = 0;
    for (size_t i = 0; i < (n + 1) / 2; ++i) c += m.m_refine(i) == 0 ? NX(i) * 3 + 1 : NX(i) + 1;
    for (size_t i = mid; i < n; ++i) c += m.m_refine(i) == 0 ? NX(i) * 3 + 1 : NX(i) + 1;
    I1 r;
    vf::shape(r, c);
    size_t j = 0;
    for (size_t i = 0; i < (n + 1) / 2; ++i) {
        FOR(k, NX(i) + 1) r(j + k) = START(i) + 0 + k;
        j += NX(i) + 1;
        if (m.m_refine(i) == 0) {
            FOR(k, 2 * NX(i)) r(j + k) = START(i) + m.m_nnd(i) + k;
            j += 2 * NX(i);
        }
    }
    for (size_t i = mid; i < n; ++i) {
        if (m.m_refine(i) == 0) {
            FOR(k, 2 * NX(i)) r(j + k) = START(i) + m.m_nnd(i) + k;
            j += 2 * NX(i);
        }
        FOR(k, NX(i) + 1) r(j + k) = START(i + 1) + 0 + k;
        j += NX(i) + 1;
    }
    return r;
}
I1 nodesFrontFace(const F& m)
{
    ROWS;
    size_t c = 0;
    for (size_t i = 1; i < (n + 1) / 2; ++i) c += m.m_refine(i) == 0 ? NX(i) * 3 - 1 : NX(i) - 1;
    for (size_t i = mid; i < n - 1; ++i) c += m.m_refine(i) == 0 ? NX(i) * 3 - 1 : NX(i) - 1;
    I1 r;
    vf::shape(r, c);
    size_t j = 0;
    for (size_t i = 1; i < (n + 1) / 2; ++i) {
        FOR(k, NX(i) - 1) r(j + k) = START(i) + 1 + k;
        j += NX(i) - 1;
        if (m.m_refine(i) == 0) {
            FOR(k, 2 * NX(i)) r(j + k) = START(i) + m.m_nnd(i) + k;
            j += 2 * NX(i);
        }
    }
    for (size_t i = mid; i < n - 1; ++i) {
        if (m.m_refine(i) == 0) {
            FOR(k, 2 * NX(i)) r(j + k) = START(i) + m.m_nnd(i) + k;
            j += 2 * NX(i);
        }
        FOR(k, NX(i) - 1) r(j + k) = START(i + 1) + 1 + k;
        j += NX(i) - 1;
    }
    return r;
}
I1 nodesBack(const F& m)
{
    ROWS;
    size_t c = 0;
    for (size_t i = 0; i < (n + 1) / 2; ++i) c += m.m_refine(i) == 0 ? NX(i) * 3 + 1 : NX(i) + 1;
    for (size_t i = mid; i < n; ++i) c += m.m_refine(i) == 0 ? NX(i) * 3 + 1 : NX(i) + 1;
    I1 r;
    vf::shape(r, c);
    size_t j = 0;
    for (size_t i = 0; i < (n + 1) / 2; ++i) {
        FOR(k, NX(i) + 1) r(j + k) = START(i) + 0 + k + (NX(i) + 1) * NZ(i);
        j += NX(i) + 1;
        if (m.m_refine(i) == 0) {
            FOR(k, 2 * NX(i)) r(j + k) = START(i) + m.m_nnd(i) + k + 2 * NX(i) * NZ(i);
            j += 2 * NX(i);
        }
    }
    for (size_t i = mid; i < n; ++i) {
        if (m.m_refine(i) == 0) {
            FOR(k, 2 * NX(i)) r(j + k) = START(i) + m.m_nnd(i) + k + 2 * NX(i) * NZ(i);
            j += 2 * NX(i);
        }
        FOR(k, NX(i) + 1) r(j + k) = START(i + 1) + 0 + k + (NX(i) + 1) * NZ(i);
        j += NX(i) + 1;
    }
    return r;
}
I1 nodesBackFace(const F& m)
{
    ROWS;
    size_t c = 0;
    for (size_t i = 1; i < (n + 1) / 2; ++i) c += m.m_refine(i) == 0 ? NX(i) * 3 - 1 : NX(i) - 1;
    for (size_t i = mid; i < n - 1; ++i) c += m.m_refine(i) == 0 ? NX(i) * 3 - 1 : NX(i) - 1;
    I1 r;
    vf::shape(r, c);
    size_t j = 0;
    for (size_t i = 1; i < (n + 1) / 2; ++i) {
        FOR(k, NX(i) - 1) r(j + k) = START(i) + 1 + k + (NX(i) + 1) * NZ(i);
        j += NX(i) - 1;
        if (m.m_refine(i) == 0) {
            FOR(k, 2 * NX(i)) r(j + k) = START(i) + m.m_nnd(i) + k + 2 * NX(i) * NZ(i);
            j += 2 * NX(i);
        }
    }
    for (size_t i = mid; i < n - 1; ++i) {
        if (m.m_refine(i) == 0) {
            FOR(k, 2 * NX(i)) r(j + k) = START(i) + m.m_nnd(i) + k + 2 * NX(i) * NZ(i);
            j += 2 * NX(i);
        }
        FOR(k, NX(i) - 1) r(j + k) = START(i + 1) + 1 + k + (NX(i) + 1) * NZ(i);
        j += NX(i) - 1;
    }
    return r;
}
I1 nodesLeft(const F& m)
{
    ROWS;
    size_t c = 0;
    for (size_t i = 0; i < (n + 1) / 2; ++i) c += m.m_refine(i) == 2 ? NZ(i) * 3 + 1 : NZ(i) + 1;
    for (size_t i = mid; i < n; ++i) c += m.m_refine(i) == 2 ? NZ(i) * 3 + 1 : NZ(i) + 1;
    I1 r;
    vf::shape(r, c);
    size_t j = 0;
    for (size_t i = 0; i < (n + 1) / 2; ++i) {
        FOR(k, NZ(i) + 1) r(j + k) = START(i) + (0 + k) * (NX(i) + 1);
        j += NZ(i) + 1;
        if (m.m_refine(i) == 2) {
            FOR(k, 2 * NZ(i)) r(j + k) = START(i) + m.m_nnd(i) + k * (NX(i) + 1);
            j += 2 * NZ(i);
        }
    }
    for (size_t i = mid; i < n; ++i) {
        if (m.m_refine(i) == 2) {
            FOR(k, 2 * NZ(i)) r(j + k) = START(i) + m.m_nnd(i) + k * (NX(i) + 1);
            j += 2 * NZ(i);
        }
        FOR(k, NZ(i) + 1) r(j + k) = START(i + 1) + (0 + k) * (NX(i) + 1);
        j += NZ(i) + 1;
    }
    return r;
}
I1 nodesLeftFace(const F& m)
{
    ROWS;
    size_t c = 0;
    for (size_t i = 1; i < (n + 1) / 2; ++i) c += m.m_refine(i) == 2 ? NZ(i) * 3 - 1 : NZ(i) - 1;
    for (size_t i = mid; i < n - 1; ++i) c += m.m_refine(i) == 2 ? NZ(i) * 3 - 1 : NZ(i) - 1;
    I1 r;
    vf::shape(r, c);
    size_t j = 0;
    for (size_t i = 1; i < (n + 1) / 2; ++i) {
        FOR(k, NZ(i) - 1) r(j + k) = START(i) + (1 + k) * (NX(i) + 1);
        j += NZ(i) - 1;
        if (m.m_refine(i) == 2) {
            FOR(k, 2 * NZ(i)) r(j + k) = START(i) + m.m_nnd(i) + k * (NX(i) + 1);
            j += 2 * NZ(i);
        }
    }
    for (size_t i = mid; i < n - 1; ++i) {
        if (m.m_refine(i) == 2) {
            FOR(k, 2 * NZ(i)) r(j + k) = START(i) + m.m_nnd(i) + k * (NX(i) + 1);
            j += 2 * NZ(i);
        }
        FOR(k, NZ(i) - 1) r(j + k) = START(i + 1) + (1 + k) * (NX(i) + 1);
        j += NZ(i) - 1;
    }
    return r;
}
I1 nodesRight(const F& m)
{
    ROWS;
    size_t c = 0;
    for (size_t i = 0; i < (n + 1) / 2; ++i) c += m.m_refine(i) == 2 ? NZ(i) * 3 + 1 : NZ(i) + 1;
    for (size_t i = mid; i < n; ++i) c += m.m_refine(i) == 2 ? NZ(i) * 3 + 1 : NZ(i) + 1;
    I1 r;
    vf::shape(r, c);
    size_t j = 0;
    for (size_t i = 0; i < (n + 1) / 2; ++i) {
        FOR(k, NZ(i) + 1) r(j + k) = START(i) + (0 + k) * (NX(i) + 1) + NX(i);
        j += NZ(i) + 1;
        if (m.m_refine(i) == 2) {
            FOR(k, 2 * NZ(i)) r(j + k) = START(i) + m.m_nnd(i) + k * (NX(i) + 1) + NX(i);
            j += 2 * NZ(i);
        }
    }
    for (size_t i = mid; i < n; ++i) {
        if (m.m_refine(i) == 2) {
            FOR(k, 2 * NZ(i)) r(j + k) = START(i) + m.m_nnd(i) + k * (NX(i) + 1) + NX(i);
            j += 2 * NZ(i);
        }
        FOR(k, NZ(i) + 1) r(j + k) = START(i + 1) + (0 + k) * (NX(i) + 1) + NX(i);
        j += NZ(i) + 1;
    }
    return r;
}
I1 nodesRightFace(const F& m)
{
    ROWS;
    size_t c = 0;
    for (size_t i = 1; i < (n + 1) / 2; ++i) c += m.m_refine(i) == 2 ? NZ(i) * 3 - 1 : NZ(i) - 1;
    for (size_t i = mid; i < n - 1; ++i) c += m.m_refine(i) == 2 ? NZ(i) * 3 - 1 : NZ(i) - 1;
    I1 r;
    vf::shape(r, c);
    size_t j = 0;
    for (size_t i = 1; i < (n + 1) / 2; ++i) {
        FOR(k, NZ(i) - 1) r(j + k) = START(i) + (1 + k) * (NX(i) + 1) + NX(i);
        j += NZ(i) - 1;
        if (m.m_refine(i) == 2) {
            FOR(k, 2 * NZ(i)) r(j + k) = START(i) + m.m_nnd(i) + k * (NX(i) + 1) + NX(i);
            j += 2 * NZ(i);
        }
    }
    for (size_t i = mid; i < n - 1; ++i) {
        if (m.m_refine(i) == 2) {
            FOR(k, 2 * NZ(i)) r(j + k) = START(i) + m.m_nnd(i) + k * (NX(i) + 1) + NX(i);
            j += 2 * NZ(i);
        }
        FOR(k, NZ(i) - 1) r(j + k) = START(i + 1) + (1 + k) * (NX(i) + 1) + NX(i);
        j += NZ(i) - 1;
    }
    return r;
}
I1 nodesBottom(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, m.m_nnd(n));
    FOR(x, NX(0) + 1) FOR(z, NZ(0) + 1) r(x * (NZ(0) + 1) + z) = START(0) + x + z * (NX(0) + 1);
    return r;
}
I1 nodesBottomFace(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, (NX(0) - 1) * (NZ(0) - 1));
    FOR(x, NX(0) - 1) FOR(z, NZ(0) - 1) r(x * (NZ(0) - 1) + z) = START(0) + 1 + x + (z + 1) * (NX(0) + 1);
    return r;
}
I1 nodesTop(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, m.m_nnd(n));
    FOR(x, NX(n - 1) + 1) FOR(z, NZ(n - 1) + 1) r(x * (NZ(n - 1) + 1) + z) = START(n) + x + z * (NX(n - 1) + 1);
    return r;
}
I1 nodesTopFace(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, (NX(n - 1) - 1) * (NZ(n - 1) - 1));
    FOR(x, NX(n - 1) - 1) FOR(z, NZ(n - 1) - 1) r(x * (NZ(n - 1) - 1) + z) = START(n) + 1 + x + (z + 1) * (NX(n - 1) + 1);
    return r;
}
I1 nodesFrontBottomEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(0) + 1);
    FOR(k, NX(0) + 1) r(k) = START(0) + k + 0;
    return r;
}
I1 nodesFrontBottomOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(0) - 1);
    FOR(k, NX(0) - 1) r(k) = START(0) + k + 1 + 0;
    return r;
}
I1 nodesFrontTopEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(n - 1) + 1);
    FOR(k, NX(n - 1) + 1) r(k) = START(n) + k + 0;
    return r;
}
I1 nodesFrontTopOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(n - 1) - 1);
    FOR(k, NX(n - 1) - 1) r(k) = START(n) + k + 1 + 0;
    return r;
}
I1 nodesFrontLeftEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, n + 1);
    for (size_t i = 0; i < (n + 1) / 2; ++i) r(i) = START(i) + 0 + 0;
    for (size_t i = mid; i < n; ++i) r(i + 1) = START(i + 1) + 0 + 0;
    return r;
}
I1 nodesFrontLeftOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, n - 1);
    for (size_t i = 1; i < (n + 1) / 2; ++i) r(i - 1) = START(i) + 0 + 0;
    for (size_t i = mid; i < n - 1; ++i) r(i) = START(i + 1) + 0 + 0;
    return r;
}
I1 nodesFrontRightEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, n + 1);
    for (size_t i = 0; i < (n + 1) / 2; ++i) r(i) = START(i) + NX(i) + 0;
    for (size_t i = mid; i < n; ++i) r(i + 1) = START(i + 1) + NX(i) + 0;
    return r;
}
I1 nodesFrontRightOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, n - 1);
    for (size_t i = 1; i < (n + 1) / 2; ++i) r(i - 1) = START(i) + NX(i) + 0;
    for (size_t i = mid; i < n - 1; ++i) r(i) = START(i + 1) + NX(i) + 0;
    return r;
}
I1 nodesBackBottomEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(0) + 1);
    FOR(k, NX(0) + 1) r(k) = START(0) + k + (NX(0) + 1) * NZ(0);
    return r;
}
I1 nodesBackBottomOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(0) - 1);
    FOR(k, NX(0) - 1) r(k) = START(0) + k + 1 + (NX(0) + 1) * NZ(0);
    return r;
}
I1 nodesBackTopEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(n - 1) + 1);
    FOR(k, NX(n - 1) + 1) r(k) = START(n) + k + (NX(n - 1) + 1) * NZ(n - 1);
    return r;
}
I1 nodesBackTopOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NX(n - 1) - 1);
    FOR(k, NX(n - 1) - 1) r(k) = START(n) + k + 1 + (NX(n - 1) + 1) * NZ(n - 1);
    return r;
}
I1 nodesBackLeftEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, n + 1);
    for (size_t i = 0; i < (n + 1) / 2; ++i) r(i) = START(i) + 0 + (NX(i) + 1) * NZ(i);
    for (size_t i = mid; i < n; ++i) r(i + 1) = START(i + 1) + 0 + (NX(i) + 1) * NZ(i);
    return r;
}
I1 nodesBackLeftOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, n - 1);
    for (size_t i = 1; i < (n + 1) / 2; ++i) r(i - 1) = START(i) + 0 + (NX(i) + 1) * NZ(i);
    for (size_t i = mid; i < n - 1; ++i) r(i) = START(i + 1) + 0 + (NX(i) + 1) * NZ(i);
    return r;
}
I1 nodesBackRightEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, n + 1);
    for (size_t i = 0; i < (n + 1) / 2; ++i) r(i) = START(i) + NX(i) + (NX(i) + 1) * NZ(i);
    for (size_t i = mid; i < n; ++i) r(i + 1) = START(i + 1) + NX(i) + (NX(i) + 1) * NZ(i);
    return r;
}
I1 nodesBackRightOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, n - 1);
    for (size_t i = 1; i < (n + 1) / 2; ++i) r(i - 1) = START(i) + NX(i) + (NX(i) + 1) * NZ(i);
    for (size_t i = mid; i < n - 1; ++i) r(i) = START(i + 1) + NX(i) + (NX(i) + 1) * NZ(i);
    return r;
}
I1 nodesBottomLeftEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NZ(0) + 1);
    FOR(k, NZ(0) + 1) r(k) = START(0) + 0 + (k) * (NX(0) + 1);
    return r;
}
I1 nodesBottomLeftOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NZ(0) - 1);
    FOR(k, NZ(0) - 1) r(k) = START(0) + 0 + (k + 1) * (NX(0) + 1);
    return r;
}
I1 nodesBottomRightEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NZ(0) + 1);
    FOR(k, NZ(0) + 1) r(k) = START(0) + NX(0) + (k) * (NX(0) + 1);
    return r;
}
I1 nodesBottomRightOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NZ(0) - 1);
    FOR(k, NZ(0) - 1) r(k) = START(0) + NX(0) + (k + 1) * (NX(0) + 1);
    return r;
}
I1 nodesTopLeftEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NZ(n - 1) + 1);
    FOR(k, NZ(n - 1) + 1) r(k) = START(n) + 0 + (k) * (NX(n - 1) + 1);
    return r;
}
I1 nodesTopLeftOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NZ(n - 1) - 1);
    FOR(k, NZ(n - 1) - 1) r(k) = START(n) + 0 + (k + 1) * (NX(n - 1) + 1);
    return r;
}
I1 nodesTopRightEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NZ(n - 1) + 1);
    FOR(k, NZ(n - 1) + 1) r(k) = START(n) + NX(n - 1) + (k) * (NX(n - 1) + 1);
    return r;
}
I1 nodesTopRightOpenEdge(const F& m)
{
    ROWS;
    I1 r;
    vf::shape(r, NZ(n - 1) - 1);
    FOR(k, NZ(n - 1) - 1) r(k) = START(n) + NX(n - 1) + (k + 1) * (NX(n - 1) + 1);
    return r;
}
size_t nodesFrontBottomLeftCorner(const F& m) { ROWS; return START(0) + 0 + 0; }
size_t nodesFrontBottomRightCorner(const F& m) { ROWS; return START(0) + NX(0) + 0; }
size_t nodesFrontTopLeftCorner(const F& m) { ROWS; return START(n) + 0 + 0; }
size_t nodesFrontTopRightCorner(const F& m) { ROWS; return START(n) + NX(n - 1) + 0; }
size_t nodesBackBottomLeftCorner(const F& m) { ROWS; return START(0) + 0 + (NX(0) + 1) * NZ(0); }
size_t nodesBackBottomRightCorner(const F& m) { ROWS; return START(0) + NX(0) + (NX(0) + 1) * NZ(0); }
size_t nodesBackTopLeftCorner(const F& m) { ROWS; return START(n) + 0 + (NX(n - 1) + 1) * NZ(n - 1); }
size_t nodesBackTopRightCorner(const F& m) { ROWS; return START(n) + NX(n - 1) + (NX(n - 1) + 1) * NZ(n - 1); }
// corners of an element: position p in the layers bot (b), mid (m) and top (t), with offset (x, z) in that layer
I2 conn(const F& m)
{
    ROWS;
    I2 r;
    vf::shape(r, m.m_nelem, m.m_nne);
    size_t e = 0;
    FOR(i, n)
    {
        const size_t bot = START(i);
        const size_t ext = START(i) + m.m_nnd(i);
        const size_t top = START(i + 1);
        const size_t nx = NX(i);
        const size_t nz = NZ(i);
        if (m.m_refine(i) == -1) {
            FOR(z, nz) FOR(x, nx)
            {
                const size_t f = e + 1 * (z * nx + x);
                r(f + 0, 0) = bot + (x) + (z) * (nx + 1);
                r(f + 0, 1) = bot + (x + 1) + (z) * (nx + 1);
                r(f + 0, 2) = top + (x + 1) + (z) * (nx + 1);
                r(f + 0, 3) = top + (x) + (z) * (nx + 1);
                r(f + 0, 4) = bot + (x) + (z + 1) * (nx + 1);
                r(f + 0, 5) = bot + (x + 1) + (z + 1) * (nx + 1);
                r(f + 0, 6) = top + (x + 1) + (z + 1) * (nx + 1);
                r(f + 0, 7) = top + (x) + (z + 1) * (nx + 1);
            }
            e += 1 * (nx * nz);
        }
        else if (m.m_refine(i) == 0 && i <= mid) {
            FOR(z, nz) FOR(x, nx)
            {
                const size_t f = e + 4 * (z * nx + x);
                r(f + 0, 0) = bot + (x + 0) + (z) * (nx + 1);
                r(f + 0, 1) = bot + (x + 1) + (z) * (nx + 1);
                r(f + 0, 2) = ext + (2 * x + 1) + (z) * (2 * nx);
                r(f + 0, 3) = ext + (2 * x + 0) + (z) * (2 * nx);
                r(f + 0, 4) = bot + (x + 0) + (z + 1) * (nx + 1);
                r(f + 0, 5) = bot + (x + 1) + (z + 1) * (nx + 1);
                r(f + 0, 6) = ext + (2 * x + 1) + (z + 1) * (2 * nx);
                r(f + 0, 7) = ext + (2 * x + 0) + (z + 1) * (2 * nx);
                r(f + 1, 0) = bot + (x + 1) + (z) * (nx + 1);
                r(f + 1, 1) = top + (3 * x + 3) + (z) * (3 * nx + 1);
                r(f + 1, 2) = top + (3 * x + 2) + (z) * (3 * nx + 1);
                r(f + 1, 3) = ext + (2 * x + 1) + (z) * (2 * nx);
                r(f + 1, 4) = bot + (x + 1) + (z + 1) * (nx + 1);
                r(f + 1, 5) = top + (3 * x + 3) + (z + 1) * (3 * nx + 1);
                r(f + 1, 6) = top + (3 * x + 2) + (z + 1) * (3 * nx + 1);
                r(f + 1, 7) = ext + (2 * x + 1) + (z + 1) * (2 * nx);
                r(f + 2, 0) = ext + (2 * x + 0) + (z) * (2 * nx);
                r(f + 2, 1) = ext + (2 * x + 1) + (z) * (2 * nx);
                r(f + 2, 2) = top + (3 * x + 2) + (z) * (3 * nx + 1);
                r(f + 2, 3) = top + (3 * x + 1) + (z) * (3 * nx + 1);
                r(f + 2, 4) = ext + (2 * x + 0) + (z + 1) * (2 * nx);
                r(f + 2, 5) = ext + (2 * x + 1) + (z + 1) * (2 * nx);
                r(f + 2, 6) = top + (3 * x + 2) + (z + 1) * (3 * nx + 1);
                r(f + 2, 7) = top + (3 * x + 1) + (z + 1) * (3 * nx + 1);
                r(f + 3, 0) = bot + (x + 0) + (z) * (nx + 1);
                r(f + 3, 1) = ext + (2 * x + 0) + (z) * (2 * nx);
                r(f + 3, 2) = top + (3 * x + 1) + (z) * (3 * nx + 1);
                r(f + 3, 3) = top + (3 * x + 0) + (z) * (3 * nx + 1);
                r(f + 3, 4) = bot + (x + 0) + (z + 1) * (nx + 1);
                r(f + 3, 5) = ext + (2 * x + 0) + (z + 1) * (2 * nx);
                r(f + 3, 6) = top + (3 * x + 1) + (z + 1) * (3 * nx + 1);
                r(f + 3, 7) = top + (3 * x + 0) + (z + 1) * (3 * nx + 1);
            }
            e += 4 * (nx * nz);
        }
        else if (m.m_refine(i) == 0 && i > mid) {
            FOR(z, nz) FOR(x, nx)
            {
                const size_t f = e + 4 * (z * nx + x);
                r(f + 0, 0) = bot + (3 * x + 0) + (z) * (3 * nx + 1);
                r(f + 0, 1) = bot + (3 * x + 1) + (z) * (3 * nx + 1);
                r(f + 0, 2) = ext + (2 * x + 0) + (z) * (2 * nx);
                r(f + 0, 3) = top + (x + 0) + (z) * (nx + 1);
                r(f + 0, 4) = bot + (3 * x + 0) + (z + 1) * (3 * nx + 1);
                r(f + 0, 5) = bot + (3 * x + 1) + (z + 1) * (3 * nx + 1);
                r(f + 0, 6) = ext + (2 * x + 0) + (z + 1) * (2 * nx);
                r(f + 0, 7) = top + (x + 0) + (z + 1) * (nx + 1);
                r(f + 1, 0) = bot + (3 * x + 1) + (z) * (3 * nx + 1);
                r(f + 1, 1) = bot + (3 * x + 2) + (z) * (3 * nx + 1);
                r(f + 1, 2) = ext + (2 * x + 1) + (z) * (2 * nx);
                r(f + 1, 3) = ext + (2 * x + 0) + (z) * (2 * nx);
                r(f + 1, 4) = bot + (3 * x + 1) + (z + 1) * (3 * nx + 1);
                r(f + 1, 5) = bot + (3 * x + 2) + (z + 1) * (3 * nx + 1);
                r(f + 1, 6) = ext + (2 * x + 1) + (z + 1) * (2 * nx);
                r(f + 1, 7) = ext + (2 * x + 0) + (z + 1) * (2 * nx);
                r(f + 2, 0) = bot + (3 * x + 2) + (z) * (3 * nx + 1);
                r(f + 2, 1) = bot + (3 * x + 3) + (z) * (3 * nx + 1);
                r(f + 2, 2) = top + (x + 1) + (z) * (nx + 1);
                r(f + 2, 3) = ext + (2 * x + 1) + (z) * (2 * nx);
                r(f + 2, 4) = bot + (3 * x + 2) + (z + 1) * (3 * nx + 1);
                r(f + 2, 5) = bot + (3 * x + 3) + (z + 1) * (3 * nx + 1);
                r(f + 2, 6) = top + (x + 1) + (z + 1) * (nx + 1);
                r(f + 2, 7) = ext + (2 * x + 1) + (z + 1) * (2 * nx);
                r(f + 3, 0) = ext + (2 * x + 0) + (z) * (2 * nx);
                r(f + 3, 1) = ext + (2 * x + 1) + (z) * (2 * nx);
                r(f + 3, 2) = top + (x + 1) + (z) * (nx + 1);
                r(f + 3, 3) = top + (x + 0) + (z) * (nx + 1);
                r(f + 3, 4) = ext + (2 * x + 0) + (z + 1) * (2 * nx);
                r(f + 3, 5) = ext + (2 * x + 1) + (z + 1) * (2 * nx);
                r(f + 3, 6) = top + (x + 1) + (z + 1) * (nx + 1);
                r(f + 3, 7) = top + (x + 0) + (z + 1) * (nx + 1);
            }
            e += 4 * (nx * nz);
        }
        else if (m.m_refine(i) == 2 && i <= mid) {
            FOR(z, nz) FOR(x, nx)
            {
                const size_t f = e + 4 * (z * nx + x);
                r(f + 0, 0) = bot + (x) + (z + 0) * (nx + 1);
                r(f + 0, 1) = bot + (x) + (z + 1) * (nx + 1);
                r(f + 0, 2) = bot + (x + 1) + (z + 1) * (nx + 1);
                r(f + 0, 3) = bot + (x + 1) + (z + 0) * (nx + 1);
                r(f + 0, 4) = ext + (x) + (2 * z + 0) * (nx + 1);
                r(f + 0, 5) = ext + (x) + (2 * z + 1) * (nx + 1);
                r(f + 0, 6) = ext + (x + 1) + (2 * z + 1) * (nx + 1);
                r(f + 0, 7) = ext + (x + 1) + (2 * z + 0) * (nx + 1);
                r(f + 1, 0) = ext + (x) + (2 * z + 1) * (nx + 1);
                r(f + 1, 1) = ext + (x + 1) + (2 * z + 1) * (nx + 1);
                r(f + 1, 2) = top + (x + 1) + (3 * z + 2) * (nx + 1);
                r(f + 1, 3) = top + (x) + (3 * z + 2) * (nx + 1);
                r(f + 1, 4) = bot + (x) + (z + 1) * (nx + 1);
                r(f + 1, 5) = bot + (x + 1) + (z + 1) * (nx + 1);
                r(f + 1, 6) = top + (x + 1) + (3 * z + 3) * (nx + 1);
                r(f + 1, 7) = top + (x) + (3 * z + 3) * (nx + 1);
                r(f + 2, 0) = ext + (x) + (2 * z + 0) * (nx + 1);
                r(f + 2, 1) = ext + (x + 1) + (2 * z + 0) * (nx + 1);
                r(f + 2, 2) = top + (x + 1) + (3 * z + 1) * (nx + 1);
                r(f + 2, 3) = top + (x) + (3 * z + 1) * (nx + 1);
                r(f + 2, 4) = ext + (x) + (2 * z + 1) * (nx + 1);
                r(f + 2, 5) = ext + (x + 1) + (2 * z + 1) * (nx + 1);
                r(f + 2, 6) = top + (x + 1) + (3 * z + 2) * (nx + 1);
                r(f + 2, 7) = top + (x) + (3 * z + 2) * (nx + 1);
                r(f + 3, 0) = bot + (x) + (z + 0) * (nx + 1);
                r(f + 3, 1) = bot + (x + 1) + (z + 0) * (nx + 1);
                r(f + 3, 2) = top + (x + 1) + (3 * z + 0) * (nx + 1);
                r(f + 3, 3) = top + (x) + (3 * z + 0) * (nx + 1);
                r(f + 3, 4) = ext + (x) + (2 * z + 0) * (nx + 1);
                r(f + 3, 5) = ext + (x + 1) + (2 * z + 0) * (nx + 1);
                r(f + 3, 6) = top + (x + 1) + (3 * z + 1) * (nx + 1);
                r(f + 3, 7) = top + (x) + (3 * z + 1) * (nx + 1);
            }
            e += 4 * (nx * nz);
        }
        else if (m.m_refine(i) == 2 && i > mid) {
            FOR(z, nz) FOR(x, nx)
            {
                const size_t f = e + 4 * (z * nx + x);
                r(f + 0, 0) = bot + (x) + (3 * z + 0) * (nx + 1);
                r(f + 0, 1) = bot + (x + 1) + (3 * z + 0) * (nx + 1);
                r(f + 0, 2) = top + (x + 1) + (z + 0) * (nx + 1);
                r(f + 0, 3) = top + (x) + (z + 0) * (nx + 1);
                r(f + 0, 4) = bot + (x) + (3 * z + 1) * (nx + 1);
                r(f + 0, 5) = bot + (x + 1) + (3 * z + 1) * (nx + 1);
                r(f + 0, 6) = ext + (x + 1) + (2 * z + 0) * (nx + 1);
                r(f + 0, 7) = ext + (x) + (2 * z + 0) * (nx + 1);
                r(f + 1, 0) = bot + (x) + (3 * z + 1) * (nx + 1);
                r(f + 1, 1) = bot + (x + 1) + (3 * z + 1) * (nx + 1);
                r(f + 1, 2) = ext + (x + 1) + (2 * z + 0) * (nx + 1);
                r(f + 1, 3) = ext + (x) + (2 * z + 0) * (nx + 1);
                r(f + 1, 4) = bot + (x) + (3 * z + 2) * (nx + 1);
                r(f + 1, 5) = bot + (x + 1) + (3 * z + 2) * (nx + 1);
                r(f + 1, 6) = ext + (x + 1) + (2 * z + 1) * (nx + 1);
                r(f + 1, 7) = ext + (x) + (2 * z + 1) * (nx + 1);
                r(f + 2, 0) = bot + (x) + (3 * z + 2) * (nx + 1);
                r(f + 2, 1) = bot + (x + 1) + (3 * z + 2) * (nx + 1);
                r(f + 2, 2) = ext + (x + 1) + (2 * z + 1) * (nx + 1);
                r(f + 2, 3) = ext + (x) + (2 * z + 1) * (nx + 1);
                r(f + 2, 4) = bot + (x) + (3 * z + 3) * (nx + 1);
                r(f + 2, 5) = bot + (x + 1) + (3 * z + 3) * (nx + 1);
                r(f + 2, 6) = top + (x + 1) + (z + 1) * (nx + 1);
                r(f + 2, 7) = top + (x) + (z + 1) * (nx + 1);
                r(f + 3, 0) = ext + (x) + (2 * z + 0) * (nx + 1);
                r(f + 3, 1) = ext + (x + 1) + (2 * z + 0) * (nx + 1);
                r(f + 3, 2) = top + (x + 1) + (z + 0) * (nx + 1);
                r(f + 3, 3) = top + (x) + (z + 0) * (nx + 1);
                r(f + 3, 4) = ext + (x) + (2 * z + 1) * (nx + 1);
                r(f + 3, 5) = ext + (x + 1) + (2 * z + 1) * (nx + 1);
                r(f + 3, 6) = top + (x + 1) + (z + 1) * (nx + 1);
                r(f + 3, 7) = top + (x) + (z + 1) * (nx + 1);
            }
            e += 4 * (nx * nz);
        }
    }
    return r;
}
#define AXES \
    A1 px; \
    A1 pz; \
    vf::shape(px, NX(i) + 1); \
    vf::shape(pz, NZ(i) + 1); \
    FOR(k, NX(i) + 1) px(k) = double(k) * (m.m_Lx / double(NX(i))); \
    FOR(k, NZ(i) + 1) pz(k) = double(k) * (m.m_Lz / double(NZ(i)));
#define ROW(l) \
    FOR(z, NZ(i) + 1) FOR(x, NX(i) + 1) \
    { \
        r(v + z * (NX(i) + 1) + x, 0) = px(x); \
        r(v + z * (NX(i) + 1) + x, 1) = y(l); \
        r(v + z * (NX(i) + 1) + x, 2) = pz(z); \
    } \
    v += (NZ(i) + 1) * (NX(i) + 1);
#define EXTRA \
    if (m.m_refine(i) == 0) { \
        FOR(z, NZ(i) + 1) FOR(x, NX(i)) FOR(j, 2) \
        { \
            r(v + z * (2 * NX(i)) + 2 * x + j, 0) = px(x) + m.m_h * double(m.m_nhx(i) / 3) * double(j + 1); \
            r(v + z * (2 * NX(i)) + 2 * x + j, 1) = y(i) + m.m_h * double(m.m_nhy(i) / 2); \
            r(v + z * (2 * NX(i)) + 2 * x + j, 2) = pz(z); \
        } \
        v += (NZ(i) + 1) * NX(i) * 2; \
    } \
    else if (m.m_refine(i) == 2) { \
        FOR(z, NZ(i)) FOR(j, 2) FOR(x, NX(i) + 1) \
        { \
            r(v + (2 * z + j) * (NX(i) + 1) + x, 0) = px(x); \
            r(v + (2 * z + j) * (NX(i) + 1) + x, 1) = y(i) + m.m_h * double(m.m_nhy(i) / 2); \
            r(v + (2 * z + j) * (NX(i) + 1) + x, 2) = pz(z) + m.m_h * double(m.m_nhz(i) / 3) * double(j + 1); \
        } \
        v += NZ(i) * 2 * (NX(i) + 1); \
    }
A2 coor(const F& m)
{
    ROWS;
    A2 r;
    vf::shape(r, m.m_nnode, m.m_ndim);
    A1 y;
    vf::shape(y, n + 1);
    y(0) = 0;
    FOR(i, n)
    {
        double s = 0;
        FOR(k, i + 1) s += double(m.m_nhy(k)) * m.m_h;
        y(i + 1) = s;
    }
    size_t v = 0;
    FOR(i, mid + 1)
    {
        AXES
        ROW(i)
        if (i != mid) {
            EXTRA
        }
    }
    for (size_t i = mid; i < n; ++i) {
        AXES
        EXTRA
        ROW(i + 1)
    }
    return r;
}
} // namespace spec
