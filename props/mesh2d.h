// What the regular meshes in two dimensions have in common.
#include "common.h"
#include <GooseFEM/Mesh.h>
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
#define COMMON2D \
    void common(size_t nx, size_t ny, double h) \
    { \
        vf::assume(nx >= 1); \
        vf::assume(ny >= 1); \
        vf::assume(h > 0); \
    }
#define MADE Mesh m(nx, ny, h); READ(m)
#define G2(T, name) \
    T name(size_t nx, size_t ny, double h) { MADE; return m.name(); }
#define ALIAS(T, of, name) \
    T of##__##name(size_t nx, size_t ny, double h) { MADE; return m.name(); }
#define ENTRIES2D(etype) \
    namespace entry { \
    G2(size_t, nelem) \
    G2(size_t, nnode) \
    G2(size_t, nne) \
    G2(size_t, ndim) \
    G2(size_t, nelx) \
    G2(size_t, nely) \
    G2(double, h) \
    bool elementType(size_t nx, size_t ny, double h) { MADE; return m.elementType() == etype; } \
    G2(A2, coor) \
    G2(I2, conn) \
    G2(I2, dofs) \
    G2(I2, nodesPeriodic) \
    G2(I2, dofsPeriodic) \
    G2(size_t, nodesOrigin) \
    G2(I1, nodesBottomEdge) \
    G2(I1, nodesTopEdge) \
    G2(I1, nodesLeftEdge) \
    G2(I1, nodesRightEdge) \
    G2(I1, nodesBottomOpenEdge) \
    G2(I1, nodesTopOpenEdge) \
    G2(I1, nodesLeftOpenEdge) \
    G2(I1, nodesRightOpenEdge) \
    G2(size_t, nodesBottomLeftCorner) \
    G2(size_t, nodesBottomRightCorner) \
    G2(size_t, nodesTopLeftCorner) \
    G2(size_t, nodesTopRightCorner) \
    ALIAS(size_t, nodesBottomLeftCorner, nodesLeftBottomCorner) \
    ALIAS(size_t, nodesTopLeftCorner, nodesLeftTopCorner) \
    ALIAS(size_t, nodesBottomRightCorner, nodesRightBottomCorner) \
    ALIAS(size_t, nodesTopRightCorner, nodesRightTopCorner) \
    }
#define S2(T, name, val) \
    T name(size_t nx, size_t ny, double h) { return val; }
#define LINE(name, n, val) \
    I1 name(size_t nx, size_t ny, double h) \
    { \
        I1 r; \
        vf::shape(r, n); \
        FOR(k, n) r(k) = val; \
        return r; \
    }
#define SPEC2D \
    S2(size_t, nelem, NEL) \
    S2(size_t, nnode, (nx + 1) * (ny + 1)) \
    S2(size_t, nne, NNE) \
    S2(size_t, ndim, 2) \
    S2(size_t, nelx, nx) \
    S2(size_t, nely, ny) \
    double h(size_t nx, size_t ny, double h) { return h; } \
    S2(bool, elementType, true) \
    A2 coor(size_t nx, size_t ny, double h) \
    { \
        A2 r; \
        vf::shape(r, (nx + 1) * (ny + 1), 2); \
        FOR(j, ny + 1) FOR(i, nx + 1) \
        { \
            r(j * (nx + 1) + i, 0) = h * static_cast<double>(i); \
            r(j * (nx + 1) + i, 1) = h * static_cast<double>(j); \
        } \
        return r; \
    } \
    I2 dofs(size_t nx, size_t ny, double h) \
    { \
        I2 r; \
        vf::shape(r, (nx + 1) * (ny + 1), 2); \
        FOR(n, (nx + 1) * (ny + 1)) FOR(i, 2) r(n, i) = n * 2 + i; \
        return r; \
    } \
    I2 nodesPeriodic(size_t nx, size_t ny, double h) \
    { \
        I2 r; \
        vf::shape(r, nx - 1 + ny - 1 + 3, 2); \
        FOR(k, 3) r(k, 0) = 0; \
        r(0, 1) = nx; \
        r(1, 1) = ny * (nx + 1) + nx; \
        r(2, 1) = ny * (nx + 1); \
        FOR(k, nx - 1) r(3 + k, 0) = k + 1; \
        FOR(k, nx - 1) r(3 + k, 1) = ny * (nx + 1) + k + 1; \
        FOR(k, ny - 1) r(3 + nx - 1 + k, 0) = (k + 1) * (nx + 1); \
        FOR(k, ny - 1) r(3 + nx - 1 + k, 1) = (k + 1) * (nx + 1) + nx; \
        return r; \
    } \
    I2 dofsPeriodic(size_t nx, size_t ny, double h) \
    { \
        I2 d = dofs(nx, ny, h); \
        I2 d0 = d; \
        I2 p = nodesPeriodic(nx, ny, h); \
        I1 ind = xt::view(p, xt::all(), 0); \
        I1 dep = xt::view(p, xt::all(), 1); \
        FOR(j, 2) FOR(k, nx - 1 + ny - 1 + 3) d(dep(k), j) = d0(ind(k), j); \
        I1 u = xt::unique(d); \
        I1 index; \
        vf::shape(index, xt::amax(d)() + 1); \
        FOR(k, u.size()) index(u(k)) = k; \
        I2 r; \
        vf::shape(r, (nx + 1) * (ny + 1), 2); \
        FOR(t, (nx + 1) * (ny + 1) * 2) r(t / 2, t % 2) = index(d(t / 2, t % 2)); \
        return r; \
    } \
    S2(size_t, nodesOrigin, 0) \
    LINE(nodesBottomEdge, nx + 1, k) \
    LINE(nodesTopEdge, nx + 1, ny * (nx + 1) + k) \
    LINE(nodesLeftEdge, ny + 1, k * (nx + 1)) \
    LINE(nodesRightEdge, ny + 1, k * (nx + 1) + nx) \
    LINE(nodesBottomOpenEdge, nx - 1, k + 1) \
    LINE(nodesTopOpenEdge, nx - 1, ny * (nx + 1) + k + 1) \
    LINE(nodesLeftOpenEdge, ny - 1, (k + 1) * (nx + 1)) \
    LINE(nodesRightOpenEdge, ny - 1, (k + 1) * (nx + 1) + nx) \
    S2(size_t, nodesBottomLeftCorner, 0) \
    S2(size_t, nodesBottomRightCorner, nx) \
    S2(size_t, nodesTopLeftCorner, ny * (nx + 1)) \
    S2(size_t, nodesTopRightCorner, ny * (nx + 1) + nx)
