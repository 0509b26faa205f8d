// Numbering and queries of meshes.
#include "common.h"
#include <GooseFEM/Iterate.h>
#include <GooseFEM/Mesh.h>
#include <GooseFEM/MeshTri3.h>
namespace M = GooseFEM::Mesh;
using GooseFEM::Mesh::ElementType;
using Rows = std::vector<std::vector<size_t>>;
using L1 = AT<int, 1>;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)

namespace pre {
void renumber(const I2& dofs) { vf::shape(dofs, dofs.shape(0), dofs.shape(1)); }
void renumber_index(const I2& dofs) { renumber(dofs); }
void renumber_apply(const I2& dofs, const I1& list)
{
    renumber(dofs);
    vf::shape(list, list.shape(0));
    vf::assume(xt::amax(list)() <= xt::amax(dofs)());
}
void reorder_index(const I1& a, const I1& b)
{
    vf::shape(a, a.shape(0));
    vf::shape(b, b.shape(0));
    vf::assume(a.shape(0) >= 1);
    vf::assume(b.shape(0) >= 1);
    vf::assume(xt::unique(a).size() == a.size());
    vf::assume(xt::unique(b).size() == b.size());
}
void reorder_apply(const I1& a, const I1& b, const I2& list)
{
    reorder_index(a, b);
    vf::shape(list, list.shape(0), list.shape(1));
}
void quads(const A2& coor, const I2& conn)
{
    vf::shape(coor, coor.shape(0), 2);
    vf::shape(conn, conn.shape(0), 4);
    vf::assume(xt::amax(conn)() < coor.shape(0));
}
void coordination(const I2& conn) { vf::shape(conn, conn.shape(0), conn.shape(1)); }
void elem2node(const I2& conn) { coordination(conn); }
void elem2node_unsorted(const I2& conn) { coordination(conn); }
void node2dof(const I2& dofs) { renumber(dofs); }
void node2dof_unsorted(const I2& dofs) { renumber(dofs); }
void nodaltyings(const I2& dofs)
{
    renumber(dofs);
    vf::assume(dofs.shape(1) >= 1);
}
void elem2node_ties(const I2& conn, const I2& dofs)
{
    nodaltyings(dofs);
    coordination(conn);
    vf::assume(xt::amax(conn)() < dofs.shape(0));
}
void elem2node_ties_unsorted(const I2& conn, const I2& dofs) { elem2node_ties(conn, dofs); }
void edgesize(const A2& coor, const I2& conn) { quads(coor, conn); }
void centers(const A2& coor, const I2& conn) { quads(coor, conn); }
void nodal_mass(const A2& coor, const I2& conn)
{
    quads(coor, conn);
    vf::assume(conn.shape(0) >= 1);
}
void gravity(const A2& coor, const I2& conn) { nodal_mass(coor, conn); }
void nodemap(const I1& map, const A2& coor, const I2& conn)
{
    quads(coor, conn);
    vf::shape(map, conn.shape(0));
    vf::assume(xt::amax(map)() < conn.shape(0));
}
void type(const A2& coor, const I2& conn)
{
    vf::shape(coor, coor.shape(0), coor.shape(1));
    vf::shape(conn, conn.shape(0), conn.shape(1));
    vf::assume(coor.shape(1) == 2 && (conn.shape(1) == 3 || conn.shape(1) == 4) || coor.shape(1) == 3 && conn.shape(1) == 8);
}
void orientation(const A2& coor, const I2& conn)
{
    vf::shape(coor, coor.shape(0), 2);
    vf::shape(conn, conn.shape(0), 3);
    vf::assume(xt::amax(conn)() < coor.shape(0));
}
void orient(const A2& coor, const I2& conn, int sign)
{
    orientation(coor, conn);
    vf::assume(sign == -1 || sign == 1);
}
void orient_val(const A2& coor, const I2& conn, const L1& val, int sign)
{
    orient(coor, conn, sign);
    vf::shape(val, conn.shape(0));
}
} // namespace pre

namespace entry {
I2 dofs(size_t nnode, size_t ndim) { return M::dofs(nnode, ndim); }
I2 renumber(const I2& dofs) { return M::renumber(dofs); }
I1 renumber_index(const I2& dofs) { M::Renumber made(dofs); READ(made); return made.index(); }
I1 renumber_apply(const I2& dofs, const I1& list) { M::Renumber made(dofs); READ(made); return made.apply(list); }
I1 reorder_index(const I1& a, const I1& b) { M::Reorder made({a, b}); READ(made); return made.index(); }
I2 reorder_apply(const I1& a, const I1& b, const I2& list) { M::Reorder made({a, b}); READ(made); return made.apply(list); }
I1 coordination(const I2& conn) { return M::coordination(conn); }
Rows elem2node(const I2& conn) { return M::elem2node(conn); }
// the order of a list that is not sorted is free
#define LISTS(x) Rows r = x; FOR(n, r.size()) std::sort(r[n].begin(), r[n].end()); return r
Rows elem2node_unsorted(const I2& conn) { LISTS(M::elem2node(conn, false)); }
Rows elem2node_ties(const I2& conn, const I2& dofs) { return M::elem2node(conn, dofs); }
Rows elem2node_ties_unsorted(const I2& conn, const I2& dofs) { LISTS(M::elem2node(conn, dofs, false)); }
Rows node2dof(const I2& dofs) { return M::node2dof(dofs); }
Rows node2dof_unsorted(const I2& dofs) { LISTS(M::node2dof(dofs, false)); }
Rows nodaltyings(const I2& dofs) { return M::nodaltyings(dofs); }
A2 edgesize(const A2& coor, const I2& conn) { return M::edgesize(coor, conn); }
A2 edgesize__type(const A2& coor, const I2& conn) { return M::edgesize(coor, conn, ElementType::Quad4); }
A2 centers(const A2& coor, const I2& conn) { return M::centers(coor, conn); }
A2 centers__type(const A2& coor, const I2& conn) { return M::centers(coor, conn, ElementType::Quad4); }
A2 nodal_mass(const A2& coor, const I2& conn) { return M::nodal_mass(coor, conn); }
A2 nodal_mass__type(const A2& coor, const I2& conn) { return M::nodal_mass(coor, conn, ElementType::Quad4); }
A1 gravity(const A2& coor, const I2& conn) { return M::center_of_gravity(coor, conn); }
A1 gravity__type(const A2& coor, const I2& conn) { return M::center_of_gravity(coor, conn, ElementType::Quad4); }
I1 nodemap(const I1& map, const A2& coor, const I2& conn) { return M::elemmap2nodemap(map, coor, conn); }
I1 nodemap__type(const I1& map, const A2& coor, const I2& conn) { return M::elemmap2nodemap(map, coor, conn, ElementType::Quad4); }
ElementType type(const A2& coor, const I2& conn) { return M::defaultElementType(coor, conn); }
L1 orientation(const A2& coor, const I2& conn) { return M::Tri3::getOrientation(coor, conn); }
I2 orient(const A2& coor, const I2& conn, int sign) { return M::Tri3::setOrientation(coor, conn, sign); }
I2 orient_val(const A2& coor, const I2& conn, const L1& val, int sign) { return M::Tri3::setOrientation(coor, conn, val, sign); }
} // namespace entry

namespace spec {
I2 dofs(size_t nnode, size_t ndim)
{
    I2 r;
    vf::shape(r, nnode, ndim);
    FOR(n, nnode) FOR(i, ndim) r(n, i) = n * ndim + i;
    return r;
}
I1 renumber_index(const I2& dofs)
{
    I1 u = xt::unique(dofs);
    I1 index;
    vf::shape(index, xt::amax(dofs)() + 1);
    FOR(k, u.size()) index(u(k)) = k;
    return index;
}
I2 renumber(const I2& dofs)
{
    I1 index = renumber_index(dofs);
    I2 r;
    vf::shape(r, dofs.shape(0), dofs.shape(1));
    FOR(n, dofs.shape(0)) FOR(i, dofs.shape(1)) r(n, i) = index(dofs(n, i));
    return r;
}
I1 renumber_apply(const I2& dofs, const I1& list)
{
    I1 index = renumber_index(dofs);
    I1 r;
    vf::shape(r, list.shape(0));
    FOR(k, list.shape(0)) r(k) = index(list(k));
    return r;
}
I1 reorder_index(const I1& a, const I1& b)
{
    I1 index;
    vf::shape(index, std::max(xt::amax(a)() + 1, xt::amax(b)() + 1));
    FOR(k, a.shape(0)) index(a(k)) = k;
    FOR(k, b.shape(0)) index(b(k)) = a.shape(0) + k;
    return index;
}
I2 reorder_apply(const I1& a, const I1& b, const I2& list)
{
    I1 index = reorder_index(a, b);
    I2 r;
    vf::shape(r, list.shape(0), list.shape(1));
    FOR(n, list.shape(0)) FOR(i, list.shape(1)) r(n, i) = index(list(n, i));
    return r;
}
I1 coordination(const I2& conn)
{
    I1 r = xt::zeros<size_t>({xt::amax(conn)() + 1});
    FOR(e, conn.shape(0)) FOR(m, conn.shape(1)) r(conn(e, m)) += 1;
    return r;
}
Rows elem2node(const I2& conn)
{
    Rows r(xt::amax(conn)() + 1);
    FOR(e, conn.shape(0)) FOR(m, conn.shape(1)) r[conn(e, m)].push_back(e);
    FOR(n, r.size()) std::sort(r[n].begin(), r[n].end());
    return r;
}
Rows node2dof(const I2& dofs) { return elem2node(dofs); }
Rows elem2node_unsorted(const I2& conn) { return elem2node(conn); }
Rows node2dof_unsorted(const I2& dofs) { return elem2node(dofs); }
Rows nodaltyings(const I2& dofs)
{
    Rows d = elem2node(dofs);
    Rows r(dofs.shape(0));
    FOR(n, dofs.shape(0)) r[n] = d[dofs(n, 0)];
    return r;
}
// The first of the nodes tied together collects the elements of all of them, and shares them with the others.
#define TIES(sorted) \
    Rows r(xt::amax(conn)() + 1); \
    FOR(e, conn.shape(0)) FOR(m, conn.shape(1)) r[conn(e, m)].push_back(e); \
    if (sorted) FOR(n, r.size()) std::sort(r[n].begin(), r[n].end()); \
    r.resize(std::max(r.size(), dofs.shape(0))); \
    Rows t = nodaltyings(dofs); \
    FOR(m, dofs.shape(0)) { \
        if (t[m].size() <= 1 || m > t[m][0]) continue; \
        for (size_t j = 1; j < t[m].size(); ++j) r[m].insert(r[m].end(), r[t[m][j]].begin(), r[t[m][j]].end()); \
        if (sorted) std::sort(r[m].begin(), r[m].end()); \
        for (size_t j = 1; j < t[m].size(); ++j) r[t[m][j]] = r[m]; \
    }
Rows elem2node_ties(const I2& conn, const I2& dofs) { TIES(true); return r; }
Rows elem2node_ties_unsorted(const I2& conn, const I2& dofs) { TIES(false); FOR(n, r.size()) std::sort(r[n].begin(), r[n].end()); return r; }
// edges 0-1, 1-2, 2-3, 3-0
A2 edgesize(const A2& coor, const I2& conn)
{
    A2 r;
    vf::shape(r, conn.shape(0), 4);
    FOR(e, conn.shape(0)) FOR(m, 4)
    {
        size_t a = conn(e, m);
        size_t b = conn(e, (m + 1) % 4);
        r(e, m) = std::sqrt(std::pow(coor(b, 0) - coor(a, 0), 2.0) + std::pow(coor(b, 1) - coor(a, 1), 2.0));
    }
    return r;
}
A2 centers(const A2& coor, const I2& conn)
{
    A2 r;
    vf::shape(r, conn.shape(0), 2);
    FOR(e, conn.shape(0)) FOR(i, 2)
    {
        double s = 0;
        FOR(m, 4) s += coor(conn(e, m), i);
        r(e, i) = s / 4.0;
    }
    return r;
}
// Each node gets a quarter of the elements it belongs to, by the Jacobian at the node itself.
A2 nodal_mass(const A2& coor, const I2& conn)
{
    A1 M = xt::zeros<double>({coor.shape(0) * 2});
    FOR(e, conn.shape(0)) FOR(m, 4)
    {
        // neighbours along the edges: next and previous corner
        size_t k = conn(e, m);
        size_t n = conn(e, (m + 1) % 4);
        size_t p = conn(e, (m + 3) % 4);
        double J = ((coor(n, 0) - coor(k, 0)) * (coor(p, 1) - coor(k, 1))
                    - (coor(n, 1) - coor(k, 1)) * (coor(p, 0) - coor(k, 0))) / 4.0;
        FOR(i, 2) M(2 * k + i) += J;
    }
    A2 r;
    vf::shape(r, coor.shape(0), 2);
    FOR(n, coor.shape(0)) FOR(i, 2) r(n, i) = M(2 * n + i);
    return r;
}
A1 gravity(const A2& coor, const I2& conn)
{
    A2 w = nodal_mass(coor, conn);
    A1 r;
    vf::shape(r, 2);
    FOR(i, 2)
    {
        double s = 0;
        double t = 0;
        FOR(n, coor.shape(0)) s += coor(n, i) * w(n, i);
        FOR(n, coor.shape(0)) t += w(n, i);
        r(i) = s / t;
    }
    return r;
}
// Node n goes to the node of the mapped element that has the same position in the element.
I1 nodemap(const I1& map, const A2& coor, const I2& conn)
{
    I1 r;
    vf::shape(r, coor.shape(0));
    FOR(n, coor.shape(0)) r(n) = coor.shape(0);
    FOR(m, 4)
    {
        I1 t;
        vf::shape(t, coor.shape(0));
        FOR(n, coor.shape(0)) t(n) = coor.shape(0);
        FOR(e, conn.shape(0)) t(conn(e, m)) = conn(map(e), m);
        FOR(n, coor.shape(0))
        {
            if (r(n) == coor.shape(0)) {
                r(n) = t(n);
            }
        }
    }
    return r;
}
ElementType type(const A2& coor, const I2& conn)
{
    if (coor.shape(1) == 2 && conn.shape(1) == 3) {
        return ElementType::Tri3;
    }
    if (coor.shape(1) == 2 && conn.shape(1) == 4) {
        return ElementType::Quad4;
    }
    vf::require(coor.shape(1) == 3 && conn.shape(1) == 8);
    return ElementType::Hex8;
}
// -1: counter-clockwise, +1: clockwise
L1 orientation(const A2& coor, const I2& conn)
{
    L1 r;
    vf::shape(r, conn.shape(0));
    FOR(e, conn.shape(0))
    {
        double area = (coor(conn(e, 1), 0) - coor(conn(e, 0), 0)) * (coor(conn(e, 2), 1) - coor(conn(e, 0), 1))
                      - (coor(conn(e, 1), 1) - coor(conn(e, 0), 1)) * (coor(conn(e, 2), 0) - coor(conn(e, 0), 0));
        r(e) = area > 0 ? -1 : 1;
    }
    return r;
}
I2 orient_val(const A2& coor, const I2& conn, const L1& val, int sign)
{
    I2 r = conn;
    FOR(e, conn.shape(0))
    {
        if ((sign == -1 && val(e) > 0) || (sign == 1 && val(e) < 0)) {
            r(e, 1) = conn(e, 2);
            r(e, 2) = conn(e, 1);
        }
    }
    return r;
}
I2 orient(const A2& coor, const I2& conn, int sign)
{
    L1 val = orientation(coor, conn);
    return orient_val(coor, conn, val, sign);
}
} // namespace spec
