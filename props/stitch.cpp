// Stitching of meshes. Which nodes overlap (within a tolerance) is not studied: Mesh::overlapping is uninterpreted.
#include "common.h"
#include <GooseFEM/Mesh.h>
namespace M = GooseFEM::Mesh;
using List = std::vector<I1>;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
#define AB const A2 &xa, const I2 &ca, const I1 &oa, const A2 &xb, const I2 &cb, const I1 &ob
#define TWO const A2 &xa, const I2 &ca, const A2 &xb, const I2 &cb, double rtol, double atol
#define THREE const A2 &xa, const I2 &ca, const A2 &xb, const I2 &cb, const A2 &xc, const I2 &cc, double rtol, double atol
#define VTWO const A2 &xa, const I2 &ca, const I1 &ba, const I1 &ta, const A2 &xb, const I2 &cb, const I1 &bb, const I1 &tb
#define VTHREE VTWO, const A2 &xc, const I2 &cc, const I1 &bc, const I1 &tc

namespace pre {
void mesh(const A2& x, const I2& c)
{
    vf::shape(x, x.shape(0), 2);
    vf::shape(c, c.shape(0), 4);
    vf::assume(xt::amax(c)() < x.shape(0));
}
void common(AB)
{
    mesh(xa, ca);
    mesh(xb, cb);
    vf::shape(oa, oa.shape(0));
    vf::shape(ob, oa.shape(0));
    vf::assume(xt::amax(oa)() < xa.shape(0));
    vf::assume(xt::amax(ob)() < xb.shape(0));
}
void nodeset(AB, const I1& set)
{
    common(xa, ca, oa, xb, cb, ob);
    vf::shape(set, set.shape(0));
    vf::assume(xt::amax(set)() < xa.shape(0));
    vf::assume(xt::amax(set)() < xb.shape(0));
}
void nodeset_b(AB, const I1& set) { nodeset(xa, ca, oa, xb, cb, ob, set); }
void elemset(AB, const I1& set)
{
    common(xa, ca, oa, xb, cb, ob);
    vf::shape(set, set.shape(0));
    vf::assume(xt::amax(set)() < ca.shape(0));
    vf::assume(xt::amax(set)() < cb.shape(0));
}
void elemset_b(AB, const I1& set) { elemset(xa, ca, oa, xb, cb, ob, set); }
void s2(TWO)
{
    mesh(xa, ca);
    mesh(xb, cb);
}
void s2_coor(TWO) { s2(xa, ca, xb, cb, rtol, atol); }
void s2_conn(TWO) { s2(xa, ca, xb, cb, rtol, atol); }
void s2_nodemap(TWO) { s2(xa, ca, xb, cb, rtol, atol); }
void s2_elemmap(TWO) { s2(xa, ca, xb, cb, rtol, atol); }
void s2_size(TWO) { s2(xa, ca, xb, cb, rtol, atol); }
void s3(THREE)
{
    mesh(xa, ca);
    mesh(xb, cb);
    mesh(xc, cc);
}
void s3_coor(THREE) { s3(xa, ca, xb, cb, xc, cc, rtol, atol); }
void s3_conn(THREE) { s3(xa, ca, xb, cb, xc, cc, rtol, atol); }
void s3_nodemap(THREE) { s3(xa, ca, xb, cb, xc, cc, rtol, atol); }
void s3_elemmap(THREE) { s3(xa, ca, xb, cb, xc, cc, rtol, atol); }
void s3_nodeset(THREE, const I1& sa, const I1& sb, const I1& sc)
{
    s3(xa, ca, xb, cb, xc, cc, rtol, atol);
    vf::shape(sa, sa.shape(0));
    vf::shape(sb, sb.shape(0));
    vf::shape(sc, sc.shape(0));
}
void s3_nodeset_c(THREE, const I1& sa, const I1& sb, const I1& sc) { s3_nodeset(xa, ca, xb, cb, xc, cc, rtol, atol, sa, sb, sc); }
void s3_elemset(THREE, const I1& sa, const I1& sb, const I1& sc)
{
    s3_nodeset(xa, ca, xb, cb, xc, cc, rtol, atol, sa, sb, sc);
    vf::assume(xt::amax(sa)() < ca.shape(0));
    vf::assume(xt::amax(sb)() < cb.shape(0));
    vf::assume(xt::amax(sc)() < cc.shape(0));
}
void s3_elemset_b(THREE, const I1& sa, const I1& sb, const I1& sc) { s3_elemset(xa, ca, xb, cb, xc, cc, rtol, atol, sa, sb, sc); }
void v2(VTWO)
{
    mesh(xa, ca);
    mesh(xb, cb);
    vf::shape(ba, ba.shape(0));
    vf::shape(ta, ba.shape(0));
    vf::shape(bb, ba.shape(0));
    vf::shape(tb, ba.shape(0));
}
void v2_coor(VTWO) { v2(xa, ca, ba, ta, xb, cb, bb, tb); }
void v2_conn(VTWO) { v2(xa, ca, ba, ta, xb, cb, bb, tb); }
void v2_nodemap(VTWO) { v2(xa, ca, ba, ta, xb, cb, bb, tb); }
void v3(VTHREE)
{
    v2(xa, ca, ba, ta, xb, cb, bb, tb);
    mesh(xc, cc);
    vf::shape(bc, ba.shape(0));
    vf::shape(tc, ba.shape(0));
}
void v3_coor(VTHREE) { v3(xa, ca, ba, ta, xb, cb, bb, tb, xc, cc, bc, tc); }
void v3_conn(VTHREE) { v3(xa, ca, ba, ta, xb, cb, bb, tb, xc, cc, bc, tc); }
void v3_nodemap(VTHREE) { v3(xa, ca, ba, ta, xb, cb, bb, tb, xc, cc, bc, tc); }
void v3_elemmap(VTHREE) { v3(xa, ca, ba, ta, xb, cb, bb, tb, xc, cc, bc, tc); }
} // namespace pre

namespace entry {
#define S M::ManualStitch s(xa, ca, oa, xb, cb, ob); READ(s)
size_t nmesh(AB) { S; return s.nmesh(); }
size_t nelem(AB) { S; return s.nelem(); }
size_t nnode(AB) { S; return s.nnode(); }
size_t nne(AB) { S; return s.nne(); }
size_t ndim(AB) { S; return s.ndim(); }
A2 coor(AB) { S; return s.coor(); }
A2 coor__nocheck(AB) { M::ManualStitch s(xa, ca, oa, xb, cb, ob, false); return s.coor(); }
I2 conn(AB) { S; return s.conn(); }
I2 dofs(AB) { S; return s.dofs(); }
List nodemap(AB) { S; return s.nodemap(); }
List nodemap__single(AB) { S; return {s.nodemap(0), s.nodemap(1)}; }
List elemmap(AB) { S; return s.elemmap(); }
List elemmap__single(AB) { S; return {s.elemmap(0), s.elemmap(1)}; }
I1 nodeset(AB, const I1& set) { S; return s.nodeset(set, 0); }
I1 nodeset_b(AB, const I1& set) { S; return s.nodeset(set, 1); }
I1 elemset(AB, const I1& set) { S; return s.elemset(set, 0); }
I1 elemset_b(AB, const I1& set) { S; return s.elemset(set, 1); }
#undef S
#define S M::Stitch s(rtol, atol); s.push_back(xa, ca); s.push_back(xb, cb); READ(s)
A2 s2_coor(TWO) { S; return s.coor(); }
I2 s2_conn(TWO) { S; return s.conn(); }
List s2_nodemap(TWO) { S; return s.nodemap(); }
List s2_elemmap(TWO) { S; return s.elemmap(); }
std::array<size_t, 5> s2_size(TWO) { S; return {s.nmesh(), s.nelem(), s.nnode(), s.nne(), s.ndim()}; }
#define S3 S; s.push_back(xc, cc); READ(s)
A2 s3_coor(THREE) { S3; return s.coor(); }
I2 s3_conn(THREE) { S3; return s.conn(); }
List s3_nodemap(THREE) { S3; return s.nodemap(); }
List s3_nodemap__single(THREE) { S3; return {s.nodemap(0), s.nodemap(1), s.nodemap(2)}; }
List s3_elemmap(THREE) { S3; return s.elemmap(); }
List s3_elemmap__single(THREE) { S3; return {s.elemmap(0), s.elemmap(1), s.elemmap(2)}; }
I1 s3_nodeset(THREE, const I1& sa, const I1& sb, const I1& sc) { S3; return s.nodeset(List{sa, sb, sc}); }
I1 s3_nodeset__braces(THREE, const I1& sa, const I1& sb, const I1& sc) { S3; return s.nodeset({sa, sb, sc}); }
I1 s3_nodeset_c(THREE, const I1& sa, const I1& sb, const I1& sc) { S3; return s.nodeset(sc, 2); }
I1 s3_elemset(THREE, const I1& sa, const I1& sb, const I1& sc) { S3; return s.elemset(List{sa, sb, sc}); }
I1 s3_elemset__braces(THREE, const I1& sa, const I1& sb, const I1& sc) { S3; return s.elemset({sa, sb, sc}); }
I1 s3_elemset_b(THREE, const I1& sa, const I1& sb, const I1& sc) { S3; return s.elemset(sb, 1); }
#define W M::Vstack s(true); s.push_back(xa, ca, ba, ta); s.push_back(xb, cb, bb, tb); READ(s)
A2 v2_coor(VTWO) { W; return s.coor(); }
A2 v2_coor__nocheck(VTWO) { M::Vstack s(false); s.push_back(xa, ca, ba, ta); s.push_back(xb, cb, bb, tb); return s.coor(); }
I2 v2_conn(VTWO) { W; return s.conn(); }
List v2_nodemap(VTWO) { W; return s.nodemap(); }
#define W3 W; s.push_back(xc, cc, bc, tc); READ(s)
A2 v3_coor(VTHREE) { W3; return s.coor(); }
I2 v3_conn(VTHREE) { W3; return s.conn(); }
List v3_nodemap(VTHREE) { W3; return s.nodemap(); }
List v3_elemmap(VTHREE) { W3; return s.elemmap(); }
#undef W
#define W M::Vstack s(false); s.push_back(xa, ca, ba, ta); s.push_back(xb, cb, bb, tb); READ(s)
A2 v3_coor__nocheck(VTHREE) { W3; return s.coor(); }
I2 v3_conn__nocheck(VTHREE) { W3; return s.conn(); }
List v3_nodemap__nocheck(VTHREE) { W3; return s.nodemap(); }
} // namespace entry

namespace spec {
I1 range(size_t start, size_t n)
{
    I1 r;
    vf::shape(r, n);
    FOR(i, n) r(i) = start + i;
    return r;
}
// nodes of b that are not on a
I1 kept(const A2& xb, const I1& ob) { return xt::setdiff1d(xt::arange<size_t>(xb.shape(0)), ob); }
// number in the joint mesh of each node of b
I1 number(const A2& xa, const I1& oa, const A2& xb, const I1& ob)
{
    I1 k = kept(xb, ob);
    I1 m;
    vf::shape(m, xb.shape(0));
    FOR(i, ob.size()) m(ob(i)) = oa(i);
    FOR(i, k.size()) m(k(i)) = xa.shape(0) + i;
    return m;
}
I1 mapped(const I1& m, const I1& set)
{
    I1 r;
    vf::shape(r, set.size());
    FOR(i, set.size()) r(i) = m(set(i));
    return r;
}
A2 jcoor(const A2& xa, const I1& oa, const A2& xb, const I1& ob)
{
    I1 k = kept(xb, ob);
    A2 x;
    size_t n = xa.shape(0) + xb.shape(0) - oa.size();
    vf::shape(x, n, 2);
    FOR(i, xa.shape(0)) FOR(d, 2) x(i, d) = xa(i, d);
    FOR(i, xb.shape(0) - oa.size()) FOR(d, 2) x(xa.shape(0) + i, d) = xb(k(i), d);
    return x;
}
I2 jconn(const I2& ca, const I2& cb, const I1& m)
{
    I2 q;
    vf::shape(q, cb.shape(0), 4);
    FOR(t, cb.shape(0) * 4) q(t / 4, t % 4) = m(cb(t / 4, t % 4));
    I2 c;
    vf::shape(c, ca.shape(0) + cb.shape(0), 4);
    FOR(e, ca.shape(0)) FOR(n, 4) c(e, n) = ca(e, n);
    FOR(e, cb.shape(0)) FOR(n, 4) c(ca.shape(0) + e, n) = q(e, n);
    return c;
}
size_t nmesh(AB) { return 2; }
size_t nelem(AB) { return ca.shape(0) + cb.shape(0); }
size_t nnode(AB) { return xa.shape(0) + xb.shape(0) - oa.size(); }
size_t nne(AB) { return 4; }
size_t ndim(AB) { return 2; }
A2 coor(AB) { return jcoor(xa, oa, xb, ob); }
I2 conn(AB) { return jconn(ca, cb, number(xa, oa, xb, ob)); }
I2 dofs(AB)
{
    I2 r;
    size_t n = xa.shape(0) + xb.shape(0) - oa.size();
    vf::shape(r, n, 2);
    FOR(m, n) FOR(i, 2) r(m, i) = m * 2 + i;
    return r;
}
List nodemap(AB) { return {range(0, xa.shape(0)), number(xa, oa, xb, ob)}; }
List elemmap(AB) { return {range(0, ca.shape(0)), range(ca.shape(0), cb.shape(0))}; }
I1 nodeset(AB, const I1& set) { return set; }
I1 nodeset_b(AB, const I1& set) { return mapped(number(xa, oa, xb, ob), set); }
I1 elemset(AB, const I1& set) { return set; }
I1 shifted(const I1& set, size_t n)
{
    I1 r;
    vf::shape(r, set.size());
    FOR(i, set.size()) r(i) = set(i) + n;
    return r;
}
I1 elemset_b(AB, const I1& set) { return shifted(set, ca.shape(0)); }

// Stitch
#define PAIRS(o, xp, xq) \
    I2 o = M::overlapping(xp, xq, rtol, atol); \
    I1 o##a = xt::view(o, 0, xt::all()); \
    I1 o##b = xt::view(o, 1, xt::all())
#define FIRST PAIRS(o, xa, xb); A2 x = jcoor(xa, oa, xb, ob); I1 m = number(xa, oa, xb, ob)
#define SECOND FIRST; PAIRS(p, x, xc); I1 w = number(x, pa, xc, pb)
A2 s2_coor(TWO) { FIRST; return x; }
I2 s2_conn(TWO) { FIRST; return jconn(ca, cb, m); }
List s2_nodemap(TWO) { FIRST; return {range(0, xa.shape(0)), m}; }
List s2_elemmap(TWO) { return {range(0, ca.shape(0)), range(ca.shape(0), cb.shape(0))}; }
std::array<size_t, 5> s2_size(TWO) { FIRST; return {2, ca.shape(0) + cb.shape(0), x.shape(0), 4, 2}; }
A2 s3_coor(THREE) { SECOND; return jcoor(x, pa, xc, pb); }
I2 s3_conn(THREE) { SECOND; return jconn(jconn(ca, cb, m), cc, w); }
List s3_nodemap(THREE) { SECOND; return {range(0, xa.shape(0)), m, w}; }
List s3_elemmap(THREE)
{
    return {range(0, ca.shape(0)), range(ca.shape(0), cb.shape(0)), range(ca.shape(0) + cb.shape(0), cc.shape(0))};
}
I1 chain(const I1& a, const I1& b, const I1& c)
{
    I1 r;
    vf::shape(r, a.size() + b.size() + c.size());
    FOR(i, a.size()) r(i) = a(i);
    FOR(i, b.size()) r(a.size() + i) = b(i);
    FOR(i, c.size()) r(a.size() + b.size() + i) = c(i);
    return r;
}
I1 s3_nodeset(THREE, const I1& sa, const I1& sb, const I1& sc)
{
    SECOND;
    I1 r = chain(sa, mapped(m, sb), mapped(w, sc));
    return xt::unique(r);
}
I1 s3_nodeset_c(THREE, const I1& sa, const I1& sb, const I1& sc) { SECOND; return mapped(w, sc); }
I1 s3_elemset(THREE, const I1& sa, const I1& sb, const I1& sc)
{
    return chain(sa, shifted(sb, ca.shape(0)), shifted(sc, ca.shape(0) + cb.shape(0)));
}
I1 s3_elemset_b(THREE, const I1& sa, const I1& sb, const I1& sc) { return shifted(sb, ca.shape(0)); }

// Vstack: on top of the highest node; bottom nodes are the top nodes of the mesh below
A2 above(const A2& x, const A2& y)
{
    A2 r = y;
    double h = xt::amax(xt::view(x, xt::all(), 1))();
    FOR(i, y.shape(0)) r(i, 1) = y(i, 1) + h;
    return r;
}
#define VFIRST A2 yb = above(xa, xb); A2 x = jcoor(xa, ta, yb, bb); I1 m = number(xa, ta, xb, bb)
#define VSECOND VFIRST; I1 tm = mapped(m, tb); A2 yc = above(x, xc); I1 w = number(x, tm, xc, bc)
A2 v2_coor(VTWO) { VFIRST; return x; }
I2 v2_conn(VTWO) { VFIRST; return jconn(ca, cb, m); }
List v2_nodemap(VTWO) { VFIRST; return {range(0, xa.shape(0)), m}; }
A2 v3_coor(VTHREE) { VSECOND; return jcoor(x, tm, yc, bc); }
I2 v3_conn(VTHREE) { VSECOND; return jconn(jconn(ca, cb, m), cc, w); }
List v3_nodemap(VTHREE) { VSECOND; return {range(0, xa.shape(0)), m, w}; }
List v3_elemmap(VTHREE)
{
    return {range(0, ca.shape(0)), range(ca.shape(0), cb.shape(0)), range(ca.shape(0) + cb.shape(0), cc.shape(0))};
}
} // namespace spec
