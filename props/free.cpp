// Free functions of namespace Element.
#include "common.h"
namespace El = GooseFEM::Element;
namespace pre {
void asElementVector(const I2& conn, const A2& nodevec)
{
    vf::shape(conn, conn.shape(0), conn.shape(1));
    vf::shape(nodevec, nodevec.shape(0), nodevec.shape(1));
    vf::assume(xt::amax(conn)() < nodevec.shape(0));
}
void assembleNodeVector(const I2& conn, const A3& elemvec)
{
    vf::shape(conn, conn.shape(0), conn.shape(1));
    vf::shape(elemvec, conn.shape(0), conn.shape(1), elemvec.shape(2));
}
void isSequential(const I2& dofs) { vf::shape(dofs, dofs.shape(0), dofs.shape(1)); }
void isDiagonal(const A3& elemmat) { vf::shape(elemmat, elemmat.shape(0), elemmat.shape(1), elemmat.shape(1)); }
} // namespace pre
namespace entry {
A3 asElementVector(const I2& conn, const A2& nodevec) { return El::asElementVector(conn, nodevec); }
A2 assembleNodeVector(const I2& conn, const A3& elemvec) { return El::assembleNodeVector(conn, elemvec); }
bool isSequential(const I2& dofs) { return El::isSequential(dofs); }
bool isDiagonal(const A3& elemmat) { return El::isDiagonal(elemmat); }
} // namespace entry
namespace spec {
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
A3 asElementVector(const I2& conn, const A2& nodevec)
{
    A3 r;
    vf::shape(r, conn.shape(0), conn.shape(1), nodevec.shape(1));
    FOR(e, conn.shape(0)) FOR(m, conn.shape(1)) FOR(i, nodevec.shape(1)) r(e, m, i) = nodevec(conn(e, m), i);
    return r;
}
A2 assembleNodeVector(const I2& conn, const A3& elemvec)
{
    A2 r = xt::zeros<double>({xt::amax(conn)() + 1, elemvec.shape(2)});
    FOR(e, conn.shape(0)) FOR(m, conn.shape(1)) FOR(i, elemvec.shape(2)) r(conn(e, m), i) += elemvec(e, m, i);
    return r;
}
// every number up to the largest occurs
bool isSequential(const I2& dofs)
{
    I1 n = xt::zeros<size_t>({xt::amax(dofs)() + 1});
    FOR(i, dofs.shape(0)) FOR(j, dofs.shape(1)) n(dofs(i, j)) += 1;
    FOR(k, xt::amax(dofs)() + 1)
    {
        if (n(k) == 0) {
            return false;
        }
    }
    return true;
}
bool isDiagonal(const A3& elemmat)
{
    FOR(e, elemmat.shape(0)) FOR(i, elemmat.shape(1)) FOR(j, elemmat.shape(1))
    {
        if (i != j && std::abs(elemmat(e, i, j)) > std::numeric_limits<double>::epsilon()) {
            return false;
        }
    }
    return true;
}
} // namespace spec
