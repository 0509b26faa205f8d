#include "common.h"
using GooseFEM::VectorPartitioned;
#define ARGS const I2 &conn, const I2 &dofs, const I1 &iip

// Partition: the unknown DOFs `iiu` are those that are not prescribed; they come first in the order [iiu, iip].
#define PART \
    I1 iiu = xt::setdiff1d(dofs, iip); \
    size_t nnu = iiu.size(); \
    size_t nnp = iip.size(); \
    I1 loc; \
    vf::shape(loc, xt::amax(dofs)() + 1); \
    for (size_t d = 0; d < nnu; ++d) loc(iiu(d)) = d; \
    for (size_t d = 0; d < nnp; ++d) loc(iip(d)) = nnu + d; \
    I2 part; \
    vf::shape(part, dofs.shape(0), dofs.shape(1)); \
    for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i) part(m, i) = loc(dofs(m, i))

namespace pre {
void common(ARGS, const A2& nodevec, const A2& dest, const A3& elemvec, const A1& dofval, const A1& dofval_u, const A1& dofval_p)
{
    vf::shape(dest, dofs.shape(0), dofs.shape(1));
    vf::shape(nodevec, dofs.shape(0), dofs.shape(1));
    vf::shape(elemvec, conn.shape(0), conn.shape(1), dofs.shape(1));
    vf::shape(dofval, xt::amax(dofs)() + 1);
    I1 iiu = xt::setdiff1d(dofs, iip);
    vf::shape(dofval_u, iiu.size());
    vf::shape(dofval_p, iip.size());
}
}
#define V VectorPartitioned v(conn, dofs, iip); READ(v)
#define DOFVAL A1 ret; vf::shape(ret, xt::amax(dofs)() + 1)
#define DOFVAL_U A1 ret; vf::shape(ret, xt::setdiff1d(dofs, iip).size())
#define DOFVAL_P A1 ret; vf::shape(ret, iip.size())
#define NODEVEC A2 ret; vf::shape(ret, dofs.shape(0), dofs.shape(1))
#define ELEMVEC A3 ret; vf::shape(ret, conn.shape(0), conn.shape(1), dofs.shape(1))
#define FOR_NODES for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i)
#define FOR_ELEMS for (size_t e = 0; e < conn.shape(0); ++e) for (size_t m = 0; m < conn.shape(1); ++m) for (size_t i = 0; i < dofs.shape(1); ++i)

namespace entry {
I1 iiu(ARGS) { V; return v.iiu(); }
I1 iip(ARGS) { V; return v.iip(); }
size_t nnu(ARGS) { V; return v.nnu(); }
size_t nnp(ARGS) { V; return v.nnp(); }
B2 is_u(ARGS) { V; return v.dofs_is_u(); }
B2 is_p(ARGS) { V; return v.dofs_is_p(); }
A2 copy_u(ARGS, const A2& nodevec, const A2& dest) { V; return v.Copy_u(nodevec, dest); }
A2 copy_p(ARGS, const A2& nodevec, const A2& dest) { V; return v.Copy_p(nodevec, dest); }
A2 copy_u__inplace(ARGS, const A2& nodevec, const A2& dest) { V; A2 ret = dest; v.copy_u(nodevec, ret); return ret; }
A2 copy_p__inplace(ARGS, const A2& nodevec, const A2& dest) { V; A2 ret = dest; v.copy_p(nodevec, ret); return ret; }
A1 dofs_up(ARGS, const A1& dofval_u, const A1& dofval_p) { V; return v.DofsFromParitioned(dofval_u, dofval_p); }
A2 node_up(ARGS, const A1& dofval_u, const A1& dofval_p) { V; return v.NodeFromPartitioned(dofval_u, dofval_p); }
A3 elem_up(ARGS, const A1& dofval_u, const A1& dofval_p) { V; return v.ElementFromPartitioned(dofval_u, dofval_p); }
A1 dofs_up__inplace(ARGS, const A1& dofval_u, const A1& dofval_p) { V; DOFVAL; v.dofsFromParitioned(dofval_u, dofval_p, ret); return ret; }
A2 node_up__inplace(ARGS, const A1& dofval_u, const A1& dofval_p) { V; NODEVEC; v.nodeFromPartitioned(dofval_u, dofval_p, ret); return ret; }
A3 elem_up__inplace(ARGS, const A1& dofval_u, const A1& dofval_p) { V; ELEMVEC; v.elementFromPartitioned(dofval_u, dofval_p, ret); return ret; }
A1 u_dofval(ARGS, const A1& dofval) { V; return v.AsDofs_u(dofval); }
A1 u_nodevec(ARGS, const A2& nodevec) { V; return v.AsDofs_u(nodevec); }
A1 u_elemvec(ARGS, const A3& elemvec) { V; return v.AsDofs_u(elemvec); }
A1 p_dofval(ARGS, const A1& dofval) { V; return v.AsDofs_p(dofval); }
A1 p_nodevec(ARGS, const A2& nodevec) { V; return v.AsDofs_p(nodevec); }
A1 p_elemvec(ARGS, const A3& elemvec) { V; return v.AsDofs_p(elemvec); }
A1 u_dofval__inplace(ARGS, const A1& dofval) { V; DOFVAL_U; v.asDofs_u(dofval, ret); return ret; }
A1 u_nodevec__inplace(ARGS, const A2& nodevec) { V; DOFVAL_U; v.asDofs_u(nodevec, ret); return ret; }
A1 u_elemvec__inplace(ARGS, const A3& elemvec) { V; DOFVAL_U; v.asDofs_u(elemvec, ret); return ret; }
A1 p_dofval__inplace(ARGS, const A1& dofval) { V; DOFVAL_P; v.asDofs_p(dofval, ret); return ret; }
A1 p_nodevec__inplace(ARGS, const A2& nodevec) { V; DOFVAL_P; v.asDofs_p(nodevec, ret); return ret; }
A1 p_elemvec__inplace(ARGS, const A3& elemvec) { V; DOFVAL_P; v.asDofs_p(elemvec, ret); return ret; }
}

namespace spec {
I1 iiu(ARGS) { PART; return iiu; }
I1 iip(ARGS) { return iip; }
size_t nnu(ARGS) { PART; return nnu; }
size_t nnp(ARGS) { return iip.size(); }
B2 is_u(ARGS)
{
    PART;
    B2 ret;
    vf::shape(ret, dofs.shape(0), dofs.shape(1));
    FOR_NODES ret(m, i) = part(m, i) < nnu;
    return ret;
}
B2 is_p(ARGS)
{
    PART;
    B2 ret;
    vf::shape(ret, dofs.shape(0), dofs.shape(1));
    FOR_NODES ret(m, i) = part(m, i) >= nnu;
    return ret;
}
A2 copy_u(ARGS, const A2& nodevec, const A2& dest)
{
    PART;
    NODEVEC;
    FOR_NODES ret(m, i) = part(m, i) < nnu ? nodevec(m, i) : dest(m, i);
    return ret;
}
A2 copy_p(ARGS, const A2& nodevec, const A2& dest)
{
    PART;
    NODEVEC;
    FOR_NODES ret(m, i) = part(m, i) < nnu ? dest(m, i) : nodevec(m, i);
    return ret;
}
A1 dofs_up(ARGS, const A1& dofval_u, const A1& dofval_p)
{
    PART;
    DOFVAL;
    for (size_t d = 0; d < ret.shape(0); ++d)
        ret(d) = 0;
    for (size_t d = 0; d < nnu; ++d)
        ret(iiu(d)) = dofval_u(d);
    for (size_t d = 0; d < nnp; ++d)
        ret(iip(d)) = dofval_p(d);
    return ret;
}
A2 node_up(ARGS, const A1& dofval_u, const A1& dofval_p)
{
    PART;
    NODEVEC;
    FOR_NODES ret(m, i) = part(m, i) < nnu ? dofval_u(part(m, i)) : dofval_p(part(m, i) - nnu);
    return ret;
}
A3 elem_up(ARGS, const A1& dofval_u, const A1& dofval_p)
{
    PART;
    ELEMVEC;
    FOR_ELEMS
    {
        size_t d = part(conn(e, m), i);
        ret(e, m, i) = d < nnu ? dofval_u(d) : dofval_p(d - nnu);
    }
    return ret;
}
A1 u_dofval(ARGS, const A1& dofval)
{
    PART;
    DOFVAL_U;
    for (size_t d = 0; d < nnu; ++d)
        ret(d) = dofval(iiu(d));
    return ret;
}
A1 p_dofval(ARGS, const A1& dofval)
{
    DOFVAL_P;
    for (size_t d = 0; d < iip.size(); ++d)
        ret(d) = dofval(iip(d));
    return ret;
}
A1 u_nodevec(ARGS, const A2& nodevec)
{
    PART;
    DOFVAL_U;
    ret.fill(0);
    FOR_NODES
    {
        if (part(m, i) < nnu)
            ret(part(m, i)) = nodevec(m, i);
    }
    return ret;
}
A1 p_nodevec(ARGS, const A2& nodevec)
{
    PART;
    DOFVAL_P;
    ret.fill(0);
    FOR_NODES
    {
        if (part(m, i) >= nnu)
            ret(part(m, i) - nnu) = nodevec(m, i);
    }
    return ret;
}
A1 u_elemvec(ARGS, const A3& elemvec)
{
    PART;
    DOFVAL_U;
    ret.fill(0);
    FOR_ELEMS
    {
        if (part(conn(e, m), i) < nnu)
            ret(part(conn(e, m), i)) = elemvec(e, m, i);
    }
    return ret;
}
A1 p_elemvec(ARGS, const A3& elemvec)
{
    PART;
    DOFVAL_P;
    ret.fill(0);
    FOR_ELEMS
    {
        if (part(conn(e, m), i) >= nnu)
            ret(part(conn(e, m), i) - nnu) = elemvec(e, m, i);
    }
    return ret;
}
}
