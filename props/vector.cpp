#include "common.h"
using GooseFEM::Vector;
#define ARGS const I2 &conn, const I2 &dofs

namespace pre {
void common(ARGS, const A2& nodevec, const A3& elemvec, const A1& dofval, const A2& dest)
{
    vf::shape(dest, dofs.shape(0), dofs.shape(1));
    vf::shape(nodevec, dofs.shape(0), dofs.shape(1));
    vf::shape(elemvec, conn.shape(0), conn.shape(1), dofs.shape(1));
    vf::shape(dofval, xt::amax(dofs)() + 1);
}
void asDofs_nodevec__dynamic(ARGS, const XD& nodevec) { vf::shape(nodevec, dofs.shape(0), dofs.shape(1)); }
void asElement_nodevec__dynamic(ARGS, const XD& nodevec) { vf::shape(nodevec, dofs.shape(0), dofs.shape(1)); }
void assembleDofs_nodevec__dynamic(ARGS, const XD& nodevec) { vf::shape(nodevec, dofs.shape(0), dofs.shape(1)); }
void asNode_dofval__dynamic(ARGS, const XD& dofval) { vf::shape(dofval, xt::amax(dofs)() + 1); }
void asElement_dofval__dynamic(ARGS, const XD& dofval) { vf::shape(dofval, xt::amax(dofs)() + 1); }
void asDofs_elemvec__dynamic(ARGS, const XD& elemvec) { vf::shape(elemvec, conn.shape(0), conn.shape(1), dofs.shape(1)); }
void asNode_elemvec__dynamic(ARGS, const XD& elemvec) { vf::shape(elemvec, conn.shape(0), conn.shape(1), dofs.shape(1)); }
void assembleDofs_elemvec__dynamic(ARGS, const XD& elemvec) { vf::shape(elemvec, conn.shape(0), conn.shape(1), dofs.shape(1)); }
void assembleNode_elemvec__dynamic(ARGS, const XD& elemvec) { vf::shape(elemvec, conn.shape(0), conn.shape(1), dofs.shape(1)); }
}
#define V Vector v(conn, dofs); READ(v)
#define DOFVAL A1 ret; vf::shape(ret, xt::amax(dofs)() + 1)
#define NODEVEC A2 ret; vf::shape(ret, dofs.shape(0), dofs.shape(1))
#define ELEMVEC A3 ret; vf::shape(ret, conn.shape(0), conn.shape(1), dofs.shape(1))

namespace entry {
A1 asDofs_nodevec(ARGS, const A2& nodevec) { V; return v.AsDofs(nodevec); }
A1 asDofs_elemvec(ARGS, const A3& elemvec) { V; return v.AsDofs(elemvec); }
A2 asNode_dofval(ARGS, const A1& dofval) { V; return v.AsNode(dofval); }
A2 asNode_elemvec(ARGS, const A3& elemvec) { V; return v.AsNode(elemvec); }
A3 asElement_dofval(ARGS, const A1& dofval) { V; return v.AsElement(dofval); }
A3 asElement_nodevec(ARGS, const A2& nodevec) { V; return v.AsElement(nodevec); }
A1 assembleDofs_nodevec(ARGS, const A2& nodevec) { V; return v.AssembleDofs(nodevec); }
A1 assembleDofs_elemvec(ARGS, const A3& elemvec) { V; return v.AssembleDofs(elemvec); }
A2 assembleNode_elemvec(ARGS, const A3& elemvec) { V; return v.AssembleNode(elemvec); }
// in place: earlier content of the result does not matter
A1 asDofs_nodevec__inplace(ARGS, const A2& nodevec) { V; DOFVAL; v.asDofs(nodevec, ret); return ret; }
A1 asDofs_elemvec__inplace(ARGS, const A3& elemvec) { V; DOFVAL; v.asDofs(elemvec, ret); return ret; }
A2 asNode_dofval__inplace(ARGS, const A1& dofval) { V; NODEVEC; v.asNode(dofval, ret); return ret; }
A2 asNode_elemvec__inplace(ARGS, const A3& elemvec) { V; NODEVEC; v.asNode(elemvec, ret); return ret; }
A3 asElement_dofval__inplace(ARGS, const A1& dofval) { V; ELEMVEC; v.asElement(dofval, ret); return ret; }
A3 asElement_nodevec__inplace(ARGS, const A2& nodevec) { V; ELEMVEC; v.asElement(nodevec, ret); return ret; }
A1 assembleDofs_nodevec__inplace(ARGS, const A2& nodevec) { V; DOFVAL; v.assembleDofs(nodevec, ret); return ret; }
A1 assembleDofs_elemvec__inplace(ARGS, const A3& elemvec) { V; DOFVAL; v.assembleDofs(elemvec, ret); return ret; }
A2 assembleNode_elemvec__inplace(ARGS, const A3& elemvec) { V; NODEVEC; v.assembleNode(elemvec, ret); return ret; }
// rank known at run-time only
A1 asDofs_nodevec__dynamic(ARGS, const XD& nodevec) { V; return v.AsDofs(nodevec); }
A1 asDofs_elemvec__dynamic(ARGS, const XD& elemvec) { V; return v.AsDofs(elemvec); }
A2 asNode_dofval__dynamic(ARGS, const XD& dofval) { V; return v.AsNode(dofval); }
A2 asNode_elemvec__dynamic(ARGS, const XD& elemvec) { V; return v.AsNode(elemvec); }
A3 asElement_dofval__dynamic(ARGS, const XD& dofval) { V; return v.AsElement(dofval); }
A3 asElement_nodevec__dynamic(ARGS, const XD& nodevec) { V; return v.AsElement(nodevec); }
A1 assembleDofs_nodevec__dynamic(ARGS, const XD& nodevec) { V; return v.AssembleDofs(nodevec); }
A1 assembleDofs_elemvec__dynamic(ARGS, const XD& elemvec) { V; return v.AssembleDofs(elemvec); }
A2 assembleNode_elemvec__dynamic(ARGS, const XD& elemvec) { V; return v.AssembleNode(elemvec); }
A2 copy(ARGS, const A2& nodevec, const A2& dest) { V; return v.Copy(nodevec, dest); }
A2 copy__inplace(ARGS, const A2& nodevec, const A2& dest) { V; A2 ret = dest; v.copy(nodevec, ret); return ret; }
}

namespace spec {
A1 asDofs_nodevec(ARGS, const A2& nodevec)
{
    DOFVAL;
    for (size_t d = 0; d < ret.shape(0); ++d)
        ret(d) = 0;
    for (size_t m = 0; m < dofs.shape(0); ++m)
        for (size_t i = 0; i < dofs.shape(1); ++i)
            ret(dofs(m, i)) = nodevec(m, i);
    return ret;
}
A1 asDofs_elemvec(ARGS, const A3& elemvec)
{
    DOFVAL;
    for (size_t d = 0; d < ret.shape(0); ++d)
        ret(d) = 0;
    for (size_t e = 0; e < conn.shape(0); ++e)
        for (size_t m = 0; m < conn.shape(1); ++m)
            for (size_t i = 0; i < dofs.shape(1); ++i)
                ret(dofs(conn(e, m), i)) = elemvec(e, m, i);
    return ret;
}
A2 asNode_dofval(ARGS, const A1& dofval)
{
    NODEVEC;
    for (size_t m = 0; m < dofs.shape(0); ++m)
        for (size_t i = 0; i < dofs.shape(1); ++i)
            ret(m, i) = dofval(dofs(m, i));
    return ret;
}
A2 asNode_elemvec(ARGS, const A3& elemvec)
{
    NODEVEC;
    for (size_t m = 0; m < dofs.shape(0); ++m)
        for (size_t i = 0; i < dofs.shape(1); ++i)
            ret(m, i) = 0;
    for (size_t e = 0; e < conn.shape(0); ++e)
        for (size_t m = 0; m < conn.shape(1); ++m)
            for (size_t i = 0; i < dofs.shape(1); ++i)
                ret(conn(e, m), i) = elemvec(e, m, i);
    return ret;
}
A3 asElement_dofval(ARGS, const A1& dofval)
{
    ELEMVEC;
    for (size_t e = 0; e < conn.shape(0); ++e)
        for (size_t m = 0; m < conn.shape(1); ++m)
            for (size_t i = 0; i < dofs.shape(1); ++i)
                ret(e, m, i) = dofval(dofs(conn(e, m), i));
    return ret;
}
A3 asElement_nodevec(ARGS, const A2& nodevec)
{
    ELEMVEC;
    for (size_t e = 0; e < conn.shape(0); ++e)
        for (size_t m = 0; m < conn.shape(1); ++m)
            for (size_t i = 0; i < dofs.shape(1); ++i)
                ret(e, m, i) = nodevec(conn(e, m), i);
    return ret;
}
A1 assembleDofs_nodevec(ARGS, const A2& nodevec)
{
    DOFVAL;
    for (size_t d = 0; d < ret.shape(0); ++d)
        ret(d) = 0;
    for (size_t m = 0; m < dofs.shape(0); ++m)
        for (size_t i = 0; i < dofs.shape(1); ++i)
            ret(dofs(m, i)) += nodevec(m, i);
    return ret;
}
A1 assembleDofs_elemvec(ARGS, const A3& elemvec)
{
    DOFVAL;
    for (size_t d = 0; d < ret.shape(0); ++d)
        ret(d) = 0;
    for (size_t e = 0; e < conn.shape(0); ++e)
        for (size_t m = 0; m < conn.shape(1); ++m)
            for (size_t i = 0; i < dofs.shape(1); ++i)
                ret(dofs(conn(e, m), i)) += elemvec(e, m, i);
    return ret;
}
A2 assembleNode_elemvec(ARGS, const A3& elemvec)
{
    A1 dofval = assembleDofs_elemvec(conn, dofs, elemvec);
    NODEVEC;
    for (size_t m = 0; m < dofs.shape(0); ++m)
        for (size_t i = 0; i < dofs.shape(1); ++i)
            ret(m, i) = dofval(dofs(m, i));
    return ret;
}
A2 copy(ARGS, const A2& nodevec, const A2& dest) { return nodevec; }
}
