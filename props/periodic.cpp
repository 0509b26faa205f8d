#include "common.h"
using GooseFEM::Tyings::Control;
using GooseFEM::Tyings::Periodic;
using Sp = Eigen::SparseMatrix<double>;
using Tr = Eigen::Triplet<double>;
#define ARGS const A2 &coor, const I2 &dofs, const I2 &control, const I2 &ties, const I1 &iip
#define NOIIP const A2 &coor, const I2 &dofs, const I2 &control, const I2 &ties
#define T Periodic t(coor, dofs, control, ties, iip); READ(t)
#define NDIM (dofs.shape(1))
#define FOR_NODES for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i)

namespace pre {
void common(ARGS)
{
    vf::shape(coor, dofs.shape(0), dofs.shape(1));
    vf::shape(control, dofs.shape(1), dofs.shape(1));
    vf::shape(ties, ties.shape(0), 2);
}
} // namespace pre

namespace entry {
size_t nnu(ARGS) { T; return t.nnu(); }
size_t nnp(ARGS) { T; return t.nnp(); }
size_t nni(ARGS) { T; return t.nni(); }
size_t nnd(ARGS) { T; return t.nnd(); }
I2 dofs(ARGS) { T; return t.dofs(); }
I2 control(ARGS) { T; return t.control(); }
I2 ties(ARGS) { T; return t.nodal_tyings(); }
I1 iiu(ARGS) { T; return t.iiu(); }
I1 iip(ARGS) { T; return t.iip(); }
I1 iii(ARGS) { T; return t.iii(); }
I1 iid(ARGS) { T; return t.iid(); }
Sp cdi(ARGS) { T; return t.Cdi(); }
Sp cdu(ARGS) { T; return t.Cdu(); }
Sp cdp(ARGS) { T; return t.Cdp(); }
I2 noiip_dofs(NOIIP) { Periodic t(coor, dofs, control, ties); return t.dofs(); }
I2 noiip_control(NOIIP) { Periodic t(coor, dofs, control, ties); return t.control(); }
Sp noiip_cdu(NOIIP) { Periodic t(coor, dofs, control, ties); return t.Cdu(); }
size_t noiip_nnp(NOIIP) { Periodic t(coor, dofs, control, ties); return t.nnp(); }
A2 ctrl_coor(const A2& coor, const I2& dofs) { Control c(coor, dofs); return c.coor(); }
I2 ctrl_dofs(const A2& coor, const I2& dofs) { Control c(coor, dofs); return c.dofs(); }
I2 ctrl_controldofs(const A2& coor, const I2& dofs) { Control c(coor, dofs); return c.controlDofs(); }
I1 ctrl_nodes(const A2& coor, const I2& dofs) { Control c(coor, dofs); return c.controlNodes(); }
}

namespace spec {
// The dependent DOFs are those of the second node of each tie; they are numbered after the unknown and the prescribed DOFs.
#define PART \
    I2 dd; \
    vf::shape(dd, ties.shape(0), NDIM); \
    for (size_t i = 0; i < ties.shape(0); ++i) for (size_t j = 0; j < NDIM; ++j) dd(i, j) = dofs(ties(i, 1), j); \
    I1 iid = xt::flatten(dd); \
    I1 iii = xt::setdiff1d(dofs, iid); \
    I1 iiu = xt::setdiff1d(iii, iip); \
    size_t nnu = iiu.size(); \
    size_t nnp = iip.size(); \
    size_t nni = iii.size(); \
    size_t nnd = iid.size(); \
    (void)nni;
#define RENUM \
    PART; \
    I1 loc; \
    vf::shape(loc, xt::amax(dofs)() + 1); \
    for (size_t d = 0; d < nnu; ++d) loc(iiu(d)) = d; \
    for (size_t d = 0; d < nnp; ++d) loc(iip(d)) = nnu + d; \
    for (size_t d = 0; d < nnd; ++d) loc(iid(d)) = nnu + nnp + d; \
    I2 part; \
    vf::shape(part, dofs.shape(0), dofs.shape(1)); \
    FOR_NODES part(m, i) = loc(dofs(m, i)); \
    I2 ctrl; \
    vf::shape(ctrl, NDIM, NDIM); \
    for (size_t i = 0; i < NDIM; ++i) for (size_t j = 0; j < NDIM; ++j) ctrl(i, j) = loc(control(i, j))
size_t nnu(ARGS) { PART; return nnu; }
size_t nnp(ARGS) { PART; return nnp; }
size_t nni(ARGS) { PART; return nni; }
size_t nnd(ARGS) { PART; return nnd; }
I2 dofs(ARGS) { RENUM; return part; }
I2 control(ARGS) { RENUM; return ctrl; }
I2 ties(ARGS) { return ties; }
I1 iiu(ARGS) { PART; I1 ret; vf::shape(ret, nnu); for (size_t i = 0; i < nnu; ++i) ret(i) = i; return ret; }
I1 iip(ARGS) { PART; I1 ret; vf::shape(ret, nnp); for (size_t i = 0; i < nnp; ++i) ret(i) = nnu + i; return ret; }
I1 iii(ARGS) { PART; I1 ret; vf::shape(ret, nni); for (size_t i = 0; i < nni; ++i) ret(i) = i; return ret; }
I1 iid(ARGS) { PART; I1 ret; vf::shape(ret, nnd); for (size_t i = 0; i < nnd; ++i) ret(i) = nni + i; return ret; }
#define TIE(sel, off) \
    std::vector<Tr> data; \
    for (size_t i = 0; i < ties.shape(0); ++i) \
        for (size_t j = 0; j < NDIM; ++j) { \
            size_t d = part(ties(i, 0), j); \
            if (sel(d)) data.push_back(Tr(i * NDIM + j, d - off, 1.0)); \
            for (size_t k = 0; k < NDIM; ++k) { \
                size_t c = ctrl(j, k); \
                if (sel(c)) data.push_back(Tr(i * NDIM + j, c - off, coor(ties(i, 1), k) - coor(ties(i, 0), k))); \
            } \
        }
#define ALL(d) true
#define U(d) (d < nnu)
#define P(d) (d >= nnu)
Sp cdi(ARGS) { RENUM; TIE(ALL, 0); Sp C(nnd, nni); C.setFromTriplets(data.begin(), data.end()); return C; }
Sp cdu(ARGS) { RENUM; TIE(U, 0); Sp C(nnd, nnu); C.setFromTriplets(data.begin(), data.end()); return C; }
Sp cdp(ARGS) { RENUM; TIE(P, nnu); Sp C(nnd, nnp); C.setFromTriplets(data.begin(), data.end()); return C; }
#define NONE I1 iip = xt::empty<size_t>({0})
I2 noiip_dofs(NOIIP) { NONE; RENUM; return part; }
I2 noiip_control(NOIIP) { NONE; RENUM; return ctrl; }
Sp noiip_cdu(NOIIP) { NONE; RENUM; TIE(U, 0); Sp C(nnd, nnu); C.setFromTriplets(data.begin(), data.end()); return C; }
size_t noiip_nnp(NOIIP) { return 0; }
A2 ctrl_coor(const A2& coor, const I2& dofs)
{
    A2 ret;
    vf::shape(ret, dofs.shape(0) + NDIM, NDIM);
    FOR_NODES ret(m, i) = coor(m, i);
    for (size_t i = 0; i < NDIM; ++i) for (size_t j = 0; j < NDIM; ++j) ret(dofs.shape(0) + i, j) = 0.0;
    return ret;
}
I2 ctrl_dofs(const A2& coor, const I2& dofs)
{
    I2 ret;
    vf::shape(ret, dofs.shape(0) + NDIM, NDIM);
    FOR_NODES ret(m, i) = dofs(m, i);
    for (size_t i = 0; i < NDIM; ++i) for (size_t j = 0; j < NDIM; ++j) ret(dofs.shape(0) + i, j) = xt::amax(dofs)() + 1 + i * NDIM + j;
    return ret;
}
I2 ctrl_controldofs(const A2& coor, const I2& dofs)
{
    I2 ret;
    vf::shape(ret, NDIM, NDIM);
    for (size_t i = 0; i < NDIM; ++i) for (size_t j = 0; j < NDIM; ++j) ret(i, j) = xt::amax(dofs)() + 1 + i * NDIM + j;
    return ret;
}
I1 ctrl_nodes(const A2& coor, const I2& dofs)
{
    I1 ret;
    vf::shape(ret, NDIM);
    for (size_t i = 0; i < NDIM; ++i) ret(i) = dofs.shape(0) + i;
    return ret;
}
}
