#include "common.h"
using GooseFEM::VectorPartitionedTyings;
using Sp = Eigen::SparseMatrix<double>;
using Vx = Eigen::VectorXd;
#define ARGS const I2 &conn, const I2 &dofs, const Sp &Cdu, const Sp &Cdp, const Sp &Cdi
#define V VectorPartitionedTyings v(conn, dofs, Cdu, Cdp, Cdi); READ(v)
#define NNU size_t(Cdu.cols())
#define NNP size_t(Cdp.cols())
#define NND size_t(Cdp.rows())
#define NNI (NNU + NNP)
#define NDOF (xt::amax(dofs)() + 1)
#define FOR_NODES for (size_t m = 0; m < dofs.shape(0); ++m) for (size_t i = 0; i < dofs.shape(1); ++i)

namespace pre {
void common(ARGS, const A2& nodevec, const A1& src, const A1& dest)
{
    vf::shape(Cdu, Cdp.rows(), Cdu.cols());
    vf::shape(Cdi, Cdp.rows(), Cdu.cols() + Cdp.cols());
    vf::shape(nodevec, dofs.shape(0), dofs.shape(1));
    vf::shape(src, NDOF);
    vf::shape(dest, NDOF);
    vf::assume(NDOF == NNI + NND);
}
void copy_p__i(ARGS, const A1& src, const A1& dest)
{
    vf::shape(Cdu, Cdp.rows(), Cdu.cols());
    vf::shape(Cdi, Cdp.rows(), Cdu.cols() + Cdp.cols());
    vf::shape(src, NNI);
    vf::shape(dest, NNI);
    vf::assume(NDOF == NNI + NND);
}
} // namespace pre

namespace entry {
size_t nnu(ARGS) { V; return v.nnu(); }
size_t nnp(ARGS) { V; return v.nnp(); }
size_t nni(ARGS) { V; return v.nni(); }
size_t nnd(ARGS) { V; return v.nnd(); }
I1 iiu(ARGS) { V; return v.iiu(); }
I1 iip(ARGS) { V; return v.iip(); }
I1 iii(ARGS) { V; return v.iii(); }
I1 iid(ARGS) { V; return v.iid(); }
A1 copy_p(ARGS, const A1& src, const A1& dest) { V; A1 ret = dest; v.copy_p(src, ret); return ret; }
A1 copy_p__i(ARGS, const A1& src, const A1& dest) { V; A1 ret = dest; v.copy_p(src, ret); return ret; }
A1 asDofs_i(ARGS, const A2& nodevec) { V; return v.AsDofs_i(nodevec); }
A1 asDofs_i__inplace(ARGS, const A2& nodevec) { V; A1 ret; vf::shape(ret, v.nni()); v.asDofs_i(nodevec, ret); return ret; }
A1 asDofs_i__true(ARGS, const A2& nodevec) { V; A1 ret; vf::shape(ret, v.nni()); v.asDofs_i(nodevec, ret, true); return ret; }
A1 independent(ARGS, const A2& nodevec) { V; A1 ret; vf::shape(ret, v.nni()); v.asDofs_i(nodevec, ret, false); return ret; }
// inherited
A1 asDofs(ARGS, const A2& nodevec) { V; return v.AsDofs(nodevec); }
A2 asNode(ARGS, const A1& src) { V; return v.AsNode(src); }
}
namespace spec {
size_t nnu(ARGS) { return NNU; }
size_t nnp(ARGS) { return NNP; }
size_t nni(ARGS) { return NNI; }
size_t nnd(ARGS) { return NND; }
I1 iiu(ARGS) { I1 ret; vf::shape(ret, NNU); for (size_t i = 0; i < NNU; ++i) ret(i) = i; return ret; }
I1 iip(ARGS) { I1 ret; vf::shape(ret, NNP); for (size_t i = 0; i < NNP; ++i) ret(i) = NNU + i; return ret; }
I1 iii(ARGS) { I1 ret; vf::shape(ret, NNI); for (size_t i = 0; i < NNI; ++i) ret(i) = i; return ret; }
I1 iid(ARGS) { I1 ret; vf::shape(ret, NND); for (size_t i = 0; i < NND; ++i) ret(i) = NNI + i; return ret; }
A1 copy_p(ARGS, const A1& src, const A1& dest) { A1 ret = dest; for (size_t i = 0; i < NNP; ++i) ret(NNU + i) = src(NNU + i); return ret; }
#define INDEP A1 ret = xt::zeros<double>({NNI}); FOR_NODES { if (dofs(m, i) < NNI) ret(dofs(m, i)) = nodevec(m, i); }
A1 independent(ARGS, const A2& nodevec) { INDEP; return ret; }
A1 asDofs_i(ARGS, const A2& nodevec)
{
    INDEP;
    Vx f = Vx::Zero(NND);
    FOR_NODES { if (dofs(m, i) >= NNI) f(dofs(m, i) - NNI) = nodevec(m, i); }
    Vx g = Cdi.transpose() * f;
    for (size_t i = 0; i < NNI; ++i) ret(i) += g(i);
    return ret;
}
A1 asDofs(ARGS, const A2& nodevec) { A1 ret = xt::zeros<double>({NDOF}); FOR_NODES ret(dofs(m, i)) = nodevec(m, i); return ret; }
A2 asNode(ARGS, const A1& src) { A2 ret; vf::shape(ret, dofs.shape(0), dofs.shape(1)); FOR_NODES ret(m, i) = src(dofs(m, i)); return ret; }
}
