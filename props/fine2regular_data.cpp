// flags: -fno-access-control
// Mapping data to the regular mesh, for any lists of cells and fractions.
#include "common.h"
#include <GooseFEM/MeshQuad4.h>
namespace Q = GooseFEM::Mesh::Quad4;
using Map = Q::Map::FineLayer2Regular;
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
namespace pre {
void data1(const Map& r, const A1& data) { vf::shape(data, r.m_finelayer.m_nelem); }
void data2(const Map& r, const A2& data) { vf::shape(data, r.m_finelayer.m_nelem, data.shape(1)); }
void data3(const Map& r, const A3& data) { vf::shape(data, r.m_finelayer.m_nelem, data.shape(1), data.shape(2)); }
} // namespace pre
namespace entry {
A1 data1(const Map& r, const A1& data) { READ(r); return r.mapToRegular(data); }
A2 data2(const Map& r, const A2& data) { READ(r); return r.mapToRegular(data); }
A3 data3(const Map& r, const A3& data) { READ(r); return r.mapToRegular(data); }
} // namespace entry
namespace spec {
A1 data1(const Map& r, const A1& data)
{
    A1 ret = xt::zeros<double>({r.m_regular.nelem()});
    FOR(e, r.m_finelayer.m_nelem) FOR(i, r.m_elem_regular[e].size())
        ret(r.m_elem_regular[e][i]) += r.m_frac_regular[e][i] * data(e);
    return ret;
}
A2 data2(const Map& r, const A2& data)
{
    A2 ret = xt::zeros<double>({r.m_regular.nelem(), data.shape(1)});
    FOR(e, r.m_finelayer.m_nelem) FOR(i, r.m_elem_regular[e].size()) FOR(a, data.shape(1))
        ret(r.m_elem_regular[e][i], a) += r.m_frac_regular[e][i] * data(e, a);
    return ret;
}
A3 data3(const Map& r, const A3& data)
{
    A3 ret = xt::zeros<double>({r.m_regular.nelem(), data.shape(1), data.shape(2)});
    FOR(e, r.m_finelayer.m_nelem) FOR(i, r.m_elem_regular[e].size()) FOR(a, data.shape(1)) FOR(b, data.shape(2))
        ret(r.m_elem_regular[e][i], a, b) += r.m_frac_regular[e][i] * data(e, a, b);
    return ret;
}
} // namespace spec
