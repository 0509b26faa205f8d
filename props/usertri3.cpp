// An element defined by the user, on top of GooseFEM::Element::QuadratureBaseCartesian.
#define NNE 3
#define ND 2
#define TD 2
#define GRADN
#define FREE
#include "common.h"
#include <GooseFEM/Element.h>
namespace entry {
class Tri3 : public GooseFEM::Element::QuadratureBaseCartesian<Tri3> {
public:
    Tri3(const A3& x, const A2& xi, const A1& w)
    {
        m_x = x;
        m_w = w;
        m_xi = xi;
        m_nip = w.size();
        m_nelem = m_x.shape(0);
        m_N = xt::empty<double>({m_nip, s_nne});
        m_dNxi = xt::empty<double>({m_nip, s_nne, s_ndim});
        for (size_t q = 0; q < m_nip; ++q) {
            m_N(q, 0) = 1.0 - xi(q, 0) - xi(q, 1);
            m_N(q, 1) = xi(q, 0);
            m_N(q, 2) = xi(q, 1);
            m_dNxi(q, 0, 0) = -1.0;
            m_dNxi(q, 0, 1) = -1.0;
            m_dNxi(q, 1, 0) = 1.0;
            m_dNxi(q, 1, 1) = 0.0;
            m_dNxi(q, 2, 0) = 0.0;
            m_dNxi(q, 2, 1) = 1.0;
        }
        m_dNx = xt::empty<double>({m_nelem, m_nip, s_nne, s_ndim});
        m_vol = xt::empty<double>(this->shape_qscalar());
        this->compute_dN();
    }

private:
    friend GooseFEM::Element::QuadratureBase<Tri3>;
    friend GooseFEM::Element::QuadratureBaseCartesian<Tri3>;
    A3 m_x;
    A1 m_w;
    A2 m_xi;
    A2 m_N;
    A3 m_dNxi;
    A4 m_dNx;
    A2 m_vol;
    constexpr static size_t s_nne = 3;
    constexpr static size_t s_ndim = 2;
    constexpr static size_t s_tdim = 2;
    size_t m_tdim = 2;
    size_t m_nelem;
    size_t m_nip;
};
}
using Q = entry::Tri3;
namespace spec {
inline double tri(size_t m, double r, double s) { return m == 0 ? 1.0 - r - s : m == 1 ? r : s; }
inline double dtri(size_t m, size_t i) { return m == 0 ? -1.0 : m == i + 1 ? 1.0 : 0.0; }
}
#define SHAPE \
    A2 N; \
    vf::shape(N, w.size(), 3); \
    for (size_t q = 0; q < w.size(); ++q) { \
        for (size_t m = 0; m < 3; ++m) { \
            N(q, m) = tri(m, xi(q, 0), xi(q, 1)); \
        } \
    }
#define DSHAPE \
    A3 dN; \
    vf::shape(dN, w.size(), 3, 2); \
    for (size_t q = 0; q < w.size(); ++q) { \
        for (size_t m = 0; m < 3; ++m) { \
            for (size_t d = 0; d < 2; ++d) { \
                dN(q, m, d) = dtri(m, d); \
            } \
        } \
    }
#include "element.h"
