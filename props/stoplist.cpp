// Stop criterion: list of the last residuals, first inserted first.
#include "common.h"
#include <GooseFEM/Iterate.h>
#include <vector>
#define FOR(i, n) for (size_t i = 0; i < n; ++i)
using S = GooseFEM::Iterate::StopList;
using V = std::vector<double>;

namespace pre {
void roll(S s, double r) { vf::assume(s.data().size() >= 1); }
void roll2(S s, double r, double q) { vf::assume(s.data().size() >= 2); }
} // namespace pre

namespace entry {
V init(size_t n) { return S(n).data(); }
V one() { return S().data(); }
V reset(S s) { READ(s); s.reset(); return s.data(); }
V reset_n(S s, size_t n) { READ(s); s.reset(n); return s.data(); }
V roll(S s, double r) { READ(s); s.roll_insert(r); return s.data(); }
V roll2(S s, double r, double q) { READ(s); s.roll_insert(r); READ(s); s.roll_insert(q); return s.data(); }
V get(S s) { READ(s); return s.get(); }
bool descending(S s) { READ(s); return s.descending(); }
bool all_less(S s, double tol) { READ(s); return s.all_less(tol); }
} // namespace entry

namespace spec {
V filled(size_t n)
{
    V x(n);
    FOR(i, n) x[i] = std::numeric_limits<double>::infinity();
    return x;
}
V init(size_t n) { return filled(n); }
V one() { return filled(1); }
V reset(S s) { return filled(s.data().size()); }
V reset_n(S s, size_t n) { return filled(n); }
// the oldest one out
V roll(S s, double r)
{
    V x = s.data();
    V y = x;
    size_t n = x.size();
    FOR(i, n) y[i] = n <= i + 1 ? x[i + 1 - n] : x[i + 1];
    y[n - 1] = r;
    return y;
}
V roll2(S s, double r, double q)
{
    V y = roll(s, r);
    V z = y;
    size_t n = y.size();
    FOR(i, n) z[i] = n <= i + 1 ? y[i + 1 - n] : y[i + 1];
    z[n - 1] = q;
    return z;
}
V get(S s) { return s.data(); }
bool descending(S s)
{
    const V& x = s.data();
    FOR(i, x.size() - 1)
    {
        if (x[i + 1] > x[i]) {
            return false;
        }
    }
    return true;
}
// false if any residual is not a number
bool all_less(S s, double tol)
{
    const V& x = s.data();
    FOR(i, x.size())
    {
        if (!(x[i] < tol)) {
            return false;
        }
    }
    return true;
}
} // namespace spec
