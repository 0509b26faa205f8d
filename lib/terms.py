"""Normal forms used by the analysis: polynomials over interned atoms, Boolean conditions as
reduced ordered decision diagrams over normalised comparisons, and closed array terms.

Two expressions are reported equal only if they have the same normal form. Nothing is executed:
atoms stand for sizes, array elements and library functions of the code under analysis."""
from fractions import Fraction
from math import gcd
from itertools import permutations

EMPTY = frozenset()
BINDERS = {"psum", "fun", "eff", "ex", "smax", "bag"}


class Term:
    __slots__ = ("id", "tag", "args", "free", "loose", "depth", "isint", "nonneg")

    def __repr__(self):
        return show(self)


_terms = {}
_fresh = [0]


def _free(x):
    if isinstance(x, (Term, Poly)):
        return x.free
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            f = _free(y)
            if f:
                r = r | f
        return r
    return EMPTY


def _loose(x):
    """Counters of enclosing binders."""
    if isinstance(x, (Term, Poly)):
        return x.loose
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            f = _loose(y)
            if f:
                r = r | f
        return r
    return EMPTY


def _depth(x):
    if isinstance(x, (Term, Poly)):
        return x.depth
    if isinstance(x, tuple):
        return max((_depth(y) for y in x), default=0)
    return 0


def term(tag, *args, isint=False, nonneg=False):
    key = (tag, args)
    t = _terms.get(key)
    if t is None:
        t = Term()
        t.id = len(_terms)
        t.tag = tag
        t.args = args
        t.isint = isint
        t.nonneg = nonneg
        t.depth = _depth(args)
        t.free = _free(args)
        t.loose = _loose(args)
        if tag == "raw":
            t.free = frozenset([t])
        elif tag == "bv":
            t.loose = frozenset([t])
        elif t.loose and tag in BINDERS:
            t.loose = frozenset(v for v in t.loose if v.args[0] != args[0])
        _terms[key] = t
    return t


def raw(name, isint=True, nonneg=True):
    """Fresh free variable (loop counter, loop-carried value)."""
    _fresh[0] += 1
    return term("raw", name, _fresh[0], isint=isint, nonneg=nonneg)


class Poly:
    __slots__ = ("t", "free", "loose", "depth", "_h", "id", "isint")


_polys = {}


def _mkpoly(d):
    d = {m: (c if type(c) is int else c.numerator if c.denominator == 1 else c) for m, c in d.items() if c}
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = d
        p.id = len(_polys)
        f = EMPTY
        lo = EMPTY
        dep = 0
        isint = True
        for m, c in d.items():
            if c.denominator != 1:
                isint = False
            for a, e in m:
                if a.free:
                    f = f | a.free
                if a.loose:
                    lo = lo | a.loose
                if a.depth > dep:
                    dep = a.depth
                if not a.isint or e < 0:
                    isint = False
        p.free = f
        p.loose = lo
        p.depth = dep
        p.isint = isint
        _polys[key] = p
    return p


def num(c):
    if isinstance(c, Poly):
        return c
    if type(c) is not int:
        c = Fraction(c)
    return _mkpoly({(): c})


ZERO = num(0)
ONE = num(1)


def atom(t):
    return _mkpoly({((t, 1),): 1})


def isconst(p):
    return not p.t or (len(p.t) == 1 and () in p.t)


def constval(p):
    return p.t.get((), 0)


def const_int(p):
    if isinstance(p, Poly) and isconst(p):
        c = constval(p)
        if c.denominator == 1:
            return int(c)
    return None


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t.items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def scale(a, c):
    if c == 1:
        return a
    return _mkpoly({m: x * c for m, x in a.t.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if a is b:
        return ZERO
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t.items():
        d[m] = d.get(m, 0) - c
    return _mkpoly(d)


def _mulmono(m1, m2):
    """Product of two monomials: (coefficient, monomial) or None when it needs a general product."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    iv = [a for a in d if a.tag == "iv"]
    for a in d:
        if a.tag == "bx":
            d[a] = 1
    c = 1
    if iv:
        if len(iv) == 1:
            d[iv[0]] = 1
        else:
            b = TRUE
            for a in iv:
                b = band(b, a.args[0])
                del d[a]
            if b is FALSE:
                return None
            # the bracket of a conjunction may have opposite polarity: handled by the caller
            p = bracket(b)
            if len(p.t) == 1:
                (mm, cc), = p.t.items()
                for a, e in mm:
                    d[a] = 1
            else:
                return ("gen", tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id)), p)
    for a in list(d):
        if a.tag == "sqrt" and abs(d[a]) >= 2:
            k = int(d[a] / 2)  # towards zero
            d[a] -= 2 * k
            rest = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda x: x[0].id))
            p = a.args[0]
            q = power(p, k)
            return ("gen", rest, q)
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) == 1 and () in a.t:
        return scale(b, a.t[()])
    if len(b.t) == 1 and () in b.t:
        return scale(a, b.t[()])
    d = {}
    extra = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mulmono(m1, m2)
            if m is None:
                continue
            if m and m[0] == "gen":
                extra.append((m[1], m[2], c1 * c2))
                continue
            d[m] = d.get(m, 0) + c1 * c2
    r = _mkpoly(d)
    for m, p, c in extra:
        r = add(r, mul(_mkpoly({m: c}), p))
    return r


def power(p, k):
    if k == 0:
        return ONE
    if k < 0:
        return power(inverse(p), -k)
    r = p
    for _ in range(k - 1):
        r = mul(r, p)
    return r


def lead(p):
    return min(p.t, key=lambda m: (not m, tuple((a.id, e) for a, e in m)))


def inverse(p):
    if not p.t:
        return atom(term("fn", "divzero"))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not any(a.tag == "iv" for a, e in m):
            r = {}
            for a, e in m:
                r[a] = -e
            q = _mkpoly({tuple(sorted(r.items(), key=lambda x: x[0].id)): Fraction(1) / c})
            if any(a.tag == "inv" for a, e in m):
                # inv(P)^-1 = P
                q = num(Fraction(1) / c)
                for a, e in m:
                    q = mul(q, power(a.args[0], e) if a.tag == "inv" else _mkpoly({((a, -e),): Fraction(1)}))
            return q
    if len(p.t) > LET and not p.isint:
        q = let(p)
        if q is not p:
            return inverse(q)
    c = p.t[lead(p)]
    if c == 1:
        return atom(term("inv", p))
    q = scale(p, Fraction(1) / c)
    return scale(atom(term("inv", q)), Fraction(1) / c)


def div(a, b):
    return mul(a, inverse(b))


LET = 4


_lets = {}


def let(p):
    """A stored value that is a large polynomial: one atom, a closed function applied to the counters."""
    if len(p.t) <= LET or p.isint:
        return p
    r = _lets.get(p)
    if r is not None:
        return r
    vs = sorted(p.free, key=lambda v: v.id)
    if len(vs) > 4:
        return p
    best = None
    for perm in permutations(vs):
        t = _close("fun", perm, p)
        c = 1
        if isinstance(t.args[2], Poly):
            c = Fraction(t.args[2].t[lead(t.args[2])])
        if c != 1:
            t = term("fun", t.args[0], t.args[1], scale(t.args[2], Fraction(1) / c))
            t.depth = t.args[0]
        if best is None or t.id < best[0].id:
            best = (t, perm, c)
    t, perm, c = best
    r = _lets[p] = scale(atom(term("let", t, *[atom(v) for v in perm])), c)
    return r


def unlet(a):
    """The polynomial that the atom stands for."""
    return _open_with(a.args[0], a.args[1:])[0]


def sqrt_(p):
    if isconst(p):
        c = constval(p)
        if c >= 0:
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return num(Fraction(n, d))
    return atom(term("sqrt", p))


def fdiv(a, b):
    ca, cb = const_int(a), const_int(b)
    if cb == 1:
        return a
    if ca is not None and cb:
        return num(abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1))
    if cb and all(c.denominator == 1 and c % cb == 0 for c in a.t.values()):
        return scale(a, Fraction(1, cb))
    # (q * b + r) / b with 0 <= r < b is not decided here
    if a.t and a is b:
        return ONE
    for m, c in a.t.items():
        # (y - y % b) / b
        if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].tag == "mod" and m[0][0].args[1] is b:
            if add(a, atom(m[0][0])) is m[0][0].args[0]:
                return fdiv(m[0][0].args[0], b)
    return atom(term("fdiv", a, b, isint=True, nonneg=True))


def imod(a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb and ca >= 0:
        return num(ca % cb)
    if cb and all(c.denominator == 1 and c % cb == 0 for c in a.t.values()):
        return ZERO
    if cb:
        # reduce coefficients modulo the (constant) modulus
        d = {m: Fraction(int(c) % cb) if c.denominator == 1 else c for m, c in a.t.items()}
        q = _mkpoly(d)
        if q is not a:
            return imod(q, b)
    else:
        # drop the multiples of b
        for m, c in a.t.items():
            if c.denominator != 1:
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0].tag == "mod" and m[0][0].args[1] is b:
                x = m[0][0]
                return imod(add(a, scale(sub(x.args[0], atom(x)), c)), b)
            if len(b.t) == 1:
                ((bm, bc),) = b.t.items()
                d = dict(m)
                if (Fraction(c) / bc).denominator == 1 and all(d.get(y, 0) >= e > 0 for y, e in bm):
                    return imod(sub(a, _mkpoly({m: c})), b)
        if len(b.t) > 1:
            m = next(iter(b.t))
            k = Fraction(a.t.get(m, 0)) / b.t[m]
            if k and k.denominator == 1 and all(a.t.get(m) == k * c for m, c in b.t.items()):
                return imod(sub(a, scale(b, k)), b)
    return atom(term("mod", a, b, isint=True, nonneg=True))


def trunc(p):
    if p.isint:
        return p
    if isconst(p):
        c = constval(p)
        n = abs(c.numerator) // c.denominator
        return num(n if c >= 0 else -n)
    return atom(term("trunc", p, isint=True, nonneg=True))


def fn(name, *args, isint=False, nonneg=False):
    return atom(term("fn", name, *args, isint=isint, nonneg=nonneg))


# ---------------------------------------------------------------- Booleans (ROBDD)
TRUE = term("true")
FALSE = term("false")


def _mk_bdd(v, hi, lo):
    return hi if hi is lo else term("bdd", v, hi, lo)


_imp = {}
_res = {}


def _above(p, c):
    """p >= c, surely"""
    lo = _lower(p)
    return lo is not None and lo >= c


def implied(v, val, w):
    """Truth of the atom `w` if the atom `v` has the value `val`: True, False, None (not implied)."""
    key = (v.id, val, w.id)
    if key in _imp:
        return _imp[key]
    r = None
    if v.tag in ("le0", "eq0") and w.tag in ("le0", "eq0", "lt0"):
        p, q = v.args[0], w.args[0]
        if p.isint and q.isint:
            if v.tag == "le0":
                # known: a >= 1, or a >= 0
                a, k = (neg(p), 0) if val else (p, 1)
                known = [(a, k)]
            else:
                known = [(p, 0), (neg(p), 0)] if val else []
            for a, k in known:
                if w.tag == "le0":
                    if _above(sub(neg(q), a), -k):
                        r = True
                    elif _above(sub(q, a), 1 - k):
                        r = False
                elif w.tag == "eq0":
                    if _above(sub(neg(q), a), 1 - k) or _above(sub(q, a), 1 - k):
                        r = False
    if v.tag == "lt0" and val and w.tag == "eq0" and v.args[0] is w.args[0]:
        r = False
    if v.tag == "eq0" and val and w.tag == "lt0" and v.args[0] is w.args[0]:
        r = False
    _imp[key] = r
    return r


def restrict(f, v, val):
    if f.tag != "bdd" or v.tag not in ("le0", "eq0", "lt0"):
        return f
    key = (f.id, v.id, val)
    r = _res.get(key)
    if r is None:
        w, hi, lo = f.args
        k = implied(v, val, w)
        if k is True:
            r = restrict(hi, v, val)
        elif k is False:
            r = restrict(lo, v, val)
        else:
            h2, l2 = restrict(hi, v, val), restrict(lo, v, val)
            r = f if h2 is hi and l2 is lo else _bdd(w, h2, l2)
        _res[key] = r
    return r


def _bdd(v, hi, lo):
    if hi is lo:
        return hi
    hi, lo = restrict(hi, v, True), restrict(lo, v, False)
    if hi is lo:
        return hi
    if restrict(lo, v, True) is hi:
        return lo
    if restrict(hi, v, False) is lo:
        return hi
    return _mk_bdd(v, hi, lo)


_ite = {}


def bite(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f.id, g.id, h.id)
    r = _ite.get(key)
    if r is not None:
        return r
    v = min((x.args[0] for x in (f, g, h) if x.tag == "bdd"), key=lambda a: a.id)

    def co(x, s):
        if x.tag == "bdd" and x.args[0] is v:
            return x.args[1] if s else x.args[2]
        return x

    r = _bdd(v, bite(co(f, 1), co(g, 1), co(h, 1)), bite(co(f, 0), co(g, 0), co(h, 0)))
    _ite[key] = r
    return r


def bvar(a):
    return _bdd(a, TRUE, FALSE)


def band(a, b):
    return bite(a, b, FALSE)


def bor(a, b):
    return bite(a, TRUE, b)


def bnot(a):
    return bite(a, FALSE, TRUE)


def isbool(x):
    return isinstance(x, Term) and x.tag in ("true", "false", "bdd")


def _lower(p):
    """All atoms nonnegative: lower bound of p (None: unknown)."""
    lo = Fraction(0)
    for m, c in p.t.items():
        if not m:
            lo += c
            continue
        if all(a.nonneg for a, e in m):
            if c < 0:
                return None
        else:
            return None
    return lo


def _intscale(p):
    den = 1
    for c in p.t.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in p.t.items():
        if m:
            g = gcd(g, int(c * den))
    return den, g


def le0(p):
    """p <= 0"""
    if isconst(p):
        return TRUE if constval(p) <= 0 else FALSE
    if p.isint:
        den, g = _intscale(p)
        if g > 1:
            k = constval(p)
            # p = g*q + k <= 0  <=>  q + ceil(k/g) <= 0
            d = {m: Fraction(c) / g for m, c in p.t.items() if m}
            d[()] = Fraction(-((-k.numerator) // g))
            p = _mkpoly(d)
        lo = _lower(p)
        if lo is not None and lo > 0:
            return FALSE
        hi = _lower(neg(p))
        if hi is not None and hi >= 0:
            return TRUE
        if p.t[lead(p)] < 0:
            return bnot(le0(add(neg(p), ONE)))
        return bvar(term("le0", p))
    return bor(lt0(p), eq0(p))


def lt0(p):
    if isconst(p):
        return TRUE if constval(p) < 0 else FALSE
    if p.isint:
        return le0(add(p, ONE))
    c = p.t[lead(p)]
    q = scale(p, Fraction(1) / abs(c))
    if c < 0:
        q = neg(q)
        return band(bnot(bvar(term("lt0", q))), bnot(eq0(q)))
    return bvar(term("lt0", q))


def eq0(p):
    if isconst(p):
        return TRUE if constval(p) == 0 else FALSE
    c = p.t[lead(p)]
    if p.isint:
        den, g = _intscale(p)
        k = constval(p)
        if g and k.denominator == 1 and int(k) % g:
            return FALSE
        lo = _lower(p)
        if lo is not None and lo > 0:
            return FALSE
        hi = _lower(neg(p))
        if hi is not None and hi > 0:
            return FALSE
        if lo == 0:
            return le0(p)
        if hi == 0:
            return le0(neg(p))
        q = scale(p, Fraction(1 if c > 0 else -1, g or 1))
    else:
        q = scale(p, Fraction(1) / c)
    # Boolean-valued atom compared with a constant
    if len(q.t) <= 2:
        for m, cc in q.t.items():
            if len(m) == 1 and m[0][0].tag == "iv" and m[0][1] == 1 and cc == 1:
                k = -constval(q)
                if k == 0:
                    return bnot(m[0][0].args[0])
                if k == 1:
                    return m[0][0].args[0]
                return FALSE
    return bvar(term("eq0", q))


def bracket(b):
    """Iverson bracket as polynomial; canonical polarity."""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    n = bnot(b)
    if n.id < b.id:
        return sub(ONE, atom(term("iv", n, isint=True, nonneg=True)))
    return atom(term("iv", b, isint=True, nonneg=True))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return add(b, mul(bracket(c), sub(a, b)))


def tobool(p):
    """numeric -> condition"""
    if isbool(p):
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][0].tag == "iv" and m[0][1] == 1:
            return m[0][0].args[0]
    return bnot(eq0(p))


def exists(dom, cond):
    """Some point of the domain satisfies cond."""
    if cond is FALSE:
        return FALSE
    if not dom:
        return cond
    if not any(v in cond.free for v, n in dom) and cond is not TRUE:
        return band(cond, exists(dom, TRUE))
    best = None
    for perm in _orders(dom, cond):
        t = _close("ex", [v for v, n in perm], tuple(n for v, n in perm), cond)
        if best is None or t.id < best.id:
            best = t
    return bvar(best)


# ---------------------------------------------------------------- binders


def _bv(depth, k):
    return atom(term("bv", depth, k, isint=True, nonneg=True))


def _close(tag, vs, *args):
    """Closed term binding the raw variables `vs` in args."""
    dep = 1 + _depth(args)
    m = {v: _bv(dep, k) for k, v in enumerate(vs)}
    memo = {}
    args = tuple(subst(a, m, True, memo) for a in args)
    t = term(tag, dep, len(vs), *args)
    if t.depth < dep:
        t.depth = dep
    return t


def _open(t):
    """Instantiate the binder with fresh variables: (vars, args)"""
    dep, n = t.args[0], t.args[1]
    vs = [raw("b") for _ in range(n)]
    m = {term("bv", dep, k): atom(v) for k, v in enumerate(vs)}
    return vs, tuple(_replace_bv(a, m) for a in t.args[2:])


def _open_with(t, polys):
    vs, args = _open(t)
    m = dict(zip(vs, polys))
    return tuple(subst(a, m) for a in args)


def _replace_bv(x, m, memo=None):
    # bound variables as keys: walk without the `free` shortcut
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        return tuple(_replace_bv(y, m, memo) for y in x)
    if isinstance(x, Poly):
        if not any(v in m for v in x.loose):
            return x
        key = (1, x.id)
        r = memo.get(key)
        if r is not None:
            return r
        r = ZERO
        for mono, c in x.t.items():
            p = num(c)
            for a, e in mono:
                q = _replace_bv(a, m, memo)
                if isinstance(q, Term):
                    q = atom(q)
                p = mul(p, power(q, e) if e != 1 else q)
            r = add(r, p)
        memo[key] = r
        return r
    if isinstance(x, Term):
        if x in m:
            return m[x]
        if not any(v in m for v in x.loose):
            return x
        key = (0, x.id)
        r = memo.get(key)
        if r is not None:
            return r
        args = tuple(_replace_bv(y, m, memo) for y in x.args)
        if all(p is q for p, q in zip(args, x.args)):
            r = x if x.tag not in NUMERIC else atom(x)
        else:
            r = rebuild(x, args, True)
        memo[key] = r
        return r
    return x


def replace(x, m, memo=None):
    """Replace closed terms."""
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        return tuple(replace(y, m, memo) for y in x)
    if not isinstance(x, (Poly, Term)):
        return x
    if isinstance(x, Term) and x in m:
        return m[x]
    key = (isinstance(x, Poly), x.id)
    r = memo.get(key)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = ZERO
        for mono, c in x.t.items():
            p = num(c)
            for a, e in mono:
                q = replace(a, m, memo)
                if isinstance(q, Term):
                    q = atom(q)
                p = mul(p, power(q, e) if e != 1 else q)
            r = add(r, p)
    else:
        args = tuple(replace(y, m, memo) for y in x.args)
        if all(p is q for p, q in zip(args, x.args)):
            r = x if x.tag not in NUMERIC else atom(x)
        else:
            r = rebuild(x, args, True)
    memo[key] = r
    return r


def _hasbv(x):
    return bool(_loose(x))


NUMERIC = {"bx", "raw", "sym", "bv", "rd", "fn", "iv", "inv", "let", "sqrt", "fdiv", "mod", "trunc", "psum", "smax", "prd", "mu"}


def subst(x, m, binding=False, memo=None):
    """Replace free (raw) variables."""
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        return tuple(subst(y, m, binding, memo) for y in x)
    if isinstance(x, Poly):
        if not any(v in m for v in x.free):
            return x
        key = (1, x.id)
        r = memo.get(key)
        if r is not None:
            return r
        d = {}
        extra = ZERO
        for mono, c in x.t.items():
            p = None
            rest = []
            for a, e in mono:
                if not a.free:
                    rest.append((a, e))
                    continue
                q = subst(a, m, binding, memo)
                if isinstance(q, Term):
                    q = atom(q)
                if e != 1:
                    q = power(q, e)
                p = q if p is None else mul(p, q)
            if p is None:
                d[mono] = d.get(mono, 0) + c
                continue
            k = _mkpoly({tuple(rest): c})
            p = mul(k, p)
            if len(p.t) > 4:
                extra = add(extra, p)
            else:
                for m2, c2 in p.t.items():
                    d[m2] = d.get(m2, 0) + c2
        r = add(_mkpoly(d), extra) if d else extra
        memo[key] = r
        return r
    if isinstance(x, Term):
        if x in m:
            return m[x]
        if not x.free or not any(v in m for v in x.free):
            return x
        key = (0, x.id)
        r = memo.get(key)
        if r is not None:
            return r
        if x.tag in BINDERS and not binding:
            vs, args = _open(x)
            args = tuple(subst(a, m) for a in args)
            r = reclose(x, vs, args)
        else:
            args = tuple(subst(y, m, binding, memo) for y in x.args)
            r = rebuild(x, args, binding)
        memo[key] = r
        return r
    return x


_kn = {}


def ranges(dom):
    """Facts p <= 0 of counters (v, n): 0 <= v < n."""
    f = []
    for v, n in dom:
        f += [neg(atom(v)), add(sub(atom(v), n), ONE)]
    return f


def decide(p, facts):
    """Truth of p <= 0 from facts f <= 0 (None: unknown)."""
    for f in facts:
        l = _lower(sub(f, p))
        if l is not None and l >= 0:
            return True  # p = f + d, f <= 0, d <= 0
        l = _lower(add(p, f))
        if l is not None and l > 0:
            return False  # p = d - f >= d > 0
    # two facts together (nested counters)
    if 2 < len(facts) <= 8:
        for k, f in enumerate(facts):
            for g in facts[:k]:
                h = add(f, g)
                l = _lower(sub(h, p))
                if l is not None and l >= 0:
                    return True
                l = _lower(add(p, h))
                if l is not None and l > 0:
                    return False
    return None


def occurs(x, t, seen=None):
    """Is the term t part of x?"""
    seen = set() if seen is None else seen
    if x is t:
        return True
    if isinstance(x, tuple):
        return any(occurs(y, t, seen) for y in x)
    if isinstance(x, Poly):
        if id(x) in seen:
            return False
        seen.add(id(x))
        return any(occurs(a, t, seen) for m in x.t for a, e in m)
    if isinstance(x, Term):
        if id(x) in seen:
            return False
        seen.add(id(x))
        return any(occurs(y, t, seen) for y in x.args)
    return False


def occurs_in(v, t):
    """Is the term t part of the value v (number, condition, array)?"""
    if isinstance(v, (Poly, Term)):
        return occurs(v, t)
    regs = getattr(v, "regs", None)
    if regs is None:
        return v is not None
    seen = set()
    return occurs(v.base, t, seen) or any(
        occurs((tuple(n for w, n in r.dom), r.guard, tuple(r.base), tuple(x for o, x in r.pts.values())), t, seen) for r in regs)


def known(x, dom):
    """Drop the conditions in x that are decided by the ranges of the counters."""
    dom = [(v, n) for v, n in dom if v in x.free]
    if not dom:
        return x
    return _known(x, tuple(dom), ranges(dom))


def _known(x, dom, facts):
    if isinstance(x, tuple):
        return tuple(_known(y, dom, facts) for y in x)
    if not isinstance(x, (Poly, Term)) or not any(v in x.free for v, n in dom):
        return x
    key = (isinstance(x, Poly), x.id, tuple((v.id, n.id) for v, n in dom))
    r = _kn.get(key)
    if r is not None:
        return r
    r = _kn[key] = _known1(x, dom, facts)
    return r


def _known1(x, dom, facts):
    if isinstance(x, Poly):
        r = ZERO
        same = True
        for mono, c in x.t.items():
            p = num(c)
            for a, e in mono:
                q = _known(a, dom, facts)
                same = same and q is a
                if isinstance(q, Term):
                    q = atom(q)
                p = mul(p, power(q, e) if e != 1 else q)
            r = add(r, p)
        return x if same else r
    if x.tag == "bdd":
        a, hi, lo = x.args
        if a.tag == "le0":
            d = decide(a.args[0], facts)
            if d is not None:
                return _known(hi if d else lo, dom, facts)
        c = _known(a, dom, facts)
        if not isbool(c):
            c = bvar(c)
        h2, l2 = _known(hi, dom, facts), _known(lo, dom, facts)
        return x if c is bvar(a) and h2 is hi and l2 is lo else bite(c, h2, l2)
    if x.tag in BINDERS:
        vs, args = _open(x)
        if x.tag in ("psum", "ex"):
            ns, b = args
            inner = dom + tuple(zip(vs, ns))
            new = (tuple(_known(n, dom, facts) for n in ns), _known(b, inner, ranges(inner)))
            return x if new[0] == ns and new[1] is b else reclose(x, vs, new)
        new = tuple(_known(a, dom, facts) for a in args)
        return x if all(p is q for p, q in zip(new, args)) else reclose(x, vs, new)
    args = tuple(_known(y, dom, facts) for y in x.args)
    if all(p is q or (isinstance(p, tuple) and p == q) for p, q in zip(args, x.args)):
        return x
    return rebuild(x, args)


def reclose(x, vs, args):
    if x.tag == "psum":
        ns, body = args
        return psum(list(zip(vs, ns)), body)
    if x.tag == "ex":
        ns, cond = args
        return term_of_bool_exists(list(zip(vs, ns)), cond)
    if x.tag == "fun":
        return fun(vs, args[0])
    if x.tag == "eff":
        op, ns, guard, idx, val = args
        return mk_eff(op, list(zip(vs, ns)), guard, idx, val)
    t = _close(x.tag, vs, *args)
    t.isint, t.nonneg = x.isint, x.nonneg
    return t


def term_of_bool_exists(dom, cond):
    return exists(dom, cond)


def rebuild(x, args, binding=False):
    tag = x.tag
    if tag == "rd":
        return rd(args[0], args[1:], x.isint, x.nonneg)
    if tag == "iv":
        return bracket(args[0])
    if tag == "inv":
        return inverse(args[0])
    if tag == "sqrt":
        return sqrt_(args[0])
    if tag == "fdiv":
        return fdiv(*args)
    if tag == "mod":
        return imod(*args)
    if tag == "trunc":
        return trunc(args[0])
    if tag == "le0":
        return le0(args[0])
    if tag == "lt0":
        return lt0(args[0])
    if tag == "eq0":
        return eq0(args[0])
    if tag == "bdd":
        a = args[0]
        if not isbool(a):
            a = bvar(a)
        return bite(a, args[1], args[2])
    if tag in BINDERS:
        t = term(tag, *args, isint=x.isint, nonneg=x.nonneg)
        if t.depth < args[0]:
            t.depth = args[0]
        return atom(t) if tag in NUMERIC else t
    t = term(tag, *args, isint=x.isint, nonneg=x.nonneg)
    return atom(t) if tag in NUMERIC else t


def _orders(dom, *bodies):
    """Candidate orders of the bound variables (all, unless told apart by cheap invariants)."""
    if len(dom) <= 1:
        yield list(dom)
        return
    vs = [v for v, n in dom]

    def occ(v):
        r = []
        for b in bodies:
            if isinstance(b, tuple):
                r.append(tuple(v in _free(y) for y in b))
                r.append(tuple((len(y.t) if isinstance(y, Poly) else 0) if v in _free(y) else -1 for y in b))
            else:
                r.append(v in b.free)
        n = dict(dom)[v]
        return (tuple(r), n.id if not (n.free & set(vs)) else -1, sum(v in m.free for m in dict(dom).values()))

    groups = {}
    for v, n in dom:
        groups.setdefault(occ(v), []).append((v, n))
    keys = sorted(groups, key=repr)

    def rec(k):
        if k == len(keys):
            yield []
            return
        for p in permutations(groups[keys[k]]):
            for r in rec(k + 1):
                yield list(p) + r

    yield from rec(0)


def psum(dom, body):
    """Sum of body over dom = [(var, n)], 0 <= var < n. Linear; invariant factors are pulled out."""
    if not dom:
        return body
    body = known(body, dom)
    r = ZERO
    for mono, c in body.t.items():
        r = add(r, _psum_mono(list(dom), mono, c))
    return r


def _psum_mono(dom, mono, c):
    # merge a nested sum that depends on the variables
    vs = [v for v, n in dom]
    while True:
        k = next((k for k, (a, e) in enumerate(mono)
                  if a.tag == "psum" and e == 1 and any(v in a.free for v in vs)), None)
        if k is None:
            break
        a = mono[k][0]
        ivs, (ns, ibody) = _open(a)
        dom = dom + list(zip(ivs, ns))
        rest = _mkpoly({mono[:k] + mono[k + 1:]: c})
        return psum(dom, mul(rest, ibody))
    # delta functions: sum over v of [v == e] f(v)
    inside = [(a, e) for a, e in mono if any(v in a.free for v in vs)]
    outside = [(a, e) for a, e in mono if not any(v in a.free for v in vs)]
    used = set()
    for a, e in inside:
        used |= a.free
    # a counter that is not used, but whose number of values depends on another counter
    for k, (v, n) in enumerate(dom):
        if v not in used and any(w in n.free for w in vs) and not any(v in m.free for w, m in dom):
            return psum(dom[:k] + dom[k + 1:], mul(_mkpoly({mono: c}), n))
    f = _mkpoly({tuple(outside): c})
    keep = []
    changed = True
    keepset = {v for v in vs if v in used}
    while changed:
        changed = False
        for v, n in dom:
            if v in keepset and n.free:
                for w in vs:
                    if w in n.free and w not in keepset:
                        keepset.add(w)
                        changed = True
    for v, n in dom:
        if v in keepset:
            keep.append((v, n))
        else:
            f = mul(f, n)
    if not keep:
        return f
    b = _mkpoly({tuple(inside): Fraction(1)})
    # polynomial in a single counter: closed form
    if len(keep) == 1:
        v, n = keep[0]
        if len(inside) == 1 and inside[0][0] is v and inside[0][1] in (1,):
            return mul(f, scale(mul(n, sub(n, ONE)), Fraction(1, 2)))
    best = None
    for perm in _orders(keep, b):
        t = _close("psum", [v for v, n in perm], tuple(n for v, n in perm), b)
        t.isint = b.isint
        t.nonneg = all(a.nonneg for a, e in inside)
        if best is None or t.id < best.id:
            best = t
    return mul(f, atom(best))


# ---------------------------------------------------------------- array terms
# sym(name) const(poly) uninit() fun(binder: rank; body) upd(base, effs...) uf(name, args...)
def a_sym(name, isint=False, nonneg=False):
    return term("asym", name, isint=isint, nonneg=nonneg)


def a_const(p):
    return term("aconst", p, isint=p.isint, nonneg=_lower(p) is not None and _lower(p) >= 0)


UNINIT = term("auninit")


def fun(vs, body):
    if isbool(body):
        body = bracket(body)
    if not any(v in body.free for v in vs):
        return a_const(body)
    # eta: fun(i.. -> rd(A, i..)) = A
    if len(body.t) == 1:
        (m, c), = body.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].tag == "rd":
            t = m[0][0]
            if len(t.args) - 1 == len(vs) and all(i is atom(v) for i, v in zip(t.args[1:], vs)) and not any(v in t.args[0].free for v in vs):
                return t.args[0]
    t = _close("fun", vs, body)
    t.isint = body.isint
    return t


def a_uf(name, *args, isint=False, nonneg=False):
    return term("auf", name, *args, isint=isint, nonneg=nonneg)


def rd(node, idx, isint=None, nonneg=None):
    """Element of an array term."""
    if isinstance(node, Poly):
        raise TypeError
    if node.tag == "aconst":
        return node.args[0]
    if node.tag == "fun":
        (body,) = _open_with(node, idx)
        return body
    isint = node.isint if isint is None else isint
    nonneg = node.nonneg if nonneg is None else nonneg
    return atom(term("rd", node, *idx, isint=isint, nonneg=nonneg))


def mk_eff(op, dom, guard, idx, val):
    """Effect: for all points of dom with guard: A(idx) op val. Canonical variable order."""
    # reflect variables that occur with coefficient -1 in an index
    dom = list(dom)
    for k, (v, n) in enumerate(dom):
        if n.free & {w for w, _ in dom}:
            continue
        for i in idx:
            c = i.t.get(((v, 1),))
            if c == -1 and sum(v in a.free for m in i.t for a, e in m) == 1:
                s = {v: sub(sub(n, ONE), atom(v))}
                guard, idx, val = subst(guard, s), subst(idx, s), subst(val, s)
                break
    if dom:
        val, guard, idx = known(val, dom), known(guard, dom), tuple(known(i, dom) for i in idx)
    if op == "+=":
        # a guard only selects: fold it in the value; sum over counters that do not select the element
        val = mul(val, bracket(guard))
        guard = TRUE
        fi = _free(idx)
        inner = [(v, n) for v, n in dom if v not in fi]
        blocked = True
        while blocked:
            blocked = False
            for v, n in dom:
                if v not in [w for w, _ in inner] and n.free & {w for w, _ in inner}:
                    inner = [(w, m) for w, m in inner if w not in n.free]
                    blocked = True
        if inner:
            names = {v for v, n in inner}
            dom = [(v, n) for v, n in dom if v not in names]
            val = psum(inner, val)
        if not val.t:
            return None
    elif guard is FALSE:
        return None
    else:
        # counters that neither select nor matter: at least one iteration
        while True:
            fr = _free((guard, idx, val)) | _free(tuple(n for v, n in dom))
            drop = [(v, n) for v, n in dom if v not in fr]
            if not drop:
                break
            dom = [(v, n) for v, n in dom if v in fr]
            for v, n in drop:
                guard = band(guard, bnot(le0(n)))
    best = None
    for perm in _orders(dom, idx, guard, val):
        t = _close("eff", [v for v, n in perm], op, tuple(n for v, n in perm), guard, tuple(idx), val)
        if best is None or t.id < best.id:
            best = t
    return best


# ---------------------------------------------------------------- canonical polynomials of conditions
MATSHAPE = {}  # shape of the matrices that occur in linear algebra
_norm = {}


def norm(x):
    """Brackets expanded to (multilinear) polynomials of the elementary conditions: canonical where brackets add up."""
    if isinstance(x, tuple):
        return tuple(norm(y) for y in x)
    if not isinstance(x, (Poly, Term)):
        return x
    key = (isinstance(x, Poly), x.id)
    r = _norm.get(key)
    if r is None:
        r = _norm[key] = _norm1(x)
    return r


def _reduce(p):
    """Products of elementary conditions of which one implies (the negation of) the other."""
    if not isinstance(p, Poly):
        return p
    while True:
        again = None
        for m, c in p.t.items():
            bx = [a for a, e in m if a.tag == "bx"]
            if len(bx) < 2:
                continue
            for a in bx:
                for b in bx:
                    if a is b:
                        continue
                    if a.args[0].tag not in ("le0", "eq0", "lt0"):
                        continue
                    rest = tuple(y for y in m if y[0] is not b)
                    k = implied(a.args[0], True, b.args[0])
                    if k is not None:
                        again = (m, _mkpoly({rest: c}) if k else ZERO)
                        break
                    if implied(a.args[0], False, b.args[0]) is True:
                        rest2 = tuple(y for y in m if y[0] is not a)
                        both = tuple(y for y in rest if y[0] is not a)
                        again = (m, add(_mkpoly({rest: c}), sub(_mkpoly({rest2: c}), _mkpoly({both: c}))))
                        break
                if again:
                    break
            if again:
                break
        if not again:
            return p
        m, q = again
        p = add(_mkpoly({x: c for x, c in p.t.items() if x != m}), q)


def _expand(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    v, hi, lo = b.args
    x = atom(term("bx", _normatom(v), isint=True, nonneg=True))
    hi, lo = _expand(hi), _expand(lo)
    return _reduce(add(lo, mul(x, sub(hi, lo))))


def _normatom(v):
    y = norm(v)
    return y.args[0] if isinstance(y, Term) and y.tag == "bdd" and y.args[1] is TRUE and y.args[2] is FALSE else v


def _norm1(x):
    if isinstance(x, Poly):
        r = ZERO
        for mono, c in x.t.items():
            p = num(c)
            for a, e in mono:
                q = norm(a)
                if isinstance(q, Term):
                    q = atom(q)
                p = mul(p, power(q, e) if e != 1 else q)
            r = add(r, p)
        return _reduce(r)
    if x.tag == "iv":
        return _expand(x.args[0])
    if x.tag in ("bv", "raw") or not x.args:
        return x
    if x.tag == "bdd":
        # conditions keep their form
        return bite(bvar(_normatom(x.args[0])), norm(x.args[1]), norm(x.args[2]))
    if x.tag in BINDERS:
        vs, args = _open(x)
        return reclose(x, vs, tuple(norm(a) for a in args))
    if x.tag == "aupd":
        t = norm(x.args[0])
        effs = tuple(norm(e) for e in x.args[1:])
        if all(e is not None and e.args[2] == "+=" for e in effs):
            effs = tuple(sorted(effs, key=lambda e: e.id))
        effs = tuple(e for e in effs if e is not None)
        return term("aupd", t, *effs, isint=x.isint, nonneg=x.nonneg) if effs else t
    if x.tag == "linalg":
        w = {}
        for k, c in zip(*x.args):
            w[tuple(norm(t) for t in k)] = norm(c)
        items = sorted(w.items(), key=lambda y: tuple(t.id for t in y[0]))
        return term("linalg", tuple(k for k, c in items), tuple(c for k, c in items))
    return rebuild(x, tuple(norm(a) for a in x.args))


# ---------------------------------------------------------------- printing
_budget = [0]


def show(x, d=0):
    if d == 0:
        _budget[0] = 3000
    _budget[0] -= 1
    if d > 14 or _budget[0] < 0:
        return "..."
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        out = []
        for m, c in sorted(x.t.items(), key=lambda mc: (not mc[0], [(a.id, e) for a, e in mc[0]])):
            s = "*".join(show(a, d + 1) + ("" if e == 1 else "^%s" % e) for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
            if len(out) > 40:
                out.append("...")
                break
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y, d + 1) for y in x) + ")"
    if not isinstance(x, Term):
        return str(x)
    t, a = x.tag, x.args
    if t == "raw":
        return "%s%d" % (a[0], a[1])
    if t in ("sym", "asym"):
        return str(a[0])
    if t == "bv":
        return "%s%s" % ("ijklmnpq"[a[1] % 8], a[0] if a[0] > 1 else "")
    if t == "rd":
        return "%s(%s)" % (show(a[0], d + 1), ", ".join(show(y, d + 1) for y in a[1:]))
    if t in ("fn", "auf"):
        return "%s(%s)" % (a[0], ", ".join(show(y, d + 1) for y in a[1:]))
    if t == "iv":
        return "[" + show(a[0], d + 1) + "]"
    if t in ("true", "false"):
        return t
    if t == "bdd":
        if a[1] is TRUE and a[2] is FALSE:
            return show(a[0], d + 1)
        if a[1] is FALSE and a[2] is TRUE:
            return "!(" + show(a[0], d + 1) + ")"
        if a[2] is FALSE:
            return show(a[0], d + 1) + " && " + show(a[1], d + 1)
        if a[1] is FALSE:
            return "!(" + show(a[0], d + 1) + ") && " + show(a[2], d + 1)
        return "(%s ? %s : %s)" % tuple(show(y, d + 1) for y in a)
    if t == "le0":
        return show(a[0], d + 1) + " <= 0"
    if t == "lt0":
        return show(a[0], d + 1) + " < 0"
    if t == "eq0":
        return show(a[0], d + 1) + " == 0"
    if t == "psum":
        return "sum{%s}(%s)" % (show(a[2], d + 1), show(a[3], d + 1))
    if t == "ex":
        return "exists{%s}(%s)" % (show(a[2], d + 1), show(a[3], d + 1))
    if t == "fun":
        return "{%d-D: %s}" % (a[1], show(a[2], d + 1))
    if t == "eff":
        return "for%s%s (%s) %s %s" % (show(a[3], d + 1), "" if a[4] is TRUE else " if " + show(a[4], d + 1),
                                       ", ".join(show(y, d + 1) for y in a[5]), a[2], show(a[6], d + 1))
    if t == "aupd":
        return "<%s; %s>" % (show(a[0], d + 1), "; ".join(show(y, d + 1) for y in a[1:]))
    if t == "aconst":
        return "fill(%s)" % show(a[0], d + 1)
    if t == "auninit":
        return "uninitialised"
    return "%s(%s)" % (t, ", ".join(show(y, d + 1) for y in a))
