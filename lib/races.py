"""Race freedom of OpenMP loops.

One iteration t of each parallel loop is evaluated symbolically; its effects on storage that exists outside of the
iteration (shared by the threads) are array regions with an index that depends on t. No two iterations may touch the
same location unless both read it. Discharged by a rule on the index; violated only if a valuation shows two
iterations that meet; otherwise undecided.
"""
import time

import engine as E
import interp
import terms as T
from engine import Arr, Cell, Elem, Unmodelled, freeze
from terms import ONE, ZERO, TRUE, add, atom, bnot, isbool, isconst, neg, num, raw, scale, sub
from terms import Poly

PRIVATE = ("private", "firstprivate", "lastprivate", "reduction", "linear")
SERIAL = ("single", "master", "masked", "critical", "atomic", "barrier", "flush", "ordered", "simd")


class Races:
    def __init__(self):
        self.found = {}  # (function, line) -> [(status, text)]
        self.outer = []  # (serial, private cells) of the enclosing parallel regions
        self.atomic = set()
        self.nesting = 0

    def note(self, eng, s, status, text=""):
        f = eng.frames[-1].fn
        key = (f.get("file", ""), s.get("ln"))
        self.found.setdefault(key, []).append((status, f["q"], text))

    # ---- statements
    def run(self, eng, s):
        d = s["dir"]
        if d in SERIAL:
            eng.push()
            r = eng.run(s["body"])
            top = eng.pop(True)
            if d in ("critical", "atomic"):
                self.atomic |= set(top)
            return r
        if d not in ("parallel", "for", "for simd", "parallel for", "parallel for simd", "distribute parallel for"):
            self.note(eng, s, "undecided", "directive " + d)
            return eng.run(s["body"])
        env = eng.frames[-1].env
        private = {env.get(i) for c in s["clauses"] if c["name"] in PRIVATE for i in c["vars"]} - {None}
        if d == "parallel":
            self.outer.append((E._serial[0], private))
            try:
                return self.parallel(eng, s)
            finally:
                self.outer.pop()
        if any(c["name"] in ("nowait", "collapse", "ordered") for c in s["clauses"]):
            self.note(eng, s, "undecided", "clause " + ", ".join(c["name"] for c in s["clauses"]))
            return eng.run(s["body"])
        serial = E._serial[0]
        if self.outer and not d.startswith("parallel"):
            serial, more = self.outer[-1]
            private = private | more
        body = s["body"]
        while len(body) == 1 and body[0]["k"] == "block":
            body = body[0]["body"]
        if len(body) != 1 or body[0]["k"] != "for":
            self.note(eng, s, "undecided", "not a loop")
            return eng.run(body)
        if not self.nesting:
            self.nesting += 1
            marks = [(x, len(x)) for x in (eng.frames, eng.reads, eng.facts, eng.guards, eng.loops, eng.asserts)]
            depth = len(eng.journal)
            mu = eng.mulevel
            try:
                st, text = self.loop(eng, body[0], serial, private)
            except Unmodelled as u:
                st, text = "undecided", str(u)
            finally:
                self.nesting -= 1
            while len(eng.journal) > depth:
                eng.pop(False)
            for x, n in marks:
                del x[n:]
            eng.mulevel = mu
            self.note(eng, s, st, text)
        return eng.run(body)

    def parallel(self, eng, s):
        serial, private = self.outer[-1]
        body = s["body"]
        while len(body) == 1 and body[0]["k"] == "block":
            body = body[0]["body"]
        for x in body:
            if x is None:
                continue
            if x["k"] == "omp":
                r = self.run(eng, x)
            else:
                eng.push()
                r = eng.run([x])
                top = eng.pop(True)
                bad = [c.name for c in top if c.n <= serial and c not in private and c not in self.atomic]
                if bad and not self.nesting:
                    self.note(eng, {"ln": x.get("ln")}, "race", "every thread writes " + ", ".join(sorted(map(str, bad))))
            if r != E.FALL:
                return r
        return E.FALL

    # ---- one iteration
    def loop(self, eng, s, serial, private):
        eng.push()
        if s.get("init"):
            eng.run([s["init"]])
        lv = self.counter(eng, s)
        start = lv.v
        eng.push()
        eng.ev(s["inc"])
        step = sub(lv.v, start)
        eng.pop(False)
        t = raw("t")
        tp = atom(t)
        subs = {}
        while True:
            eng.push()
            eng.reads.append(set())
            marks = [(x, len(x)) for x in (eng.facts, eng.asserts, eng.loops)]
            eng.touch(lv)
            lv.v = add(start, T.mul(step, tp))
            cv = eng.cond(eng.ev(s["c"]))
            n = eng.trip(cv, t, s)
            eng.facts += [neg(tp), add(sub(tp, n), ONE)]
            for c, a in subs.items():
                eng.touch(c)
                c.v = a
            eng.loops.append(t)
            before = {}
            eng.push()
            st = eng.run(s["body"])
            new = {c: c.v for c in eng.journal[-1] if c.n <= serial and c not in private and c is not lv and c not in self.atomic}
            old = dict(eng.pop(False))
            log = eng.reads.pop()
            for x, m in marks:
                del x[m:]
            eng.pop(False)
            if st not in (E.FALL, E.CONT):
                raise Unmodelled("exit from a parallel loop")
            more = [c for c in new if c not in subs and isinstance(old[c], Arr)]
            if not more:
                break
            for c in more:
                a = old[c]
                nm = "shared %s" % c.name
                subs[c] = Arr(a.shape, T.a_sym(nm, isint=a.kind != "d", nonneg=a.kind in "ub"), a.kind, [], None, a.flavour)
        writes = []
        for c, v in new.items():
            o = old[c]
            if not isinstance(v, Arr) or not isinstance(o, Arr):
                return "race", "%s is shared by the iterations, and written in each" % c.name
            if v.shape != o.shape or v.lineage != o.lineage or v.base is not o.base or v.flavour in ("vec", "bag") and v.shape != o.shape:
                return "race", "%s is shared by the iterations, and assigned as a whole in each" % c.name
            sym = o.base
            effs = []
            for r in v.regs[len(o.regs):]:
                for key, (op, val) in r.pts.items():
                    idx = tuple(add(b, num(k)) for b, k in zip(r.base, key))
                    effs.append((r.dom, r.guard, idx, val))
            if effs:
                rd = [(idx) for cell, idx, pos in log if cell is c and pos < len(o.regs)]
                writes.append((c, sym, effs, rd))
        if not writes:
            return "ok", "no shared storage is written"
        unsafe = []
        for c, sym, effs, rd in writes:
            if not self.separate(eng, t, n, effs, rd):
                unsafe.append((c, sym, effs))
        if not unsafe:
            return "ok", ", ".join(sorted({str(c.name) for c, s_, e, r in writes}))
        return self.meet(eng, t, n, unsafe)

    def counter(self, eng, s):
        inc = s.get("inc")
        while inc is not None and inc["k"] in ("conv", "cast", "cleanup"):
            inc = inc["e"]
        lv = None
        if inc is not None and inc["k"] in ("un", "assign"):
            lv = eng.ev(inc.get("e") if inc["k"] == "un" else inc["l"])
            while isinstance(lv, Cell) and isinstance(lv.v, Cell):
                lv = lv.v
        if not isinstance(lv, Cell) or not isinstance(lv.v, Poly):
            raise Unmodelled("counter of a parallel loop")
        return lv

    # ---- the rule: along one axis, each iteration has its own position
    def separate(self, eng, t, n, effs, rd):
        rank = len(effs[0][2])
        every = [(dom, idx) for dom, g, idx, val in effs] + [((), idx) for idx in rd]
        if any(len(i) != rank for d, i in every):
            return False
        for k in range(rank):
            ps = {i[k] for d, i in every}
            if len(ps) == 1:
                (p,) = ps
                inner = {v for d, i in every for v, m in d}
                if not p.free & inner and injective(p, t):
                    return True
            if self.blocks([(d, i[k]) for d, i in every], t):
                return True
        return False

    def blocks(self, ps, t):
        """p = t * K + r, 0 <= r < K"""
        K = None
        for dom, p in ps:
            k, r = ZERO, ZERO
            for m, c in p.t.items():
                e = dict(m)
                if e.get(t) == 1:
                    k = add(k, T._mkpoly({tuple(x for x in m if x[0] is not t): c}))
                else:
                    r = add(r, T._mkpoly({m: c}))
            if t in r.free or not k.t or t in k.free or K is not None and k is not K:
                return False
            K = k
            facts = T.ranges(dom)
            ok = T._lower(r) is not None and T._lower(r) >= 0 or T.decide(neg(r), facts)
            if not ok:
                return False
            lo = sub(r, sub(K, ONE))
            l = T._lower(neg(lo))
            if not (l is not None and l >= 0 or T.decide(lo, facts)):
                return False
        return True

    # ---- two iterations that meet
    def meet(self, eng, t, n, unsafe):
        items = []
        hidden = None
        for c, sym, effs in unsafe:
            for dom, g, idx, val in effs:
                dom = [(t, n), *dom]
                items.append((c, "w", T.mk_eff("=", dom, g, (atom(t), *idx), ZERO)))
                for r in reads(val, sym) + reads(g, sym):
                    if r is None:
                        hidden = "reads of %s in a sum" % c.name
                        continue
                    items.append((c, "r", T.mk_eff("=", dom, g, (atom(t), *r), ZERO)))
        items = [x for x in items if x[2] is not None]
        count = 0
        t0 = time.time()
        for k in range(interp.TRIALS):
            if time.time() - t0 > interp.LIMIT:
                break
            v = interp.Val((interp.SEED, k), eng.symshape)
            try:
                if not all(v.cond(c, {}) for c in eng.assumed) or not interp.holds(v, eng.asserts):
                    continue
                w, r = {}, {}
                for c, kind, e in items:
                    op, ns, g, idx, val = e.args[2:]
                    for env in v.binder(e, {}, ns):
                        if v.cond(g, env):
                            i = v.index(idx, env)
                            (w if kind == "w" else r).setdefault((c, i[1:]), set()).add(i[0])
                for x, ts in w.items():
                    if len(ts) > 1:
                        return "race", "iterations %s write %s(%s) (valuation %d)" % (
                            " and ".join(map(str, sorted(ts)[:2])), x[0].name, ", ".join(map(str, x[1])), k)
                    if len(r.get(x, ts) | ts) > 1:
                        return "race", "iteration %d writes %s(%s), which iteration %d reads (valuation %d)" % (
                            min(ts), x[0].name, ", ".join(map(str, x[1])), min(r[x] - ts), k)
                count += 1
            except interp.Reject:
                continue
            except interp.Unknown as u:
                return "undecided", "no rule applies; not interpreted: %s" % u
            except (OverflowError, KeyError, TypeError, ZeroDivisionError, RecursionError) as u:
                return "undecided", "no rule applies; not interpreted: %s" % type(u).__name__
            if count >= 60:
                break
        return "undecided", hidden or "no rule applies; no two iterations meet in %d valuations" % count


def injective(p, t):
    """Is p different for different t?"""
    c = p.t.get(((t, 1),))
    if c is not None and sum(t in a.free for m in p.t for a, e in m) == 1:
        return True
    at = [(m, a, e) for m in p.t for a, e in m if t in a.free]
    if len(at) != 1 or at[0][2] != 1 or len(at[0][0]) != 1:
        return False
    a = at[0][1]
    if a.tag == "let":
        return injective(T.unlet(a), t)
    if a.tag != "rd" or len(a.args) != 2:
        return False
    return distinct(a.args[0]) and injective(a.args[1], t)


def distinct(node):
    """Are all elements of the list different?"""
    while node.tag == "withshape":
        node = node.args[0]
    if node.tag == "auf" and node.args[0] in ("unique", "setdiff1d"):
        return True
    # documented: the list of prescribed DOFs has no duplicates
    return node.tag == "asym" and node.args[0].split(".")[-1] in ("iip", "m_iip", "iiu", "m_iiu", "iid", "m_iid")


def reads(x, sym, out=None, bound=False):
    """Indices at which the symbol is read in x (None: under a binder)."""
    out = [] if out is None else out
    seen = set()

    def walk(x, bound):
        if isinstance(x, tuple):
            for y in x:
                walk(y, bound)
        elif isinstance(x, Poly):
            if (x.id, bound) in seen:
                return
            seen.add((x.id, bound))
            for m in x.t:
                for a, e in m:
                    walk(a, bound)
        elif isinstance(x, T.Term):
            if ("t", x.id, bound) in seen:
                return
            seen.add(("t", x.id, bound))
            if x.tag == "rd" and x.args[0] is sym:
                out.append(None if bound or T._hasbv(x) else x.args[1:])
                for y in x.args[1:]:
                    walk(y, bound)
                return
            if x is sym:
                out.append(None)
                return
            for y in x.args:
                walk(y, bound or x.tag in T.BINDERS)

    walk(x, bound)
    return out
