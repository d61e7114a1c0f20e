"""Exact-arithmetic reading of term DAGs: case splitting, rational normal
forms over algebraic/transcendental atoms, and discharge through z3 (NRA)."""
import time
from fractions import Fraction
import z3
from . import terms as tm
from . import smt
from .terms import T, F32, F64, BOOL, TRUE, FALSE


class NoReal(Exception):
    pass


# ---------------------------------------------------------------- polynomials
# monomial: tuple of (atom index, exponent) sorted; Poly: dict monomial -> Fraction
class Ctx:
    """atom table for one obligation"""

    def __init__(self):
        self.names = []            # index -> display
        self.keys = {}             # key -> index
        self.kind = []             # ('in',name) ('sqrt',RF) ('sin',..)...
        self.square = {}           # atom index -> Poly replacing its square
        self.z3v = []
        self.side = []             # side constraints as ('eq0'|'ge0'|..., Poly) or z3
        self.domains = []          # (label, kind, poly) side obligations from the implementation
        self.ufs = set()

    def atom(self, key, name, kind):
        i = self.keys.get(key)
        if i is None:
            i = len(self.names)
            self.keys[key] = i
            self.names.append(name)
            self.kind.append(kind)
            self.z3v.append(z3.Real(name))
            return i, True
        return i, False


def pconst(c):
    return {(): Fraction(c)} if c else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


MAXMON = 60000


def pmul(ctx, p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > 4_000_000:
        raise NoReal("polynomial too large")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > MAXMON:
        raise NoReal("polynomial too large")
    return reduce_sq(ctx, r)


def reduce_sq(ctx, p):
    if not ctx.square:
        return p
    while True:
        todo = None
        for m in p:
            for v, e in m:
                if e >= 2 and v in ctx.square:
                    todo = (m, v, e)
                    break
            if todo:
                break
        if not todo:
            return p
        out = {}
        for m, c in p.items():
            hit = None
            for v, e in m:
                if e >= 2 and v in ctx.square:
                    hit = (v, e)
                    break
            if hit is None:
                nv = out.get(m, 0) + c
                if nv:
                    out[m] = nv
                else:
                    out.pop(m, None)
                continue
            v, e = hit
            rest = tuple((u, f) for u, f in m if u != v)
            if e > 2:
                rest = mmul(rest, ((v, e - 2),))
            for m2, c2 in ctx.square[v].items():
                mm = mmul(rest, m2)
                nv = out.get(mm, 0) + c * c2
                if nv:
                    out[mm] = nv
                else:
                    out.pop(mm, None)
        p = out
        if len(p) > MAXMON:
            raise NoReal("polynomial too large")


def pkey(p):
    return tuple(sorted(p.items()))


def pis_const(p):
    return not p or (len(p) == 1 and () in p)


def pneg(p):
    return {m: -c for m, c in p.items()}


class RF:
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n = n
        self.d = d


ONE = {(): Fraction(1)}


def rf(n, d=None):
    if d is None:
        return RF(n, ONE)
    if not n:
        return RF({}, ONE)
    if pis_const(d):
        c = d.get((), Fraction(0))
        if c == 0:
            raise NoReal("division by the constant zero")
        if c != 1:
            n = {m: v / c for m, v in n.items()}
        return RF(n, ONE)
    # cancel a common monomial factor
    cm = None
    for m in list(n) + list(d):
        dm = dict(m)
        if cm is None:
            cm = dm
        else:
            cm = {v: min(e, dm[v]) for v, e in cm.items() if v in dm}
        if not cm:
            break
    # only cancel atoms (assumed nonzero by the divisor obligation) when they divide the denominator
    if cm:
        def div(p):
            out = {}
            for m, c in p.items():
                dm = dict(m)
                for v, e in cm.items():
                    dm[v] -= e
                    if not dm[v]:
                        del dm[v]
                out[tuple(sorted(dm.items()))] = c
            return out
        n, d = div(n), div(d)
        if pis_const(d):
            c = d[()]
            return RF({m: v / c for m, v in n.items()}, ONE)
    if n == d:
        return RF(ONE, ONE)
    return RF(n, d)


def radd(ctx, a, b, s=1):
    if a.d == b.d:
        return rf(padd(a.n, b.n, s), a.d)
    if a.d == ONE:
        return rf(padd(pmul(ctx, a.n, b.d), b.n, s), b.d)
    if b.d == ONE:
        return rf(padd(a.n, pmul(ctx, b.n, a.d), s), a.d)
    return rf(padd(pmul(ctx, a.n, b.d), pmul(ctx, b.n, a.d), s), pmul(ctx, a.d, b.d))


def rmul(ctx, a, b):
    an, bn, ad, bd = a.n, b.n, a.d, b.d
    if an == bd:
        an, bd = ONE, ONE
    if bn == ad:
        bn, ad = ONE, ONE
    return rf(pmul(ctx, an, bn), pmul(ctx, ad, bd))


def rdiv(ctx, a, b):
    if not b.n:
        raise NoReal("division by zero")
    return rmul(ctx, a, RF(b.d, b.n))


def rkey(a):
    return (pkey(a.n), pkey(a.d))


def nth_root_fraction(c):
    """exact sqrt of a nonnegative Fraction or None"""
    import math
    if c < 0:
        return None
    a = math.isqrt(c.numerator)
    b = math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


# ---------------------------------------------------------------- conversion
class NeedSign(Exception):
    """the square root of a perfect square of inputs: split on the sign of one"""

    def __init__(self, var):
        self.var = var


class Conv:
    """T (ite-free) -> RF / boolean formulas over polynomials"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}
        self.sign = {}             # input atom -> +1 (known >= 0), -1 (known <= 0)
        self.split_signs = True
        self.linear = None         # monomial -> fresh variable, while building the linear relaxation
        self.strict = set()        # input atoms known non-zero

    def rf(self, root):
        for t in tm.postorder([root]):
            if t.id in self.memo or t.sort not in (F32, F64):
                continue
            self.memo[t.id] = self.one(t)
        return self.memo[root.id]

    def one(self, t):
        op = t.op
        ctx = self.ctx
        M = self.memo
        if op == "fvar":
            i, _ = ctx.atom(("in", t.attr), str(t.attr), ("in", t.attr))
            return rf({((i, 1),): Fraction(1)})
        if op == "fc":
            v = tm.fval(t)
            if v != v or v in (float("inf"), float("-inf")):
                return None
            return rf(pconst(Fraction(v)))
        if op in ("s2f", "u2f"):
            n = "int(%s)" % tm.show(t.args[0])
            i, _ = ctx.atom(("i2f", t.id), n, ("i2f", t))
            return rf({((i, 1),): Fraction(1)})
        a = [M.get(x.id) for x in t.args]
        if any(x is None for x in a):
            raise NoReal("arithmetic on a non-finite constant")
        if op == "fadd":
            return radd(ctx, a[0], a[1])
        if op == "fsub":
            return radd(ctx, a[0], a[1], -1)
        if op == "fmul":
            return rmul(ctx, a[0], a[1])
        if op == "fneg":
            return RF(pneg(a[0].n), a[0].d)
        if op == "fcast":
            return a[0]
        if op == "fma":
            return radd(ctx, rmul(ctx, a[0], a[1]), a[2])
        if op == "fdiv":
            return rdiv(ctx, a[0], a[1])
        if op == "sqrt":
            return self.sqrt(a[0])
        if op in ("sin", "cos"):
            return self.sincos(a[0])[0 if op == "sin" else 1]
        if op == "tan":
            s, c = self.sincos(a[0])
            return rdiv(ctx, s, c)
        if op == "pow" and pis_const(a[1].n) and a[1].d == ONE:
            e = a[1].n.get((), Fraction(0))
            if e.denominator == 1 and 0 <= e <= 4:
                r = rf(ONE)
                for _ in range(int(e)):
                    r = rmul(ctx, r, a[0])
                return r
            if e == Fraction(1, 2):
                return self.sqrt(a[0])
        return self.uf(op, a, t)

    def sqrt(self, x):
        ctx = self.ctx
        if pis_const(x.n) and x.d == ONE:
            r = nth_root_fraction(x.n.get((), Fraction(0)))
            if r is not None:
                return rf(pconst(r))
        r = self.perfect_square(x.n, x.d)
        if r is not None:
            return r
        key = ("sqrt", rkey(x))
        i, new = ctx.atom(key, "sqrt!%d" % len(ctx.names), ("sqrt", x))
        if new:
            if x.d == ONE:
                ctx.square[i] = x.n
                ctx.side.append(("eq", padd({((i, 2),): Fraction(1)}, x.n, -1)))
            else:
                ctx.side.append(("eq", padd(mulatom(x.d, i, 2), x.n, -1)))
            ctx.side.append(("ge", {((i, 1),): Fraction(1)}))
        return rf({((i, 1),): Fraction(1)})

    def perfect_square(self, n, d):
        """sqrt of (c m)^2 with m a monomial over inputs of known sign and sqrt atoms"""
        def root(p):
            if len(p) != 1:
                return None
            (m, c), = p.items()
            c = nth_root_fraction(c)
            if c is None or any(e % 2 for _, e in m):
                return None
            sg = 1
            for v, e in m:
                k = self.ctx.kind[v][0]
                if (e // 2) % 2 == 0 or k in ("sqrt", "hyp"):
                    continue
                if k != "in":
                    return None
                sv = self.sign.get(v)
                if sv is None:
                    if self.split_signs:
                        raise NeedSign(self.ctx.kind[v][1])
                    return None
                sg *= sv
            return {tuple((v, e // 2) for v, e in m): c * sg}
        # an assumed square may hide one: v^2 -> 1 - x^2 - ... is undone for whole multiples
        rn = root(n)
        if rn is None:
            for v, sq in self.ctx.square.items():
                if self.ctx.kind[v][0] != "in" or len(n) != len(sq):
                    continue
                m0 = next(iter(sq))
                if m0 in n:
                    c = n[m0] / sq[m0]
                    if c > 0 and all(n.get(m) == k * c for m, k in sq.items()):
                        rn = root({((v, 2),): c})
                        break
        if rn is None:
            return None
        rd = root(d) if d != ONE else ONE
        if rd is None:
            return None
        return rf(rn, rd)

    def signs_of(self, p):
        """+1 / -1 when every term of p has that evident sign (p >= 0 / p <= 0), else 0"""
        out = 0
        for m, c in p.items():
            sg = 1 if c > 0 else -1
            for v, e in m:
                if e % 2 == 0 or self.ctx.kind[v][0] in ("sqrt", "hyp"):
                    continue
                sv = self.sign.get(v)
                if sv is None:
                    return 0
                sg *= sv
            if out and sg != out:
                return 0
            out = sg
        return out

    def positive(self, p):
        return self.signs_of(p) == 1

    def assumed_signs(self, asm):
        for t in asm:
            for u in (t.args if t.op == "and" else [t]):
                neg = u.op == "not" and u.args[0].op in ("flt", "fle")
                if u.op in ("flt", "fle") or neg:
                    x, y = u.args[0].args[::-1] if neg else u.args
                    for var, other, sg in ((y, x, 1), (x, y, -1)):
                        if var.op == "fvar" and other.op == "fc" and sg * tm.fval(other) >= 0:
                            kd = ("in", var.attr)
                            self.sign[self.ctx.atom(kd, str(var.attr), kd)[0]] = sg

    def sincos(self, x):
        ctx = self.ctx
        if not x.n:
            return rf({}), rf(ONE)
        # normalise the sign of the argument
        neg = False
        lead = min(x.n)
        if x.n[lead] < 0:
            x = RF(pneg(x.n), x.d)
            neg = True
        # sin(atan2(y,x)), sin(acos(x)) etc.
        k = ("sc", rkey(x))
        j = len(ctx.names)
        i, new = ctx.atom(("sin",) + k, "sin!%d" % j, ("sin", x))
        c, _ = ctx.atom(("cos",) + k, "cos!%d" % j, ("cos", x))
        if new:
            ctx.square[i] = {(): Fraction(1), ((c, 2),): Fraction(-1)}
            ctx.side.append(("eq", {((i, 2),): Fraction(1), ((c, 2),): Fraction(1), (): Fraction(-1)}))
            self.inverse_trig(x, i, c)
        s = {((i, 1),): Fraction(-1 if neg else 1)}
        return rf(s), rf({((c, 1),): Fraction(1)})

    def inverse_trig(self, x, i, c):
        """axioms for sin/cos of an inverse trigonometric atom"""
        ctx = self.ctx
        if x.d != ONE or len(x.n) != 1:
            return
        (m, co), = x.n.items()
        if co != 1 or len(m) != 1 or m[0][1] != 1:
            return
        kd = ctx.kind[m[0][0]]
        if kd[0] == "uf" and kd[1] in ("acos", "asin"):
            a = kd[2][0]
            v = c if kd[1] == "acos" else i
            o = i if kd[1] == "acos" else c
            ctx.side.append(("eq", padd(mulatom(a.d, v, 1), a.n, -1)))
            ctx.side.append(("ge", {((o, 1),): Fraction(1)}))
        if kd[0] == "uf" and kd[1] == "atan2":
            y, xx = kd[2]
            if y.d == ONE and xx.d == ONE:
                r, new = ctx.atom(("hyp", rkey(y), rkey(xx)), "hyp!%d" % len(ctx.names), ("hyp", y, xx))
                if new:
                    sq = padd(pmul(ctx, y.n, y.n), pmul(ctx, xx.n, xx.n))
                    ctx.square[r] = sq
                    ctx.side.append(("eq", padd({((r, 2),): Fraction(1)}, sq, -1)))
                    ctx.side.append(("ge", {((r, 1),): Fraction(1)}))
                ctx.side.append(("eq", padd({mmul(((r, 1),), ((i, 1),)): Fraction(1)}, y.n, -1)))
                ctx.side.append(("eq", padd({mmul(((r, 1),), ((c, 1),)): Fraction(1)}, xx.n, -1)))

    def uf(self, op, a, t):
        ctx = self.ctx
        ctx.ufs.add(op)
        key = (op,) + tuple(rkey(x) for x in a)
        i, new = ctx.atom(key, "%s!%d" % (op, len(ctx.names)), ("uf", op, a))
        if new:
            if op in ("acos", "exp", "exp2"):
                ctx.side.append(("ge" if op == "acos" else "gt", {((i, 1),): Fraction(1)}))
            if op in ("floor", "ceil", "trunc", "round", "nearbyint"):
                # distance to the argument n/d, scaled by d^2
                n, d = a[0].n, a[0].d
                dd = pmul(ctx, d, d)
                f = pmul(ctx, {((i, 1),): Fraction(1)}, dd)
                diff = padd(f, pmul(ctx, n, d), -1)       # d^2 (f - x)
                h = {m: c / 2 for m, c in dd.items()}
                lo, hi, strict = {"floor": (dd, {}, "lo"), "ceil": ({}, dd, "hi"), "trunc": (dd, dd, "both")}.get(op, (h, h, ""))
                ctx.side.append(("gt" if strict in ("lo", "both") else "ge", padd(diff, lo)))
                ctx.side.append(("gt" if strict in ("hi", "both") else "ge", padd(hi, diff, -1)))
                ctx.side.append(("int", {((i, 1),): Fraction(1)}))
        return rf({((i, 1),): Fraction(1)})

    def assumed_squares(self, asm):
        """an assumed equation c v^2 + p == 0 over inputs, v absent from p, rewrites
        v^2 everywhere else (the equation itself is still given to the solver)"""
        ctx = self.ctx
        lhs = set()
        flat = []
        for t in asm:
            flat += list(t.args) if t.op == "and" else [t]
        for t in flat:
            if t.op != "feq" or special(t.args[0]) is not None or special(t.args[1]) is not None:
                continue
            c0 = Conv(Ctx())
            try:
                d = radd(c0.ctx, c0.rf(t.args[0]), c0.rf(t.args[1]), -1)
            except NoReal:
                continue
            if d.d != ONE or any(k[0] != "in" for k in c0.ctx.kind):
                continue
            for m, c in sorted(d.n.items(), reverse=True):
                if len(m) != 1 or m[0][1] != 2:
                    continue
                v = m[0][0]
                if any(u == v for m2 in d.n if m2 != m for u, _ in m2):
                    continue
                key = c0.ctx.kind[v]
                # same atoms, renumbered in the real context
                ren = {}
                for j, kd in enumerate(c0.ctx.kind):
                    ren[j] = ctx.atom(kd, str(kd[1]), kd)[0]
                if ren[v] in ctx.square:
                    continue
                sq = {}
                for m2, c2 in d.n.items():
                    if m2 != m:
                        mm = tuple(sorted((ren[u], e) for u, e in m2))
                        sq[mm] = -c2 / c
                sq = reduce_sq(ctx, sq)
                if any(u == ren[v] or u in lhs for m2 in sq for u, _ in m2):
                    continue
                lhs.add(ren[v])
                ctx.square[ren[v]] = sq
                ctx.side.append(("eq", padd({((ren[v], 2),): Fraction(1)}, sq, -1)))
                break

    # boolean formulas -> z3
    def form(self, t):
        op = t.op
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(self.form(t.args[0]))
        if op == "and":
            return z3.And(*[self.form(x) for x in t.args])
        if op == "beq":
            return self.form(t.args[0]) == self.form(t.args[1])
        if op == "pvar":
            return z3.Bool(str(t.attr))
        if op in ("flt", "fle", "feq", "fident"):
            sp = [special(x) for x in t.args]
            if sp[0] is not None or sp[1] is not None:
                x = sp[0] if sp[0] is not None else 0.0
                y = sp[1] if sp[1] is not None else 0.0
                return z3.BoolVal({"flt": x < y, "fle": x <= y, "feq": x == y, "fident": x == y}[op])
            a, b = self.rf(t.args[0]), self.rf(t.args[1])
            return self.rel(op, radd(self.ctx, a, b, -1))
        if op == "isnan":
            return z3.BoolVal(special(t.args[0]) is not None and special(t.args[0]) != special(t.args[0]))
        if op == "signbit":
            return self.rel("flt", self.rf(t.args[0]))
        if op == "ite":
            return z3.If(self.form(t.args[0]), self.form(t.args[1]), self.form(t.args[2]))
        return self.bvform(t)

    def bvform(self, t):
        f = getattr(self, "_fp", None)
        if f is None:
            f = self._fp = smt.FPInterp()
        for x in tm.postorder([t]):
            if x.sort in (F32, F64):
                raise NoReal("bit-level operation on a float")
        return f(t)

    def rel(self, op, d):
        n, den = d.n, d.d
        if op in ("feq", "fident"):
            return self.z(n) == 0
        # a divisor is non-zero by its own obligation
        sg = 1 if den == ONE else self.signs_of(den)
        p = n if sg == 1 else pneg(n) if sg == -1 else pmul(self.ctx, n, den)
        return self.z(p) < 0 if op == "flt" else self.z(p) <= 0

    def z(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        if self.linear is not None:
            for m, c in p.items():
                q = z3.Q(c.numerator, c.denominator)
                if not m:
                    ts.append(q)
                    continue
                v = self.linear.get(m)
                if v is None:
                    v = self.linear[m] = z3.Real("m!%d" % len(self.linear))
                ts.append(q * v)
            return ts[0] if len(ts) == 1 else z3.Sum(*ts)
        for m, c in p.items():
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(c.numerator) if c.denominator == 1 else z3.Q(c.numerator, c.denominator))
            for v, e in m:
                fs += [self.ctx.z3v[v]] * e
            x = fs[0]
            if len(fs) > 1:
                x = z3.Product(*fs) if len(fs) > 1 else x
            ts.append(x)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def sides(self):
        out = []
        for s in self.ctx.side:
            p = self.z(s[1])
            if s[0] == "int":
                # consequence of integrality, kept out of mixed integer arithmetic
                out.append(z3.Or(p <= -3, p >= 3, *[p == k for k in range(-2, 3)]))
                continue
            out.append(p == 0 if s[0] == "eq" else (p >= 0 if s[0] == "ge" else p > 0))
        return out


def mulatom(p, i, e):
    return {mmul(m, ((i, e),)): c for m, c in p.items()}


def special(t):
    if t.op == "fc":
        v = tm.fval(t)
        if v != v or v in (float("inf"), float("-inf")):
            return v
    return None


# ---------------------------------------------------------------- case splitting
def lower(roots):
    """rewrite fabs/fmin/fmax/copysign/... into ite form"""
    memo = {}
    for t in tm.postorder(roots):
        a = [memo[x.id] for x in t.args]
        op = t.op
        if op == "fabs":
            r = tm.ite(tm.fcmp("olt", a[0], tm.fconst(0.0, t.sort)), tm.fneg(a[0]), a[0])
        elif op == "fmin":
            r = tm.ite(tm.fcmp("olt", a[1], a[0]), a[1], a[0])
        elif op == "fmax":
            r = tm.ite(tm.fcmp("olt", a[0], a[1]), a[1], a[0])
        elif op == "copysign":
            z = tm.fconst(0.0, t.sort)
            m = tm.ite(tm.fcmp("olt", a[0], z), tm.fneg(a[0]), a[0])
            r = tm.ite(tm.fcmp("olt", a[1], z), tm.fneg(m), m)
        elif op == "isnan":
            r = tm.FALSE if special(a[0]) is None else tm.tb(special(a[0]) != special(a[0]))
        elif op == "signbit":
            r = tm.fcmp("olt", a[0], tm.fconst(0.0, a[0].sort))
        elif not t.args:
            r = t
        else:
            r = tm.rebuild(t, a)
        # sqrt(x*x) = |x| at the term level is left to the normal form
        memo[t.id] = r
    return [memo[r.id] for r in roots]


def find_split(roots):
    for t in tm.postorder(roots):
        if t.op == "ite" and t.sort in (F32, F64):
            return t.args[0]
        if t.op in ("s2f", "u2f") and t.args[0].op in ("b2bv",):
            return t.args[0].args[0]
    return None


def substitute(roots, m):
    memo = {}
    for t in tm.postorder(roots):
        if t.id in m:
            memo[t.id] = m[t.id]
        elif not t.args:
            memo[t.id] = t
        else:
            memo[t.id] = tm.rebuild(t, [memo[x.id] for x in t.args])
    return [memo[r.id] for r in roots]


def cases(assume, goal, limit=4096, prune=None):
    """yield (assumption list, goal) with no float ite left"""
    r = lower(list(assume) + [goal])
    work = [(r[:-1], r[-1])]
    n = 0
    while work:
        asm, g = work.pop()
        if any(x is FALSE for x in asm):
            continue
        if g is TRUE:
            n += 1
            continue
        c = find_split(list(asm) + [g])
        if c is None:
            n += 1
            if n > limit:
                raise NoReal("too many cases")
            yield asm, g
            continue
        if len(work) > limit:
            raise NoReal("too many cases")
        for val in (TRUE, FALSE):
            m = {c.id: val}
            lits = []
            if val is TRUE:
                lits = [c]
                if c.op == "and":
                    for x in c.args:
                        m[x.id] = TRUE
                        if x.op == "not":
                            m[x.args[0].id] = FALSE
                elif c.op == "not":
                    m[c.args[0].id] = FALSE
            else:
                lits = [tm.not_(c)]
                m[tm.not_(c).id] = TRUE
                if c.op == "not":
                    m[c.args[0].id] = TRUE
            for cc, vv in list(m.items()):
                pass
            # x<y true implies y<x false, x<=y true, x==y false ; x<y false -> ...
            if c.op == "flt":
                x, y = c.args
                if val is TRUE:
                    m[tm.fcmp("olt", y, x).id] = FALSE
                    m[tm.fcmp("ole", x, y).id] = TRUE
                    m[tm.fcmp("ole", y, x).id] = FALSE
                    m[tm.fcmp("oeq", x, y).id] = FALSE
                else:
                    m[tm.fcmp("ole", y, x).id] = TRUE
            elif c.op == "fle":
                x, y = c.args
                if val is FALSE:
                    m[tm.fcmp("olt", y, x).id] = TRUE
                    m[tm.fcmp("olt", x, y).id] = FALSE
                    m[tm.fcmp("ole", y, x).id] = TRUE
                    m[tm.fcmp("oeq", x, y).id] = FALSE
                else:
                    m[tm.fcmp("olt", y, x).id] = FALSE
            m.pop(TRUE.id, None)
            m.pop(FALSE.id, None)
            s = substitute(list(asm) + [g], m)
            asm2 = [x for x in s[:-1] if x is not TRUE] + lits
            if prune is not None and not prune(asm2):
                continue
            work.append((asm2, s[-1]))


# ---------------------------------------------------------------- divisors and domains
def evidently_nonneg(t):
    """sums and products of squares"""
    if t.op == "fmul":
        return t.args[0] is t.args[1] or all(evidently_nonneg(x) for x in t.args)
    if t.op == "fadd":
        return all(evidently_nonneg(x) for x in t.args)
    if t.op == "ite":
        return all(evidently_nonneg(x) for x in t.args[1:])
    if t.op == "fc":
        return tm.fval(t) >= 0
    return t.op in ("sqrt", "fabs")


def domain_terms(roots):
    """(kind, term) side obligations for roots: divisors != 0, sqrt args >= 0, asin/acos args in [-1,1], log args > 0"""
    out = []
    for t in tm.postorder(roots):
        if t.op == "fdiv":
            out.append(("division by zero", tm.not_(tm.fcmp("oeq", t.args[1], tm.fconst(0.0, t.sort))), t))
        elif t.op == "sqrt" and evidently_nonneg(t.args[0]):
            continue
        elif t.op == "sqrt":
            out.append(("square root of a negative number", tm.fcmp("ole", tm.fconst(0.0, t.sort), t.args[0]), t))
        elif t.op in ("acos", "asin"):
            out.append(("%s outside [-1,1]" % t.op, tm.and_(tm.fcmp("ole", tm.fconst(-1.0, t.sort), t.args[0]),
                                                         tm.fcmp("ole", t.args[0], tm.fconst(1.0, t.sort))), t))
        elif t.op in ("log", "log2"):
            out.append(("log of a non-positive number", tm.fcmp("olt", tm.fconst(0.0, t.sort), t.args[0]), t))
    return out


def solve(cons, timeout_ms):
    """portfolio: default solver, then nlsat tactic"""
    t1 = max(50, timeout_ms // 4)
    r, m = smt.check(lambda: z3.SolverFor("QF_NRA"), cons, t1)
    if r != "unknown":
        return r, m
    r, m = smt.check(lambda: z3.Solver(), cons, timeout_ms - t1)
    return r, m


class RealProof:
    def __init__(self, timeout_ms):
        self.timeout = timeout_ms
        self.ncases = 0
        self.nf = 0

    def prove(self, assume, goal):
        """-> ('unsat',None) | ('sat', candidate env) | ('unknown', reason)"""
        quick = {}

        def prune(asm):
            """False when the linear relaxation already refutes the assumptions"""
            cv = Conv(Ctx())
            cv.split_signs = False
            try:
                cv.assumed_signs(asm)
                cv.assumed_squares(asm)
                cv.linear = {}
                lin = []
                for x in asm:
                    if find_split([x]) is None:
                        lin.append(cv.form(x))
                lin += cv.sides()
                for m, v in cv.linear.items():
                    if cv.positive({m: Fraction(1)}):
                        lin.append(v >= 0)
            except NoReal:
                return True
            return smt.check(lambda: z3.SolverFor("QF_LRA"), lin, 500)[0] != "unsat"
        res = "unsat"
        reason = None
        t_end = time.time() + self.timeout / 1000.0
        for asm, g in cases(assume, goal, prune=prune):
            self.ncases += 1
            r, info = self.leaf(asm, g, t_end)
            if r == "sat":
                return r, info
            if r == "unknown":
                res, reason = "unknown", info
        return res, reason

    def leaf(self, asm, g, t_end, depth=0):
        ctx = Ctx()
        cv = Conv(ctx)
        cv.split_signs = depth < 6
        try:
            cv.assumed_signs(asm)
            cv.assumed_squares(asm)
            gz = cv.form(g)
            # pure equality whose normal form is 0
            az = [cv.form(x) for x in asm]
            sides = cv.sides()
        except NoReal as e:
            return "unknown", str(e)
        except NeedSign as e:
            z, v = tm.fconst(0.0, F32), tm.fvar(e.var)
            res = ("unsat", None)
            for c in (tm.fcmp("ole", z, v), tm.fcmp("ole", v, z)):
                r = self.leaf(list(asm) + [c], g, t_end, depth + 1)
                if r[0] != "unsat":
                    res = r
                    if r[0] == "sat":
                        break
            return res
        gs = z3.simplify(gz)
        if z3.is_true(gs):
            self.nf += 1
            smt.STATS.trivial += 1
            return "unsat", None
        # linear relaxation: every monomial an independent unknown, with its evident sign
        try:
            cv.linear = {}
            lin = [cv.form(x) for x in asm] + [z3.Not(cv.form(g))] + cv.sides()
            for m, v in cv.linear.items():
                if cv.positive({m: Fraction(1)}):
                    lin.append(v >= 0)
        finally:
            cv.linear = None
        r, _ = smt.check(lambda: z3.SolverFor("QF_LRA"), lin, 1500)
        if r == "unsat":
            return "unsat", None
        left = int(max(200, (t_end - time.time()) * 1000))
        cons = az + sides + [z3.Not(gz)]
        r, m = solve(cons, min(left, self.timeout))
        if r == "sat":
            return "sat", (ctx, cv, cons, m)
        if r == "unknown":
            return "unknown", "solver timeout"
        return "unsat", None
