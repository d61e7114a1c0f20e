"""Float terms read as real numbers with one rounding per operation: the rounded value is any number within half a unit of
the exact one that keeps the order to the representable numbers at hand (0, +-1, the operands, ...).  Every float
execution is one of these, so `unsat` holds for float arithmetic; a model proves nothing.

Each float term is a real value and a condition under which it may be NaN or infinite (nothing is assumed of its value
then, and comparisons with it may go either way).  Results beyond 2^127 count as infinite, underflow is an absolute error."""
from fractions import Fraction
import z3
from . import terms as tm
from .terms import F32, F64, BOOL

PREC = {F32: (24, 127, -149), F64: (53, 1023, -1074)}
PI = Fraction(3.1415927410125732)             # the float above pi


class NoRnd(Exception):
    pass


def q(x):
    x = Fraction(x)
    return z3.Q(x.numerator, x.denominator)


def pow2(c):
    c = abs(Fraction(c))
    return c != 0 and c.numerator & (c.numerator - 1) == 0 and c.denominator & (c.denominator - 1) == 0


def zabs(x):
    return z3.If(x >= 0, x, -x)


def canon(roots):
    """negations moved out of products, quotients and sums (rounding is symmetric; the sign of a zero is lost)"""
    memo = {}

    def full(x):
        s, t = memo[x.id]
        return tm.fneg(t) if s < 0 else t
    for t in tm.postorder(roots):
        op = t.op
        a = [memo[x.id] for x in t.args]
        if op == "fneg":
            r = -a[0][0], a[0][1]
        elif op in ("fmul", "fdiv"):
            r = a[0][0] * a[1][0], tm.fbin(op, a[0][1], a[1][1])
        elif op in ("fadd", "fsub"):
            (s, x), (k, y) = a
            k = k if op == "fadd" else -k
            if s == k:
                r = s, tm.fbin("fadd", x, y)
            else:
                r = (s, tm.fbin("fsub", x, y)) if x.id <= y.id else (k, tm.fbin("fsub", y, x))
        elif op == "fabs":
            r = 1, tm.rebuild(t, [a[0][1]])
        elif t.args:
            r = 1, tm.rebuild(t, [full(x) for x in t.args])
        else:
            r = 1, t
        memo[t.id] = r
    return [full(t) for t in roots]


GRID = (0, 1, 2, 4, 8, 10, 16, 20, 24, 32, 40, 48, 64, 80, 100)


class Rounded:
    """cons: linear in the values, with true statements about the products, quotients and roots among them;
    nonlinear: their definitions"""

    def __init__(self, mag, lemma=None):
        self.mag = mag
        self.lemma = lemma             # (term, constraint): whether the constraint contradicts what is known
        self.refined = set()
        self.memo = {}
        self.cons = []
        self.nonlinear = []
        self.size = {}                 # term id -> bound on the absolute value, if it is a number
        self.squares = []              # (value, its exact square)
        self.products = []             # (value, value, exact product)
        self.recip = {}                # term id of a rounded quotient -> (numerator, denominator)
        self.n = 0

    def fresh(self, kind=z3.Real, p="v"):
        self.n += 1
        return kind("%s!%d" % (p, self.n))

    def __call__(self, root, lemmas=False):
        for t in tm.postorder([root]):
            if t.id not in self.memo:
                if t.sort in (F32, F64):
                    self.size[t.id] = self.bound(t, [self.size.get(x.id) for x in t.args])
                self.memo[t.id] = self.conv(t, [self.memo[a.id] for a in t.args])
            if lemmas and self.lemma and t.id not in self.refined:
                self.refine(t)
        return self.memo[root.id]

    def refine(self, t):
        """quotients, and products with one: first prove that they are numbers, and in [-1, 1] up to rounding"""
        self.refined.add(t.id)
        if t.op == "fdiv" and self.size.get(t.args[1].id) != 0 and t.args[1].op != "fc":
            steps = (Fraction(2) ** 100,)
        elif t.op == "fmul" and any(x.id in self.recip for x in t.args):
            steps = (Fraction(2) ** 100, 1 + Fraction(3, 1 << 22))
        else:
            return
        for k in steps:
            r, bad = self.memo[t.id]
            if self.lemma(t, k, z3.Or(bad, r > q(k), r < q(-k))):
                self.memo[t.id] = r, z3.BoolVal(False)
                self.cons += [r <= q(k), r >= q(-k)]
                if self.size.get(t.id) is None or self.size[t.id] > k:
                    self.size[t.id] = k
            else:
                break

    def pairs(self):
        """relations between the products"""
        out = []
        sq = self.squares[:12]
        for x, (a, ea) in enumerate(sq):
            for b, eb in sq[:x]:
                out += [z3.Implies(zabs(a) <= zabs(b), ea <= eb), z3.Implies(zabs(b) <= zabs(a), eb <= ea)]
        by = {a.get_id(): e for a, e in self.squares}
        for a, b, e in self.products:
            if a.get_id() in by and b.get_id() in by:
                out += [2 * e <= by[a.get_id()] + by[b.get_id()], -2 * e <= by[a.get_id()] + by[b.get_id()]]
        return out

    def bound(self, t, a):
        """static bound of the absolute value, rounded up"""
        op, up = t.op, lambda x: None if x is None or x > Fraction(2) ** 120 else Fraction(2) ** 0 * x * (1 + Fraction(1, 1 << 20))
        if op == "fvar":
            return Fraction(self.mag)
        if op == "fc":
            v = tm.fval(t)
            return None if v != v or abs(v) == float("inf") else abs(Fraction(v))
        if op in ("sin", "cos"):
            return Fraction(1)
        if op in ("acos", "asin", "atan", "atan2"):
            return PI
        if op in ("log", "log2"):
            return Fraction(150)
        f = [x for x, y in zip(a, t.args) if y.sort in (F32, F64)]
        if not f or None in f:
            return None
        if op in ("fneg", "fabs", "copysign"):
            return f[0]
        if op in ("ite", "fmin", "fmax"):
            return max(f)
        if op in ("fadd", "fsub"):
            return up(f[0] + f[1])
        if op == "fmul":
            return up(f[0] * f[1])
        if op == "fma":
            return up(f[0] * f[1] + f[2])
        if op == "sqrt":
            return max(f[0], Fraction(1))
        if op in ("fcast", "floor", "ceil", "trunc", "round", "nearbyint"):
            return up(f[0] + 1)
        return None

    # one rounding ----------------------------------------------------------
    def rounded(self, x, sort, bad, size=None, under=True, near=()):
        """x: the exact value; near: representable numbers (z3 reals) the order to which is kept"""
        p, top, low = PREC[sort]
        u = Fraction(1, 1 << p)
        r = self.fresh()
        c = []
        for s in (1, -1):
            rel = z3.And(s * r >= s * x * q(1 - u), s * r <= s * x * q(1 + u))
            if under:
                tiny = q(Fraction(1, 1 << (-low - p + 1)))
                eta = q(Fraction(1, 1 << (1 - low)))
                rel = z3.If(s * x >= tiny, rel, z3.And(s * r >= 0, s * r <= tiny, r >= x - eta, r <= x + eta))
            c.append(z3.Implies(s * x >= 0, z3.And(rel, s * r >= 0)))
            for k in (1, 2, 4):
                # the next floats are k(1+2u) and k(1-u); halfway goes to k
                c.append(z3.Implies(s * x <= q(k * (1 + u)), s * r <= k))
                c.append(z3.Implies(s * x >= q(k * (1 - u / 2)), s * r >= k))
        for v in near:
            c.append(z3.Implies(x <= v, r <= v))
            c.append(z3.Implies(x >= v, r >= v))
        self.cons += c
        if size is None or size >= Fraction(2) ** top:
            bad = z3.Or(bad, x > q(Fraction(2) ** top), x < q(-Fraction(2) ** top))
        return r, bad

    def product(self, t, v, w, sv, sw):
        """the exact product of two values"""
        if z3.is_rational_value(v) or z3.is_rational_value(w):
            return v * w
        e = self.fresh(p="m")
        self.nonlinear.append(e == v * w)
        c = self.cons.append
        if v.eq(w):
            c(e >= 0)
            c(z3.Implies(zabs(v) >= 1, e >= zabs(v)))
            c(z3.Implies(zabs(v) <= 1, e <= zabs(v)))
            for k in GRID:
                c(z3.Implies(zabs(v) >= q(Fraction(1, 1 << k)), e >= q(Fraction(1, 1 << 2 * k))))
                c(z3.Implies(zabs(v) <= q(Fraction(1, 1 << k)), e <= q(Fraction(1, 1 << 2 * k))))
            self.squares.append((v, e))
        else:
            c(z3.Implies(z3.Or(z3.And(v >= 0, w >= 0), z3.And(v <= 0, w <= 0)), e >= 0))
            c(z3.Implies(z3.Or(z3.And(v >= 0, w <= 0), z3.And(v <= 0, w >= 0)), e <= 0))
            for x, y in ((v, w), (w, v)):
                c(z3.Implies(zabs(x) <= 1, zabs(e) <= zabs(y)))
                c(z3.Implies(zabs(x) >= 1, zabs(e) >= zabs(y)))
            for k in GRID[5:]:
                lo = q(Fraction(1, 1 << k))
                c(z3.Implies(z3.And(zabs(v) >= lo, zabs(w) >= lo), zabs(e) >= lo * lo))
            self.products.append((v, w, e))
        for x, y, s in ((v, w, sv), (w, v, sw)):
            if s is not None:
                c(zabs(e) <= q(s) * zabs(y))
        u = Fraction(1, 1 << 22)
        for x, y, tx in ((v, w, t.args[0]), (w, v, t.args[1])):
            nd = self.recip.get(tx.id)
            if nd is not None:
                n, d = nd
                # x = n/d up to rounding
                for k in (0, 2):
                    c(z3.Implies(z3.And(zabs(y) <= zabs(d) * q(1 + k * u), zabs(d) <= q(Fraction(2) ** 100), zabs(d) >= q(Fraction(1, 1 << 100)),
                                        zabs(n) <= 1), zabs(e) <= q((1 + k * u) * (1 + Fraction(1, 1 << 24)))))
        return e

    def quotient(self, v, w, sw):
        d = self.fresh(p="q")
        self.nonlinear.append(z3.Implies(w != 0, d * w == v))
        c = self.cons.append
        c(z3.Implies(z3.Or(z3.And(v >= 0, w > 0), z3.And(v <= 0, w < 0)), d >= 0))
        c(z3.Implies(z3.Or(z3.And(v >= 0, w < 0), z3.And(v <= 0, w > 0)), d <= 0))
        u = Fraction(1, 1 << 22)
        for k in (0, 1, 2, 4):
            c(z3.Implies(z3.And(w != 0, zabs(v) <= zabs(w) * q(1 + k * u)), zabs(d) <= q(1 + k * u)))
        c(z3.Implies(z3.And(w != 0, zabs(v) >= zabs(w)), zabs(d) >= 1))
        for k in GRID:
            c(z3.Implies(zabs(w) >= q(Fraction(1, 1 << k)), zabs(d) <= q(1 << k) * zabs(v)))
        if sw is not None and sw > 0:
            c(z3.Implies(w != 0, zabs(d) * q(sw) >= zabs(v)))
        return d

    def root(self, t, v):
        s = self.fresh(p="s")
        self.nonlinear.append(z3.Implies(v >= 0, s * s == v))
        c = self.cons.append
        c(z3.Implies(v >= 0, s >= 0))
        c(z3.Implies(z3.And(v >= 0, v <= 1), z3.And(s >= v, s <= 1)))
        c(z3.Implies(v >= 1, z3.And(s <= v, s >= 1)))
        for k in GRID:
            for k in (k, -k):
                lo = Fraction(2) ** k
                c(z3.Implies(v >= q(lo * lo), s >= q(lo)))
                c(z3.Implies(z3.And(v >= 0, v <= q(lo * lo)), s <= q(lo)))
        # above a rounded square: above its root, up to rounding
        n = 0
        for x in tm.postorder([t]):
            if x.op == "fmul" and x.args[0] is x.args[1] and n < 12:
                n += 1
                y, z = self.memo[x.args[0].id][0], self.memo[x.id][0]
                c(z3.Implies(z3.And(v >= z, zabs(y) >= q(Fraction(1, 1 << 60))), s >= zabs(y) * q(1 - Fraction(1, 1 << 24))))
        return s

    def conv(self, t, a):
        op = t.op
        B = z3.BoolVal
        if op == "fvar":
            return z3.Real(str(t.attr)), B(False)           # the caller bounds every input
        if op == "fc":
            v = tm.fval(t)
            if v != v or v in (float("inf"), -float("inf")):
                return z3.RealVal(0), B(True)
            return q(Fraction(v)), B(False)
        if op in ("true", "false"):
            return B(op == "true")
        if op == "pvar":
            return z3.Bool(str(t.attr))
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "beq":
            return a[0] == a[1]
        if op == "ite":
            if t.sort in (F32, F64):
                # a variable: conditional terms inside products confuse the solvers
                r = self.fresh(p="i")
                self.cons.append(r == z3.If(a[0], a[1][0], a[2][0]))
                return r, z3.simplify(z3.If(a[0], a[1][1], a[2][1]))
            return z3.If(a[0], a[1], a[2])
        if op in ("flt", "fle", "feq", "fident"):
            return self.compare(t, op, a)
        if op == "isnan":
            b = self.fresh(z3.Bool, "b")
            self.cons.append(z3.Implies(b, a[0][1]))
            return b
        if op == "signbit":
            b = self.fresh(z3.Bool, "b")
            self.cons.append(z3.Or(a[0][1], z3.And(z3.Implies(a[0][0] < 0, b), z3.Implies(a[0][0] > 0, z3.Not(b)))))
            return b
        if op in ("bvc", "bvar", "b2bv", "bveq", "extract", "zext", "sext", "concat", "bvadd", "bvsub", "bvand", "bvor", "bvxor", "bvult", "bvslt"):
            from .smt import FPInterp
            return FPInterp().conv(t, a)
        if t.sort not in (F32, F64):
            raise NoRnd(op)
        fs = [(x, y) for x, y in zip(a, t.args) if isinstance(x, tuple)]
        bad = z3.simplify(z3.Or(*[x[1] for x, _ in fs] + [B(False)]))
        v = [x[0] for x, _ in fs]
        sz = [self.size.get(y.id) for _, y in fs]
        me = self.size.get(t.id)
        p, top, low = PREC[t.sort]
        if op == "fneg":
            return -v[0], bad
        if op == "fabs":
            r = self.fresh(p="a")
            self.cons.append(r == zabs(v[0]))
            return r, bad
        if op == "copysign":
            r = self.fresh()
            self.cons += [zabs(r) == zabs(v[0]), z3.Implies(v[1] > 0, r >= 0), z3.Implies(v[1] < 0, r <= 0)]
            return r, bad
        if op in ("fadd", "fsub"):
            e = v[0] + v[1] if op == "fadd" else v[0] - v[1]
            r, b = self.rounded(e, t.sort, bad, me, under=False, near=[v[0], v[1] if op == "fadd" else -v[1]])
            # floats from 2^k on are multiples of an ulp of theirs; so is the sum, and up to 2^(k+1) it is a float
            for k in (-1, 0, 1):
                pre = [zabs(e) <= q(Fraction(2) ** (k + 1))]
                for x, y in zip(t.args, v):
                    if x.op == "fc":
                        if not z3.is_rational_value(y) or (y.as_fraction() / Fraction(2) ** (k + 1 - p)).denominator != 1:
                            break
                    else:
                        pre.append(zabs(y) >= q(Fraction(2) ** k))
                else:
                    self.cons.append(z3.Implies(z3.And(*pre), r == e))
            return r, b
        if op == "fmul":
            for x, y in ((0, 1), (1, 0)):
                k = tm.fval(t.args[x]) if t.args[x].op == "fc" else 0
                if k == k and abs(k) != float("inf") and pow2(k):
                    e = v[0] * v[1]
                    if abs(k) >= 1:
                        return e, bad if me is not None and me < 2 ** top else z3.Or(bad, zabs(e) > q(Fraction(2) ** top))
                    eta = q(Fraction(1, 1 << (1 - low)))
                    r = self.fresh()
                    self.cons += [r <= e + eta, r >= e - eta, z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0), zabs(r) <= zabs(v[y])]
                    return r, bad
            r, b = self.rounded(self.product(t, v[0], v[1], sz[0], sz[1]), t.sort, bad, me)
            for x, y in ((0, 1), (1, 0)):
                self.cons.append(z3.Implies(zabs(v[y]) <= 1, zabs(r) <= zabs(v[x])))
                self.cons.append(z3.Implies(zabs(v[y]) >= 1, zabs(r) >= zabs(v[x])))
            return r, b
        if op == "fdiv":
            if z3.is_rational_value(v[1]) and v[1].as_fraction() != 0:
                d = v[0] / v[1]
            else:
                d = self.quotient(v[0], v[1], sz[1])
            r, b = self.rounded(d, t.sort, bad, me)
            self.cons.append(z3.Implies(zabs(v[1]) >= 1, zabs(r) <= zabs(v[0])))
            self.recip[t.id] = (v[0], v[1])
            return r, z3.Or(b, v[1] == 0)
        if op == "fma":
            m = self.product(t, v[0], v[1], sz[0], sz[1])
            return self.rounded(m + v[2], t.sort, bad, me, near=[v[2]])
        if op == "sqrt":
            r, b = self.rounded(self.root(t.args[0], v[0]), t.sort, bad, me, under=False)
            return r, z3.Or(b, v[0] < 0)
        if op == "fcast":
            if t.sort == F64:
                return v[0], bad
            return self.rounded(v[0], t.sort, bad, me)
        if op in ("floor", "ceil", "trunc", "round", "nearbyint"):
            k = z3.ToReal(self.fresh(z3.Int, "k"))
            x = v[0]
            self.cons.append({"floor": z3.And(k <= x, x < k + 1), "ceil": z3.And(k >= x, x > k - 1),
                              "trunc": z3.If(x >= 0, z3.And(k <= x, x < k + 1), z3.And(k >= x, x > k - 1)),
                              "round": z3.And(2 * k <= 2 * x + 1, 2 * k >= 2 * x - 1),
                              "nearbyint": z3.And(2 * k <= 2 * x + 1, 2 * k >= 2 * x - 1)}[op])
            return k, bad
        if op in ("fmin", "fmax"):
            r = self.fresh(p="i")
            self.cons.append(r == (z3.If(v[1] < v[0], v[1], v[0]) if op == "fmin" else z3.If(v[0] < v[1], v[1], v[0])))
            return r, bad
        return self.library(op, v, bad)

    def compare(self, t, op, a):
        (x, bx), (y, by) = a
        for s, other in ((0, a[1]), (1, a[0])):
            c = t.args[s]
            if c.op == "fc" and tm.fval(c) in (float("inf"), -float("inf")):
                # a finite number against an infinity
                less = (tm.fval(c) > 0) == (s == 1)
                r = self.fresh(z3.Bool, "b")
                self.cons.append(z3.Or(other[1], r == z3.BoolVal(less and op in ("flt", "fle"))))
                return r
        bad = z3.simplify(z3.Or(bx, by))
        r = {"flt": x < y, "fle": x <= y, "feq": x == y, "fident": x == y}[op]
        if op == "fident":
            f = self.fresh(z3.Bool, "b")          # zeros may differ in sign
            self.cons.append(z3.Or(bad, f == r, z3.And(x == 0, y == 0)))
            return f
        if z3.is_false(bad):
            return r
        f = self.fresh(z3.Bool, "b")
        self.cons.append(z3.Or(bad, f == r))
        return f

    # library functions: the range of the function, kept by its rounding to a float ---------------
    def library(self, op, v, bad):
        r = self.fresh(p=op)
        ok = []
        c = ok.append
        x = v[0]
        if op in ("sin", "cos"):
            c(z3.And(r >= -1, r <= 1))
            if op == "sin":
                # concave on [0, pi]: above the chord to pi/2
                c(z3.Implies(z3.And(x >= 0, x <= q(Fraction(3, 2))), z3.And(r >= x * q(Fraction(1, 2)), r <= x)))
                c(z3.Implies(z3.And(x <= 0, x >= q(Fraction(-3, 2))), z3.And(r <= x * q(Fraction(1, 2)), r >= x)))
                c(z3.Implies(z3.And(x >= q(Fraction(3, 2)), x <= q(Fraction(158, 100))), r >= q(Fraction(99, 100))))
        elif op == "tan":
            c(z3.Implies(z3.And(x >= 0, x <= q(Fraction(157, 100))), z3.And(r >= x, r <= 1300)))
            c(z3.Implies(x == 0, r == 0))
        elif op == "acos":
            bad = z3.Or(bad, x < -1, x > 1)
            c(z3.And(r >= 0, r <= q(PI)))
            c(z3.Implies(x >= 0, r <= q(PI / 2)))
            # acos(1 - h) >= sqrt(2h), which is 2^-k for h = 2^-(2k+1)
            for k in range(13):
                c(z3.Implies(z3.And(x <= 1, 1 - x >= q(Fraction(1, 2 << 2 * k))), r >= q(Fraction(1, 1 << k) * (1 - Fraction(1, 1 << 22)))))
        elif op == "asin":
            bad = z3.Or(bad, x < -1, x > 1)
            c(z3.And(r >= q(-PI / 2), r <= q(PI / 2)))
        elif op == "atan":
            c(z3.And(r >= q(-PI / 2), r <= q(PI / 2)))
        elif op == "atan2":
            c(z3.And(r >= q(-PI), r <= q(PI)))
        elif op in ("exp", "exp2"):
            bad = z3.Or(bad, x > 80)
            c(r >= 0)
            c(z3.Implies(x <= 0, r <= 1))
            c(z3.Implies(x >= 0, r >= 1))
        elif op in ("log", "log2"):
            bad = z3.Or(bad, x <= 0)
            c(z3.And(r >= -150, r <= 150))
            c(z3.Implies(x <= 1, r <= 0))
            c(z3.Implies(x >= 1, r >= 0))
        elif op == "pow":
            y = v[1]
            bad = z3.Or(bad, z3.Not(z3.Or(z3.And(x >= 0, x <= 1, y >= 0), z3.And(x >= 1, y <= 0), z3.And(x >= 0, x <= 4, y >= 0, y <= 16))))
            c(r >= 0)
            c(z3.Implies(z3.And(x <= 1, y >= 0), r <= 1))
            c(z3.Implies(z3.And(x >= 1, y >= 0), r >= 1))
            c(z3.Implies(z3.And(x >= 1, y <= 0), r <= 1))
        elif op == "cbrt":
            c(z3.Implies(zabs(x) <= 1, zabs(r) <= 1))
            c(z3.Implies(zabs(x) >= 1, zabs(r) <= zabs(x)))
            c(r * x >= 0)
        else:
            raise NoRnd(op)
        self.cons += [z3.Or(bad, k) for k in ok]
        return r, bad
