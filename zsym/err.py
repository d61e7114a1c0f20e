"""Rounding-error analysis of a float term: every operation is read as its exact value times (1 + d), |d| <= u, all d
free; the claim |computed - exact| <= k u magnitude is decided over all real inputs and all d.

A value is a Laurent polynomial P over atoms (inputs, rounded sums of exact values, square roots, divisors, library
results) together with a bound E on its error, a combination of absolute values of monomials.  The last step, E <= k u M,
is a linear query over the absolute values of the monomials, with |x+y| <= |x|+|y| for the sums among the atoms."""
from fractions import Fraction
import time
import z3
from . import terms as tm
from . import smt
from .terms import F32

U = {F32: Fraction(1, 1 << 24), tm.F64: Fraction(1, 1 << 53)}


class NoErr(Exception):
    pass


def up(c):
    """a dyadic number not below c with few digits"""
    if c == 0 or c.denominator.bit_length() < 80:
        return c
    k = c.denominator.bit_length() - c.numerator.bit_length() + 40
    return Fraction(-((-c.numerator << k) // c.denominator), 1 << k)


def mul(a, b):
    d = dict(a)
    for k, e in b:
        e += d.get(k, 0)
        if e:
            d[k] = e
        else:
            d.pop(k)
    return tuple(sorted(d.items()))


def pw(m, e):
    return tuple((k, x * e) for k, x in m)


def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def times(p, q):
    if len(p) * len(q) > 200000:
        raise NoErr("too many monomials")
    r = {}
    for a, c in p.items():
        for b, d in q.items():
            m = mul(a, b)
            v = r.get(m, 0) + c * d
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def absp(p):
    return {m: abs(c) for m, c in p.items()}


def scale(p, c):
    return {m: up(x * c) for m, x in p.items()} if c else {}


def canon(p):
    """(positive or negative factor, the polynomial with leading coefficient 1)"""
    m = min(p)
    c = p[m]
    return c, tuple(sorted((k, v / c) for k, v in p.items()))


class Analysis:
    def __init__(self):
        self.keys = {}
        self.info = []                # per atom: ('in', name) | ('sum', poly) | ('sqrt', poly) | (function, ...)
        self.memo = {}

    def atom(self, key):
        i = self.keys.get(key)
        if i is None:
            i = self.keys[key] = len(self.info)
            self.info.append(key)
        return ((i, 1),)

    # values ------------------------------------------------------------
    def value(self, root):
        for t in tm.postorder([root]):
            if t.id not in self.memo:
                self.memo[t.id] = self.conv(t, [self.memo[a.id] for a in t.args])
        return self.memo[root.id]

    def rounded(self, P, E, u):
        """after one more rounding"""
        return P, add(scale(E, 1 + u), scale(absp(P), u))

    def conv(self, t, a):
        op = t.op
        u = U.get(t.sort)
        if op == "fvar":
            return {self.atom(("in", t.attr)): Fraction(1)}, {}
        if op == "fc":
            v = tm.fval(t)
            if v != v or v in (float("inf"), -float("inf")):
                raise NoErr("not a number")
            c = Fraction(v)
            return ({(): c} if c else {}), {}
        if op == "bvc":
            return None
        if op == "fneg":
            return scale_s(a[0][0], -1), a[0][1]
        if op in ("fadd", "fsub"):
            return self.plus(a[0], a[1], 1 if op == "fadd" else -1, u)
        if op == "fma":
            p, e = self.times(a[0], a[1])
            return self.rounded(add(p, a[2][0]), add(e, a[2][1]), u)
        if op == "fmul":
            P, E = self.times(a[0], a[1])
            if any(exact_factor(x) for x in a):
                return P, E
            return self.rounded(P, E, u)
        if op == "fdiv":
            c, m, r = self.relative(a[1])
            r = up(r / (1 - r))
            inv = {pw(m, -1): 1 / c}
            P = times(a[0][0], inv)
            E = times(add(scale(absp(a[0][0]), r), scale(a[0][1], 1 + r)), absp(inv))
            if exact_factor(({(): c}, {})) and not m:
                return P, E
            return self.rounded(P, E, u)
        if op == "sqrt":
            P, E = a[0]
            r = self.ratio(P, E)
            r = up(r / (2 - r))
            c, k = canon(P)
            m = self.atom(("sqrt", k, c))
            return self.rounded({m: Fraction(1)}, {m: r}, u)
        if op == "fcast":
            if t.sort == F32:
                return self.rounded(a[0][0], a[0][1], u)
            return a[0]
        if op == "fabs" and len(a[0][0]) <= 1:
            P, E = a[0]
            if not P:
                return a[0]
            (m, c), = P.items()
            return {self.atom(("abs", m)): abs(c)}, E
        if op in ("sin", "cos", "tan", "exp", "exp2", "log", "log2", "cbrt", "pow", "acos", "asin", "atan", "atan2"):
            if any(x[1] for x in a):
                raise NoErr("library function of a rounded value")
            return {self.atom((op,) + tuple(tuple(sorted(x[0].items())) for x in a)): Fraction(1)}, {}
        raise NoErr("no error analysis of %s" % op)

    def times(self, x, y):
        P = times(x[0], y[0])
        E = add(add(times(absp(x[0]), y[1]), times(x[1], absp(y[0]))), times(x[1], y[1]))
        return P, {m: up(c) for m, c in E.items()}

    def plus(self, x, y, s, u):
        P = add(x[0], y[0], s)
        if not x[0] and not x[1] or not y[0] and not y[1]:
            return P, add(x[1], y[1])
        if not x[1] and not y[1]:
            if not P:
                return P, {}
            if len(P) > 1:
                c, k = canon(P)
                m = self.atom(("sum", k))
                return {m: c}, {m: u * abs(c)}
        return self.rounded(P, add(x[1], y[1]), u)

    def ratio(self, P, E):
        """r with E <= r |P|"""
        if not E:
            return Fraction(0)
        if not P:
            raise NoErr("zero with an error")
        if len(P) > 1 and not all(c > 0 and all(e % 2 == 0 or self.positive(k) for k, e in m) for m, c in P.items()):
            raise NoErr("no relative bound for a sum of either sign")
        r = Fraction(0)
        for m, e in E.items():
            c = P.get(m)
            if c is None:
                raise NoErr("error not relative to the value")
            r = max(r, e / abs(c))
        if r >= Fraction(1, 4):
            raise NoErr("error too large")
        return r

    def positive(self, k):
        return self.info[k][0] in ("sqrt", "exp", "exp2", "abs")

    def relative(self, v):
        """(c, monomial, r): the value is c*monomial*(1+theta), |theta| <= r"""
        P, E = v
        r = self.ratio(P, E)
        if not P:
            raise NoErr("division by zero")
        if len(P) == 1:
            (m, c), = P.items()
            return c, m, r
        c, k = canon(P)
        return c, self.atom(("sum", k)), r

    # magnitudes ----------------------------------------------------------
    def magnitude(self, t):
        """t, a sum of products of absolute values, as a combination of absolute values of monomials"""
        if t.op == "fadd":
            return add(self.magnitude(t.args[0]), self.magnitude(t.args[1]))
        if t.op == "fmul":
            return times(self.magnitude(t.args[0]), self.magnitude(t.args[1]))
        if t.op == "fdiv":
            P, E = self.exact(t.args[1])
            if len(P) == 1:
                (m, c), = P.items()
            else:
                c, k = canon(P)
                m = self.atom(("sum", k))
            return times(self.magnitude(t.args[0]), {pw(m, -1): 1 / abs(c)})
        if t.op == "fabs":
            return absp(self.exact(t.args[0])[0])
        return absp(self.exact(t)[0])

    def exact(self, t):
        """as value(), roundings left out"""
        return self.value(t)[0], {}

    # the claim -------------------------------------------------------------
    def decide(self, T, M, k, bounded, timeout_ms):
        """is the error of T at most k u M?  bounded: input names with absolute value at most 1"""
        P, E = self.value(T)
        mag = self.magnitude(M)
        A = {}

        def var(m):
            if m not in A:
                A[m] = z3.Real("m%d" % len(A)) if m else z3.RealVal(1)
                todo.append(m)
            return A[m]
        todo = []
        lin = lambda p: z3.Sum([z3.RealVal(0)] + [z3.Q(c.numerator, c.denominator) * var(m) for m, c in p.items()])
        cons = [z3.Not(lin(E) <= lin(scale(mag, k * U[F32])))]
        done = 0
        while todo:
            m = todo.pop()
            done += 1
            if done > 20000:
                raise NoErr("too many monomials")
            if m:
                cons.append(A[m] >= 0)
            for i, e in m:
                inf = self.info[i]
                if e < 0 and inf[0] == "sqrt":
                    # |x| / sqrt(x^2 + ...) <= 1
                    for j, _ in m:
                        if dict(m)[j] > 0 and j != i and dict(inf[1]).get(((j, 2),), 0) * inf[2] >= 1:
                            cons.append(A[m] <= var(mul(m, ((i, 1), (j, -1)) if i < j else ((j, -1), (i, 1)))))
                if e < 1:
                    continue
                rest = mul(m, ((i, -1),))
                if inf[0] == "sum":
                    cons.append(A[m] <= lin({mul(rest, q): abs(c) for q, c in inf[1]}))
                if inf[0] == "abs":
                    cons.append(A[m] == var(mul(rest, inf[1])))
                if inf[0] in ("sin", "cos") or inf[0] == "in" and inf[1] in bounded:
                    cons.append(A[m] <= var(rest))
        return smt.check(z3.Solver, cons, timeout_ms)[0]


    def worst(self, T, M, k, asm_z3, xs, timeout_ms):
        """inputs at which the bound on the error is far above the claimed one, as a dict name -> float"""
        P, E = self.value(T)
        mag = self.magnitude(M)
        cons = []
        zv = {}

        def at(i):
            if i not in zv:
                inf = self.info[i]
                if inf[0] == "in":
                    zv[i] = xs[inf[1]] = z3.Real(inf[1])
                    cons.extend([zv[i] <= 4, zv[i] >= -4])
                elif inf[0] == "sum":
                    zv[i] = poly(dict(inf[1]))
                else:
                    zv[i] = z3.Real("t%d" % i)
                    if inf[0] == "sqrt":
                        cons.extend([zv[i] >= 0, zv[i] * zv[i] == z3.Q(inf[2].numerator, inf[2].denominator) * poly(dict(inf[1]))])
            return zv[i]

        def mono(m, f=lambda x: x):
            r = z3.RealVal(1)
            for i, e in m:
                for _ in range(abs(e)):
                    r = r * f(at(i)) if e > 0 else r / f(at(i))
            return r

        def poly(p, f=lambda x: x):
            return z3.Sum([z3.RealVal(0)] + [z3.Q(c.numerator, c.denominator) * mono(m, f) for m, c in p.items()])
        za = lambda x: z3.If(x >= 0, x, -x)
        e, g = poly(scale(E, 1 / U[F32]), za), poly(mag, za)
        out = []
        for R in (1024, 16, 1):
            r, m = smt.check(z3.Solver, cons + [e > R * k * g, e > z3.Q(1, 100)], timeout_ms)
            if r == "sat":
                pt = {}
                for n, v in xs.items():
                    q = m.eval(v, model_completion=True)
                    if z3.is_algebraic_value(q):
                        q = q.approx(20)
                    pt[n] = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
                out.append(pt)
                break
        return out


def scale_s(p, c):
    return {m: x * c for m, x in p.items()}


def exact_factor(v):
    """multiplication by it is exact (no overflow or underflow assumed)"""
    P, E = v
    if E or len(P) > 1:
        return False
    if not P:
        return True
    (m, c), = P.items()
    c = abs(c)
    return not m and (c.numerator & (c.numerator - 1)) == 0 and (c.denominator & (c.denominator - 1)) == 0
