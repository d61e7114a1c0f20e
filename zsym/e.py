"""Operator-overloading wrapper over terms, for writing specifications."""
from . import terms as tm
from .terms import T, F32, F64


def t(x, like=None):
    if isinstance(x, (E, I)):
        return x.t
    if isinstance(x, T):
        return x
    s = like.sort if like is not None else F32
    if s in (F32, F64):
        return tm.fconst(float(x), s)
    return tm.bvc(int(x), s[1])


class E:
    """float expression"""
    __slots__ = ("t",)

    def __init__(self, x):
        self.t = t(x)

    def _b(self, op, o):
        return E(tm.fbin(op, self.t, t(o, self.t)))

    def _rb(self, op, o):
        return E(tm.fbin(op, t(o, self.t), self.t))

    def __add__(self, o): return self._b("fadd", o)
    def __radd__(self, o): return self._rb("fadd", o)
    def __sub__(self, o): return self._b("fsub", o)
    def __rsub__(self, o): return self._rb("fsub", o)
    def __mul__(self, o): return self._b("fmul", o)
    def __rmul__(self, o): return self._rb("fmul", o)
    def __truediv__(self, o): return self._b("fdiv", o)
    def __rtruediv__(self, o): return self._rb("fdiv", o)
    def __neg__(self): return E(tm.fneg(self.t))
    def __lt__(self, o): return tm.fcmp("olt", self.t, t(o, self.t))
    def __le__(self, o): return tm.fcmp("ole", self.t, t(o, self.t))
    def __gt__(self, o): return tm.fcmp("olt", t(o, self.t), self.t)
    def __ge__(self, o): return tm.fcmp("ole", t(o, self.t), self.t)
    def eq(self, o): return tm.fcmp("oeq", self.t, t(o, self.t))
    def ne(self, o): return tm.not_(self.eq(o))
    def same(self, o):
        """identical value: same bits, or both NaN"""
        return tm.fident(self.t, t(o, self.t))
    def isnan(self): return tm.fcmp("uno", self.t, self.t)
    def bits(self): return I(tm.f2b(self.t))
    def finite(self): return tm.fcmp("olt", tm.fun("fabs", self.t), tm.fconst(float("inf"), self.t.sort))


def fn(name, *a):
    return E(tm.fun(name, *[t(x) for x in a]))


def sqrt(x): return fn("sqrt", x)
def sin(x): return fn("sin", x)
def cos(x): return fn("cos", x)
def tan(x): return fn("tan", x)
def fabs(x): return fn("fabs", x)


class I:
    """bit-vector (integer) expression; comparisons signed unless named"""
    __slots__ = ("t",)

    def __init__(self, x, n=None):
        self.t = tm.bvc(x, n or 32) if isinstance(x, int) else t(x)

    @property
    def w(self): return self.t.sort[1]
    def _b(self, op, o): return I(tm.bvop(op, self.t, t(o, self.t)))
    def __add__(self, o): return self._b("add", o)
    def __sub__(self, o): return self._b("sub", o)
    def __mul__(self, o): return self._b("mul", o)
    def __and__(self, o): return self._b("and", o)
    def __or__(self, o): return self._b("or", o)
    def __xor__(self, o): return self._b("xor", o)
    def __lshift__(self, o): return self._b("shl", o)
    def __rshift__(self, o): return self._b("ashr", o)
    def sdiv(self, o): return self._b("sdiv", o)
    def srem(self, o): return self._b("srem", o)
    def __neg__(self): return I(tm.bvneg(self.t))
    def _c(self, p, o): return tm.icmp(p, self.t, t(o, self.t))
    def __lt__(self, o): return self._c("slt", o)
    def __le__(self, o): return self._c("sle", o)
    def __gt__(self, o): return self._c("sgt", o)
    def __ge__(self, o): return self._c("sge", o)
    def ult(self, o): return self._c("ult", o)
    def eq(self, o): return self._c("eq", o)
    def ne(self, o): return self._c("ne", o)
    def sx(self, n): return I(tm.sext(self.t, n))
    def zx(self, n): return I(tm.zext(self.t, n))
    def lo(self, n=32): return I(tm.extract(n - 1, 0, self.t))
    def low_bit(self): return tm.bv2b(tm.extract(0, 0, self.t))
    def f(self): return E(tm.i2f(self.t, True, F32))


def b2i(b, n=64):
    return I(tm.b2bv(b, n))


def ite(c, a, b):
    if isinstance(a, E) or isinstance(b, E):
        like = a.t if isinstance(a, E) else b.t
        return E(tm.ite(c, t(a, like), t(b, like)))
    if isinstance(a, I) or isinstance(b, I):
        like = a.t if isinstance(a, I) else b.t
        return I(tm.ite(c, t(a, like), t(b, like)))
    return tm.ite(c, a, b)


And = tm.and_
Or = tm.or_
Not = tm.not_
Imp = tm.implies
Iff = tm.beq
TRUE = lambda: tm.TRUE
