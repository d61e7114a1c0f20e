"""Hash-consed term DAG shared by all interpretations (bit-precise IEEE,
exact real arithmetic, concrete evaluation).

A term is (op, args, sort, attr).  Sorts: 'bool', ('bv',n), 'f32', 'f64'.
Floating-point operations are kept symbolic (never folded with rounding), so
the same DAG can be read both as an IEEE computation and as the real-number
formula it approximates.
"""
import struct
import math

BOOL = "bool"
F32 = "f32"
F64 = "f64"


def BV(n):
    return ("bv", n)


class T:
    __slots__ = ("op", "args", "sort", "attr", "id", "_h")

    def __repr__(self):
        return show(self)


_tab = {}
_ctr = [0]


def reset():
    _tab.clear()
    _ctr[0] = 0


def raw(op, args=(), sort=None, attr=None):
    key = (op, tuple(a.id for a in args), sort, attr)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = tuple(args)
        t.sort = sort
        t.attr = attr
        t.id = _ctr[0]
        _ctr[0] += 1
        _tab[key] = t
    return t


def show(t, depth=4):
    if t.op in ("bvc",):
        return "%d:%d" % (t.attr, t.sort[1])
    if t.op == "fc":
        return repr(fval(t))
    if t.op in ("true", "false"):
        return t.op
    if t.op in ("fvar", "bvar", "pvar"):
        return str(t.attr)
    if depth == 0:
        return "..."
    return "(%s%s %s)" % (t.op, "" if t.attr is None else ":%s" % (t.attr,), " ".join(show(a, depth - 1) for a in t.args))


TRUE = None
FALSE = None


def _init():
    global TRUE, FALSE
    TRUE = raw("true", (), BOOL)
    FALSE = raw("false", (), BOOL)


_init()


def full_reset():
    reset()
    _init()


# ---- leaves ---------------------------------------------------------------
def bvc(v, n):
    return raw("bvc", (), BV(n), v & ((1 << n) - 1))


def fc(bits, sort=F32):
    return raw("fc", (), sort, bits)


def fconst(x, sort=F32):
    if sort == F32:
        return fc(struct.unpack("<I", struct.pack("<f", x))[0], F32)
    return fc(struct.unpack("<Q", struct.pack("<d", x))[0], F64)


def fval(t):
    if t.sort == F32:
        return struct.unpack("<f", struct.pack("<I", t.attr))[0]
    return struct.unpack("<d", struct.pack("<Q", t.attr))[0]


def fvar(name, sort=F32):
    return raw("fvar", (), sort, name)


def bvar(name, n):
    return raw("bvar", (), BV(n), name)


def pvar(name):
    return raw("pvar", (), BOOL, name)


def is_const(t):
    return t.op in ("bvc", "fc", "true", "false")


def tb(b):
    return TRUE if b else FALSE


# ---- booleans --------------------------------------------------------------
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return raw("not", (a,), BOOL)


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x.op == "and":
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if y is TRUE or y.id in seen:
                continue
            if y is FALSE:
                return FALSE
            seen.add(y.id)
            out.append(y)
    for y in out:
        if not_(y).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return raw("and", out, BOOL)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == BOOL:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    return raw("ite", (c, a, b), a.sort)


def beq(a, b):
    """boolean equality"""
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    if a.id > b.id:
        a, b = b, a
    return raw("beq", (a, b), BOOL)


# ---- bit-vectors -----------------------------------------------------------
def width(t):
    return t.sort[1]


def sx(v, n):
    return v - (1 << n) if v >> (n - 1) else v


_BVF = {
    "add": lambda a, b, n: a + b, "sub": lambda a, b, n: a - b, "mul": lambda a, b, n: a * b,
    "and": lambda a, b, n: a & b, "or": lambda a, b, n: a | b, "xor": lambda a, b, n: a ^ b,
    "shl": lambda a, b, n: a << b if b < n else 0,
    "lshr": lambda a, b, n: a >> b if b < n else 0,
    "ashr": lambda a, b, n: sx(a, n) >> min(b, n - 1),
    "udiv": lambda a, b, n: a // b if b else (1 << n) - 1,
    "urem": lambda a, b, n: a % b if b else a,
}


def _sdiv(a, b, n):
    a = sx(a, n)
    b = sx(b, n)
    if b == 0:
        return 1 if a < 0 else -1
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _srem(a, b, n):
    if b == 0:
        return a
    return sx(a, n) - _sdiv(a, b, n) * sx(b, n)


_BVF["sdiv"] = _sdiv
_BVF["srem"] = _srem
_COMM = {"add", "mul", "and", "or", "xor"}


def bvop(op, a, b):
    n = width(a)
    if a.op == "bvc" and b.op == "bvc":
        return bvc(_BVF[op](a.attr, b.attr, n), n)
    if op in _COMM and (a.op == "bvc" or (b.op != "bvc" and a.id > b.id)):
        a, b = b, a
    m = (1 << n) - 1
    if b.op == "bvc":
        v = b.attr
        if op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr") and v == 0:
            return a
        if op in ("mul", "and") and v == 0:
            return b
        if op in ("mul", "udiv", "sdiv") and v == 1:
            return a
        if op == "and" and v == m:
            return a
        if op == "or" and v == m:
            return b
        if op == "and" and a.op == "zext":
            iw = width(a.args[0])
            if v & ((1 << iw) - 1) == (1 << iw) - 1:
                return a
        if op == "shl":
            if v >= n:
                return bvc(0, n)
            return concat(extract(n - 1 - v, 0, a), bvc(0, v))
        if op == "lshr":
            if v >= n:
                return bvc(0, n)
            return zext(extract(n - 1, v, a), n)
        if op == "add" and a.op == "bvadd" and a.args[1].op == "bvc":
            return bvop("add", a.args[0], bvc(a.args[1].attr + v, n))
        if op == "sub":
            return bvop("add", a, bvc(-v, n))
        if op == "and" and n in (32, 64) and a.op == "f2b" and v == m >> 1:
            return f2b(fun("fabs", a.args[0]))
        if op == "xor" and n in (32, 64) and a.op == "f2b" and v == 1 << (n - 1):
            return f2b(fneg(a.args[0]))
        if op == "or" and n in (32, 64) and a.op == "f2b" and v == 1 << (n - 1):
            return f2b(fneg(fun("fabs", a.args[0])))
    if a is b:
        if op in ("and", "or"):
            return a
        if op in ("sub", "xor"):
            return bvc(0, n)
    if op == "or":
        r = _or_concat(a, b)
        if r is not None:
            return r
    return raw("bv" + op, (a, b), a.sort)


def _parts(t):
    """list of (term,width) from high to low"""
    if t.op == "concat":
        return _parts(t.args[0]) + _parts(t.args[1])
    if t.op == "zext":
        return [bvc(0, width(t) - width(t.args[0]))] + _parts(t.args[0])
    return [t]


def _or_concat(a, b):
    """(hi ++ 0) | (0 ++ lo)  ->  hi ++ lo, when the non-zero parts are disjoint"""
    pa, pb = _parts(a), _parts(b)
    if len(pa) == 1 and len(pb) == 1:
        return None
    cuts = set()
    for p in (pa, pb):
        o = 0
        for t in reversed(p):
            o += width(t)
            cuts.add(o)
    cuts = sorted(cuts)
    out = []
    lo = 0
    for c in cuts:
        x = extract(c - 1, lo, a)
        y = extract(c - 1, lo, b)
        if x.op == "bvc" and x.attr == 0:
            out.append(y)
        elif y.op == "bvc" and y.attr == 0:
            out.append(x)
        else:
            return None
        lo = c
    r = out[0]
    for t in out[1:]:
        r = concat(t, r)
    return r


def bvneg(a):
    return bvop("sub", bvc(0, width(a)), a)


def extract(hi, lo, a):
    n = width(a)
    w = hi - lo + 1
    if lo == 0 and w == n:
        return a
    if a.op == "bvc":
        return bvc(a.attr >> lo, w)
    if a.op == "extract":
        return extract(hi + a.attr[1], lo + a.attr[1], a.args[0])
    if a.op == "concat":
        lw = width(a.args[1])
        if lo >= lw:
            return extract(hi - lw, lo - lw, a.args[0])
        if hi < lw:
            return extract(hi, lo, a.args[1])
        return concat(extract(hi - lw, 0, a.args[0]), extract(lw - 1, lo, a.args[1]))
    if a.op == "zext":
        lw = width(a.args[0])
        if lo >= lw:
            return bvc(0, w)
        if hi < lw:
            return extract(hi, lo, a.args[0])
        return zext(extract(lw - 1, lo, a.args[0]), w)
    if a.op == "sext":
        lw = width(a.args[0])
        if hi < lw:
            return extract(hi, lo, a.args[0])
    if a.op == "b2bv":
        if lo == 0:
            return b2bv(a.args[0], w)
        return bvc(0, w)
    if a.op == "ite":
        if is_const(a.args[1]) or is_const(a.args[2]):
            return ite(a.args[0], extract(hi, lo, a.args[1]), extract(hi, lo, a.args[2]))
    if a.op in ("bvand", "bvor", "bvxor"):
        x, y = extract(hi, lo, a.args[0]), extract(hi, lo, a.args[1])
        if x.op == "bvc" or y.op == "bvc":
            return bvop(a.op[2:], x, y)
    return raw("extract", (a,), BV(w), (hi, lo))


def concat(hi, lo):
    n = width(hi) + width(lo)
    if hi.op == "bvc" and lo.op == "bvc":
        return bvc((hi.attr << width(lo)) | lo.attr, n)
    if hi.op == "bvc" and hi.attr == 0:
        return zext(lo, n)
    if hi.op == "extract" and lo.op == "extract" and hi.args[0] is lo.args[0] and hi.attr[1] == lo.attr[0] + 1:
        return extract(hi.attr[0], lo.attr[1], hi.args[0])
    return raw("concat", (hi, lo), BV(n))


def zext(a, n):
    if width(a) == n:
        return a
    if a.op == "bvc":
        return bvc(a.attr, n)
    if a.op == "zext":
        return zext(a.args[0], n)
    if a.op == "b2bv":
        return b2bv(a.args[0], n)
    return raw("zext", (a,), BV(n))


def sext(a, n):
    if width(a) == n:
        return a
    if a.op == "bvc":
        return bvc(sx(a.attr, width(a)), n)
    if a.op == "zext":
        return zext(a.args[0], n)
    if a.op == "b2bv" and width(a) > 1:
        return b2bv(a.args[0], n)
    return raw("sext", (a,), BV(n))


def b2bv(b, n):
    """bool -> 0/1 of width n"""
    if b is TRUE:
        return bvc(1, n)
    if b is FALSE:
        return bvc(0, n)
    return raw("b2bv", (b,), BV(n))


def bv2b(a):
    """width-1 (or any width: != 0) -> bool"""
    if a.op == "bvc":
        return tb(a.attr != 0)
    if a.op == "b2bv":
        return a.args[0]
    if a.op in ("zext",):
        return bv2b(a.args[0])
    if a.op == "ite":
        return ite(a.args[0], bv2b(a.args[1]), bv2b(a.args[2]))
    if a.op == "bvxor" and width(a) == 1:
        return not_(beq(bv2b(a.args[0]), bv2b(a.args[1])))
    return not_(icmp("eq", a, bvc(0, width(a))))


def icmp(pred, a, b):
    n = width(a)
    if pred == "ne":
        return not_(icmp("eq", a, b))
    if pred in ("ugt", "uge", "sgt", "sge"):
        return icmp({"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}[pred], b, a)
    if pred == "sle":
        return not_(icmp("slt", b, a))
    if pred == "ule":
        return not_(icmp("ult", b, a))
    if a.op == "bvc" and b.op == "bvc":
        if pred == "eq":
            return tb(a.attr == b.attr)
        if pred == "ult":
            return tb(a.attr < b.attr)
        return tb(sx(a.attr, n) < sx(b.attr, n))
    if a is b:
        return tb(pred == "eq")
    if pred == "eq":
        if a.op == "bvc" or (b.op != "bvc" and a.id > b.id):
            a, b = b, a
        if b.op == "bvc":
            if a.op == "b2bv":
                if b.attr == 0:
                    return not_(a.args[0])
                return a.args[0] if b.attr == 1 else FALSE
            if a.op == "zext":
                iw = width(a.args[0])
                if b.attr >> iw:
                    return FALSE
                return icmp("eq", a.args[0], bvc(b.attr, iw))
            if a.op == "ite" and (is_const(a.args[1]) or is_const(a.args[2])):
                return ite(a.args[0], icmp("eq", a.args[1], b), icmp("eq", a.args[2], b))
        elif a.op == "b2bv" and b.op == "b2bv":
            return beq(a.args[0], b.args[0])
    if pred == "slt" and b.op == "bvc" and b.attr == 0 and a.op == "f2b":
        return raw("signbit", (a.args[0],), BOOL)
    if pred == "slt" and b.op == "bvc" and a.op == "f2b" and b.attr == (1 << n) - 1 and False:
        return None
    if a.op == "b2bv" and n > 1:
        # {0,1} compared with a constant
        if b.op == "bvc":
            f = (lambda v: v < b.attr) if pred == "ult" else (lambda v: v < sx(b.attr, n))
            return ite(a.args[0], tb(f(1)), tb(f(0)))
    if b.op == "b2bv" and n > 1:
        if a.op == "bvc":
            f = (lambda v: a.attr < v) if pred == "ult" else (lambda v: sx(a.attr, n) < v)
            return ite(b.args[0], tb(f(1)), tb(f(0)))
    return raw("bv" + pred, (a, b), BOOL)


# ---- floats ------------------------------------------------------------------
_FCOMM = {"fadd", "fmul", "fmin", "fmax"}


def fbin(op, a, b):
    if op in _FCOMM and a.id > b.id:
        a, b = b, a
    return raw(op, (a, b), a.sort)


def fneg(a):
    if a.op == "fneg":
        return a.args[0]
    if a.op == "fc":
        return fc(a.attr ^ (1 << (31 if a.sort == F32 else 63)), a.sort)
    return raw("fneg", (a,), a.sort)


def fun(name, *args):
    """unary/n-ary math function term: sqrt, fabs, floor, sin, pow, fma ..."""
    a = args[0]
    if name == "fabs":
        if a.op == "fc":
            return fc(a.attr & ((1 << (31 if a.sort == F32 else 63)) - 1), a.sort)
        if a.op == "fneg":
            return fun("fabs", a.args[0])
        if a.op == "fabs":
            return a
    if name == "fma" and args[0].id > args[1].id:
        args = (args[1], args[0], args[2])
    return raw(name, args, a.sort)


def fcmp(pred, a, b):
    """ordered primitives: flt, fle, feq ; unordered via not/uno"""
    if pred == "true":
        return TRUE
    if pred == "false":
        return FALSE
    if pred in ("ogt", "oge"):
        return fcmp({"ogt": "olt", "oge": "ole"}[pred], b, a)
    if pred == "ugt":
        return not_(fcmp("ole", a, b))
    if pred == "uge":
        return not_(fcmp("olt", a, b))
    if pred == "ult":
        return not_(fcmp("ole", b, a))
    if pred == "ule":
        return not_(fcmp("olt", b, a))
    if pred == "une":
        return not_(fcmp("oeq", a, b))
    if pred == "one":
        return and_(not_(fcmp("oeq", a, b)), not_(fcmp("uno", a, b)))
    if pred == "ueq":
        return or_(fcmp("oeq", a, b), fcmp("uno", a, b))
    if pred == "ord":
        return not_(fcmp("uno", a, b))
    if a.op == "fc" and b.op == "fc":
        x, y = fval(a), fval(b)
        if pred == "olt":
            return tb(x < y)
        if pred == "ole":
            return tb(x <= y)
        if pred == "oeq":
            return tb(x == y)
        return tb(x != x or y != y)
    if pred == "uno":
        if a is b:
            if a.op == "fc":
                return tb(fval(a) != fval(a))
            return raw("isnan", (a,), BOOL)
        return or_(fcmp("uno", a, a), fcmp("uno", b, b))
    if pred == "oeq":
        if a is b:
            return not_(fcmp("uno", a, a))
        if a.id > b.id:
            a, b = b, a
        return raw("feq", (a, b), BOOL)
    return raw("flt" if pred == "olt" else "fle", (a, b), BOOL)


def fident(a, b):
    """same value including the sign of zero; all NaNs are the same value"""
    if a is b:
        return TRUE
    if a.op == "fc" and b.op == "fc":
        x, y = fval(a), fval(b)
        return tb(a.attr == b.attr or (x != x and y != y))
    if a.id > b.id:
        a, b = b, a
    return raw("fident", (a, b), BOOL)


def f2b(a):
    n = 32 if a.sort == F32 else 64
    if a.op == "fc":
        return bvc(a.attr, n)
    if a.op == "b2f":
        return a.args[0]
    return raw("f2b", (a,), BV(n))


def b2f(a):
    sort = F32 if width(a) == 32 else F64
    if a.op == "bvc":
        return fc(a.attr, sort)
    if a.op == "f2b":
        return a.args[0]
    if a.op == "ite":
        return ite(a.args[0], b2f(a.args[1]), b2f(a.args[2]))
    return raw("b2f", (a,), sort)


def fcast(a, sort):
    if a.sort == sort:
        return a
    if a.op == "fc":
        v = fval(a)
        if sort == F64 or (v == v and struct.unpack("<f", struct.pack("<f", v))[0] == v):
            return fconst(v, sort)
    if sort == F32 and a.op == "fcast" and a.args[0].sort == F32:
        return a.args[0]      # float -> double -> float is the identity (NaN payloads aside)
    return raw("fcast", (a,), sort)


def i2f(a, signed, sort):
    if a.op == "bvc":
        v = sx(a.attr, width(a)) if signed else a.attr
        if abs(v) < 1 << 24:
            return fconst(float(v), sort)
    if a.op == "b2bv" and width(a) > 1:
        return ite(a.args[0], fconst(1.0, sort), fconst(0.0, sort))
    if a.op == "ite":
        return ite(a.args[0], i2f(a.args[1], signed, sort), i2f(a.args[2], signed, sort))
    return raw("s2f" if signed else "u2f", (a,), sort)


def f2i(a, signed, n):
    if a.op == "fc":
        v = fval(a)
        if v == v and abs(v) < 1 << (n - 2):
            return bvc(int(v), n)
    return raw("f2s" if signed else "f2u", (a,), BV(n))


# ---- traversal -----------------------------------------------------------------
def postorder(roots):
    seen = set()
    out = []
    for r in roots:
        if r.id in seen:
            continue
        st = [(r, 0)]
        while st:
            t, i = st.pop()
            if t.id in seen:
                continue
            if i < len(t.args):
                st.append((t, i + 1))
                if t.args[i].id not in seen:
                    st.append((t.args[i], 0))
            else:
                seen.add(t.id)
                out.append(t)
    return out


def leaves(roots):
    return [t for t in postorder(roots) if t.op in ("fvar", "bvar", "pvar")]


def subst(roots, m):
    """rebuild through the smart constructors with leaf substitution m: id->term"""
    memo = dict(m)
    for t in postorder(roots):
        if t.id in memo:
            continue
        if not t.args:
            memo[t.id] = t
            continue
        a = [memo[x.id] for x in t.args]
        memo[t.id] = rebuild(t, a)
    return [memo[r.id] for r in roots]


def rebuild(t, a):
    op = t.op
    if op == "not":
        return not_(*a)
    if op == "and":
        return and_(*a)
    if op == "ite":
        return ite(*a)
    if op == "beq":
        return beq(*a)
    if op in ("bvult", "bvslt", "bveq"):
        return icmp(op[2:], *a)
    if op.startswith("bv") and op[2:] in _BVF:
        return bvop(op[2:], *a)
    if op == "extract":
        return extract(t.attr[0], t.attr[1], a[0])
    if op == "concat":
        return concat(*a)
    if op == "zext":
        return zext(a[0], width(t))
    if op == "sext":
        return sext(a[0], width(t))
    if op == "b2bv":
        return b2bv(a[0], width(t))
    if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
        return fbin(op, *a)
    if op == "fneg":
        return fneg(*a)
    if op in ("flt", "fle", "feq"):
        return fcmp({"flt": "olt", "fle": "ole", "feq": "oeq"}[op], *a)
    if op == "isnan":
        return fcmp("uno", a[0], a[0])
    if op == "f2b":
        return f2b(*a)
    if op == "b2f":
        return b2f(*a)
    if op == "fcast":
        return fcast(a[0], t.sort)
    if op in ("s2f", "u2f"):
        return i2f(a[0], op == "s2f", t.sort)
    if op in ("f2s", "f2u"):
        return f2i(a[0], op == "f2s", width(t))
    if op == "fident":
        return fident(*a)
    if op == "signbit":
        return icmp("slt", f2b(a[0]), bvc(0, 32 if a[0].sort == F32 else 64))
    return raw(op, a, t.sort, t.attr)
