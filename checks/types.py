"""Boolean vectors, relational functions, construction and layout, indexing,
component and swizzle access, hashing."""
import itertools
from .lib import *
from .vectors import sel, idom


def bits(i, k, n):
    """n symbolic booleans from the integer inputs starting at k"""
    return [i.n[k + j].low_bit() for j in range(n)]


def bsame(ks, bs, p="component"):
    return lab(p, [kbool(k, b) for k, b in zip(ks, bs)])


def xor(a, b): return Not(Iff(a, b))


# ------------------------------------------------------------------ boolean vectors
def boolean_vectors():
    out = []
    for n in (2, 3, 4):
        B = "bvec%d" % n
        x, y, s = "ldb<%s>(n)" % B, "ldb<%s>(n+%d)" % (B, n), "bool(n[%d] & 1)" % n
        for op, nm, f in (("&&", "and", And), ("||", "or", Or), ("^", "xor", xor)):
            out.append(Ob("%s_%s_vv" % (B, nm), "stb(k, %s %s %s);" % (x, op, y),
                          lambda i, o, f=f, n=n: bsame(o.k, [f(a, b) for a, b in zip(bits(i, 0, n), bits(i, n, n))]), ni=2 * n, nk=n))
            out.append(Ob("%s_%s_vs" % (B, nm), "stb(k, %s %s %s); stb(k+%d, %s %s %s);" % (x, op, s, n, s, op, x),
                          lambda i, o, f=f, n=n: bsame(o.k[:n], [f(a, i.n[n].low_bit()) for a in bits(i, 0, n)], "vector-scalar") +
                          bsame(o.k[n:], [f(a, i.n[n].low_bit()) for a in bits(i, 0, n)], "scalar-vector"), ni=n + 1, nk=2 * n))
            cop = {"&&": "&=", "||": "|=", "^": "^="}[op]
            out.append(Ob("%s_c%s" % (B, nm), "auto v = %s; v %s %s; stb(k, v); auto u = %s; u %s bool(n[%d] & 1); stb(k+%d, u); auto t = %s; t %s t; stb(k+%d, t);"
                          % (x, cop, y, x, cop, n, n, x, cop, 2 * n),
                          lambda i, o, f=f, n=n: bsame(o.k[:n], [f(a, b) for a, b in zip(bits(i, 0, n), bits(i, n, n))], "vector operand") +
                          bsame(o.k[n:2 * n], [f(a, i.n[n].low_bit()) for a in bits(i, 0, n)], "scalar operand") +
                          bsame(o.k[2 * n:], [f(a, a) for a in bits(i, 0, n)], "same operand"), ni=2 * n, nk=3 * n))
            # a component of the operand itself as the scalar
            out.append(Ob("%s_c%s_own" % (B, nm), "auto v = %s; v %s v[n[%d]]; stb(k, v);" % (x, cop, n),
                          lambda i, o, f=f, n=n: bsame(o.k, [f(a, bsel(i.n[n], bits(i, 0, n))) for a in bits(i, 0, n)]),
                          ni=n + 1, nk=n, pre=lambda i, n=n: i.n[n].ult(n), ints=list(range(n))))
        out.append(Ob("%s_not" % B, "stb(k, !%s);" % x, lambda i, o, n=n: bsame(o.k, [Not(a) for a in bits(i, 0, n)]), ni=n, nk=n))
        eq = lambda i, n=n: all_(Iff(a, b) for a, b in zip(bits(i, 0, n), bits(i, n, n)))
        out.append(Ob("%s_eq" % B, "k[0] = %s == %s; k[1] = %s != %s;" % (x, y, x, y),
                      lambda i, o, eq=eq: [("== iff all components are equal", kbool(o.k[0], eq(i))), ("!= is the negation", kbool(o.k[1], Not(eq(i))))],
                      ni=2 * n, nk=2))
        out.append(Ob("%s_all_any" % B, "k[0] = zcm::all(%s); k[1] = zcm::any(%s);" % (x, x),
                      lambda i, o, n=n: [("all", kbool(o.k[0], And(*bits(i, 0, n)))), ("any", kbool(o.k[1], Or(*bits(i, 0, n))))], ni=n, nk=2))
        out.append(Ob("%s_equal" % B, "stb(k, zcm::equal(%s, %s)); stb(k+%d, zcm::notEqual(%s, %s));" % (x, y, n, x, y),
                      lambda i, o, n=n: bsame(o.k[:n], [Iff(a, b) for a, b in zip(bits(i, 0, n), bits(i, n, n))], "equal") +
                      bsame(o.k[n:], [xor(a, b) for a, b in zip(bits(i, 0, n), bits(i, n, n))], "notEqual"), ni=2 * n, nk=2 * n))
        if n > 0:
            out.append(Ob("ivec%d_to_%s" % (n, B), "%s b = ld<ivec%d>(n); stb(k, b);" % (B, n),
                          lambda i, o, n=n: bsame(o.k, [x.ne(0) for x in i.n]), ni=n, nk=n))
    return out


def bsel(ix, vals):
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = Or(And(ix.eq(j), vals[j]), And(ix.ne(j), r))
    return r


# ------------------------------------------------------------------ relational
def relational_functions():
    out = []
    for n in (2, 3, 4):
        V = "vec%d" % n
        for f, g in (("lessThan", lambda a, b: a < b), ("lessThanEqual", lambda a, b: a <= b),
                     ("greaterThan", lambda a, b: a > b), ("greaterThanEqual", lambda a, b: a >= b),
                     ("equal", lambda a, b: a.eq(b)), ("notEqual", lambda a, b: Not(a.eq(b)))):
            out.append(Ob("%s_%s" % (f, V), "stb(k, zcm::%s(ld<%s>(a), ld<%s>(a+%d)));" % (f, V, V, n),
                          lambda i, o, g=g, n=n: bsame(o.k, [g(i.a[j], i.a[n + j]) for j in range(n)]), nf=2 * n, nk=n))
    for f, g in (("equal", lambda a, b: a.eq(b)), ("notEqual", lambda a, b: Not(a.eq(b)))):
        out.append(Ob("%s_quat" % f, "stb(k, zcm::%s(ld<quat>(a), ld<quat>(a+4)));" % f,
                      lambda i, o, g=g: bsame(o.k, [g(i.a[j], i.a[4 + j]) for j in range(4)]), nf=8, nk=4))
    inf = lambda x: fabs(x).eq(con(float("inf")))
    for f, g in (("isnan", lambda x: x.isnan()), ("isinf", inf)):
        out.append(Ob("%s_float" % f, "k[0] = zcm::%s(a[0]);" % f, lambda i, o, g=g: [("value", kbool(o.k[0], g(i.a[0])))], nf=1, nk=1))
        for V, n in (("vec2", 2), ("vec3", 3), ("vec4", 4), ("quat", 4)):
            out.append(Ob("%s_%s" % (f, V), "stb(k, zcm::%s(ld<%s>(a)));" % (f, V),
                          lambda i, o, g=g, n=n: bsame(o.k, [g(x) for x in i.a]), nf=n, nk=n))
    # whole-value comparison of quaternions and matrices
    for V, n in (("quat", 4), ("mat2", 4), ("mat3", 9), ("mat4", 16)):
        eq = lambda i, n=n: all_(i.a[j].eq(i.a[n + j]) for j in range(n))
        out.append(Ob("%s_eq" % V, "k[0] = ld<%s>(a) == ld<%s>(a+%d); k[1] = ld<%s>(a) != ld<%s>(a+%d);" % (V, V, n, V, V, n),
                      lambda i, o, eq=eq: [("== iff all components are equal", kbool(o.k[0], eq(i))),
                                           ("!= is the negation", kbool(o.k[1], Not(eq(i))))], nf=2 * n, nk=2))
    return out


# ------------------------------------------------------------------ construction and layout
def splits(n):
    """compositions of n into parts 1..n with at least one part > 1 (or all ones)"""
    if n == 0:
        return [[]]
    return [[p] + r for p in range(1, n + 1) for r in splits(n - p)]


VALID4 = {(1, 1, 1, 1), (3, 1), (1, 3), (2, 2), (2, 1, 1), (1, 2, 1), (1, 1, 2)}
VALID3 = {(1, 1, 1), (2, 1), (1, 2)}


def construction_and_layout():
    out = []
    fid = lambda i, o: same(o.r, i.a)
    iid = lambda i, o: isame(o.k, i.n)
    for n in (2, 3, 4):
        V, W, B = "vec%d" % n, "ivec%d" % n, "bvec%d" % n
        for parts in splits(n):
            if len(parts) == 1 or (n == 4 and tuple(parts) not in VALID4) or (n == 3 and tuple(parts) not in VALID3):
                continue
            fa, ia, ba, k = [], [], [], 0
            for p in parts:
                fa.append("a[%d]" % k if p == 1 else "ld<vec%d>(a+%d)" % (p, k))
                ia.append("n[%d]" % k if p == 1 else "ld<ivec%d>(n+%d)" % (p, k))
                ba.append("bool(n[%d]&1)" % k if p == 1 else "ldb<bvec%d>(n+%d)" % (p, k))
                k += p
            tag = "_".join(map(str, parts))
            out.append(Ob("%s_from_%s" % (V, tag), "st(r, %s(%s));" % (V, ", ".join(fa)), fid, nf=n, nr=n))
            out.append(Ob("%s_from_%s" % (W, tag), "sti(k, %s(%s));" % (W, ", ".join(ia)), iid, ni=n, nk=n))
            out.append(Ob("%s_from_%s" % (B, tag), "stb(k, %s(%s));" % (B, ", ".join(ba)),
                          lambda i, o, n=n: bsame(o.k, bits(i, 0, n)), ni=n, nk=n))
        out.append(Ob("%s_fill" % V, "st(r, %s()); st(r+%d, %s(a[0])); st(r+%d, %s(n[0]));" % (V, n, V, 2 * n, V),
                      lambda i, o, n=n: same(o.r[:n], [con(0)] * n, "default") + same(o.r[n:2 * n], [i.a[0]] * n, "from float") +
                      same(o.r[2 * n:], [i.n[0].f()] * n, "from int"), nf=1, ni=1, nr=3 * n))
        out.append(Ob("%s_fill" % W, "sti(k, %s()); sti(k+%d, %s((int32_t)n[0]));" % (W, n, W),
                      lambda i, o, n=n: isame(o.k[:n], [I(0)] * n, "default") + isame(o.k[n:], [i.n[0]] * n, "from int"), ni=1, nk=2 * n))
        out.append(Ob("%s_fill" % B, "stb(k, %s()); stb(k+%d, %s(bool(n[0]&1)));" % (B, n, B),
                      lambda i, o, n=n: bsame(o.k[:n], [F_] * n, "default") + bsame(o.k[n:], [i.n[0].low_bit()] * n, "from bool"), ni=1, nk=2 * n))
        out.append(Ob("%s_make" % V, "st(r, zcm::make_%s(a)); auto v = ld<%s>(a); auto *p = zcm::value_ptr(v); const %s c = v; auto *q = zcm::value_ptr(c); for (int j = 0; j < %d; j++) { r[%d+j] = p[j]; r[%d+j] = q[j]; } k[0] = (void*)p == (void*)&v; k[1] = (void*)q == (void*)&c;"
                      % (V, V, V, n, n, 2 * n),
                      lambda i, o, n=n: same(o.r[:n], i.a, "make") + same(o.r[n:2 * n], i.a, "value_ptr") + same(o.r[2 * n:], i.a, "const value_ptr") +
                      [("value_ptr points into the value", And(o.k[0].eq(1), o.k[1].eq(1)))], nf=n, nr=3 * n, nk=2))
        out.append(Ob("%s_make" % W, "sti(k, zcm::make_%s(n));" % W, iid, ni=n, nk=n))
        out.append(Ob("%s_make" % B, "bool t[%d]; for (int j = 0; j < %d; j++) t[j] = n[j] & 1; stb(k, zcm::make_%s(t)); auto v = ldb<%s>(n); auto *p = zcm::value_ptr(v); const %s c = v; auto *q = zcm::value_ptr(c); for (int j = 0; j < %d; j++) { k[%d+j] = p[j]; k[%d+j] = q[j]; }"
                      % (n, n, B, B, B, n, n, 2 * n),
                      lambda i, o, n=n: bsame(o.k, bits(i, 0, n) * 3), ni=n, nk=3 * n))
        # copies and assignments reproduce every component
        for X, f in ((V, True), (W, False)):
            ptr = "a" if f else "n"
            code = "auto u = ld<%s>(%s); %s v(u), w; w = v; w = *&w; %s" % (X, ptr, X, "st(r, w);" if f else "sti(k, w);")
            out.append(Ob("%s_copy" % X, code, fid if f else iid, nf=n if f else 0, ni=0 if f else n, nr=n if f else 0, nk=0 if f else n))
    # layout of quat and matrices: components in order, columns contiguous
    for V, n in (("quat", 4), ("mat2", 4), ("mat3", 9), ("mat4", 16)):
        out.append(Ob("%s_make" % V, "st(r, zcm::make_%s(a)); auto v = ld<%s>(a); auto *p = zcm::value_ptr(v); const %s c = v; auto *q = zcm::value_ptr(c); for (int j = 0; j < %d; j++) { r[%d+j] = p[j]; r[%d+j] = q[j]; } k[0] = (void*)p == (void*)&v; k[1] = (void*)q == (void*)&c;"
                      % (V, V, V, n, n, 2 * n),
                      lambda i, o, n=n: same(o.r[:n], i.a, "make") + same(o.r[n:2 * n], i.a, "value_ptr") + same(o.r[2 * n:], i.a, "const value_ptr") +
                      [("value_ptr points into the value", And(o.k[0].eq(1), o.k[1].eq(1)))], nf=n, nr=3 * n, nk=2))
        out.append(Ob("%s_copy" % V, "auto u = ld<%s>(a); %s v(u), w; w = v; st(r, w);" % (V, V), fid, nf=n, nr=n))
    out.append(Ob("quat_ctors", "st(r, quat(a[3], a[0], a[1], a[2])); st(r+4, quat::wxyz(a[3], a[0], a[1], a[2])); st(r+8, quat(a[3], ld<vec3>(a))); st(r+12, quat(ld<vec3>(a), a[3]));",
                  lambda i, o: same(o.r[:4], i.a, "quat(w,x,y,z)") + same(o.r[4:8], i.a, "wxyz") + same(o.r[8:12], i.a, "quat(s,v)") + same(o.r[12:], i.a, "quat(v,s)"),
                  nf=4, nr=16))
    out.append(Ob("quat_default", "st(r, quat());", lambda i, o: same(o.r, [con(0), con(0), con(0), con(1)]), nr=4))
    for n in (2, 3, 4):
        M = "mat%d" % n
        sc = ", ".join("a[%d]" % k for k in range(n * n))
        cols = ", ".join("ld<vec%d>(a+%d)" % (n, n * k) for k in range(n))
        out.append(Ob("%s_scalars" % M, "st(r, %s(%s));" % (M, sc), fid, nf=n * n, nr=n * n))
        out.append(Ob("%s_columns" % M, "st(r, %s(%s));" % (M, cols), fid, nf=n * n, nr=n * n))
        out.append(Ob("%s_diagonal" % M, "st(r, %s(a[0]));" % M,
                      lambda i, o, n=n: same(o.r, [i.a[0] if r == c else con(0) for c in range(n) for r in range(n)]), nf=1, nr=n * n))
        out.append(Ob("%s_default" % M, "st(r, %s());" % M,
                      lambda i, o, n=n: [("entry[%d]" % j, o.r[j].same(con(1 if j // n == j % n else 0))) for j in range(n * n)], nr=n * n))
    for big, small in ((3, 2), (4, 3)):
        out.append(Ob("mat%d_to_mat%d" % (big, small), "st(r, mat%d(ld<mat%d>(a)));" % (small, big),
                      lambda i, o, b=big, s=small: same(o.r, [i.a[c * b + r] for c in range(s) for r in range(s)], "entry"), nf=big * big, nr=small * small))
        out.append(Ob("mat%d_to_mat%d" % (small, big), "st(r, mat%d(ld<mat%d>(a)));" % (big, small),
                      lambda i, o, b=big, s=small: same(o.r, [i.a[c * s + r] if r < s and c < s else con(1 if r == c else 0)
                                                              for c in range(b) for r in range(b)], "entry"), nf=small * small, nr=big * big))
    return out


# ------------------------------------------------------------------ indexing
FT = [("vec2", 2), ("vec3", 3), ("vec4", 4), ("quat", 4)]
IT = [("ivec2", 2), ("ivec3", 3), ("ivec4", 4)]
BT = [("bvec2", 2), ("bvec3", 3), ("bvec4", 4)]
MT = [("mat2", 2), ("mat3", 3), ("mat4", 4)]


def indexing_safety():
    out = []
    for cfg in ("debug", "release"):
        sfx = "" if cfg == "debug" else "_release"
        for V, n in FT:
            inr = lambda i, n=n: i.n[0].ult(n)
            kw = dict(nf=n, ni=1, config=cfg, pre=inr, ints=list(range(n)))
            out.append(Ob("%s_read%s" % (V, sfx), "auto v = ld<%s>(a); const auto c = v; r[0] = c[n[0]]; r[1] = v[n[0]];" % V,
                          lambda i, o, n=n: same(o.r, [sel(i.n[0], i.a, n)] * 2), nr=2, **kw))
            out.append(Ob("%s_write%s" % (V, sfx), "auto v = ld<%s>(a); v[n[0]] = a[%d]; st(r, v);" % (V, n),
                          lambda i, o, n=n: same(o.r, [ite(i.n[0].eq(j), i.a[n], i.a[j]) for j in range(n)]), nr=n, **dict(kw, nf=n + 1)))
        for V, n in IT:
            inr = lambda i, n=n: i.n[n].ult(n)
            kw = dict(config=cfg, pre=inr, ints=list(range(n)))
            out.append(Ob("%s_read%s" % (V, sfx), "auto v = ld<%s>(n); const auto c = v; k[0] = c[n[%d]]; k[1] = v[n[%d]];" % (V, n, n),
                          lambda i, o, n=n: isame(o.k, [sel(i.n[n], i.n, n)] * 2), ni=n + 1, nk=2, **kw))
            out.append(Ob("%s_write%s" % (V, sfx), "auto v = ld<%s>(n); v[n[%d]] = n[%d]; sti(k, v);" % (V, n, n + 1),
                          lambda i, o, n=n: isame(o.k, [ite(i.n[n].eq(j), i.n[n + 1], i.n[j]) for j in range(n)]), ni=n + 2, nk=n, **kw))
        for V, n in BT:
            inr = lambda i, n=n: i.n[n].ult(n)
            kw = dict(config=cfg, pre=inr, ints=list(range(n)))
            out.append(Ob("%s_read%s" % (V, sfx), "auto v = ldb<%s>(n); const auto c = v; k[0] = c[n[%d]]; k[1] = v[n[%d]];" % (V, n, n),
                          lambda i, o, n=n: bsame(o.k, [bsel(i.n[n], bits(i, 0, n))] * 2), ni=n + 1, nk=2, **kw))
            out.append(Ob("%s_write%s" % (V, sfx), "auto v = ldb<%s>(n); v[n[%d]] = n[%d] & 1; stb(k, v);" % (V, n, n + 1),
                          lambda i, o, n=n: bsame(o.k, [bsel2(i.n[n].eq(j), i.n[n + 1].low_bit(), i.n[j].low_bit()) for j in range(n)]), ni=n + 2, nk=n, **kw))
        for V, n in MT:
            inr = lambda i, n=n: [x.ult(n) for x in i.n]
            kw = dict(config=cfg, pre=inr, ints=list(range(n)))
            out.append(Ob("%s_read%s" % (V, sfx), "auto v = ld<%s>(a); const auto c = v; r[0] = c[n[0]][n[1]]; r[1] = v[n[0]][n[1]];" % V,
                          lambda i, o, n=n: same(o.r, [sel(i.n[0], [sel(i.n[1], i.a[c * n:c * n + n], n) for c in range(n)], n)] * 2),
                          nf=n * n, ni=2, nr=2, **kw))
            out.append(Ob("%s_write%s" % (V, sfx), "auto v = ld<%s>(a); v[n[0]][n[1]] = a[%d]; st(r, v);" % (V, n * n),
                          lambda i, o, n=n: same(o.r, [ite(And(i.n[0].eq(c), i.n[1].eq(r)), i.a[n * n], i.a[c * n + r]) for c in range(n) for r in range(n)], "entry"),
                          nf=n * n + 1, ni=2, nr=n * n, **kw))
    # every other index stops at an assertion in a checked build
    for V, n in FT + MT:
        sz = n if V[0] != "m" else n * n
        for cst in ("", "const "):
            use = "float t = v[n[0]]; r[0] = t;" if V[0] != "m" else "auto t = v[n[0]]; st(r, t);"
            out.append(Ob("%s_%sassert" % (V, "const_" if cst else ""), "%sauto v = ld<%s>(a); %s" % (cst, V, use), None, nf=sz, ni=1, nr=4,
                          expect="assert", pre=lambda i, n=n: Not(i.n[0].ult(n)), ints=[n, n + 1, 5, -1, 2, 3, 4]))
    for V, n in IT + BT:
        for cst in ("", "const "):
            l = "ld" if V[0] == "i" else "ldb"
            out.append(Ob("%s_%sassert" % (V, "const_" if cst else ""), "%sauto v = %s<%s>(n); k[0] = v[n[%d]];" % (cst, l, V, n), None, ni=n + 1, nk=1,
                          expect="assert", pre=lambda i, n=n: Not(i.n[n].ult(n)), ints=[n, n + 1, 5, -1, 2, 3, 4]))
    return out


def bsel2(c, a, b):
    return Or(And(c, a), And(Not(c), b))


# ------------------------------------------------------------------ component access and swizzles
NAMES = ("xyzw", "rgba", "stpq")


def components_and_swizzles():
    out = []
    for n in (2, 3, 4):
        for V, f in (("vec%d" % n, True), ("ivec%d" % n, False)):
            p, w = ("a", "r") if f else ("n", "k")
            ins = (lambda i: i.a) if f else (lambda i: i.n)
            outs = (lambda o: o.r) if f else (lambda o: o.k)
            sm = same if f else isame
            kw = (lambda ni, no: dict(nf=ni, nr=no)) if f else (lambda ni, no: dict(ni=ni, nk=no))
            # reads through every alias
            for s in NAMES:
                code = "auto v = ld<%s>(%s); const auto c = v;" % (V, p)
                for j in range(n):
                    code += " %s[%d] = v.%s; %s[%d] = c.%s;" % (w, j, s[j], w, n + j, s[j])
                out.append(Ob("%s_read_%s" % (V, s[:n]), code, lambda i, o, sm=sm, ins=ins, outs=outs: sm(outs(o), list(ins(i)) * 2), **kw(n, 2 * n)))
                cst = "st(r+%d, v);" if f else "sti(k+%d, v);"
                # writes and compound assignment touch exactly one component
                ops = [("=", lambda x, y: y)]
                ops += [("+=", lambda x, y: x + y), ("-=", lambda x, y: x - y), ("*=", lambda x, y: x * y)]
                if f:
                    ops += [("/=", lambda x, y: x / y)]
                else:
                    ops += [("&=", lambda x, y: x & y), ("|=", lambda x, y: x | y), ("^=", lambda x, y: I(tm.bvop("xor", x.t, y.t)))]
                    ops += [("/=", I.sdiv), ("%=", I.srem), ("<<=", lambda x, y: x << y), (">>=", lambda x, y: x >> y)]
                for oi, (op, g) in enumerate(ops):
                    code = ""
                    for j in range(n):
                        code += "{ auto v = ld<%s>(%s); v.%s %s %s[%d]; %s } " % (V, p, s[j], op, p, n, cst % (j * n))
                    nm = {"=": "set", "+=": "add", "-=": "sub", "*=": "mul", "/=": "div", "&=": "and", "|=": "or", "^=": "xor", "%=": "mod", "<<=": "shl", ">>=": "shr"}[op]
                    dom = dict(pre=lambda i, op=op, n=n: [idom(op[:-1], i.n[m], i.n[n]) for m in range(n)]) if not f and op[:-1] in ("/", "%", "<<", ">>") else {}
                    out.append(Ob("%s_%s_%s" % (V, nm, s[:n]), code,
                                  lambda i, o, g=g, n=n, sm=sm, ins=ins, outs=outs:
                                  [x for j in range(n) for x in sm(outs(o)[j * n:j * n + n],
                                                                   [g(ins(i)[m], ins(i)[n]) if m == j else ins(i)[m] for m in range(n)], "write to %d" % j)],
                                  **kw(n + 1, n * n), **dom))
                one = con(1) if f else I(1)
                code = ""
                for j in range(n):
                    code += "{ auto v = ld<%s>(%s); ++v.%s; %s } { auto v = ld<%s>(%s); v.%s--; %s } " % (
                        V, p, s[j], cst % (2 * j * n), V, p, s[j], cst % (2 * j * n + n))
                out.append(Ob("%s_step_%s" % (V, s[:n]), code,
                              lambda i, o, n=n, sm=sm, ins=ins, outs=outs, one=one:
                              [x for j in range(n) for x in
                               sm(outs(o)[2 * j * n:2 * j * n + n], [ins(i)[m] + one if m == j else ins(i)[m] for m in range(n)], "++ of %d" % j) +
                               sm(outs(o)[2 * j * n + n:2 * j * n + 2 * n], [ins(i)[m] - one if m == j else ins(i)[m] for m in range(n)], "-- of %d" % j)],
                              **kw(n, 2 * n * n)))
                # what ++ and -- give back, before and after, and that the prefix form is the component itself
                code = ""
                for j in range(n):
                    code += "{ auto v = ld<%s>(%s); %s[%d] = v.%s++; %s[%d] = v.%s; %s[%d] = v.%s--; ++(++v.%s); %s[%d] = v.%s; %s[%d] = --v.%s; %s[%d] = (++v.%s); } " % (
                        V, p, w, 6 * j, s[j], w, 6 * j + 1, s[j], w, 6 * j + 2, s[j], s[j], w, 6 * j + 3, s[j], w, 6 * j + 4, s[j], w, 6 * j + 5, s[j])

                def steps(x, one=one):
                    up = x + one
                    dn = up - one
                    u2 = dn + one + one
                    return [x, up, up, u2, u2 - one, u2 - one + one]
                out.append(Ob("%s_step_value_%s" % (V, s[:n]), code,
                              lambda i, o, n=n, sm=sm, ins=ins, outs=outs, steps=steps:
                              [x for j in range(n) for x in sm(outs(o)[6 * j:6 * j + 6], steps(ins(i)[j]), "value of ++ and -- of %d" % j)], **kw(n, 6 * n)))
                # assigning one vector's component to the same component of another
                code = ""
                for j in range(n):
                    code += "{ auto v = ld<%s>(%s), u = ld<%s>(%s+%d); v.%s = u.%s; %s } " % (V, p, V, p, n, s[j], s[j], cst % (j * n))
                out.append(Ob("%s_assign_%s" % (V, s[:n]), code,
                              lambda i, o, n=n, sm=sm, ins=ins, outs=outs:
                              [("v.%d = u.%d stores the component" % (j, j), sm([outs(o)[j * n + j]], [ins(i)[n + j]])[0][1]) for j in range(n)] +
                              [("v.%d = u.%d leaves the other components alone" % (j, j),
                                And(*[t for m in range(n) if m != j for _, t in sm([outs(o)[j * n + m]], [ins(i)[m]])])) for j in range(n)],
                              **kw(2 * n, n * n)))
            # assigning one vector's swizzle to the same swizzle of another reaches no component outside it
            for L, ch in ((2, {3: ((0, 1), (0, 2), (1, 2)), 4: ((0, 1), (2, 3))}.get(n)), (3, {4: ((0, 1, 2), (1, 2, 3))}.get(n))):
                if not ch:
                    continue
                code = ""
                for m, c in enumerate(ch):
                    e = "".join("xyzw"[x] for x in c)
                    code += "{ auto v = ld<%s>(%s), u = ld<%s>(%s+%d); v.%s = u.%s; %s } " % (V, p, V, p, n, e, e, cst % (m * n))
                out.append(Ob("%s_assign_swz%d" % (V, L), code,
                              lambda i, o, n=n, ch=ch, sm=sm, ins=ins, outs=outs:
                              [("v.%s = u.%s leaves the other components alone" % (("".join("xyzw"[x] for x in c),) * 2),
                                And(*[t for j in range(n) if j not in c for _, t in sm([outs(o)[m * n + j]], [ins(i)[j]])])) for m, c in enumerate(ch)],
                              **kw(2 * n, n * len(ch))))
            # every swizzle of every length, in all three naming sets
            for L in (2, 3, 4):
                if L > n:
                    continue
                combos = list(itertools.product(range(n), repeat=L))
                T = ("vec%d" if f else "ivec%d") % L
                for s, via in [(s, "") for s in NAMES] + [(NAMES[0], "format_as")]:
                    for b in range(0, len(combos), 64):
                        ch = combos[b:b + 64]
                        code = "const auto v = ld<%s>(%s);" % (V, p)
                        for m, c in enumerate(ch):
                            code += " { %s t = %s(v.%s); %s }" % (T, via, "".join(s[x] for x in c), ("st(r+%d, t);" if f else "sti(k+%d, t);") % (m * L))
                        out.append(Ob("%s_swz%d_%s_%d" % (V, L, via or s[:n], b), code,
                                      lambda i, o, ch=ch, L=L, sm=sm, ins=ins, outs=outs, s=s:
                                      [("." + "".join(s[x] for x in c),
                                        And(*[t for _, t in sm(outs(o)[m * L:m * L + L], [ins(i)[x] for x in c])])) for m, c in enumerate(ch)],
                                      **kw(n, len(ch) * L)))
    return out


# ------------------------------------------------------------------ hashing
def hash_equality():
    out = []
    two = lambda T, n: "k[0] = (int64_t)zcm::hash(ld<%s>(a)); k[1] = (int64_t)zcm::hash(ld<%s>(a+%d)); k[2] = (int64_t)std::hash<%s>()(ld<%s>(a));" % (T, T, n, T, T)
    for T, n in (("vec2", 2), ("vec3", 3), ("vec4", 4), ("quat", 4), ("mat2", 4), ("mat3", 9), ("mat4", 16)):
        # equal values differ in bits only in the sign of zeros: one such step at a time
        out.append(Ob("%s_zero_sign" % T, "auto z = ld<%s>(a); float *p = (float*)(void*)&z; k[%d] = (int64_t)std::hash<%s>()(z); k[%d] = (int64_t)zcm::hash(z);" % (T, 2 * n, T, 2 * n + 1) +
                      "".join(" { float t = p[%d]; p[%d] = 0.0f; k[%d] = (int64_t)zcm::hash(z); p[%d] = -0.0f; k[%d] = (int64_t)zcm::hash(z); p[%d] = t; }"
                              % (j, j, 2 * j, j, 2 * j + 1, j) for j in range(n)),
                      lambda i, o, n=n: [("component %d: +0 and -0 hash alike" % j, o.k[2 * j].eq(o.k[2 * j + 1])) for j in range(n)] +
                      [("std::hash agrees", o.k[2 * n].eq(o.k[2 * n + 1]))], nf=n, nk=2 * n + 2))
        if n <= 2:
          out.append(Ob("%s_equal" % T, two(T, n),
                      lambda i, o, n=n: [("equal values have equal hashes", Imp(all_(i.a[j].eq(i.a[n + j]) for j in range(n)), o.k[0].eq(o.k[1]))),
                                         ("std::hash agrees", o.k[2].eq(o.k[0]))], nf=2 * n, nk=3))
        out.append(Ob("%s_uses_all" % T, "%s z = ld<%s>(a); std::memset((void*)&z, 0, sizeof z); k[0] = (int64_t)zcm::hash(z);" % (T, T) +
                      "".join(" { auto y = z; float *p = (float*)(void*)&y; p[%d] = a[0]; k[%d] = (int64_t)zcm::hash(y); }" % (j, j + 1) for j in range(n)),
                      lambda i, o, n=n: [("component %d takes part in the hash" % j, o.k[j + 1].ne(o.k[0])) for j in range(n)],
                      nf=max(n, 1), nk=n + 1, pre=lambda i: [Not(i.a[0].eq(0)), Not(i.a[0].isnan())]))
    out.append(Ob("float_equal", "k[0] = (int64_t)zcm::hash(a[0]); k[1] = (int64_t)zcm::hash(a[1]);",
                  lambda i, o: [("equal values have equal hashes", Imp(i.a[0].eq(i.a[1]), o.k[0].eq(o.k[1]))),
                                ("zero and non-zero are told apart", Imp(And(i.a[0].eq(0), Not(i.a[1].eq(0)), Not(i.a[1].isnan())), o.k[0].ne(o.k[1])))], nf=2, nk=2))
    for n in (2, 3, 4):
        T = "ivec%d" % n
        out.append(Ob("%s_equal" % T, "k[0] = (int64_t)zcm::hash(ld<%s>(n)); k[1] = (int64_t)zcm::hash(ld<%s>(n+%d)); k[2] = (int64_t)std::hash<%s>()(ld<%s>(n));" % (T, T, n, T, T),
                      lambda i, o, n=n: [("equal values have equal hashes", Imp(all_(i.n[j].eq(i.n[n + j]) for j in range(n)), o.k[0].eq(o.k[1]))),
                                         ("std::hash agrees", o.k[2].eq(o.k[0]))], ni=2 * n, nk=3))
        out.append(Ob("%s_uses_all" % T, "int32_t z[%d] = {}; k[0] = (int64_t)zcm::hash(ld<%s>(z));" % (n, T) +
                      "".join(" { int32_t y[%d] = {}; y[%d] = n[0]; k[%d] = (int64_t)zcm::hash(ld<%s>(y)); }" % (n, j, j + 1, T) for j in range(n)),
                      lambda i, o, n=n: [("component %d takes part in the hash" % j, o.k[j + 1].ne(o.k[0])) for j in range(n)],
                      ni=1, nk=n + 1, pre=lambda i: i.n[0].ne(0)))
        B = "bvec%d" % n
        out.append(Ob("%s_equal" % B, "k[0] = (int64_t)zcm::hash(ldb<%s>(n)); k[1] = (int64_t)zcm::hash(ldb<%s>(n+%d)); k[2] = (int64_t)std::hash<%s>()(ldb<%s>(n));" % (B, B, n, B, B),
                      lambda i, o, n=n: [("equal values have equal hashes", Imp(all_(Iff(a, b) for a, b in zip(bits(i, 0, n), bits(i, n, n))), o.k[0].eq(o.k[1]))),
                                         ("one differing component changes the hash", Imp(onediff(bits(i, 0, n), bits(i, n, n)), o.k[0].ne(o.k[1]))),
                                         ("std::hash agrees", o.k[2].eq(o.k[0]))], ni=2 * n, nk=3))
    for T in ("int", "unsigned", "bool"):
        c = lambda j: "(%s)n[%d]" % (T, j) if T != "bool" else "bool(n[%d]&1)" % j
        v = (lambda x: x.low_bit()) if T == "bool" else None
        out.append(Ob("%s_equal" % T, "k[0] = (int64_t)zcm::hash(%s); k[1] = (int64_t)zcm::hash(%s);" % (c(0), c(1)),
                      lambda i, o, v=v: [("equal values have equal hashes", Imp(Iff(v(i.n[0]), v(i.n[1])) if v else i.n[0].eq(i.n[1]), o.k[0].eq(o.k[1]))),
                                         ("zero and non-zero are told apart", Imp(And(Not(v(i.n[0])), v(i.n[1])) if v else And(i.n[0].eq(0), i.n[1].ne(0)), o.k[0].ne(o.k[1])))],
                      ni=2, nk=2))
    return out


def onediff(a, b):
    n = len(a)
    return Or(*[And(*[(xor(a[k], b[k]) if k == j else Iff(a[k], b[k])) for k in range(n)]) for j in range(n)])
