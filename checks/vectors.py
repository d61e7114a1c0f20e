"""Float, integer and boolean vectors: operators, comparisons, order."""
from .lib import *

AOPS = {"+": "fadd", "-": "fsub", "*": "fmul", "/": "fdiv"}


def fop(op, x, y):
    return E(tm.fbin(AOPS[op], x.t, y.t))


def float_vector_operators():
    out = []
    nm = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
    for n in (2, 3, 4):
        V = "vec%d" % n
        for op in AOPS:
            out.append(Ob("%s_%s_vv" % (V, nm[op]), "st(r, ld<%s>(a) %s ld<%s>(a+%d));" % (V, op, V, n),
                          lambda i, o, op=op, n=n: same(o.r, [fop(op, i.a[j], i.a[n + j]) for j in range(n)]), nf=2 * n, nr=n))
            out.append(Ob("%s_%s_vs" % (V, nm[op]), "st(r, ld<%s>(a) %s a[%d]);" % (V, op, n),
                          lambda i, o, op=op, n=n: same(o.r, [fop(op, i.a[j], i.a[n]) for j in range(n)]), nf=n + 1, nr=n))
            out.append(Ob("%s_%s_sv" % (V, nm[op]), "st(r, a[%d] %s ld<%s>(a));" % (n, op, V),
                          lambda i, o, op=op, n=n: same(o.r, [fop(op, i.a[n], i.a[j]) for j in range(n)]), nf=n + 1, nr=n))
            out.append(Ob("%s_c%s_v" % (V, nm[op]), "auto v = ld<%s>(a); v %s= ld<%s>(a+%d); st(r, v);" % (V, op, V, n),
                          lambda i, o, op=op, n=n: same(o.r, [fop(op, i.a[j], i.a[n + j]) for j in range(n)]), nf=2 * n, nr=n))
            out.append(Ob("%s_c%s_s" % (V, nm[op]), "auto v = ld<%s>(a); v %s= a[%d]; st(r, v);" % (V, op, n),
                          lambda i, o, op=op, n=n: same(o.r, [fop(op, i.a[j], i.a[n]) for j in range(n)]), nf=n + 1, nr=n))
            out.append(Ob("%s_c%s_self" % (V, nm[op]), "auto v = ld<%s>(a); v %s= v; st(r, v);" % (V, op),
                          lambda i, o, op=op, n=n: same(o.r, [fop(op, i.a[j], i.a[j]) for j in range(n)]), nf=n, nr=n))
            # a component of the vector itself as the scalar operand (aliasing)
            out.append(Ob("%s_c%s_own" % (V, nm[op]), "auto v = ld<%s>(a); v %s= word(v, n[0]); st(r, v);" % (V, op),
                          lambda i, o, op=op, n=n: same(o.r, [fop(op, i.a[j], sel(i.n[0], i.a, n)) for j in range(n)]),
                          nf=n, ni=1, nr=n, pre=lambda i, n=n: i.n[0].ult(n), ints=list(range(n))))
        one = con(1)
        for code, f, nme in (("++v; st(r, v); st(r+%d, v);", lambda x: (x + 1, x + 1), "preinc"),
                             ("--v; st(r, v); st(r+%d, v);", lambda x: (x - 1, x - 1), "predec"),
                             ("auto u = v++; st(r, u); st(r+%d, v);", lambda x: (x, x + 1), "postinc"),
                             ("auto u = v--; st(r, u); st(r+%d, v);", lambda x: (x, x - 1), "postdec")):
            out.append(Ob("%s_%s" % (V, nme), ("auto v = ld<%s>(a); " % V) + code % n,
                          lambda i, o, f=f, n=n: same(o.r[:n], [f(i.a[j])[0] for j in range(n)], "result") +
                          same(o.r[n:], [f(i.a[j])[1] for j in range(n)], "operand"), nf=n, nr=2 * n))
        out.append(Ob("%s_preinc_ref" % V, "auto v = ld<%s>(a); auto *p = &++v; auto *q = &--v; k[0] = p == &v; k[1] = q == &v;" % V,
                      lambda i, o: [("returns the operand", And(o.k[0].eq(1), o.k[1].eq(1)))], nf=n, nk=2))
        out.append(Ob("%s_neg" % V, "st(r, -ld<%s>(a)); st(r+%d, +ld<%s>(a));" % (V, n, V),
                      lambda i, o, n=n: same(o.r[:n], [-i.a[j] for j in range(n)], "minus") + same(o.r[n:], i.a, "plus"), nf=n, nr=2 * n))
        eq = lambda i, n=n: all_(i.a[j].eq(i.a[n + j]) for j in range(n))
        out.append(Ob("%s_eq" % V, "k[0] = ld<%s>(a) == ld<%s>(a+%d); k[1] = ld<%s>(a) != ld<%s>(a+%d);" % (V, V, n, V, V, n),
                      lambda i, o, eq=eq: [("== iff all components are equal", kbool(o.k[0], eq(i))),
                                           ("!= is the negation", kbool(o.k[1], Not(eq(i))))], nf=2 * n, nk=2))
        # a vector expression of several operators, evaluated left to right as in C++
        out.append(Ob("%s_expr" % V, "auto x = ld<%s>(a), y = ld<%s>(a+%d); st(r, (x + y) * a[0] - y / x);" % (V, V, n),
                      lambda i, o, n=n: same(o.r, [(i.a[j] + i.a[n + j]) * i.a[0] - i.a[n + j] / i.a[j] for j in range(n)]),
                      nf=2 * n, nr=n))
    return out


def sel(ix, vals, n):
    r = vals[n - 1]
    for j in range(n - 2, -1, -1):
        r = ite(ix.eq(j), vals[j], r)
    return r


IOPS = {"+": "add", "-": "sub", "*": "mul", "/": "sdiv", "%": "srem", "&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "ashr"}


def iop(op, x, y):
    return I(tm.bvop(IOPS[op], x.t, y.t))


def idom(op, x, y):
    """operand pairs on which C++ defines the operation (overflow wraps)"""
    if op in ("/", "%"):
        return And(y.ne(0), Not(And(x.eq(-0x80000000), y.eq(-1))))
    if op in ("<<", ">>"):
        return And(y >= 0, y < 32)
    return T_


def integer_vector_operators():
    out = []
    nm = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr"}
    for n in (2, 3, 4):
        V = "ivec%d" % n
        for op in IOPS:
            ints = [1, 2, 3, 31, 0, 7, 5] if op in ("<<", ">>") else None
            vv = lambda i, o, op=op, n=n: isame(o.k, [iop(op, i.n[j], i.n[n + j]) for j in range(n)])
            vs = lambda i, o, op=op, n=n: isame(o.k, [iop(op, i.n[j], i.n[n]) for j in range(n)])
            sv = lambda i, o, op=op, n=n: isame(o.k, [iop(op, i.n[n], i.n[j]) for j in range(n)])
            pvv = lambda i, op=op, n=n: [idom(op, i.n[j], i.n[n + j]) for j in range(n)]
            pvs = lambda i, op=op, n=n: [idom(op, i.n[j], i.n[n]) for j in range(n)]
            psv = lambda i, op=op, n=n: [idom(op, i.n[n], i.n[j]) for j in range(n)]
            kw = dict(nk=n, ints=ints)
            out += [
                Ob("%s_%s_vv" % (V, nm[op]), "sti(k, ld<%s>(n) %s ld<%s>(n+%d));" % (V, op, V, n), vv, ni=2 * n, pre=pvv, **kw),
                Ob("%s_%s_vs" % (V, nm[op]), "sti(k, ld<%s>(n) %s n[%d]);" % (V, op, n), vs, ni=n + 1, pre=pvs, **kw),
                Ob("%s_%s_sv" % (V, nm[op]), "sti(k, n[%d] %s ld<%s>(n));" % (n, op, V), sv, ni=n + 1, pre=psv, **kw),
                Ob("%s_c%s_v" % (V, nm[op]), "auto v = ld<%s>(n); v %s= ld<%s>(n+%d); sti(k, v);" % (V, op, V, n), vv, ni=2 * n, pre=pvv, **kw),
                Ob("%s_c%s_s" % (V, nm[op]), "auto v = ld<%s>(n); v %s= n[%d]; sti(k, v);" % (V, op, n), vs, ni=n + 1, pre=pvs, **kw),
                Ob("%s_c%s_self" % (V, nm[op]), "auto v = ld<%s>(n); v %s= v; sti(k, v);" % (V, op),
                   lambda i, o, op=op, n=n: isame(o.k, [iop(op, i.n[j], i.n[j]) for j in range(n)]), ni=n,
                   pre=lambda i, op=op, n=n: [idom(op, i.n[j], i.n[j]) for j in range(n)], **kw),
            ]
        one = I(1)
        for code, f, nme in (("++v; sti(k, v); sti(k+%d, v);", lambda x: (x + 1, x + 1), "preinc"),
                             ("--v; sti(k, v); sti(k+%d, v);", lambda x: (x - 1, x - 1), "predec"),
                             ("auto u = v++; sti(k, u); sti(k+%d, v);", lambda x: (x, x + 1), "postinc"),
                             ("auto u = v--; sti(k, u); sti(k+%d, v);", lambda x: (x, x - 1), "postdec")):
            out.append(Ob("%s_%s" % (V, nme), ("auto v = ld<%s>(n); " % V) + code % n,
                          lambda i, o, f=f, n=n: isame(o.k[:n], [f(i.n[j])[0] for j in range(n)], "result") +
                          isame(o.k[n:], [f(i.n[j])[1] for j in range(n)], "operand"), ni=n, nk=2 * n))
        out.append(Ob("%s_preinc_ref" % V, "auto v = ld<%s>(n); auto *p = &++v; auto *q = &--v; k[0] = p == &v; k[1] = q == &v;" % V,
                      lambda i, o: [("returns the operand", And(o.k[0].eq(1), o.k[1].eq(1)))], ni=n, nk=2))
        out.append(Ob("%s_neg" % V, "sti(k, -ld<%s>(n)); sti(k+%d, +ld<%s>(n));" % (V, n, V),
                      lambda i, o, n=n: isame(o.k[:n], [-i.n[j] for j in range(n)], "minus") + isame(o.k[n:], i.n, "plus"), ni=n, nk=2 * n))
        eq = lambda i, n=n: all_(i.n[j].eq(i.n[n + j]) for j in range(n))
        out.append(Ob("%s_eq" % V, "k[0] = ld<%s>(n) == ld<%s>(n+%d); k[1] = ld<%s>(n) != ld<%s>(n+%d);" % (V, V, n, V, V, n),
                      lambda i, o, eq=eq: [("== iff all components are equal", kbool(o.k[0], eq(i))),
                                           ("!= is the negation", kbool(o.k[1], Not(eq(i))))], ni=2 * n, nk=2, ints=[0, 1, 2]))
        out.append(Ob("%s_to_bvec" % V, "bvec%d b = ld<%s>(n); stb(k, b);" % (n, V),
                      lambda i, o, n=n: lab("component", [kbool(o.k[j], i.n[j].ne(0)) for j in range(n)]), ni=n, nk=n,
                      ints=[0, 1, 2, 256, -1, 65536]))
    return out


def integer_vector_order():
    """ordering of ivecs: strict total order consistent with ==, lexicographic"""
    out = []
    for n in (2, 3, 4):
        V = "ivec%d" % n

        def lt(x, y):
            r = F_
            for j in reversed(range(len(x))):
                r = Or(x[j] < y[j], And(x[j].eq(y[j]), r))
            return r
        X = lambda i, n=n: i.n[:n]
        Y = lambda i, n=n: i.n[n:2 * n]
        Z = lambda i, n=n: i.n[2 * n:]
        code = "auto x = ld<%s>(n), y = ld<%s>(n+%d); " % (V, V, n)
        out.append(Ob("%s_order" % V, code + "k[0] = x < y; k[1] = x > y; k[2] = x <= y; k[3] = x >= y; k[4] = x == y; k[5] = x != y;",
                      lambda i, o, X=X, Y=Y, lt=lt, n=n: [
                          ("exactly one of < > ==", Or(And(o.k[0].eq(1), o.k[1].eq(0), o.k[4].eq(0)), And(o.k[0].eq(0), o.k[1].eq(1), o.k[4].eq(0)),
                                                       And(o.k[0].eq(0), o.k[1].eq(0), o.k[4].eq(1)))),
                          ("<= is not >", kbool(o.k[2], o.k[1].eq(0))),
                          (">= is not <", kbool(o.k[3], o.k[0].eq(0))),
                          ("!= is not ==", kbool(o.k[5], o.k[4].eq(0))),
                          ("< is the lexicographic order", kbool(o.k[0], lt(X(i), Y(i)))),
                          ("== is componentwise", kbool(o.k[4], all_(x.eq(y) for x, y in zip(X(i), Y(i)))))],
                      ni=2 * n, nk=6, ints=[0, 1, 2, -1, -0x80000000, 0x7fffffff]))
        out.append(Ob("%s_trans" % V, code + "auto z = ld<%s>(n+%d); k[0] = x < y; k[1] = y < z; k[2] = x < z; k[3] = y < x; k[4] = x < x;" % (V, 2 * n),
                      lambda i, o: [("transitive", Imp(And(o.k[0].eq(1), o.k[1].eq(1)), o.k[2].eq(1))),
                                    ("asymmetric", Imp(o.k[0].eq(1), o.k[3].eq(0))),
                                    ("irreflexive", o.k[4].eq(0))],
                      ni=3 * n, nk=5, ints=[0, 1, 2, -1]))
    return out
