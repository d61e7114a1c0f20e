"""Obligations over the whole public interface: totality, purity, equality of
build configurations, and compound assignment."""
import os
import re
from .lib import *  # noqa: F401,F403
from .lib import T_, F_
from .vectors import idom

UNDEFINED = ("sterp",)      # declared without a definition: a finding of the totality check, nothing to run elsewhere
SIZE = {"float": 1, "vec2": 2, "vec3": 3, "vec4": 4, "quat": 4, "mat2": 4, "mat3": 9, "mat4": 16}
ISIZE = {"int": 1, "int32_t": 1, "unsigned": 1, "ivec2": 2, "ivec3": 3, "ivec4": 4}
BSIZE = {"bool": 1, "bvec2": 2, "bvec3": 3, "bvec4": 4}


def table():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "api_table.txt")
    for l in open(p):
        l = l.rstrip("\n")
        if not l.strip() or l[0] == "#":
            continue
        h, r, n, a = [x.strip() for x in l.split("|", 3)] if n_bars(l) else split_row(l)
        yield h, r, n, [x.strip() for x in a.split(",") if x.strip()]


def n_bars(l):
    return l.count("|") == 3


def split_row(l):
    # operator names that contain '|'
    h, r, rest = [x.strip() for x in l.split(" | ", 2)]
    n, a = rest.rsplit(" | ", 1)
    return h, r, n.strip(), a


def bare(t):
    return t.replace("const ", "").replace("&", "").replace("*", "").strip()


class Call:
    """one public function applied to free arguments"""

    def __init__(self, h, ret, name, args):
        self.h, self.ret, self.name, self.args = h, ret, name, args
        self.decls = []
        self.vars = []
        self.outs = []
        self.nf = self.ni = 0
        self.pre = []
        self.fpos, self.ipos = [], []
        for j, t in enumerate(args):
            b = bare(t)
            v = "x%d" % j
            ptr = "*" in t
            if ptr:
                b = name[len("make_"):]
            if b in SIZE:
                self.fpos.append((self.nf, SIZE[b]))
                if ptr:
                    self.decls.append("const float *%s = a + %d + F;" % (v, self.nf))
                elif b == "float":
                    self.decls.append("float %s = a[%d + F];" % (v, self.nf))
                else:
                    self.decls.append("%s %s = ld<%s>(a + %d + F);" % (b, v, b, self.nf))
                self.nf += SIZE[b]
            elif b in ISIZE:
                self.ipos.append((self.ni, ISIZE[b]))
                if ptr:
                    self.decls.append("const int32_t *%s = n + %d + G;" % (v, self.ni))
                elif b.startswith("ivec"):
                    self.decls.append("%s %s = ld<%s>(n + %d + G);" % (b, v, b, self.ni))
                else:
                    self.decls.append("%s %s = (%s)n[%d + G];" % (b, v, b, self.ni))
                self.ni += ISIZE[b]
            else:
                k = BSIZE[b]
                if ptr:
                    self.decls.append("%s %sv = ldb<%s>(n + %d + G); const bool *%s = (const bool *)(const void *)&%sv;" % (b, v, b, self.ni, v, v))
                elif b == "bool":
                    self.decls.append("bool %s = (n[%d + G] & 1) != 0;" % (v, self.ni))
                else:
                    self.decls.append("%s %s = ldb<%s>(n + %d + G);" % (b, v, b, self.ni))
                self.ni += k
            if "&" in t and "const" not in t and name != "value_ptr":
                self.outs.append((v, b))
            self.vars.append(v)
        self.const_arg = name == "value_ptr" and "const" in args[0]

    def id(self):
        n = self.name
        for a, b in (("operator", "op_"), ("<<", "shl"), (">>", "shr"), ("<=", "le"), (">=", "ge"), ("==", "eq"), ("!=", "ne"), ("&&", "and"),
                     ("||", "or"), ("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div"), ("%", "mod"), ("&", "band"), ("|", "bor"), ("^", "xor"),
                     ("<", "lt"), (">", "gt"), ("!", "not")):
            n = n.replace(a, b)
        return n + "__" + "_".join(("c" if self.name == "value_ptr" and "const" in t else "") + bare(t) for t in self.args)

    def expr(self):
        v = self.vars
        if self.name.startswith("operator"):
            op = self.name[8:].strip()
            return "(%s %s)" % (op, v[0]) if len(v) == 1 else "(%s %s %s)" % (v[0], op, v[1])
        return "zcm::%s(%s)" % (self.name, ", ".join(v))

    def body(self, R="0", K="0", F="0", G="0"):
        """declare arguments at input offsets F, G; store everything observable at R, K"""
        s = ["enum { F = %s, G = %s };" % (F, G)] + self.decls
        nr = nk = 0
        if self.ret == "void":
            s.append(self.expr() + ";")
        elif self.name == "value_ptr":
            b = bare(self.args[0])
            c = "const " if self.const_arg else ""
            s.append("%s%s &y0 = %s; auto *res = zcm::value_ptr(y0); k[%s] = (const void *)res == (const void *)&y0;" % (c, b, self.vars[0], K))
            nk = 1
            if b in SIZE:
                s.append("for (int j = 0; j < %d; j++) r[%s + j] = res[j];" % (SIZE[b], R))
                nr = SIZE[b]
            else:
                m = dict(ISIZE, **BSIZE)[b]
                s.append("for (int j = 0; j < %d; j++) k[%s + 1 + j] = res[j];" % (m, K))
                nk += m
        else:
            b = bare(self.ret)
            s.append("auto res = %s;" % self.expr())
            if b == "float":
                s.append("r[%s] = res;" % R)
                nr = 1
            elif b in SIZE:
                s.append("st<%s>(r + %s, res);" % (b, R))
                nr = SIZE[b]
            elif b in ("bool", "int", "size_t", "int32_t"):
                s.append("k[%s] = (int64_t)res;" % K)
                nk = 1
            elif b in ISIZE:
                s.append("sti<%s>(k + %s, res);" % (b, K))
                nk = ISIZE[b]
            else:
                s.append("stb<%s>(k + %s, res);" % (b, K))
                nk = BSIZE[b]
        for v, b in self.outs:
            s.append("st<%s>(r + %s + %d, %s);" % (b, R, nr, v))
            nr += SIZE[b]
        self.nr, self.nk = nr, nk
        return "{ " + " ".join(s) + " }"

    def domain(self, i, off=0, ioff=0):
        """documented precondition: nothing but the arguments C++ or the library itself excludes"""
        out = []
        a, n = i.a[off:off + self.nf], i.n[ioff:ioff + self.ni]
        if self.name.startswith("operator") and len(self.args) == 2 and bare(self.args[0]) in ISIZE and bare(self.args[1]) in ISIZE:
            op = self.name[8:].strip()
            if op in ("/", "%", "<<", ">>"):
                (p, s), (q, t) = self.ipos
                for j in range(max(s, t)):
                    out.append(idom(op, n[p + (j if s > 1 else 0)], n[q + (j if t > 1 else 0)]))
        if self.name in ("lerp", "nlerp"):
            out.append(And(a[8] >= 0, a[8] <= 1))
        if self.name.startswith("perspective"):
            out.append(fabs(a[1] - con(2.0 ** -23)) > 0)
        return out

    def ints(self):
        op = self.name[8:].strip() if self.name.startswith("operator") else ""
        if op in ("<<", ">>"):
            return [0, 1, 2, 3, 31, 7, 5]
        if op in ("/", "%"):
            return [1, 2, -3, 7, 100, 5]
        if any(bare(t) in BSIZE for t in self.args):
            return [0, 1]
        return None

    def sampler(self, copies=1):
        if self.name not in ("lerp", "nlerp"):
            return None

        def f(r):
            out = []
            for _ in range(copies):
                out += s_small(r, 8) + [r.choice([0.0, 1.0, 0.25, r.random()])]
            return out, []
        return f


def calls(skip=()):
    for row in table():
        c = Call(*row)
        if c.name in skip:
            continue
        c.body()
        yield c


def api_totality():
    """every declared function is there and, under its precondition, ends normally"""
    out = []
    for c in calls():
        out.append(Ob(c.id(), c.body() + " ", lambda i, o: [("completes", T_)], nf=c.nf, ni=c.ni, nr=c.nr, nk=c.nk,
                      pre=c.domain, ints=c.ints(), sampler=c.sampler()))
    return out


def pure_functions():
    """the same arguments give the same result whatever was called in between; arguments are not modified"""
    out = []
    for c in calls(skip=UNDEFINED):
        nr, nk, nf, ni = c.nr, c.nk, c.nf, c.ni
        code = c.body() + c.body(R=nr, K=nk, F=nf, G=ni) + c.body(R=2 * nr, K=2 * nk)
        out.append(Ob(c.id(), code,
                      lambda i, o, c=c, nr=nr, nk=nk: [("same result after another call, float word %d" % j, o.r[j].same(o.r[2 * nr + j])) for j in range(nr)] +
                      [("same result after another call, word %d" % j, o.k[j].eq(o.k[2 * nk + j])) for j in range(nk)],
                      nf=2 * nf, ni=2 * ni, nr=3 * nr, nk=3 * nk,
                      pre=lambda i, c=c: c.domain(i) + c.domain(i, c.nf, c.ni), ints=c.ints(), sampler=c.sampler(2), fresh=True))
    return out


def configuration_equivalence():
    """release builds and builds without swizzles compute the same bits"""
    out = []
    for c in calls(skip=UNDEFINED):
        out.append(Ob(c.id(), c.body(), lambda i, o: [], nf=c.nf, ni=c.ni, nr=c.nr, nk=c.nk, pre=c.domain, ints=c.ints(), sampler=c.sampler(),
                      against=("release", "noswizzle", "release_noswizzle")))
    for T, S in (("vec2", 2), ("vec3", 3), ("vec4", 4), ("quat", 4)):
        out.append(Ob("layout_" + T, "auto v = ld<%s>(a); r[0] = v[n[0]]; v[n[0]] = a[%d]; st(r + 1, v); k[0] = sizeof(v); k[1] = alignof(%s);" % (T, S, T),
                      lambda i, o: [], nf=S + 1, ni=1, nr=S + 1, nk=2, pre=lambda i, S=S: i.n[0].ult(S), ints=list(range(S)),
                      against=("release", "noswizzle", "release_noswizzle")))
        if T != "quat":
            mem = "xyzw"[:S]
            out.append(Ob("members_" + T, "auto v = ld<%s>(a); %s" % (T, " ".join("r[%d] = v.%s;" % (j, m) for j, m in enumerate(mem))) +
                          " ".join("v.%s = a[%d];" % (m, S + j) for j, m in enumerate(mem)) + " st(r + %d, v);" % S,
                          lambda i, o: [], nf=2 * S, nr=2 * S, against=("release", "noswizzle", "release_noswizzle")))
    for T, S in (("ivec2", 2), ("ivec3", 3), ("ivec4", 4)):
        out.append(Ob("layout_" + T, "auto v = ld<%s>(n + 1); k[0] = v[n[0]]; v[n[0]] = n[%d]; sti(k + 1, v); k[%d] = sizeof(v);" % (T, S + 1, S + 1),
                      lambda i, o: [], ni=S + 2, nk=S + 2, pre=lambda i, S=S: i.n[0].ult(S), ints=list(range(S)),
                      against=("release", "noswizzle", "release_noswizzle")))
    # every way of writing to one component, by member and by index, and what is read back afterwards
    cf = ("release", "noswizzle", "release_noswizzle")
    for T, S in (("vec2", 2), ("vec3", 3), ("vec4", 4), ("quat", 4)):
        mem = "xyzw"[:S]
        for op, nm in (("", "set"), ("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div")):
            for how, lhs in (("member", ["v.%s" % m for m in mem]), ("index", ["v[%d]" % j for j in range(S)])):
                body = "auto v = ld<%s>(a); " % T
                for j, l in enumerate(lhs):
                    body += "%s %s= a[%d]; r[%d] = %s; " % (l, op, S + j, j, l)
                body += "st(r + %d, v); " % S
                body += " ".join("r[%d] = %s;" % (2 * S + j, l) for j, l in enumerate(lhs))
                body += " r[%d] = -%s + %s;" % (3 * S, lhs[0], lhs[-1])
                out.append(Ob("component_%s_%s_%s" % (nm, how, T), body, lambda i, o: [], nf=2 * S, nr=3 * S + 1, against=cf))
        body = "auto v = ld<%s>(a); " % T
        for j, m in enumerate(mem):
            body += "v.%s = v.%s; " % (m, mem[(j + 1) % S])
        out.append(Ob("component_chain_" + T, body + "st(r, v); k[0] = v.x < v.y; k[1] = v.x == v.y; k[2] = (int)(v.x > 0.5f);", lambda i, o: [],
                      nf=S, nr=S, nk=3, against=cf))
    for T, S in (("ivec2", 2), ("ivec3", 3), ("ivec4", 4)):
        mem = "xyzw"[:S]
        for op, nm in (("", "set"), ("+", "add"), ("-", "sub"), ("*", "mul"), ("/", "div"), ("%", "mod"), ("&", "and"), ("|", "or"), ("^", "xor"),
                       ("<<", "shl"), (">>", "shr")):
            for how, lhs in (("member", ["v.%s" % m for m in mem]), ("index", ["v[%d]" % j for j in range(S)])):
                body = "auto v = ld<%s>(n); " % T
                for j, l in enumerate(lhs):
                    body += "%s %s= n[%d]; k[%d] = %s; " % (l, op, S + j, j, l)
                body += "sti(k + %d, v); " % S + " ".join("k[%d] = %s;" % (2 * S + j, l) for j, l in enumerate(lhs))
                out.append(Ob("component_%s_%s_%s" % (nm, how, T), body, lambda i, o: [], ni=2 * S, nk=3 * S, against=cf,
                              pre=lambda i, op=op, S=S: [idom(op, i.n[j], i.n[S + j]) for j in range(S)] if op else [],
                              ints=[1, 2, 3, 31, 0, 7] if op in ("<<", ">>") else [1, 2, -3, 7, 100, 5] if op in ("/", "%") else None))
        for op, nm in (("++", "inc"), ("--", "dec")):
            body = "auto v = ld<%s>(n); " % T + " ".join("k[%d] = (int)%s(v.%s); k[%d] = (int)(v.%s)%s;" % (2 * j, op, m, 2 * j + 1, m, op) for j, m in enumerate(mem))
            out.append(Ob("component_%s_%s" % (nm, T), body + "sti(k + %d, v);" % (2 * S), lambda i, o: [], ni=S, nk=3 * S, against=cf,
                          pre=lambda i, S=S: [And(i.n[j] < 1000, i.n[j] > -1000) for j in range(S)], ints=[1, -1, 0, 5, 999]))
    return out


def compound_assignment():
    """x op= y leaves in x exactly the value of x op y, also when y is x or part of x"""
    out = []

    def fl(name, T, S, decl, rhs, op, nf, extra=""):
        # rhs is evaluated on a separate copy first
        code = ("auto x = ld<%s>(a), z = ld<%s>(a); %s { st<%s>(r, z %s (%s)); } x %s= %s; st(r + %d, x);" %
                (T, T, decl, T, op, rhs.replace("@", "z"), op, rhs.replace("@", "x"), S))
        out.append(Ob(name, code, lambda i, o, S=S: same(o.r[S:], o.r[:S], "word"), nf=nf, nr=2 * S))
    nm = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
    for T, S in (("vec2", 2), ("vec3", 3), ("vec4", 4), ("mat2", 4), ("mat3", 9), ("mat4", 16), ("quat", 4)):
        for op in "+-*/":
            if not (T == "quat" and op == "/"):
                fl("%s_%s" % (T, nm[op]), T, S, "auto y = ld<%s>(a + %d);" % (T, S), "y", op, 2 * S)
                fl("%s_%s_self" % (T, nm[op]), T, S, "", "@", op, S)
            if T[0] == "v" or (T == "quat" and op in "*/"):
                fl("%s_%s_scalar" % (T, nm[op]), T, S, "", "a[%d]" % S, op, S + 1)
                for j in range(S):
                    fl("%s_%s_own%d" % (T, nm[op], j), T, S, "", "word(@, %d)" % j, op, S)
                    fl("%s_%s_own_index%d" % (T, nm[op], j), T, S, "", "@[%d]" % j, op, S)
    for T, S in (("ivec2", 2), ("ivec3", 3), ("ivec4", 4)):
        from .vectors import IOPS
        for op, u in IOPS.items():
            pv = lambda i, op=op, S=S: [idom(op, i.n[j], i.n[S + j]) for j in range(S)]
            ps = lambda i, op=op, S=S: [idom(op, i.n[j], i.n[S]) for j in range(S)]
            pself = lambda i, op=op, S=S: [idom(op, i.n[j], i.n[j]) for j in range(S)]
            ints = [1, 2, 3, 31, 0, 7] if op in ("<<", ">>") else None
            for tag, decl, rhs, ni, pre in (("", "auto y = ld<%s>(n + %d);" % (T, S), "y", 2 * S, pv), ("_scalar", "", "n[%d]" % S, S + 1, ps),
                                            ("_self", "", "@", S, pself)) + tuple(
                    ("_own%d" % j, "", "@[%d]" % j, S, (lambda i, op=op, S=S, j=j: [idom(op, i.n[t], i.n[j]) for t in range(S)])) for j in range(S)):
                code = ("auto x = ld<%s>(n), z = ld<%s>(n); %s { sti<%s>(k, z %s (%s)); } x %s= %s; sti(k + %d, x);" %
                        (T, T, decl, T, op, rhs.replace("@", "z"), op, rhs.replace("@", "x"), S))
                out.append(Ob("%s_%s%s" % (T, u, tag), code, lambda i, o, S=S: [("word[%d]" % j, o.k[j].eq(o.k[S + j])) for j in range(S)],
                              ni=ni, nk=2 * S, pre=pre, ints=ints))
    for T, S in (("bvec2", 2), ("bvec3", 3), ("bvec4", 4)):
        for op, bop in (("&", "&&"), ("|", "||"), ("^", "^")):
            for tag, decl, rhs, ni in (("", "auto y = ldb<%s>(n + %d);" % (T, S), "y", 2 * S), ("_scalar", "bool y = n[%d] & 1;" % S, "y", S + 1),
                                       ("_self", "", "@", S)) + tuple(("_own%d" % j, "", "@[%d]" % j, S) for j in range(S)):
                code = ("auto x = ldb<%s>(n), z = ldb<%s>(n); %s { stb<%s>(k, z %s (%s)); } x %s= %s; stb(k + %d, x);" %
                        (T, T, decl, T, bop, rhs.replace("@", "z"), op, rhs.replace("@", "x"), S))
                out.append(Ob("%s_%s%s" % (T, {"&": "and", "|": "or", "^": "xor"}[op], tag), code,
                              lambda i, o, S=S: [("word[%d]" % j, o.k[j].eq(o.k[S + j])) for j in range(S)], ni=ni, nk=2 * S, ints=[0, 1]))
    return out


# ------------------------------------------------------------------ calls at the same time
def members():
    """(name, declarations, expressions, floats, ints) for what is not a free function; the operands are const and shared"""
    for T, S in list(SIZE.items())[1:]:
        yield T, "const %s x = ld<%s>(a);" % (T, T), ["%s(x)" % T, "std::hash<%s>()(x)" % T] + (["+x", "-x"] if T != "quat" else []), S, 0
        if T.startswith("mat"):
            n = int(T[3])
            yield T + "_index", "const %s x = ld<%s>(a);" % (T, T), ["x[%d]" % j for j in range(n)] + ["x[%d][%d]" % (j, n - 1 - j) for j in range(n)], S, 0
        else:
            yield T + "_index", "const %s x = ld<%s>(a);" % (T, T), ["x[%d]" % j for j in range(S)] + ["x.%s" % c for c in "xyzw"[:S]], S, 0
        if T.startswith("vec"):
            yield T + "_swizzle", "const %s x = ld<%s>(a);" % (T, T), ["vec2(x.yx)", "%s(x.%s)" % (T, "wzyx"[4 - S:])], S, 0
    for T, S in (("ivec2", 2), ("ivec3", 3), ("ivec4", 4)):
        yield T, "const %s x = ld<%s>(n);" % (T, T), ["%s(x)" % T, "std::hash<%s>()(x)" % T, "-x", "b" + T[1:] + "(x)"] + ["x[%d]" % j for j in range(S)], 0, S
    yield "mat4_parts", "const mat4 x = ld<mat4>(a);", ["mat3(x)"], 16, 0
    yield "mat3_parts", "const mat3 x = ld<mat3>(a);", ["mat2(x)"], 9, 0
    yield "vec3_from_parts", "const vec2 x = ld<vec2>(a);", ["vec3(x, a[2])", "vec3(a[2], x)", "vec4(x, x)", "vec4(x, a[2], a[3])", "vec4(a[2], x, a[3])", "vec4(a[2], a[3], x)"], 4, 0
    yield "quat_from_vectors", "const vec3 x = ld<vec3>(a);", ["quat(x)", "quat(x, ld<vec3>(a + 3))", "quat(a[3], x)", "quat(x, a[3])"], 6, 0


def concurrent_calls():
    """no call writes memory that a call running at the same time may use: statics, or what it was given to read"""
    out = []
    claim = lambda i, o: [("the call ends with nothing shared written", T_)]
    for c in calls(skip=UNDEFINED):
        body = c.body()
        decls = " ".join(c.decls)
        call = body[body.index(decls) + len(decls):] if decls else body[1:]
        own = {v for v, _ in c.outs}
        code = "enum { F = 0, G = 0 }; zh_share(a); zh_share(n); " + decls + " "
        for v, t in zip(c.vars, c.args):
            if v not in own and "*" not in t:
                code += "zh::share(%s); " % v
        code += "zh::together([&](float *r, int64_t *k) { (void)r; (void)k; "
        for v, b in c.outs:
            code += "%s own_%s(%s); " % (b, v, v)
        inner = "{ " + call
        for v, b in c.outs:
            inner = re.sub(r"\b%s\b" % v, "own_" + v, inner)
        code += inner + " }, r, k, %d, %d);" % (c.nr, c.nk)
        out.append(Ob(c.id(), code, claim, nf=c.nf, ni=c.ni, nr=c.nr, nk=c.nk, pre=c.domain, ints=c.ints(), sampler=c.sampler(), shared=True))
    for nm, decl, es, nf, ni in members():
        code = "zh_share(a); zh_share(n); %s zh::share(x); zh::together([&](float *r, int64_t *k) { (void)r; (void)k; " % decl
        code += " ".join("{ auto y = %s; zh_use(&y); }" % e for e in es) + " }, r, k, 0, 0);"
        out.append(Ob("member_" + nm, code, claim, nf=nf, ni=ni, shared=True))
    return out
