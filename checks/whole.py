"""Small whole numbers are computed without rounding, and neutral elements change nothing."""
from .lib import *  # noqa: F401,F403
from .accuracy import rounding_accuracy
from .geom import L, S, TY
from .mats import M, V

# magnitude and fractional bits of the inputs; every formula has room for a few bits more
SIZE = [(("_determinant", "_adjugate"), 4, ("mat4",)), (("_determinant", "_adjugate"), 32, ("mat3",)), (("_determinant", "_adjugate"), 512, ("mat2",)),
        (("comp_",), 16, ("",)), (("reflect_",), 64, ("",)), (("dot_", "distance2_", "length2_", "cross", "_mul", "translate", "scale", "quat_dot", "lerp", "mix_"), 512, ("",))]


def size(name):
    for keys, k, types in SIZE:
        if any(x in name for x in keys) and any(x in name for x in types):
            return k


def whole(x, frac):
    y = x * con(2.0 ** frac)
    return fn("trunc", y).eq(y)


def W(name, code, claim, nf, nr, k, frac=0, pre=None):
    def f(i):
        return [And(x >= -k, x <= k, whole(x, frac)) for x in i.a] + list(pre(i) if pre else [])

    def s(r):
        return [r.choice((0, 1, -1, k, -k, r.randint(-9, 9), r.randint(-k, k), r.randint(-k * 2 ** frac, k * 2 ** frac) / 2.0 ** frac)) * 1.0 if not frac or r.random() < .8
                else r.randint(0, 2 ** frac) / 2.0 ** frac for _ in range(nf)], []
    return Ob(name, code, claim, nf=nf, nr=nr, pre=f, sampler=s, whole=(k, frac))


def exact_values():
    out = []
    for ob in rounding_accuracy():
        k = size(ob.name)
        if k is None or ob.spec is None or ob.name.startswith("quat_dot"):
            continue
        frac = 4 if "lerp" in ob.name or "mix_" in ob.name else 0
        spec = ob.spec
        out.append(W("whole_" + ob.name, ob.code, lambda i, o, spec=spec: [("%s: exact for whole numbers" % l.split(" within")[0].split(" relative")[0], o.r[j].eq(e))
                                                                           for j, (l, e, _, _) in enumerate(spec(i))],
                     ob.nf, ob.nr, 64 if frac else k, frac, ob.pre and (lambda i, ob=ob: ob.pre(i))))
    out.append(W("whole_quat_dot", "r[0] = zcm::dot(ld<quat>(a), ld<quat>(a + 4)); r[1] = zcm::length2(ld<quat>(a));",
                 lambda i, o: [("dot: exact for whole numbers", o.r[0].eq(dot(i.a[:4], i.a[4:]))), ("length2: exact for whole numbers", o.r[1].eq(norm2(i.a[:4])))], 8, 2, 512))
    # neutral elements, every finite operand
    fin = lambda i: [x.finite() for x in i.a]

    def N(name, code, nf, k, pre=None, claim=None):
        """k blocks of results, each equal to the first inputs"""
        n = nf if isinstance(k, int) else k[1]
        k = k if isinstance(k, int) else k[0]
        out.append(Ob("neutral_" + name, code, lambda i, o: [("result %d, component %d unchanged" % (b, j), o.r[b * n + j].eq(i.a[j])) for b in range(k) for j in range(n)],
                      nf=nf, nr=n * k, pre=lambda i: fin(i) + list(pre(i) if pre else [])))
    for n in (2, 3, 4):
        k = n * n
        N("mat%d" % n, "auto m = %s; mat%d id; auto p = m; p *= id; st(r, m * id); st(r + %d, id * m); st(r + %d, p);" % (M(n), n, k, 2 * k), k, 3)
        N("mat%d_vec" % n, "mat%d id; st(r, id * %s); st(r + %d, %s * id);" % (n, V(n), n, V(n)), n, 2)
    N("translate_scale", "st(r, zcm::translate(%s, vec3(0.0f))); st(r + 16, zcm::scale(%s, vec3(1.0f)));" % (M(4), M(4)), 16, 2)
    N("conjugate", "st(r, zcm::conjugate(zcm::conjugate(ld<quat>(a))));", 4, 1)
    N("quat_vec", "st(r, quat() * ld<vec3>(a));", 3, 1)
    for j, v in enumerate(("1, 0, 0", "0, 1, 0", "0, 0, 1")):
        N("rotate_%s_by_zero" % "xyz"[j], "st(r, zcm::rotate(%s, 0.0f, vec3(%s)));" % (M(4), v), 16, 1, lambda i: [cos(con(0)).same(con(1)), sin(con(0)).same(con(0))])
    for n in (1, 2, 3, 4):
        # at 1 the documented formula x + a (y - x) may round
        N("mix_%s" % TY[n], S(n, "zcm::mix(%s, %s, 0.0f)" % (L(n), L(n, n))), 2 * n, (1, n), lambda i: [fabs(x) <= 2.0 ** 126 for x in i.a])
    N("lerp", "st(r, zcm::lerp(ld<quat>(a), ld<quat>(a + 4), 0.0f)); st(r + 4, zcm::lerp(ld<quat>(a + 4), ld<quat>(a), 1.0f));", 8, (2, 4))
    N("reflect", "st(r, zcm::reflect(ld<vec3>(a), vec3(0.0f)));", 3, 1, lambda i: [fabs(x) <= 2.0 ** 100 for x in i.a])
    N("transpose", "st(r, zcm::transpose(zcm::transpose(%s)));" % M(4), 16, 1)
    return out
