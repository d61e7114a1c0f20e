"""Symbolic executor for LLVM IR (as produced by clang -O0 from /repo).

Object/offset memory model, path forking on symbolic branches, state merging
at function returns.  All data inputs are symbolic terms; the result of a run
is a list of final states (path condition, memory) plus a list of error paths
(failed assertion, out-of-bounds access, undefined external, ...).
"""
from . import terms as tm
from .terms import T, BV, F32, F64, BOOL, TRUE, FALSE


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off          # int or T(bv64)

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off is self.off or \
            (isinstance(o, Ptr) and o.obj == self.obj and isinstance(o.off, int) and o.off == self.off)

    def __hash__(self):
        return hash(self.obj)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, PInt) and o.p == self.p

    def __hash__(self):
        return hash(self.p)


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Agg) and len(o.v) == len(self.v) and all(same(a, b) for a, b in zip(self.v, o.v))

    def __hash__(self):
        return 1


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) or isinstance(b, T):
        return False
    return a == b


class Obj:
    __slots__ = ("size", "cells", "kind", "name", "ro")

    def __init__(self, size, kind, name, ro=False):
        self.size = size
        self.cells = {}
        self.kind = kind
        self.name = name
        self.ro = ro

    def clone(self):
        o = Obj(self.size, self.kind, self.name, self.ro)
        o.cells = dict(self.cells)
        return o


class State:
    __slots__ = ("mem", "own", "pc", "pcset", "dead", "gw", "guards", "shared")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.pc = ()
        self.pcset = frozenset()
        self.dead = frozenset()
        self.gw = frozenset()
        self.guards = 0
        self.shared = frozenset()      # objects other calls running at the same time may use

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.pc = self.pc
        s.pcset = self.pcset
        s.dead = self.dead
        s.gw = self.gw
        s.guards = self.guards
        s.shared = self.shared
        return s

    def assume(self, c):
        if c is TRUE or c.id in self.pcset:
            return
        self.pc = self.pc + (c,)
        if c.op == "and":
            self.pcset = self.pcset | {c.id} | {x.id for x in c.args}
        else:
            self.pcset = self.pcset | {c.id}

    def known(self, c):
        """True/False/None"""
        if c is TRUE or c.id in self.pcset:
            return True
        if c is FALSE or tm.not_(c).id in self.pcset:
            return False
        return None


class ErrPath:
    __slots__ = ("pc", "kind", "msg", "where", "hard")

    def __init__(self, pc, kind, msg, where, hard=True):
        self.pc = pc
        self.kind = kind
        self.msg = msg
        self.where = where
        self.hard = hard

    def __repr__(self):
        return "ErrPath(%s,%s,%s)" % (self.kind, self.msg, self.where)


MATH1 = {"sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
         "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "floor", "ceil", "trunc", "round",
         "nearbyint", "rint", "roundeven", "fabs"}
MATH2 = {"pow", "atan2", "fmod", "hypot", "fmin", "fmax", "copysign", "remainder", "fdim", "powi", "ldexp"}
MATH3 = {"fma"}


class Engine:
    def __init__(self, module, feasible=None, max_steps=3_000_000, max_paths=6000, merge=True):
        self.m = module
        self.next = 1
        self.base = {}
        self.gid = {}
        self.errors = []
        self.watch = False             # record writes to memory shared between calls
        self.seen_shared = set()
        self.feasible = feasible
        self.steps = 0
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.paths = 0
        self.nundef = 0
        self.called = set()
        self.merge = merge
        self.externals = set()
        self.notes = set()
        self.depth = 0
        self.active = {}               # function -> path conditions of the calls under way
        self._run_ctors()

    # ---- objects ---------------------------------------------------------
    def new_obj(self, st, size, kind, name):
        i = self.next
        self.next += 1
        o = Obj(size, kind, name)
        st.mem[i] = o
        st.own.add(i)
        return i

    def get(self, st, i):
        o = st.mem.get(i)
        if o is None:
            if i in st.dead:
                return None
            o = self.base.get(i)
        return o

    def shared_write(self, st, i):
        o = self.get(st, i)
        if o is None or not (i in st.shared or o.kind == "global" and not st.guards and not o.name.startswith("_ZGV")):
            return
        k = (i, tuple(c.id for c in st.pc))
        if k not in self.seen_shared:
            self.seen_shared.add(k)
            self.err(st, "shared", "writes %s" % ("an argument it may only read" if i in st.shared else "static " + o.name), "")

    def wget(self, st, i):
        if self.watch:
            self.shared_write(st, i)
        o = st.mem.get(i)
        if o is None:
            if i in st.dead:
                return None
            o = self.base.get(i)
            if o is None:
                return None
            if o.kind in ("global", "const", "tls"):
                st.gw = st.gw | {i}
            o = o.clone()
            st.mem[i] = o
            st.own.add(i)
        elif i not in st.own:
            o = o.clone()
            st.mem[i] = o
            st.own.add(i)
        return o

    def global_obj(self, name):
        i = self.gid.get(name)
        if i is None:
            g = self.m.globals[name]
            i = self.next
            self.next += 1
            self.gid[name] = i
            o = Obj(g["ty"].size, "const" if g["const"] else ("tls" if g["tls"] else "global"), name, g["const"])
            self.base[i] = o
            if g["init"]:
                self._init_cells(o, 0, g["ty"], self.m.const(g["init"]))
            else:
                self.externals.add(name)
                o.kind = "extern"
        return i

    def _init_cells(self, o, off, ty, c):
        if c[0] == "undef":
            return
        if ty.kind == "struct":
            for i, f in enumerate(ty.fields):
                self._init_cells(o, off + ty.offsets[i], f, c[2][i] if c[0] == "agg" else ("zero", f))
            return
        if ty.kind in ("array", "vector"):
            if c[0] == "zero" and ty.size > 65536:
                raise Unsupported("huge zero global")
            for i in range(ty.count):
                self._init_cells(o, off + i * ty.elem.size, ty.elem, c[2][i] if c[0] == "agg" else ("zero", ty.elem))
            return
        o.cells[off] = (ty.store, self._cval(c, ty))

    def _cval(self, c, ty):
        k = c[0]
        if k == "int":
            if c[1] == 1:
                return tm.tb(c[2])
            return tm.bvc(c[2], c[1])
        if k == "f32":
            return tm.fc(c[1], F32)
        if k == "f64":
            return tm.fc(c[1], F64)
        if k == "null":
            return Ptr(0, 0)
        if k == "func":
            return Fn(c[1])
        if k == "global":
            return Ptr(self.global_obj(c[1]), 0)
        if k == "gep":
            b = self._cval(c[1], None)
            if not isinstance(b, Ptr):
                raise Unsupported("const gep")
            return Ptr(b.obj, b.off + c[2])
        if k == "undef":
            return self.undef(ty if ty is not None else c[1])
        if k == "zero":
            ty = c[1]
            if ty.kind == "int":
                return FALSE if ty.width == 1 else tm.bvc(0, ty.width)
            if ty.kind == "float":
                return tm.fc(0, F32)
            if ty.kind == "double":
                return tm.fc(0, F64)
            if ty.kind == "ptr":
                return Ptr(0, 0)
            if ty.kind in ("array", "vector"):
                return Agg([self._cval(("zero", ty.elem), ty.elem) for _ in range(ty.count)])
            if ty.kind == "struct":
                return Agg([self._cval(("zero", f), f) for f in ty.fields])
        if k == "agg":
            ty = c[1]
            tys = ty.fields if ty.kind == "struct" else [ty.elem] * ty.count
            return Agg([self._cval(x, t) for x, t in zip(c[2], tys)])
        if k == "expr":
            raise Unsupported("constant expression %s" % c[1])
        raise Unsupported("constant %r" % (c,))

    def undef(self, ty):
        self.nundef += 1
        n = "undef!%d" % self.nundef
        if ty.kind == "int":
            if ty.width == 1:
                return tm.pvar(n)
            return tm.bvar(n, ty.width)
        if ty.kind == "float":
            return tm.fvar(n, F32)
        if ty.kind == "double":
            return tm.fvar(n, F64)
        if ty.kind == "ptr":
            return Ptr(-1, 0)
        if ty.kind in ("array", "vector"):
            return Agg([self.undef(ty.elem) for _ in range(ty.count)])
        if ty.kind == "struct":
            return Agg([self.undef(f) for f in ty.fields])
        raise Unsupported("undef of %r" % ty)

    def _run_ctors(self):
        g = self.m.globals.get("llvm.global_ctors")
        if not g or not g["init"]:
            return
        c = self.m.const(g["init"])
        if c[0] != "agg":
            return
        ents = sorted(c[2], key=lambda e: e[2][0][2] if e[2][0][0] == "int" else 0)
        st = State()
        for e in ents:
            f = e[2][1]
            if f[0] != "func":
                continue
            try:
                rs = self.call(st, f[1], [])
            except Unsupported as ex:
                self.notes.add("static initialiser %s not modelled: %s" % (f[1], ex))
                continue
            if len(rs) != 1:
                raise Unsupported("forking static initialiser")
            st = rs[0][0]
        for i, o in st.mem.items():
            if o.kind in ("global", "const", "tls"):
                self.base[i] = o
        if self.errors:
            raise Unsupported("error in static initialiser %r" % self.errors)

    # ---- errors ------------------------------------------------------------
    def err(self, st, kind, msg, where, cond=None, hard=True):
        pc = st.pc
        if cond is not None:
            k = st.known(cond)
            if k is False or cond is FALSE:
                return
            if cond is not TRUE:
                pc = pc + (cond,)
        self.errors.append(ErrPath(pc, kind, msg, where, hard))

    # ---- memory --------------------------------------------------------------
    def _bits(self, v):
        if isinstance(v, T):
            if v.sort in (F32, F64):
                return tm.f2b(v)
            if v.sort == BOOL:
                return tm.b2bv(v, 8)
            return v
        raise Unsupported("bits of %r" % (v,))

    def _load_bytes(self, o, off, n):
        """list of (width_in_bytes, bvterm) from low to high; None for uninit"""
        out = []
        p = off
        end = off + n
        starts = o.cells
        while p < end:
            c = starts.get(p)
            if c is not None and p + c[0] <= end:
                out.append((c[0], c[1]))
                p += c[0]
                continue
            # cell covering p
            found = None
            for q in range(p, max(p - 64, -1), -1):
                c = starts.get(q)
                if c is not None:
                    if q + c[0] > p:
                        found = (q, c)
                    break
            if found is None:
                out.append((1, None))
                p += 1
                continue
            q, c = found
            e = min(end, q + c[0])
            b = self._bits(c[1])
            if tm.width(b) < 8 * c[0]:
                b = tm.zext(b, 8 * c[0])
            out.append((e - p, tm.extract(8 * (e - q) - 1, 8 * (p - q), b)))
            p = e
        return out

    def load_at(self, st, o, off, ty):
        if ty.kind in ("vector", "array"):
            es = ty.elem.store
            if ty.elem.kind == "int" and ty.elem.width == 1 and ty.kind == "vector":
                raise Unsupported("i1 vector load")
            return Agg([self.load_at(st, o, off + i * es, ty.elem) for i in range(ty.count)])
        if ty.kind == "struct":
            return Agg([self.load_at(st, o, off + ty.offsets[i], f) for i, f in enumerate(ty.fields)])
        n = ty.store
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
        else:
            parts = self._load_bytes(o, off, n)
            if len(parts) == 1 and parts[0][0] == n and parts[0][1] is not None:
                v = parts[0][1]
            else:
                acc = None
                for w, b in parts:
                    if b is None:
                        self.nundef += 1
                        b = tm.bvar("undef!%d" % self.nundef, 8 * w)
                    else:
                        b = self._bits(b)
                        if tm.width(b) < 8 * w:
                            b = tm.zext(b, 8 * w)
                    acc = b if acc is None else tm.concat(b, acc)
                v = acc
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        """value read from memory -> value of IR type ty"""
        k = ty.kind
        if k == "ptr":
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, T) and v.op == "bvc" and v.attr == 0:
                return Ptr(0, 0)
            raise Unsupported("pointer from data")
        if isinstance(v, (Ptr, Fn)):
            if k == "int" and ty.width == 64:
                return PInt(v)
            raise Unsupported("data from pointer")
        if isinstance(v, PInt):
            if k == "int" and ty.width == 64:
                return v
            raise Unsupported("data from pointer")
        if k == "float":
            if v.sort == F32:
                return v
            return tm.b2f(v)
        if k == "double":
            if v.sort == F64:
                return v
            return tm.b2f(self._bits(v))
        if k == "int":
            b = self._bits(v)
            if ty.width == 1:
                return tm.bv2b(tm.extract(0, 0, b))
            if tm.width(b) > ty.width:
                b = tm.extract(ty.width - 1, 0, b)
            elif tm.width(b) < ty.width:
                b = tm.zext(b, ty.width)
            return b
        raise Unsupported("load type %r" % ty)

    def _clear(self, o, off, n):
        """make [off,off+n) free of cells, splitting partial overlaps"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            return
        hit = []
        for q in range(max(0, off - 64), off + n):
            c = cells.get(q)
            if c is not None and q + c[0] > off:
                hit.append((q, c))
        for q, c in hit:
            del cells[q]
            if q < off or q + c[0] > off + n:
                if isinstance(c[1], T):
                    b = self._bits(c[1])
                    if tm.width(b) < 8 * c[0]:
                        b = tm.zext(b, 8 * c[0])
                    if q < off:
                        cells[q] = (off - q, tm.extract(8 * (off - q) - 1, 0, b))
                    if q + c[0] > off + n:
                        s = off + n - q
                        cells[off + n] = (q + c[0] - off - n, tm.extract(8 * c[0] - 1, 8 * s, b))
                # a partially overwritten pointer becomes uninitialised

    def store_at(self, o, off, ty, v):
        if ty.kind in ("vector", "array"):
            es = ty.elem.store
            if ty.elem.kind == "int" and ty.elem.width == 1 and ty.kind == "vector":
                raise Unsupported("i1 vector store")
            for i in range(ty.count):
                self.store_at(o, off + i * es, ty.elem, v.v[i])
            return
        if ty.kind == "struct":
            for i, f in enumerate(ty.fields):
                self.store_at(o, off + ty.offsets[i], f, v.v[i])
            return
        n = ty.store
        self._clear(o, off, n)
        if isinstance(v, T) and v.sort not in (F32, F64, BOOL):
            w = tm.width(v)
            if w < 8 * n:
                v = tm.zext(v, 8 * n)
            # split coerced aggregates back into their pieces
            if v.op in ("concat", "zext") and n > 1:
                ps = tm._parts(v)
                if len(ps) > 1 and all(tm.width(x) % 8 == 0 for x in ps):
                    if o.cells.get(off):
                        del o.cells[off]
                    p = off
                    for x in reversed(ps):
                        bw = tm.width(x) // 8
                        o.cells[p] = (bw, x)
                        p += bw
                    return
        elif isinstance(v, T) and v.sort == BOOL:
            v = tm.b2bv(v, 8)
        o.cells[off] = (n, v)

    def _cands(self, st, o, off, n):
        """concrete candidate offsets for a symbolic pointer"""
        return [c for c in sorted(o.cells) if c + n <= o.size]

    def deref(self, st, p, n, where, write):
        """-> list of (guard, offset) ; records out-of-bounds errors; [] when certainly bad"""
        if isinstance(p, (Fn, PInt)):
            self.err(st, "memory", "access through a non-data pointer", where)
            return None, []
        if p.obj in (0, -1):
            self.err(st, "memory", "null or uninitialised pointer access", where)
            return None, []
        o = self.get(st, p.obj)
        if o is None:
            self.err(st, "memory", "access to an object whose lifetime has ended", where)
            return None, []
        if write and o.ro:
            self.err(st, "memory", "write to read-only %s" % o.name, where)
            return None, []
        if isinstance(p.off, int):
            if p.off < 0 or p.off + n > o.size:
                self.err(st, "memory", "out-of-bounds %s at byte %d of %s (%d bytes)" %
                         ("write" if write else "read", p.off, o.kind, o.size), where)
                return o, []
            return o, [(TRUE, p.off)]
        cands = []
        oks = []
        step = _stride(p.off) or 1
        base = _const_part(p.off) % step
        for c in range(0, o.size - n + 1):
            if c % step == base:
                g = tm.icmp("eq", p.off, tm.bvc(c, 64))
                if g is FALSE or st.known(g) is False:
                    continue
                cands.append((g, c))
                oks.append(g)
        inb = tm.or_(*oks) if oks else FALSE
        self.err(st, "memory", "out-of-bounds %s of %s (%d bytes) at a variable offset" %
                 ("write" if write else "read", o.kind, o.size), where, tm.not_(inb))
        st.assume(inb)
        return o, cands

    def load(self, st, p, ty, where):
        o, cs = self.deref(st, p, ty.store, where, False)
        if not cs:
            return None
        if o.kind == "extern":
            raise Unsupported("load from external global %s" % o.name)
        if len(cs) == 1 and cs[0][0] is TRUE:
            return self.load_at(st, o, cs[0][1], ty)
        acc = None
        for g, c in reversed(cs):
            v = self.load_at(st, o, c, ty)
            acc = v if acc is None else self.vite(g, v, acc)
        return acc

    def vite(self, g, a, b):
        if same(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return tm.ite(g, a, b)
        if isinstance(a, Agg):
            return Agg([self.vite(g, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, tm.ite(g, _offt(a.off), _offt(b.off)))
        raise Unsupported("merge of %r and %r" % (a, b))

    def store(self, st, p, ty, v, where):
        o, cs = self.deref(st, p, ty.store, where, True)
        if not cs:
            return False
        o = self.wget(st, p.obj)
        if len(cs) == 1 and cs[0][0] is TRUE:
            self.store_at(o, cs[0][1], ty, v)
            return True
        for g, c in cs:
            old = self.load_at(st, o, c, ty)
            self.store_at(o, c, ty, self.vite(g, v, old))
        return True

    def memcpy(self, st, d, s, n, where):
        if n == 0:
            return True
        so, sc = self.deref(st, s, n, where, False)
        do, dc = self.deref(st, d, n, where, True)
        if not sc or not dc:
            return False
        if len(sc) != 1 or len(dc) != 1:
            # symbolic offset: word-wise
            for k in range(0, n, 4):
                w = min(4, n - k)
                ty = _int_type(8 * w)
                v = self.load(st, _padd(s, k), ty, where)
                if v is None or not self.store(st, _padd(d, k), ty, v, where):
                    return False
            return True
        sp, dp = sc[0][1], dc[0][1]
        parts = self._load_bytes(so, sp, n)
        do = self.wget(st, d.obj)
        # free destination
        self._clear(do, dp, n)
        for q in [q for q in do.cells if dp <= q < dp + n]:
            del do.cells[q]
        p = dp
        for w, v in parts:
            if v is not None:
                do.cells[p] = (w, v)
            p += w
        return True

    # ---- execution -----------------------------------------------------------
    def call(self, st, name, args):
        """-> list of (state, retval)"""
        fn = self.m.functions.get(name)
        if fn is None or fn.isdecl:
            return self.external(st, name, args)
        self.m.load(fn)
        self.called.add(name)
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Unsupported("recursion too deep in %s" % name)
        at = self.active.setdefault(name, [])
        if len(at) > 4 and len({len(pc) for pc in at[-4:] + [st.pc]}) == 5:
            # each call depends on a condition of its own: the rest of this path is left undecided
            self.err(st, "recursion", "unbounded calls of %s" % name, name)
            self.depth -= 1
            return []
        at.append(st.pc)
        try:
            return self._run(st, fn, args)
        finally:
            at.pop()
            self.depth -= 1

    def _run(self, st, fn, args):
        regs = {}
        for (p, _ty), a in zip(fn.params, args):
            regs[p] = a
        base_pc = st.pc
        nerr0 = len(self.errors)
        allocas = []
        for i, ty in fn.byval.items():
            p = fn.params[i][0]
            j = self.new_obj(st, ty.size, "stack", fn.name + " byval")
            allocas.append(j)
            if not self.memcpy(st, Ptr(j, 0), regs[p], ty.size, fn.name):
                return []
            regs[p] = Ptr(j, 0)
        done = []
        lost = [False]
        work = [(fn.entry, 0, None, regs, st, {})]
        while work:
            blk, idx, prev, regs, st, loops = work.pop()
            b = fn.blocks[blk]
            instrs = b.instrs
            n = len(instrs)
            while True:
                if idx >= n:
                    raise Unsupported("fell off block")
                ins = instrs[idx]
                op = ins.op
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget("instruction budget exhausted in %s" % fn.name)
                if op == "phi":
                    # evaluate all phis at once
                    vals = []
                    while instrs[idx].op == "phi":
                        pi = instrs[idx]
                        vals.append((pi.id, self.val(regs, pi.x[prev], pi.ty)))
                        idx += 1
                    for k, v in vals:
                        regs[k] = v
                    continue
                if op == "br":
                    if len(ins.x) == 1:
                        nb = ins.x[0]
                        prev, blk, idx = blk, nb, 0
                        b = fn.blocks[blk]
                        instrs = b.instrs
                        n = len(instrs)
                        continue
                    c = self.val(regs, ins.ops[0], None)
                    k = st.known(c)
                    if k is None:
                        cnt = loops.get(ins.id, 0) + 1
                        if cnt > 2 and self.feasible is not None:
                            ft = self.feasible(st.pc + (c,))
                            ff = self.feasible(st.pc + (tm.not_(c),))
                            if ft is False:
                                k = False
                            elif ff is False:
                                k = True
                        if cnt > 200:
                            raise Budget("loop bound exceeded in %s" % fn.name)
                    if k is not None:
                        # br operands: successor 0 = true, 1 = false
                        nb = ins.x[0] if k else ins.x[1]
                    else:
                        loops = dict(loops)
                        loops[ins.id] = cnt
                        s2 = st.fork()
                        s2.assume(tm.not_(c))
                        st.assume(c)
                        work.append((ins.x[1], 0, blk, dict(regs), s2, loops))
                        self.paths += 1
                        if self.paths > self.max_paths:
                            raise Budget("path budget exhausted in %s" % fn.name)
                        nb = ins.x[0]
                    prev, blk, idx = blk, nb, 0
                    b = fn.blocks[blk]
                    instrs = b.instrs
                    n = len(instrs)
                    continue
                if op == "switch":
                    v = self.val(regs, ins.ops[0], None)
                    dflt, cases = ins.x
                    if isinstance(v, T) and v.sort == BOOL:
                        v = tm.b2bv(v, 8)
                    w = tm.width(v)
                    targets = []
                    rest = TRUE
                    for cv, tb in cases:
                        g = tm.icmp("eq", v, tm.bvc(cv, w))
                        k = st.known(g)
                        if k is False:
                            continue
                        targets.append((g, tb))
                        rest = tm.and_(rest, tm.not_(g))
                        if k is True:
                            break
                    if rest is not FALSE and not (targets and st.known(targets[-1][0]) is True):
                        targets.append((rest, dflt))
                    if st.known(targets[-1][0]) is True:
                        targets = targets[-1:]
                    for g, tb in targets[1:]:
                        s2 = st.fork()
                        s2.assume(g)
                        work.append((tb, 0, blk, dict(regs), s2, loops))
                        self.paths += 1
                        if self.paths > self.max_paths:
                            raise Budget("path budget exhausted in %s" % fn.name)
                    st.assume(targets[0][0])
                    prev, blk, idx = blk, targets[0][1], 0
                    b = fn.blocks[blk]
                    instrs = b.instrs
                    n = len(instrs)
                    continue
                if op == "ret":
                    rv = self.val(regs, ins.ops[0], None) if ins.ops else None
                    done.append((st, rv))
                    break
                if op == "unreachable":
                    self.err(st, "unreachable", "unreachable code executed", fn.name)
                    lost[0] = True
                    break
                if op in ("call", "invoke"):
                    callee = self.val(regs, ins.x[0], None)
                    if not isinstance(callee, Fn):
                        raise Unsupported("indirect call")
                    a = [self.val(regs, o, t) for o, t in zip(ins.ops, ins.x[1])]
                    e0 = len(self.errors)
                    rs = self.call(st, callee.name, a)
                    if not rs:
                        lost[0] = True
                        break
                    nxt = None
                    if op == "invoke":
                        nxt = ins.x[2]
                    for s2, rv in rs[1:]:
                        r2 = dict(regs)
                        if ins.ty.kind != "void":
                            r2[ins.id] = rv
                        if nxt:
                            work.append((nxt, 0, blk, r2, s2, loops))
                        else:
                            work.append((blk, idx + 1, prev, r2, s2, loops))
                        self.paths += 1
                        if self.paths > self.max_paths:
                            raise Budget("path budget exhausted in %s" % fn.name)
                    st, rv = rs[0]
                    if ins.ty.kind != "void":
                        regs[ins.id] = rv
                    if nxt:
                        prev, blk, idx = blk, nxt, 0
                        b = fn.blocks[blk]
                        instrs = b.instrs
                        n = len(instrs)
                    else:
                        idx += 1
                    continue
                if op == "alloca":
                    cnt = self.val(regs, ins.ops[0], None)
                    if cnt.op != "bvc":
                        raise Unsupported("variable-size alloca")
                    i = self.new_obj(st, ins.x.size * cnt.attr, "stack", fn.name)
                    allocas.append(i)
                    regs[ins.id] = Ptr(i, 0)
                elif op == "load":
                    p = self.val(regs, ins.ops[0], None)
                    v = self.load(st, p, ins.ty, fn.name)
                    if v is None:
                        lost[0] = True
                        break
                    regs[ins.id] = v
                elif op == "store":
                    v = self.val(regs, ins.ops[0], ins.x)
                    p = self.val(regs, ins.ops[1], None)
                    if not self.store(st, p, ins.x, v, fn.name):
                        lost[0] = True
                        break
                elif op == "select":
                    c = self.val(regs, ins.ops[0], None)
                    a = self.val(regs, ins.ops[1], ins.ty)
                    d = self.val(regs, ins.ops[2], ins.ty)
                    if isinstance(c, Agg):
                        regs[ins.id] = Agg([self.vite(x, y, z) for x, y, z in zip(c.v, a.v, d.v)])
                    else:
                        k = st.known(c)
                        if k is not None:
                            regs[ins.id] = a if k else d
                        else:
                            try:
                                regs[ins.id] = self.vite(c, a, d)
                            except Unsupported:
                                s2 = st.fork()
                                s2.assume(tm.not_(c))
                                st.assume(c)
                                r2 = dict(regs)
                                r2[ins.id] = d
                                regs[ins.id] = a
                                work.append((blk, idx + 1, prev, r2, s2, loops))
                                self.paths += 1
                else:
                    regs[ins.id] = self.simple(st, regs, ins, fn)
                idx += 1
        # release frame objects, merge
        for s, _ in done:
            for i in allocas:
                s.mem.pop(i, None)
            s.dead = s.dead | frozenset(allocas)
        if self.merge and len(done) > 1:
            done = self.merge_states(done, base_pc, lost[0])
        return done

    def merge_states(self, done, base_pc, lost):
        nb = len(base_pc)
        groups = []
        for s, rv in done:
            for g in groups:
                if self._mergeable(g[0][0], g[0][1], s, rv):
                    g.append((s, rv))
                    break
            else:
                groups.append([(s, rv)])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            whole = len(groups) == 1 and not lost
            out.append(self._merge(g, base_pc, nb, whole))
        return out

    def _cellmap(self, st, i):
        o = self.get(st, i)
        return o

    def _mergeable(self, s1, r1, s2, r2):
        if not self._vm(r1, r2):
            return False
        if s1.guards != s2.guards:
            return False
        ids = set(s1.mem) | set(s2.mem)
        for i in ids:
            o1, o2 = self.get(s1, i), self.get(s2, i)
            if o1 is o2 or o1 is None or o2 is None:
                continue
            if o1.cells == o2.cells:
                continue
            if set(o1.cells) != set(o2.cells):
                return False
            for k, c1 in o1.cells.items():
                c2 = o2.cells[k]
                if c1[0] != c2[0] or not self._vm(c1[1], c2[1]):
                    return False
        return True

    def _vm(self, a, b):
        if same(a, b):
            return True
        if isinstance(a, T) and isinstance(b, T):
            return True
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
            return all(self._vm(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return True
        return False

    def _mv(self, g, a, b):
        if same(a, b):
            return a
        if isinstance(a, T) and isinstance(b, T) and a.sort != b.sort:
            a, b = self._bits(a), self._bits(b)
        return self.vite(g, a, b)

    def _merge(self, g, base_pc, nb, whole):
        deltas = []
        for s, _ in g:
            deltas.append(tm.and_(*s.pc[nb:]) if len(s.pc) > nb else TRUE)
        res, rv = g[-1]
        m = State()
        m.mem = dict(res.mem)
        m.own = set()
        m.guards = res.guards
        m.dead = frozenset().union(*[s.dead for s, _ in g])
        m.gw = frozenset().union(*[s.gw for s, _ in g])
        m.shared = frozenset().union(*[s.shared for s, _ in g])
        for (s, r), d in list(zip(g, deltas))[-2::-1]:
            rv = None if r is None else self._mv(d, r, rv)
            for i in set(m.mem) | set(s.mem):
                o1, o2 = self.get(s, i), self.get(m, i)
                if o1 is o2 or o1 is None or o2 is None:
                    continue
                if o1.cells == o2.cells:
                    continue
                o = o2.clone()
                for k, c1 in o1.cells.items():
                    c2 = o2.cells[k]
                    if not same(c1[1], c2[1]):
                        o.cells[k] = (c1[0], self._mv(d, c1[1], c2[1]))
                m.mem[i] = o
        m.pc = base_pc
        s0 = g[0][0]
        m.pcset = frozenset()
        for c in base_pc:
            m.pcset = m.pcset | {c.id}
            if c.op == "and":
                m.pcset = m.pcset | {x.id for x in c.args}
        if not whole:
            m.assume(tm.or_(*deltas))
        return (m, rv)

    # ---- values ---------------------------------------------------------------
    def val(self, regs, o, ty):
        k = o[0]
        if k == "r":
            try:
                return regs[o[1]]
            except KeyError:
                raise Unsupported("use of undefined register: " + self.m.describe(o[1]))
        if k == "c":
            try:
                return self._cval(self.m.const(o[1]), ty)
            except Unsupported:
                raise
        raise Unsupported("operand kind %s" % k)

    def simple(self, st, regs, ins, fn):
        op = ins.op
        ty = ins.ty
        V = self.val
        if op == "getelementptr":
            return self.gep(regs, ins)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            a, b = V(regs, ins.ops[0], ty), V(regs, ins.ops[1], ty)
            return self.lift(lambda x, y: tm.fbin(op, x, y) if op != "frem" else tm.fun("fmod", x, y), a, b)
        if op == "fneg":
            return self.lift(tm.fneg, V(regs, ins.ops[0], ty))
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a, b = V(regs, ins.ops[0], ty), V(regs, ins.ops[1], ty)
            if isinstance(a, PInt) and isinstance(b, PInt) and op == "sub":
                if a.p.obj == b.p.obj:
                    return tm.bvop("sub", _offt(a.p.off), _offt(b.p.off))
                raise Unsupported("difference of unrelated pointers")
            if isinstance(a, PInt) or isinstance(b, PInt):
                raise Unsupported("integer arithmetic on a pointer value")
            if op in ("udiv", "sdiv", "urem", "srem") and isinstance(b, T):
                w = tm.width(b)
                self.err(st, "ub", "integer division by zero", fn.name, tm.icmp("eq", b, tm.bvc(0, w)))
                if op in ("sdiv", "srem"):
                    self.err(st, "ub", "signed division overflow", fn.name,
                             tm.and_(tm.icmp("eq", b, tm.bvc(-1, w)), tm.icmp("eq", a, tm.bvc(1 << (w - 1), w))))
            if op in ("shl", "lshr", "ashr") and isinstance(b, T):
                w = tm.width(b)
                self.err(st, "ub", "shift amount out of range", fn.name,
                         tm.not_(tm.icmp("ult", b, tm.bvc(w, w))))
            return self.lift(lambda x, y: self.ibin(op, x, y), a, b)
        if op == "icmp":
            a, b = V(regs, ins.ops[0], None), V(regs, ins.ops[1], None)
            return self.icmp(ins.x, a, b)
        if op == "fcmp":
            a, b = V(regs, ins.ops[0], None), V(regs, ins.ops[1], None)
            return self.lift(lambda x, y: tm.fcmp(ins.x, x, y), a, b)
        if op in ("zext", "sext", "trunc"):
            a = V(regs, ins.ops[0], ins.x)
            return self.lift(lambda x: self.iconv(op, x, ty), a, et=ty)
        if op == "bitcast":
            a = V(regs, ins.ops[0], ins.x)
            return self.bitcast(a, ins.x, ty)
        if op in ("fpext", "fptrunc"):
            a = V(regs, ins.ops[0], ins.x)
            t = ty.elem if ty.kind == "vector" else ty
            if t.kind not in ("float", "double"):
                raise Unsupported("float type %r" % t)
            return self.lift(lambda x: tm.fcast(x, F32 if t.kind == "float" else F64), a)
        if op in ("sitofp", "uitofp"):
            a = V(regs, ins.ops[0], ins.x)
            t = ty.elem if ty.kind == "vector" else ty

            def cv(x):
                if x.sort == BOOL:
                    r = tm.ite(x, tm.fconst(1.0 if op == "uitofp" else -1.0, F32 if t.kind == "float" else F64),
                               tm.fconst(0.0, F32 if t.kind == "float" else F64))
                    return r
                return tm.i2f(x, op == "sitofp", F32 if t.kind == "float" else F64)
            return self.lift(cv, a)
        if op in ("fptosi", "fptoui"):
            a = V(regs, ins.ops[0], ins.x)
            t = ty.elem if ty.kind == "vector" else ty
            return self.lift(lambda x: tm.f2i(x, op == "fptosi", t.width), a)
        if op == "extractvalue":
            v = V(regs, ins.ops[0], None)
            for i in ins.x:
                v = v.v[i]
            return v
        if op == "insertvalue":
            return self.insertv(V(regs, ins.ops[0], ty), V(regs, ins.ops[1], None), ins.x)
        if op == "extractelement":
            v = V(regs, ins.ops[0], None)
            i = V(regs, ins.ops[1], None)
            if i.op == "bvc":
                return v.v[i.attr]
            acc = v.v[-1]
            for k in range(len(v.v) - 2, -1, -1):
                acc = self.vite(tm.icmp("eq", i, tm.bvc(k, tm.width(i))), v.v[k], acc)
            return acc
        if op == "insertelement":
            v = V(regs, ins.ops[0], ty)
            e = V(regs, ins.ops[1], ty.elem)
            i = V(regs, ins.ops[2], None)
            if i.op == "bvc":
                r = list(v.v)
                r[i.attr] = e
                return Agg(r)
            return Agg([self.vite(tm.icmp("eq", i, tm.bvc(k, tm.width(i))), e, x) for k, x in enumerate(v.v)])
        if op == "shufflevector":
            a, b = V(regs, ins.ops[0], None), V(regs, ins.ops[1], None)
            allv = a.v + b.v
            return Agg([allv[i] if i >= 0 else self.undef(ty.elem) for i in ins.x])
        if op == "freeze":
            return V(regs, ins.ops[0], ty)
        if op == "ptrtoint":
            p = V(regs, ins.ops[0], None)
            if isinstance(p, Ptr) and p.obj == 0 and isinstance(p.off, int):
                return tm.bvc(p.off, 64)
            return PInt(p)
        if op == "inttoptr":
            p = V(regs, ins.ops[0], None)
            if isinstance(p, PInt):
                return p.p
            raise Unsupported("inttoptr")
        raise Unsupported("instruction %s" % op)

    def lift(self, f, *a, et=None):
        if any(isinstance(x, Agg) for x in a):
            return Agg([f(*xs) for xs in zip(*[x.v for x in a])])
        return f(*a)

    def ibin(self, op, x, y):
        if x.sort == BOOL or y.sort == BOOL:
            xb = x if x.sort == BOOL else tm.bv2b(x)
            yb = y if y.sort == BOOL else tm.bv2b(y)
            if op == "and":
                return tm.and_(xb, yb)
            if op == "or":
                return tm.or_(xb, yb)
            if op in ("xor", "add", "sub"):
                return tm.not_(tm.beq(xb, yb))
            if op == "mul":
                return tm.and_(xb, yb)
            raise Unsupported("i1 %s" % op)
        return tm.bvop(op, x, y)

    def iconv(self, op, x, ty):
        if isinstance(x, PInt):
            raise Unsupported("integer conversion of a pointer value")
        t = ty.elem if ty.kind == "vector" else ty
        if x.sort == BOOL:
            if op == "zext":
                return tm.b2bv(x, t.width)
            if op == "sext":
                return tm.ite(x, tm.bvc(-1, t.width), tm.bvc(0, t.width))
        if op == "trunc":
            if t.width == 1:
                return tm.bv2b(tm.extract(0, 0, x))
            return tm.extract(t.width - 1, 0, x)
        return tm.zext(x, t.width) if op == "zext" else tm.sext(x, t.width)

    def bitcast(self, a, sty, ty):
        if sty is ty or (sty.kind == "ptr" and ty.kind == "ptr"):
            return a
        vals = a.v if isinstance(a, Agg) else [a]
        acc = None
        for v in vals:
            b = self._bits(v)
            acc = b if acc is None else tm.concat(b, acc)
        if ty.kind == "vector":
            w = ty.elem.width if ty.elem.kind == "int" else (32 if ty.elem.kind == "float" else 64)
            return Agg([self.coerce(tm.extract(w * (i + 1) - 1, w * i, acc), ty.elem) for i in range(ty.count)])
        return self.coerce(acc, ty)

    def insertv(self, agg, v, path):
        r = list(agg.v)
        r[path[0]] = v if len(path) == 1 else self.insertv(r[path[0]], v, path[1:])
        return Agg(r)

    def icmp(self, pred, a, b):
        if isinstance(a, Agg):
            return Agg([self.icmp(pred, x, y) for x, y in zip(a.v, b.v)])
        if isinstance(a, (Ptr, PInt, Fn)) or isinstance(b, (Ptr, PInt, Fn)):
            pa = a.p if isinstance(a, PInt) else a
            pb = b.p if isinstance(b, PInt) else b
            if isinstance(pa, T) and pa.op == "bvc" and pa.attr == 0:
                pa = Ptr(0, 0)
            if isinstance(pb, T) and pb.op == "bvc" and pb.attr == 0:
                pb = Ptr(0, 0)
            if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.obj == pb.obj:
                return tm.icmp(pred, _offt(pa.off), _offt(pb.off))
            if pred in ("eq", "ne"):
                if isinstance(pa, Fn) and isinstance(pb, Fn):
                    return tm.tb((pa.name == pb.name) == (pred == "eq"))
                return tm.tb(pred == "ne")
            if isinstance(pa, Ptr) and isinstance(pb, Ptr):
                # ordering of unrelated objects: arbitrary but fixed
                return tm.icmp(pred, tm.bvc(pa.obj << 32, 64), tm.bvc(pb.obj << 32, 64))
            raise Unsupported("pointer comparison")
        if a.sort == BOOL:
            if pred == "eq":
                return tm.beq(a, b)
            if pred == "ne":
                return tm.not_(tm.beq(a, b))
            return tm.icmp(pred, _b1(a, pred), _b1(b, pred))
        return tm.icmp(pred, a, b)

    def gep(self, regs, ins):
        p = self.val(regs, ins.ops[0], None)
        if isinstance(p, Agg):
            raise Unsupported("vector gep")
        if isinstance(p, Fn):
            raise Unsupported("gep on function")
        cur = ins.x
        off = 0
        sym = None
        for k, o in enumerate(ins.ops[1:]):
            i = self.val(regs, o, None)
            if isinstance(i, T) and i.op == "bvc":
                v = tm.sx(i.attr, tm.width(i))
                if k == 0:
                    off += v * cur.size
                elif cur.kind == "struct":
                    off += cur.offsets[v]
                    cur = cur.fields[v]
                else:
                    cur = cur.elem
                    off += v * cur.size
            else:
                if k == 0:
                    sz = cur.size
                else:
                    cur = cur.elem
                    sz = cur.size
                if not isinstance(i, T):
                    raise Unsupported("gep index")
                i64 = tm.sext(i, 64)
                s = tm.bvop("mul", i64, tm.bvc(sz, 64))
                sym = s if sym is None else tm.bvop("add", sym, s)
        if sym is None:
            return _padd(p, off)
        t = tm.bvop("add", sym, tm.bvc(off, 64))
        t = tm.bvop("add", t, _offt(p.off))
        return Ptr(p.obj, t.attr if t.op == "bvc" else t)

    # ---- externals --------------------------------------------------------------
    def external(self, st, name, args):
        def conc(x):
            if isinstance(x, T) and x.op == "bvc":
                return x.attr
            raise Unsupported("symbolic size in %s" % name)
        if name.startswith("llvm."):
            base = name.split(".")[1]
            if base in ("lifetime", "dbg", "assume", "donothing", "experimental", "invariant", "stackrestore", "prefetch", "var"):
                return [(st, None)]
            if base == "stacksave":
                return [(st, Ptr(0, 0))]
            if base in ("memcpy", "memmove"):
                ok = self.memcpy(st, args[0], args[1], conc(args[2]), name)
                return [(st, None)] if ok else []
            if base == "memset":
                n = conc(args[2])
                v = args[1]
                if n == 0:
                    return [(st, None)]
                o, cs = self.deref(st, args[0], n, name, True)
                if not cs:
                    return []
                if len(cs) != 1:
                    raise Unsupported("memset at a symbolic offset")
                o = self.wget(st, args[0].obj)
                off = cs[0][1]
                self._clear(o, off, n)
                for q in [q for q in o.cells if off <= q < off + n]:
                    del o.cells[q]
                k = 0
                while k < n:
                    if v.op == "bvc" and (off + k) % 4 == 0 and k + 4 <= n:
                        o.cells[off + k] = (4, tm.bvc(v.attr * 0x01010101, 32))
                        k += 4
                    else:
                        o.cells[off + k] = (1, v)
                        k += 1
                return [(st, None)]
            if base in ("expect", "launder", "strip", "threadlocal", "ptr"):
                return [(st, args[0])]
            if base == "trap" or base == "ubsantrap":
                self.err(st, "abort", "trap", name)
                return []
            if base == "is" and name.startswith("llvm.is.fpclass"):
                return [(st, self.lift(lambda x: self.fpclass(x, conc(args[1])), args[0]))]
            if base in ("minnum", "maxnum"):
                return [(st, self.lift(lambda x, y: tm.fbin({"minnum": "fmin", "maxnum": "fmax"}[base], x, y), *args))]
            if base == "fmuladd":
                # compiled with -ffp-contract=off this does not occur; not fused
                return [(st, self.lift(lambda x, y, z: tm.fbin("fadd", tm.fbin("fmul", x, y), z), *args))]
            if base in MATH1:
                return [(st, self.lift(lambda x: self.math(base, [x]), args[0]))]
            if base in ("fma", "copysign", "pow"):
                return [(st, self.lift(lambda *x: self.math(base, list(x)), *args))]
            if base in ("smax", "smin", "umax", "umin"):
                p = {"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[base]
                return [(st, self.lift(lambda x, y: tm.ite(tm.icmp(p, x, y), x, y), *args))]
            if base == "abs":
                return [(st, self.lift(lambda x: tm.ite(tm.icmp("slt", x, tm.bvc(0, tm.width(x))), tm.bvneg(x), x), args[0]))]
            if base in ("fshl", "fshr"):
                a, b, c = args
                w = tm.width(a)
                sh = conc(c) % w
                if sh == 0:
                    return [(st, a if base == "fshl" else b)]
                cc = tm.concat(a, b)
                return [(st, tm.extract(2 * w - 1 - sh, w - sh, cc) if base == "fshl" else tm.extract(sh + w - 1, sh, cc))]
            if base in ("sadd", "ssub", "uadd", "usub", "smul", "umul") and "overflow" in name:
                a, b = args
                w = tm.width(a)
                o = base[1:]
                ext = tm.sext if base[0] == "s" else tm.zext
                wide = tm.bvop(o, ext(a, 2 * w), ext(b, 2 * w))
                r = tm.extract(w - 1, 0, wide)
                return [(st, Agg([r, tm.not_(tm.icmp("eq", ext(r, 2 * w), wide))]))]
            if base == "objectsize":
                return [(st, tm.bvc(-1, 64))]
            raise Unsupported("intrinsic %s" % name)
        if name in ("__assert_fail", "__assert", "__assert_perror_fail"):
            self.err(st, "assert", self.cstr(st, args[0]), self.cstr(st, args[3]) if len(args) > 3 else "")
            return []
        if name in ("abort", "_ZSt9terminatev", "__cxa_throw", "__clang_call_terminate", "__cxa_pure_virtual",
                    "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt20__throw_out_of_rangePKc", "__cxa_rethrow",
                    "_ZSt21__glibcxx_assert_failPKciS0_S0_", "_ZSt17__throw_bad_allocv", "exit", "_exit"):
            self.err(st, "abort", name, "")
            return []
        if name == "zh_share":
            if isinstance(args[0], Ptr):
                st.shared = st.shared | {args[0].obj}
            return [(st, None)]
        if name == "__cxa_guard_acquire":
            v = self.load(st, args[0], _int_type(8), name)
            if v is None:
                return []
            st.guards += 1
            z = tm.icmp("eq", v, tm.bvc(0, 8)) if not isinstance(v, T) or v.op == "bvc" else None
            if z is None:
                raise Unsupported("symbolic static guard")
            return [(st, tm.b2bv(z, 32))]
        if name == "__cxa_guard_release":
            self.store(st, args[0], _int_type(8), tm.bvc(1, 8), name)
            st.guards -= 1
            return [(st, None)]
        if name in ("__cxa_atexit", "atexit"):
            return [(st, tm.bvc(0, 32))]
        if name in ("malloc", "_Znwm", "_Znam"):
            i = self.new_obj(st, conc(args[0]), "heap", name)
            return [(st, Ptr(i, 0))]
        if name in ("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm"):
            if args[0].obj > 0:
                st.mem.pop(args[0].obj, None)
                st.dead = st.dead | {args[0].obj}
            return [(st, None)]
        if name in ("memcpy", "memmove"):
            ok = self.memcpy(st, args[0], args[1], conc(args[2]), name)
            return [(st, args[0])] if ok else []
        if name == "memcmp" or name == "bcmp":
            n = conc(args[2])
            acc = tm.bvc(0, 32)
            for k in range(n - 1, -1, -1):
                a = self.load(st, _padd(args[0], k), _int_type(8), name)
                b = self.load(st, _padd(args[1], k), _int_type(8), name)
                if a is None or b is None:
                    return []
                acc = tm.ite(tm.icmp("eq", a, b), acc,
                             tm.ite(tm.icmp("ult", a, b), tm.bvc(-1, 32), tm.bvc(1, 32)))
            return [(st, acc)]
        if name in ("abs", "labs", "llabs"):
            x = args[0]
            return [(st, tm.ite(tm.icmp("slt", x, tm.bvc(0, tm.width(x))), tm.bvneg(x), x))]
        if name in ("__isnanf", "__isnan"):
            return [(st, tm.b2bv(self.fpclass(args[0], 3), 32))]
        if name in ("__isinff", "__isinf"):
            x = args[0]
            return [(st, tm.ite(self.fpclass(x, 0x204), tm.ite(tm.icmp("slt", tm.f2b(x), tm.bvc(0, 32)), tm.bvc(-1, 32), tm.bvc(1, 32)), tm.bvc(0, 32)))]
        r = self.libm(name, args)
        if r is not None:
            return [(st, r)]
        if name in ("sincosf", "sincos"):
            ty = _F32T if name == "sincosf" else _F64T
            ok = self.store(st, args[1], ty, tm.fun("sin", args[0]), name) and \
                self.store(st, args[2], ty, tm.fun("cos", args[0]), name)
            return [(st, None)] if ok else []
        if "zcm" in name:
            self.err(st, "link", "declared but not defined: %s" % name, name)
            return []
        raise Unsupported("external function %s" % name)

    def libm(self, name, args):
        n = name
        if n.startswith("__") and n.endswith("_finite"):
            n = n[2:-7]
        sort = None
        if n in MATH1 | MATH2 | MATH3:
            sort, b = F64, n
        elif n.endswith("f") and n[:-1] in MATH1 | MATH2 | MATH3:
            sort, b = F32, n[:-1]
        else:
            return None
        if not all(isinstance(a, T) and a.sort == sort for a in args):
            raise Unsupported("libm call %s" % name)
        return self.math(b, args)

    def math(self, b, args):
        if b in ("rint", "roundeven"):
            b = "nearbyint"
        if b in ("fmin", "fmax"):
            return tm.fbin(b, *args)
        # a float function evaluated in double and narrowed is kept distinct from the float one
        return tm.fun(b, *args)

    def fpclass(self, x, mask):
        # bits: 0 snan 1 qnan 2 -inf 3 -normal 4 -subnormal 5 -0 6 +0 7 +subnormal 8 +normal 9 +inf
        neg = tm.icmp("slt", tm.f2b(x), tm.bvc(0, 32 if x.sort == F32 else 64)) if not x.op == "fc" else \
            tm.tb(x.attr >> (31 if x.sort == F32 else 63))
        inf = tm.fconst(float("inf"), x.sort)
        minn = tm.fc(0x00800000, F32) if x.sort == F32 else tm.fc(0x0010000000000000, F64)
        ax = tm.fun("fabs", x)
        nan = tm.fcmp("uno", x, x)
        isinf = tm.fcmp("oeq", ax, inf)
        zero = tm.fcmp("oeq", x, tm.fconst(0.0, x.sort))
        normal = tm.and_(tm.fcmp("ole", minn, ax), tm.not_(isinf))
        sub = tm.and_(tm.not_(zero), tm.fcmp("olt", ax, minn))
        acc = FALSE
        if mask & 3:
            acc = tm.or_(acc, nan)
        for lo, hi, c in ((2, 9, isinf), (3, 8, normal), (4, 7, sub), (5, 6, zero)):
            n_, p_ = bool(mask >> lo & 1), bool(mask >> hi & 1)
            if n_ and p_:
                acc = tm.or_(acc, c)
            elif n_:
                acc = tm.or_(acc, tm.and_(c, neg))
            elif p_:
                acc = tm.or_(acc, tm.and_(c, tm.not_(neg)))
        return acc

    def cstr(self, st, p):
        try:
            o = self.get(st, p.obj)
            s = ""
            k = p.off
            while k in o.cells:
                c = o.cells[k][1].attr
                if c == 0:
                    break
                s += chr(c)
                k += 1
            return s
        except Exception:
            return "?"


class _Ty:
    def __init__(self, kind, width, store):
        self.kind, self.width, self.store, self.size = kind, width, store, store


def _int_type(n):
    return _Ty("int", n, (n + 7) // 8)


_F32T = _Ty("float", None, 4)
_F64T = _Ty("double", None, 8)


def _offt(o):
    return tm.bvc(o, 64) if isinstance(o, int) else o


def _padd(p, k):
    if not isinstance(p, Ptr):
        raise Unsupported("pointer arithmetic on %r" % (p,))
    if isinstance(p.off, int):
        return Ptr(p.obj, p.off + k)
    t = tm.bvop("add", p.off, tm.bvc(k, 64))
    return Ptr(p.obj, t.attr if t.op == "bvc" else t)


def _b1(a, pred):
    if pred[0] == "s":
        return tm.ite(a, tm.bvc(-1, 8), tm.bvc(0, 8))
    return tm.b2bv(a, 8)


def _stride(t):
    """largest known power-of-two divisor of the symbolic part of t"""
    if t.op == "bvc":
        return None
    if t.op == "bvmul":
        for a in t.args:
            if a.op == "bvc" and a.attr:
                return a.attr & -a.attr
        return 1
    if t.op == "concat" and t.args[1].op == "bvc" and t.args[1].attr == 0:
        return 1 << tm.width(t.args[1])
    if t.op in ("bvadd", "bvsub"):
        ss = [_stride(a) for a in t.args]
        ss = [s for s in ss if s]
        return min(ss) if ss else None
    if t.op == "ite":
        a, b = t.args[1], t.args[2]
        vals = []
        for x in (a, b):
            if x.op == "bvc":
                v = x.attr
                vals.append((v & -v) if v else 1 << 20)
            else:
                vals.append(_stride(x) or 1)
        return max(1, min(vals))
    return 1


def _const_part(t):
    if t.op == "bvc":
        return t.attr
    if t.op == "bvadd":
        return sum(_const_part(a) for a in t.args)
    return 0
