"""Symbolic execution of LLVM IR with path merging: the verification-condition generator.

Every path of a function is executed once, states are merged at immediate
post-dominators with if-then-else terms, loops are followed until their exit
condition becomes definite or the continue side is infeasible (so every unrolling is complete).
Each assert(), potential undefined behaviour, throw and callee precondition becomes
a named obligation.
"""
import subprocess, time
from . import terms as tm
from . import ir
from .terms import T, const


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases   # tuple of (guard, obj, off, sym)   sym: tuple of (T64, scale)

    def __repr__(self):
        return 'Ptr%r' % (self.cases,)


NULL = None


def mkptr(obj, off=0, sym=()):
    return Ptr(((None, obj, off, sym),))


class Obj:
    __slots__ = ('size', 'cells', 'owner', 'name', 'const', 'kind')

    def __init__(self, size, name, owner=None, const=False, kind='stack'):
        self.size = size
        self.cells = {}
        self.owner = owner
        self.name = name
        self.const = const
        self.kind = kind

    def clone(self, owner):
        o = Obj(self.size, self.name, owner, self.const, self.kind)
        o.cells = dict(self.cells)
        return o


class State:
    __slots__ = ('mem', 'pc')

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc

    def fork(self, cond):
        return State(dict(self.mem), self.pc + (cond,))


class Obl:
    __slots__ = ('kind', 'name', 'where', 'pc', 'bad', 'status', 'model', 'backend', 'time')

    def __init__(self, kind, name, where, pc, bad):
        self.kind = kind
        self.name = name
        self.where = where
        self.pc = pc
        self.bad = bad
        self.status = None
        self.model = None
        self.backend = None
        self.time = 0.0

    def label(self):
        return '%s: %s [%s]' % (self.kind, self.name, self.where)


_demcache = {}


def demangle(names):
    todo = [n for n in names if n not in _demcache]
    if todo:
        p = subprocess.run(['c++filt'], input='\n'.join(todo), stdout=subprocess.PIPE, text=True)
        for n, d in zip(todo, p.stdout.split('\n')):
            _demcache[n] = d
    return [_demcache[n] for n in names]


EXIT = '<exit>'


def cfg_info(f):
    """successors restricted to blocks that can reach a return, and immediate post-dominators"""
    succ = {}
    for b, ins in f.blocks.items():
        t = ins[-1]
        k = t[0]
        if k == 'br':
            s = [t[2]]
        elif k == 'cbr':
            s = [t[3], t[4]]
        elif k == 'switch':
            s = [t[3]] + [x for _, x in t[4]]
        elif k == 'ret':
            s = [EXIT]
        elif k == 'invoke':
            s = [t[5]]
        else:
            s = []
        succ[b] = s
    # reverse reachability from EXIT
    pred = {}
    for b, ss in succ.items():
        for s in ss:
            pred.setdefault(s, []).append(b)
    good = {EXIT}
    st = [EXIT]
    while st:
        x = st.pop()
        for p in pred.get(x, ()):
            if p not in good:
                good.add(p)
                st.append(p)
    # post-order of the reverse graph from EXIT
    order = []
    seen = set()

    def dfs(x):
        stack = [(x, iter(pred.get(x, ())))]
        seen.add(x)
        while stack:
            n, it = stack[-1]
            for y in it:
                if y in good and y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred.get(y, ()))))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(EXIT)
    num = {b: i for i, b in enumerate(order)}
    ip = {EXIT: EXIT}
    changed = True
    while changed:
        changed = False
        for b in reversed(order):
            if b == EXIT:
                continue
            new = None
            for s in succ[b]:
                if s in ip and s in good:
                    if new is None:
                        new = s
                    else:
                        a, c = s, new
                        while a != c:
                            while num[a] < num[c]:
                                a = ip[a]
                            while num[c] < num[a]:
                                c = ip[c]
                        new = a
            if new is not None and ip.get(b) != new:
                ip[b] = new
                changed = True
    return succ, ip


class Engine:
    def __init__(self, module, contracts=(), models=None):
        self.m = module
        self.contracts = contracts
        self.models = models or {}
        self.obls = []
        self.trivial = 0
        self.trivial_kinds = {}
        self.objs = 0
        self.gmem = {}       # global name -> obj id
        self.ginit = {}
        self.cfgs = {}
        self.stack = []
        self.ninstr = 0
        self.assumed = set()   # textual assumptions used
        self.inlined = {}
        self.used_contracts = {}
        self.feas_time = 0.0
        self.feas_checks = 0
        self.cmatch = {}
        self.throw_ok = False
        self.throws = []
        self.hyps = ()        # extra hypotheses usable for feasibility checks
        self.max_forks = 600
        self.cutter = None

    # ------------------------------------------------------------- obligations
    def where(self):
        return self.stack[-1] if self.stack else '<top>'

    def oblige(self, st, kind, name, ok):
        """ok: width-1 term that must hold under the path condition"""
        if ok.op == 'c' and ok.a[0] == 1:
            self.trivial += 1
            self.trivial_kinds[kind] = self.trivial_kinds.get(kind, 0) + 1
            return
        bad = tm.not_(ok)
        for p in st.pc:
            if p is ok:
                self.trivial += 1
                self.trivial_kinds[kind] = self.trivial_kinds.get(kind, 0) + 1
                return
        self.obls.append(Obl(kind, name, self.where(), st.pc, bad))

    def unreachable(self, st, kind, name):
        pc = st.pc
        for p in pc:
            if p.op == 'c' and p.a[0] == 0:
                return
        self.obls.append(Obl(kind, name, self.where(), pc, tm.true()))

    def feasible(self, pc):
        from . import blast
        t0 = time.time()
        r = blast.check_sat(list(self.hyps) + list(pc), timeout=120)
        self.feas_time += time.time() - t0
        self.feas_checks += 1
        return r.status != 'unsat'

    # ------------------------------------------------------------- memory
    def newobj(self, st, size, name, kind='stack', const=False):
        self.objs += 1
        i = self.objs
        st.mem[i] = Obj(size, name, st, const, kind)
        return i

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            raise Unsupported('write to dead object')
        if o.owner is not st:
            o = o.clone(st)
            st.mem[oid] = o
        return o

    def read_raw(self, o, off, n):
        """value of n bytes at off: T, Ptr"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # assemble bytes
        ps = []
        pos = off
        end = off + n
        while pos < end:
            c = o.cells.get(pos)
            base = pos
            if c is None:
                for b in range(pos - 1, pos - 17, -1):
                    c2 = o.cells.get(b)
                    if c2 is not None:
                        if b + c2[0] > pos:
                            c = c2
                            base = b
                        break
            if c is None:
                ps.append(tm.fresh('undef', 8))
                pos += 1
                continue
            v = c[1]
            if isinstance(v, Ptr):
                raise Unsupported('partial read of pointer')
            k = min(base + c[0], end) - pos
            lo = (pos - base) * 8
            ps.append(tm.ext(v, lo + 8 * k - 1, lo))
            pos += k
        return tm.cat(*reversed(ps))

    def write_raw(self, o, off, n, v):
        cells = o.cells
        if self.cutter is not None and not isinstance(v, Ptr):
            v = self.cutter.see(v, n)
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # remove overlaps
        for b in range(off - 16, off + n):
            c = cells.get(b)
            if c is None:
                continue
            e = b + c[0]
            if e <= off:
                continue
            del cells[b]
            if b < off or e > off + n:
                w = c[1]
                if isinstance(w, Ptr):
                    continue
                if b < off:
                    cells[b] = (off - b, tm.trunc(w, 8 * (off - b)))
                if e > off + n:
                    lo = (off + n - b) * 8
                    cells[off + n] = (e - off - n, tm.ext(w, w.w - 1, lo))
        cells[off] = (n, v)

    def globptr(self, st, name):
        oid = self.gmem.get(name)
        if oid is None:
            while name in self.m.aliases:
                v = self.m.aliases[name]
                if v[0] != 'glob':
                    raise Unsupported('alias')
                name = v[1]
            if name in self.m.funcs or name in self.m.decls:
                return mkptr(('fn', name))
            g = self.m.globals[name]
            oid = self.gmem.get(name)
            if oid is None:
                self.objs += 1
                oid = self.objs
                self.gmem[name] = oid
                size = self.m.size_align(g.ty)[0] if self.m.resolve(g.ty)[0] != 'opaque' else 0
                o = Obj(size, '@' + name, None, g.const, 'global' if not g.external else 'extern')
                if g.init is not None:
                    self.init_const(o, 0, g.ty, g.init)
                self.ginit[oid] = o
        if oid not in st.mem:
            st.mem[oid] = self.ginit[oid]
        return mkptr(oid)

    def init_const(self, o, off, ty, v):
        ty = self.m.resolve(ty)
        k = v[0]
        if k == 'zero':
            size = self.m.size_align(ty)[0]
            self.zero_fill(o, off, ty)
        elif k == 'agg':
            for i, (et, ev) in enumerate(v[1]):
                fo, ft = self.m.field(ty, i)
                self.init_const(o, off + fo, ft, ev)
        elif k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, const(b, 8))
        elif k == 'undef':
            pass
        else:
            val = self.const_value(None, ty, v)
            n = self.m.size_align(ty)[0]
            if isinstance(val, T) and val.w < 8 * n:
                val = tm.zext(val, 8 * n)
            o.cells[off] = (n, val)

    def zero_fill(self, o, off, ty):
        ty = self.m.resolve(ty)
        if ty[0] == 'arr':
            s = self.m.size_align(ty[2])[0]
            for i in range(ty[1]):
                self.zero_fill(o, off + i * s, ty[2])
        elif ty[0] == 'st':
            for i in range(len(ty[1])):
                fo, ft = self.m.field(ty, i)
                self.zero_fill(o, off + fo, ft)
        elif ty[0] == 'ptr':
            o.cells[off] = (8, mkptr(NULL))
        else:
            n = self.m.size_align(ty)[0]
            o.cells[off] = (n, const(0, 8 * n))

    # ------------------------------------------------------------- values
    def const_value(self, st, ty, v):
        k = v[0]
        rt = self.m.resolve(ty)
        if k == 'int':
            return const(v[1], rt[1])
        if k == 'null':
            return mkptr(NULL)
        if k == 'undef':
            if rt[0] == 'i':
                return tm.fresh('undef', rt[1])
            if rt[0] == 'ptr':
                return mkptr(NULL)
            if rt[0] == 'st':
                return tuple(self.const_value(st, e, v) for e in rt[1])
            if rt[0] == 'f':
                return tm.fresh('undef', rt[1])
            return None
        if k == 'zero':
            if rt[0] == 'st':
                return tuple(self.const_value(st, e, v) for e in rt[1])
            if rt[0] == 'ptr':
                return mkptr(NULL)
            return const(0, rt[1])
        if k == 'glob':
            if st is None:
                st = State({}, ())
            return self.globptr(st, v[1])
        if k == 'fp':
            return self.fpconst(rt[1], v[1])
        if k == 'agg':
            return tuple(self.const_value(st, et, ev) for et, ev in v[1])
        if k == 'cgep':
            base = self.const_value(st, *v[2][0])
            return self.gep(st, v[1], base, [(et, self.const_value(st, et, ev)) for et, ev in v[2][1:]])
        if k == 'ccast':
            x = self.const_value(st, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        raise Unsupported('const ' + k)

    def fpconst(self, w, s):
        import struct
        if s.startswith('0x') and s[2] not in 'KLMHR':
            bits = int(s, 16)
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
            if w == 64:
                return const(bits, 64)
        else:
            d = float(s)
        if w == 64:
            return const(struct.unpack('<Q', struct.pack('<d', d))[0], 64)
        if w == 32:
            return const(struct.unpack('<I', struct.pack('<f', d))[0], 32)
        raise Unsupported('fp constant')

    def val(self, st, regs, ty, v):
        if v[0] == 'reg':
            try:
                return regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register ' + v[1])
        return self.const_value(st, ty, v)

    # ------------------------------------------------------------- pointers
    def gep(self, st, bt, base, idx):
        out = []
        first = True
        addc = 0
        syms = []
        ty = bt
        for et, iv in idx:
            if first:
                sc = self.m.size_align(ty)[0]
                first = False
                nty = ty
            else:
                r = self.m.resolve(ty)
                if r[0] == 'st':
                    fo, nty = self.m.field(r, iv.a[0])
                    addc += fo
                    ty = nty
                    continue
                nty = r[2]
                sc = self.m.size_align(nty)[0]
            iv64 = iv if iv.w == 64 else tm.sext(iv, 64) if iv.w < 64 else tm.trunc(iv, 64)
            if iv64.op == 'c':
                x = iv64.a[0]
                if x >> 63:
                    x -= 1 << 64
                addc += x * sc
            else:
                syms.append((iv64, sc))
            ty = nty
        for g, o, off, sym in base.cases:
            out.append((g, o, off + addc, sym + tuple(syms)))
        return Ptr(tuple(out))

    def resolve_ptr(self, st, p, n, what):
        """list of (guard or None, objid, off) for an access of n bytes; emits bounds obligations"""
        out = []
        for g, o, off, sym in p.cases:
            sub = st if g is None else State(st.mem, st.pc + (g,))
            if o is NULL or isinstance(o, tuple):
                if g is None:
                    self.unreachable(st, 'memory', what + ' through null or function pointer')
                    return None
                self.unreachable(sub, 'memory', what + ' through null pointer')
                continue
            ob = st.mem.get(o)
            if ob is None:
                if o in self.ginit:
                    ob = st.mem[o] = self.ginit[o]
                else:
                    self.unreachable(sub, 'memory', what + ' of dead object')
                    if g is None:
                        return None
                    continue
            if not sym:
                if not (0 <= off and off + n <= ob.size):
                    self.unreachable(sub, 'bounds', '%s outside %s' % (what, ob.name))
                    if g is None:
                        return None
                    continue
                out.append((g, o, off))
                continue
            # symbolic index: enumerate the in-range values
            if len(sym) == 1:
                iv, sc = sym[0]
                cand = []
                lo = -(off // sc) if sc else 0
                i = 0
                rng = range(max(-(off // sc), -4096), (ob.size - n - off) // sc + 1)
                idxs = [i for i in rng if 0 <= off + i * sc and off + i * sc + n <= ob.size]
                ok = tm.false()
                if idxs:
                    a, b = idxs[0], idxs[-1]
                    if a == 0:
                        ok = tm.ule(iv, const(b, 64))
                    else:
                        ok = tm.ule(tm.sub(iv, const(a, 64)), const(b - a, 64))
                self.oblige(sub, 'bounds', '%s inside %s' % (what, ob.name), ok)
                for i in idxs:
                    e = tm.eq(iv, const(i, 64))
                    if e.op == 'c' and e.a[0] == 0:
                        continue
                    out.append((e if g is None else tm.and_(g, e), o, off + i * sc))
            else:
                tot = const(off, 64)
                step = 0
                import math
                for iv, sc in sym:
                    tot = tm.add(tot, tm.mul(iv, const(sc, 64)))
                    step = math.gcd(step, sc)
                offs = [x for x in range(off % step, ob.size - n + 1, step)]
                self.oblige(sub, 'bounds', '%s inside %s' % (what, ob.name),
                            tm.ule(tot, const(max(offs) if offs else 0, 64)))
                for x in offs:
                    e = tm.eq(tot, const(x, 64))
                    if e.op == 'c' and e.a[0] == 0:
                        continue
                    out.append((e if g is None else tm.and_(g, e), o, x))
        if not out:
            return None
        return out

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T):
            if not isinstance(b, T):
                raise Unsupported('merge of value kinds')
            return tm.ite(c, a, b)
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr):
                raise Unsupported('merge of value kinds')
            if a.cases == b.cases:
                return a
            cs = []
            nc = tm.not_(c)
            for g, o, off, sym in a.cases:
                cs.append((c if g is None else tm.and_(c, g), o, off, sym))
            for g, o, off, sym in b.cases:
                cs.append((nc if g is None else tm.and_(nc, g), o, off, sym))
            d = {}
            for g, o, off, sym in cs:
                k = (o, off, sym)
                d[k] = tm.or_(d[k], g) if k in d else g
            if len(d) == 1:
                (o, off, sym), = d
                return Ptr(((None, o, off, sym),))
            return Ptr(tuple((g, o, off, sym) for (o, off, sym), g in d.items()
                             if not (g.op == 'c' and g.a[0] == 0)))
        if isinstance(a, tuple):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if a is None:
            return b
        raise Unsupported('merge')

    def load(self, st, ty, p):
        rt = self.m.resolve(ty)
        if rt[0] == 'st' or rt[0] == 'arr':
            if rt[0] == 'arr':
                es = [rt[2]] * rt[1]
            else:
                es = rt[1]
            out = []
            for i, e in enumerate(es):
                fo, ft = self.m.field(rt, i)
                q = Ptr(tuple((g, o, off + fo, s) for g, o, off, s in p.cases))
                v = self.load(st, ft, q)
                if v is DEAD:
                    return DEAD
                out.append(v)
            return tuple(out)
        if rt[0] == 'i' and rt[1] % 8:
            n = (rt[1] + 7) // 8
        elif rt[0] == 'ptr':
            n = 8
        else:
            n = rt[1] // 8
        r = self.resolve_ptr(st, p, n, 'load')
        if r is None:
            return DEAD
        v = None
        if len(r) > 8 and all(isinstance(self.read_raw(st.mem[o], off, n), T) for g, o, off in r) and rt[0] != 'ptr':
            v = self.mux_tree(st, p, r, n)
        if v is None:
            for g, o, off in reversed(r):
                x = self.read_raw(st.mem[o], off, n)
                if isinstance(x, Ptr) and rt[0] != 'ptr':
                    raise Unsupported('integer load of pointer')
                if rt[0] == 'ptr' and isinstance(x, T):
                    if x.op == 'c' and x.a[0] == 0:
                        x = mkptr(NULL)
                    elif x.op == 'v' and x.a[0].startswith('undef'):
                        x = mkptr(NULL)
                    else:
                        raise Unsupported('pointer load of integer')
                v = x if v is None else self.merge_val(g, x, v)
        if rt[0] == 'i' and rt[1] % 8:
            v = tm.trunc(v, rt[1])
        return v

    def mux_tree(self, st, p, r, n):
        if len(p.cases) != 1 or len(p.cases[0][3]) != 1:
            return None
        g, o, off, sym = p.cases[0]
        iv, sc = sym[0]
        vals = {}
        for e, oo, x in r:
            i = (x - off) // sc
            vals[i] = self.read_raw(st.mem[oo], x, n)
        if min(vals) < 0:
            return None
        k = max(1, max(vals).bit_length())

        def build(bits, pre):
            if bits == 0:
                return vals.get(pre)
            a = build(bits - 1, pre)
            b = build(bits - 1, pre | (1 << (bits - 1)))
            if a is None:
                return b
            if b is None:
                return a
            return tm.ite(tm.bit(iv, bits - 1), b, a)
        return build(k, 0)

    def store(self, st, ty, v, p):
        rt = self.m.resolve(ty)
        if isinstance(v, tuple):
            es = [rt[2]] * rt[1] if rt[0] == 'arr' else rt[1]
            for i, e in enumerate(es):
                fo, ft = self.m.field(rt, i)
                q = Ptr(tuple((g, o, off + fo, s) for g, o, off, s in p.cases))
                if not self.store(st, ft, v[i], q):
                    return False
            return True
        if rt[0] == 'ptr':
            n = 8
        else:
            n = (rt[1] + 7) // 8
            if v.w < 8 * n:
                v = tm.zext(v, 8 * n)
        r = self.resolve_ptr(st, p, n, 'store')
        if r is None:
            return False
        for g, o, off in r:
            if st.mem[o].const:
                self.unreachable(st, 'memory', 'store to constant ' + st.mem[o].name)
                return False
            ob = self.wobj(st, o)
            if g is None:
                self.write_raw(ob, off, n, v)
            else:
                old = self.read_raw(ob, off, n)
                self.write_raw(ob, off, n, self.merge_val(g, v, old))
        return True

    def memcpy(self, st, d, s, n):
        if n == 0:
            return True
        rs = self.resolve_ptr(st, s, n, 'memcpy source')
        rd = self.resolve_ptr(st, d, n, 'memcpy destination')
        if rs is None or rd is None:
            return False
        if len(rd) == 1 and len(rs) == 1 and rd[0][0] is None and rs[0][0] is None:
            so, soff = rs[0][1:]
            do, doff = rd[0][1:]
            src = st.mem[so]
            ob = self.wobj(st, do)
            if src is not ob and so != do:
                # copy cells
                todo = []
                for off, (k, v) in src.cells.items():
                    if off >= soff and off + k <= soff + n:
                        todo.append((off - soff + doff, k, v))
                    elif off + k > soff and off < soff + n:
                        a = max(off, soff)
                        b = min(off + k, soff + n)
                        todo.append((a - soff + doff, b - a, tm.ext(v, 8 * (b - off) - 1, 8 * (a - off))))
                # clear destination range
                for b in range(doff - 16, doff + n):
                    c = ob.cells.get(b)
                    if c and b + c[0] > doff:
                        if b >= doff and b + c[0] <= doff + n:
                            del ob.cells[b]
                        else:
                            self.write_raw(ob, max(b, doff), min(b + c[0], doff + n) - max(b, doff),
                                           tm.fresh('undef', 8 * (min(b + c[0], doff + n) - max(b, doff))))
                            del ob.cells[max(b, doff)]
                for off, k, v in todo:
                    self.write_raw(ob, off, k, v)
                return True
        # general: byte granularity by 8/4/1 chunks
        pos = 0
        chunks = []
        while pos < n:
            k = 16 if n - pos >= 16 else 8 if n - pos >= 8 else 4 if n - pos >= 4 else 1
            v = None
            for g, o, off in reversed(rs):
                x = self.read_raw(st.mem[o], off + pos, k)
                v = x if v is None else self.merge_val(g, x, v)
            chunks.append((pos, k, v))
            pos += k
        for g, o, off in rd:
            ob = self.wobj(st, o)
            for pos, k, v in chunks:
                if g is None:
                    self.write_raw(ob, off + pos, k, v)
                else:
                    self.write_raw(ob, off + pos, k, self.merge_val(g, v, self.read_raw(ob, off + pos, k)))
        return True

    # ------------------------------------------------------------- instructions
    def cast(self, st, op, sty, x, dty):
        r = self.m.resolve(dty)
        if op == 'zext':
            return tm.zext(x, r[1])
        if op == 'sext':
            return tm.sext(x, r[1])
        if op == 'trunc':
            return tm.trunc(x, r[1])
        if op in ('bitcast', 'addrspacecast'):
            return x
        if op == 'ptrtoint':
            if isinstance(x, Ptr) and len(x.cases) == 1 and x.cases[0][1] is NULL:
                return const(x.cases[0][2], r[1])
            raise Unsupported('ptrtoint')
        if op == 'inttoptr':
            raise Unsupported('inttoptr')
        fp = self.models.get('fp')
        if fp is not None:
            return fp.cast(self, st, op, self.m.resolve(sty), x, r)
        raise Unsupported('cast ' + op)

    def binop(self, st, op, a, b, fl, ty):
        w = a.w
        if op == 'add' or op == 'sub' or op == 'mul':
            r = getattr(tm, op)(a, b)
            if 'nsw' in fl and not (r.op == 'c' and a.op == 'c' and b.op == 'c' and False):
                if op == 'mul':
                    if a.op == 'c' and b.op == 'c':
                        x = _s(a.a[0], w) * _s(b.a[0], w)
                        ok = const(int(-(1 << (w - 1)) <= x < (1 << (w - 1))), 1)
                    else:
                        ex = tm.trunc(tm.mulx(tm.sext(a, 2 * w), tm.sext(b, 2 * w)), 2 * w)
                        ok = tm.eq(ex, tm.sext(r, 2 * w))
                else:
                    ex = getattr(tm, op)(tm.sext(a, w + 1), tm.sext(b, w + 1))
                    ok = tm.eq(tm.bit(ex, w), tm.bit(ex, w - 1))
                self.oblige(st, 'overflow', 'no signed overflow in %s' % op, ok)
            return r
        if op == 'and':
            return tm.and_(a, b)
        if op == 'or':
            return tm.or_(a, b)
        if op == 'xor':
            return tm.xor(a, b)
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, 'shift', 'shift amount below %d in %s' % (w, op), tm.ult(b, const(w, b.w)) if b.op != 'c' else const(int(b.a[0] < w), 1))
            if b.op != 'c':
                # amounts >= w are excluded by the obligation: only the low bits matter
                k = max(1, (w - 1).bit_length())
                if k < b.w:
                    b = tm.trunc(b, k)
                    if (1 << k) > w:
                        pass
            return getattr(tm, op)(a, b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, 'division', 'divisor not zero in %s' % op, tm.ne(b, const(0, w)))
            if op[0] == 's':
                self.oblige(st, 'overflow', 'no overflow in %s' % op,
                            tm.not_(tm.and_(tm.eq(a, const(1 << (w - 1), w)), tm.eq(b, const(-1, w)))))
            return getattr(tm, op)(a, b)
        fp = self.models.get('fp')
        if fp is not None:
            return fp.bin(self, st, op, a, b)
        raise Unsupported('binop ' + op)

    def icmp(self, st, pr, a, b):
        if isinstance(a, Ptr):
            if pr not in ('eq', 'ne'):
                if len(a.cases) == 1 and len(b.cases) == 1 and a.cases[0][1] == b.cases[0][1] and not a.cases[0][3] and not b.cases[0][3]:
                    x, y = a.cases[0][2], b.cases[0][2]
                    return const(int({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pr]), 1)
                raise Unsupported('pointer order')
            r = tm.false()
            for g1, o1, f1, s1 in a.cases:
                for g2, o2, f2, s2 in b.cases:
                    if o1 == o2:
                        if s1 == s2:
                            e = const(int(f1 == f2), 1)
                        elif s1 or s2:
                            def tot(f, s):
                                t = const(f, 64)
                                for iv, sc in s:
                                    t = tm.add(t, tm.mul(iv, const(sc, 64)))
                                return t
                            e = tm.eq(tot(f1, s1), tot(f2, s2))
                    else:
                        e = tm.false()
                    if g1 is not None:
                        e = tm.and_(g1, e)
                    if g2 is not None:
                        e = tm.and_(g2, e)
                    r = tm.or_(r, e)
            return r if pr == 'eq' else tm.not_(r)
        if pr == 'eq':
            return tm.eq(a, b)
        if pr == 'ne':
            return tm.ne(a, b)
        return {'ult': tm.ult, 'ule': tm.ule, 'slt': tm.slt, 'sle': tm.sle,
                'ugt': lambda x, y: tm.ult(y, x), 'uge': lambda x, y: tm.ule(y, x),
                'sgt': lambda x, y: tm.slt(y, x), 'sge': lambda x, y: tm.sle(y, x)}[pr](a, b)

    # ------------------------------------------------------------- calls
    def cstr(self, st, p):
        try:
            g, o, off, sym = p.cases[0]
            ob = st.mem.get(o) or self.ginit[o]
            s = ''
            while True:
                c = ob.cells[off][1].a[0]
                if c == 0:
                    return s
                s += chr(c)
                off += 1
        except Exception:
            return '?'

    def cbytes(self, st, p, n=None):
        """constant bytes at p: up to and including NUL, or n of them"""
        if not isinstance(p, Ptr) or len(p.cases) != 1 or p.cases[0][3]:
            raise Unsupported('string at a symbolic address')
        g, o, off, sym = p.cases[0]
        ob = st.mem.get(o) or self.ginit.get(o)
        r = []
        while n is None or len(r) < n:
            if off + 1 > ob.size:
                raise Unsupported('unterminated string')
            c = self.read_raw(ob, off, 1)
            if c.op != 'c':
                raise Unsupported('symbolic string')
            r.append(c.a[0])
            if n is None and r[-1] == 0:
                break
            off += 1
        return r

    def libc_str(self, st, name, args):
        if name == 'strlen':
            return const(len(self.cbytes(st, args[0])) - 1, 64)
        if name == 'memcmp':
            if args[2].op != 'c':
                raise Unsupported('symbolic memcmp')
            x, y = (self.cbytes(st, a, args[2].a[0]) for a in args[:2])
        else:
            x, y = (self.cbytes(st, a) for a in args[:2])
            if name == 'strncmp':
                if args[2].op != 'c':
                    raise Unsupported('symbolic strncmp')
                n = args[2].a[0]
                x, y = x[:n], y[:n]
        return const((x > y) - (x < y), 32)

    def match_contract(self, name):
        r = self.cmatch.get(name, 0)
        if r == 0:
            r = None
            if self.contracts:
                d = demangle([name])[0]
                for c in self.contracts:
                    r = c.match(self, name, d)
                    if r is not None:
                        break
            self.cmatch[name] = r
        return r

    def do_call(self, st, rt, callee, args, argtys):
        """returns value, DEAD if control does not return"""
        name = callee
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args)
        while name in self.m.aliases and name not in self.m.funcs:
            name = self.m.aliases[name][1]
        if name == '__assert_fail':
            self.unreachable(st, 'assert', '%s (%s)' % (self.cstr(st, args[0]), self.cstr(st, args[1]).split('/')[-1]))
            return DEAD
        if name in ('__cxa_throw', '__cxa_allocate_exception', '__cxa_rethrow', '_ZSt20__throw_length_errorPKc',
                    '_ZSt17__throw_bad_allocv', '_ZSt19__throw_logic_errorPKc'):
            if self.throw_ok:
                self.throws.append(st.pc)
            else:
                self.unreachable(st, 'throw', 'no exception')
            return DEAD
        if name in ('abort', 'exit', '_ZSt9terminatev', '__clang_call_terminate'):
            self.unreachable(st, 'abort', name + ' not reached')
            return DEAD
        if name == '__cxa_guard_acquire':
            return const(1, 32)
        if name == '__cxa_guard_release':
            g, o, off, sym = args[0].cases[0]
            ob = self.wobj(st, o)
            self.write_raw(ob, off, 1, const(1, 8))
            return None
        if name in ('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'):
            return None
        if name in ('__cxa_guard_abort', '__cxa_atexit', '__cxa_begin_catch', '__cxa_end_catch', '__cxa_free_exception'):
            return const(0, 32)
        mdl = self.models.get(name)
        if mdl is not None:
            return mdl(self, st, args)
        c = self.match_contract(name)
        if c is not None:
            from .contracts import NoContract
            try:
                return c.apply(self, st, args)
            except NoContract:
                pass
        f = self.m.funcs.get(name)
        if f is not None:
            d = demangle([name])[0]
            if 'operator<<' in d and 'std::basic_ostream' in d:
                self.assumed.add('stream output functions have no effect on the computed values')
                return args[0]
            self.inlined[name] = self.inlined.get(name, 0) + 1
            return self.call_fn(st, f, args)
        if name == 'memcpy' or name == 'memmove':
            if args[2].op != 'c':
                raise Unsupported('symbolic memcpy')
            if not self.memcpy(st, args[0], args[1], args[2].a[0]):
                return DEAD
            return args[0]
        if name in ('strlen', 'strncmp', 'strcmp', 'memcmp'):
            return self.libc_str(st, name, args)
        if name == 'memset':
            return self.intrinsic(st, 'llvm.memset', [args[0], tm.trunc(args[1], 8), args[2], const(0, 1)]) or args[0]
        if name in ('_Znwm', '_Znam', 'malloc'):
            if args[0].op != 'c':
                raise Unsupported('allocation of symbolic size')
            self.assumed.add('memory allocation succeeds')
            return mkptr(self.newobj(st, args[0].a[0], 'heap', 'stack'))
        if name in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free'):
            return None
        d = demangle([name])[0]
        if d.startswith('std::basic_ostream') or d.startswith('std::ostream') or 'std::basic_ostream' in d.split('(')[0] or \
                ('operator<<' in d and 'std::basic_ostream' in d):
            self.assumed.add('stream output functions have no effect on the computed values')
            return args[0] if args else None
        raise ExternCall(name)

    def call_fn(self, st, f, args):
        if len(self.stack) > 200:
            raise Unsupported('call depth (recursion) in ' + f.name)
        if not f.parsed:
            ir.parse_function(f)
        info = self.cfgs.get(f.name)
        if info is None:
            info = self.cfgs[f.name] = cfg_info(f)
        regs = {}
        for (ty, nm, at), a in zip(f.params, args):
            for x in at:
                if isinstance(x, tuple) and x[0] == 'byval':
                    n = self.m.size_align(x[1])[0]
                    o = self.newobj(st, n, nm)
                    if not self.memcpy(st, mkptr(o), a, n):
                        return DEAD
                    a = mkptr(o)
            regs[nm] = a
        fr = Frame(f, info)
        self.stack.append(f.name)
        try:
            r = self.region(fr, f.entry, regs, st, EXIT)
        finally:
            self.stack.pop()
        if r is None:
            return DEAD
        st2, regs2 = r
        # propagate the final state into st (callers hold on to st)
        st.mem = st2.mem
        st.pc = st2.pc
        if st2 is not st:
            for k, o in st.mem.items():
                if o.owner is st2:
                    o.owner = st
        for o in fr.allocas:
            st.mem.pop(o, None)
        return regs2.get('<ret>')

    def phis(self, f, blk, prev, regs, st):
        ins = f.blocks[blk]
        if not ins or ins[0][0] != 'phi':
            return
        new = []
        for i in ins:
            if i[0] != 'phi':
                break
            for v, b in i[3]:
                if b == prev:
                    new.append((i[1], self.val(st, regs, i[2], v)))
                    break
            else:
                raise Unsupported('phi')
        for d, v in new:
            regs[d] = v

    def merge(self, c, base, ra, rb):
        sa, ga = ra
        sb, gb = rb
        n = len(base) + 1
        ea, eb = sa.pc[n:], sb.pc[n:]
        if not ea and not eb:
            pc = base
        else:
            x = tm.ite(c, tm.andl(*ea), tm.andl(*eb))
            pc = base if (x.op == 'c' and x.a[0] == 1) else base + (x,)
        st = State({}, pc)
        ma, mb = sa.mem, sb.mem
        out = {}
        for k, oa in ma.items():
            ob = mb.get(k)
            if ob is None or ob is oa:
                out[k] = oa
                continue
            out[k] = self.merge_obj(c, oa, ob, st)
        for k, ob in mb.items():
            if k not in ma:
                out[k] = ob
        st.mem = out
        regs = {}
        for k, va in ga.items():
            vb = gb.get(k, MISSING)
            if vb is va:
                regs[k] = va
            elif vb is MISSING:
                continue
            else:
                try:
                    regs[k] = self.merge_val(c, va, vb)
                except Unsupported:
                    pass
        return st, regs

    def merge_obj(self, c, oa, ob, st):
        o = Obj(oa.size, oa.name, st, oa.const, oa.kind)
        ca, cb = oa.cells, ob.cells
        for off, (n, va) in ca.items():
            x = cb.get(off)
            if x is not None and x[0] == n:
                o.cells[off] = (n, self.merge_val(c, va, x[1]) if va is not x[1] else va)
        for src, oth, first in ((ca, ob, True), (cb, oa, False)):
            for off, (n, v) in src.items():
                if off in o.cells and o.cells[off][0] == n:
                    continue
                y = oth.cells.get(off)
                if y is None or y[0] == n:
                    over = [b for b in range(off - 15, off + n) if b in oth.cells and b + oth.cells[b][0] > off]
                    if not over:
                        # uninitialised on the other side: keep the defined value (other side undefined)
                        if isinstance(v, Ptr):
                            o.cells[off] = (n, v)
                        else:
                            u = tm.fresh('undef', 8 * n)
                            o.cells[off] = (n, tm.ite(c, v, u) if first else tm.ite(c, u, v))
                        continue
                # mixed granularity: byte by byte
                for b in range(off, off + n):
                    xa = self.read_raw(oa, b, 1)
                    xb = self.read_raw(ob, b, 1)
                    self.write_raw(o, b, 1, tm.ite(c, xa, xb))
        return o

    def region(self, fr, blk, regs, st, stop):
        f = fr.f
        blocks = f.blocks
        while True:
            ins = blocks[blk]
            nxt = None
            for i in ins:
                op = i[0]
                self.ninstr += 1
                if op == 'phi':
                    continue
                if op == 'load':
                    v = self.load(st, i[2], self.val(st, regs, i[3][0], i[3][1]))
                    if v is DEAD:
                        return None
                    regs[i[1]] = v
                elif op == 'store':
                    (vt, vv), (pt, pv) = i[2], i[3]
                    if not self.store(st, vt, self.val(st, regs, vt, vv), self.val(st, regs, pt, pv)):
                        return None
                elif op == 'alloca':
                    n = self.m.size_align(i[2])[0]
                    if i[3] is not None:
                        cnt = self.val(st, regs, *i[3])
                        if cnt.op != 'c':
                            raise Unsupported('VLA')
                        n *= cnt.a[0]
                    o = self.newobj(st, n, f.name + ':' + i[1])
                    fr.allocas.append(o)
                    regs[i[1]] = mkptr(o)
                elif op == 'call' or op == 'invoke':
                    cal = i[3]
                    args = [self.val(st, regs, ty, v) for ty, v, at in i[4]]
                    if cal[0] == 'reg':
                        p = regs[cal[1]]
                        if len(p.cases) == 1 and isinstance(p.cases[0][1], tuple):
                            cname = p.cases[0][1][1]
                        else:
                            raise Unsupported('indirect call')
                    else:
                        cname = cal[1]
                    try:
                        v = self.do_call(st, i[2], cname, args, i[4])
                    except ExternCall as e:
                        if not self.feasible(st.pc):
                            return None
                        if fr.dies(blk):
                            # argument construction on a path that ends in a throw / abort
                            self.unreachable(st, 'throw', 'call of %s on a throwing path' % demangle([e.name])[0]) \
                                if not self.throw_ok else self.throws.append(st.pc)
                            return None
                        raise Unsupported('external function ' + demangle([e.name])[0])
                    if v is DEAD:
                        return None
                    if i[1] is not None:
                        regs[i[1]] = v
                    if op == 'invoke':
                        nxt = i[5]
                elif op == 'gep':
                    base = self.val(st, regs, *i[3][0])
                    regs[i[1]] = self.gep(st, i[2], base, [(ty, self.val(st, regs, ty, v)) for ty, v in i[3][1:]])
                elif op == 'bin':
                    a = self.val(st, regs, i[3], i[4])
                    b = self.val(st, regs, i[3], i[5])
                    regs[i[1]] = self.binop(st, i[2], a, b, i[6], i[3])
                elif op == 'icmp':
                    a = self.val(st, regs, i[3], i[4])
                    b = self.val(st, regs, i[3], i[5])
                    regs[i[1]] = self.icmp(st, i[2], a, b)
                elif op == 'cast':
                    regs[i[1]] = self.cast(st, i[2], i[3], self.val(st, regs, i[3], i[4]), i[5])
                elif op == 'select':
                    c = self.val(st, regs, *i[2])
                    regs[i[1]] = self.merge_val(c, self.val(st, regs, *i[3]), self.val(st, regs, *i[4])) \
                        if c.op != 'c' else self.val(st, regs, *(i[3] if c.a[0] else i[4]))
                elif op == 'extractvalue':
                    v = self.val(st, regs, i[2], i[3])
                    for k in i[4]:
                        v = v[k]
                    regs[i[1]] = v
                elif op == 'insertvalue':
                    v = self.val(st, regs, i[2], i[3])
                    e = self.val(st, regs, i[4], i[5])

                    def ins_(v, idx):
                        v = list(v)
                        v[idx[0]] = e if len(idx) == 1 else ins_(v[idx[0]], idx[1:])
                        return tuple(v)
                    regs[i[1]] = ins_(v, i[6])
                elif op == 'br':
                    nxt = i[2]
                elif op == 'ret':
                    if i[2] is not None:
                        regs['<ret>'] = self.val(st, regs, *i[2])
                    assert stop == EXIT
                    return st, regs
                elif op == 'cbr' or op == 'switch':
                    r = self.branch(fr, blk, i, regs, st, stop)
                    if r is None:
                        return None
                    if r[0] == 'ret':
                        return r[1], r[2]
                    if r[0] == 'goto':
                        nxt = r[1]
                    else:
                        _, blk, st, regs = r
                        nxt = 'JOINED'
                elif op == 'unreachable':
                    self.unreachable(st, 'unreachable', 'unreachable code not reached')
                    return None
                elif op == 'freeze':
                    regs[i[1]] = self.val(st, regs, *i[2])
                elif op == 'fcmp':
                    fp = self.models.get('fp')
                    if fp is None:
                        raise Unsupported('fcmp')
                    regs[i[1]] = fp.cmp(self, st, i[2], self.val(st, regs, i[3], i[4]), self.val(st, regs, i[3], i[5]))
                elif op == 'fneg':
                    v = self.val(st, regs, i[2], i[3])
                    regs[i[1]] = tm.xor(v, const(1 << (v.w - 1), v.w))
                else:
                    raise Unsupported('instruction ' + op)
            if nxt == 'JOINED':
                continue
            if nxt is None:
                raise Unsupported('fell off block')
            if nxt == stop:
                self.phis(f, nxt, blk, regs, st)
                return st, regs
            self.phis(f, nxt, blk, regs, st)
            blk = nxt

    def branch(self, fr, blk, i, regs, st, stop):
        if i[0] == 'cbr':
            c = self.val(st, regs, *i[2])
            if c.op == 'c':
                return ('goto', i[3] if c.a[0] else i[4])
            # is the condition already decided by the path condition?
            nc = tm.not_(c)
            for p in st.pc:
                if p is c:
                    return ('goto', i[3])
                if p is nc:
                    return ('goto', i[4])
            targets = [(c, i[3]), (nc, i[4])]
        else:
            v = self.val(st, regs, *i[2])
            if v.op == 'c':
                for k, b in i[4]:
                    if (k & ((1 << v.w) - 1)) == v.a[0]:
                        return ('goto', b)
                return ('goto', i[3])
            by = {}
            rest = tm.true()
            for k, b in i[4]:
                e = tm.eq(v, const(k, v.w))
                by[b] = tm.or_(by[b], e) if b in by else e
                rest = tm.and_(rest, tm.not_(e))
            if i[3] in by:
                by[i[3]] = tm.or_(by[i[3]], rest)
            else:
                by[i[3]] = rest
            targets = [(g, b) for b, g in by.items() if not (g.op == 'c' and g.a[0] == 0)]
        succ, ip = fr.info
        J = ip.get(blk)
        cnt = fr.forks.get(blk, 0)
        fr.forks[blk] = cnt + 1
        check = cnt >= 3
        if cnt > self.max_forks:
            raise Unsupported('symbolic loop does not terminate within %d forks in %s' % (self.max_forks, fr.f.name))
        if check:
            keep = [(g, b) for g, b in targets if self.feasible(st.pc + (g,))]
            if not keep:
                return None
            if len(keep) == 1:
                st.pc = st.pc + (keep[0][0],)
                return ('goto', keep[0][1])
            targets = keep
        res = []
        base = st.pc
        for k, (g, b) in enumerate(targets):
            s2 = st.fork(g)
            r2 = dict(regs)
            if b == J:
                if J != EXIT:
                    self.phis(fr.f, b, blk, r2, s2)
                res.append((g, (s2, r2)))
            else:
                self.phis(fr.f, b, blk, r2, s2)
                r = self.region(fr, b, r2, s2, J if J is not None else EXIT)
                if r is not None:
                    res.append((g, r))
        fr.forks[blk] = cnt
        if not res:
            return None
        cur = res[-1][1]
        if len(res) == 1:
            cur = (State(cur[0].mem, cur[0].pc), cur[1])
        else:
            for g, r in reversed(res[:-1]):
                cur = self.merge(g, base, r, cur)
                if len(targets) > len(res) and len(res) == 2 and False:
                    pass
            if len(res) > 2:
                pass
            if len(res) < len(targets):
                # some sides died: remember that one of the surviving guards holds
                surv = tm.orl(*[g for g, _ in res])
                cur[0].pc = cur[0].pc + (surv,)
        st2, regs2 = cur
        if J == stop:
            return ('ret', st2, regs2)
        return ('join', J, st2, regs2)

    # ------------------------------------------------------------- intrinsics
    def intrinsic(self, st, name, a):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            if a[2].op != 'c':
                raise Unsupported('symbolic memcpy')
            return None if self.memcpy(st, a[0], a[1], a[2].a[0]) else DEAD
        if name.startswith('llvm.memset'):
            n = a[2].a[0]
            r = self.resolve_ptr(st, a[0], n, 'memset')
            if r is None:
                return DEAD
            g, o, off = r[0]
            ob = self.wobj(st, o)
            if n % 8 == 0 and off % 8 == 0:
                v8 = tm.cat(*([a[1]] * 8))
                for k in range(0, n, 8):
                    self.write_raw(ob, off + k, 8, v8)
            else:
                for k in range(n):
                    self.write_raw(ob, off + k, 1, a[1])
            return None
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore',
                            'llvm.invariant', 'llvm.donothing')):
            return None
        if name.startswith('llvm.assume'):
            return None
        if name.startswith('llvm.expect'):
            return a[0]
        if name.startswith(('llvm.trap', 'llvm.ubsantrap')):
            self.unreachable(st, 'trap', 'trap not reached')
            return DEAD
        if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            x = a[0]
            w = x.w
            if a[1].op == 'c' and a[1].a[0]:
                self.oblige(st, 'builtin', 'argument of leading/trailing zero count not zero', tm.ne(x, const(0, w)))
            r = const(w, w)
            rng = range(0, w) if 'ctlz' in name else range(w - 1, -1, -1)
            for i in rng:
                r = tm.ite(tm.bit(x, i), const(w - 1 - i if 'ctlz' in name else i, w), r)
            return r
        if name.startswith('llvm.ctpop'):
            x = a[0]
            r = const(0, x.w)
            for i in range(x.w):
                r = tm.add(r, tm.zext(tm.bit(x, i), x.w)) if x.w > 1 else x
            return r
        if '.with.overflow' in name:
            x, y = a
            w = x.w
            op = name.split('.')[1]
            if op[1:] == 'mul':
                if op[0] == 'u':
                    e = tm.mulx(x, y)
                    return (tm.trunc(e, w), tm.ne(tm.ext(e, 2 * w - 1, w), const(0, w)))
                raise Unsupported(name)
            f = tm.zext if op[0] == 'u' else tm.sext
            e = (tm.add if op[1:] == 'add' else tm.sub)(f(x, w + 1), f(y, w + 1))
            ov = tm.bit(e, w) if op[0] == 'u' else tm.xor(tm.bit(e, w), tm.bit(e, w - 1))
            return (tm.trunc(e, w), ov)
        for k, f in (('umax', lambda x, y: tm.ite(tm.ult(x, y), y, x)), ('umin', lambda x, y: tm.ite(tm.ult(x, y), x, y)),
                     ('smax', lambda x, y: tm.ite(tm.slt(x, y), y, x)), ('smin', lambda x, y: tm.ite(tm.slt(x, y), x, y))):
            if name.startswith('llvm.' + k):
                return f(a[0], a[1])
        if name.startswith('llvm.abs'):
            return tm.ite(tm.msb(a[0]), tm.neg(a[0]), a[0])
        if name.startswith('llvm.fshl'):
            w = a[0].w
            x = tm.shl(tm.cat(a[0], a[1]), tm.zext(tm.urem(a[2], const(w, w)), 2 * w))
            return tm.ext(x, 2 * w - 1, w)
        if name.startswith('llvm.bswap'):
            x = a[0]
            return tm.cat(*[tm.ext(x, 8 * k + 7, 8 * k) for k in range(x.w // 8)])
        if name.startswith('llvm.is.constant'):
            return const(0, 1)
        if name.startswith('llvm.fabs'):
            x = a[0]
            return tm.cat(const(0, 1), tm.trunc(x, x.w - 1))
        mdl = self.models.get(name)
        if mdl is not None:
            return mdl(self, st, a)
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------- entry points
    def run_ctors(self, st):
        for c in self.m.ctors:
            f = self.m.funcs.get(c)
            if f is None:
                raise Unsupported('static initialiser ' + str(c))
            r = self.call_fn(st, f, [])
            if r is DEAD:
                raise Unsupported('static initialisation does not return')


class Frame:
    __slots__ = ('f', 'info', 'allocas', 'forks', '_dies')

    def __init__(self, f, info):
        self.f = f
        self.info = info
        self.allocas = []
        self.forks = {}
        self._dies = None

    def dies(self, blk):
        """block cannot reach a return"""
        return blk not in self.info[1]


class ExternCall(Exception):
    def __init__(self, name):
        self.name = name


class _Dead:
    pass


DEAD = _Dead()
MISSING = _Dead()


def _s(v, w):
    return v - (1 << w) if v >> (w - 1) else v
