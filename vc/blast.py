"""Bit-blasting of terms to CNF (AND/XOR/MUX/full-adder gates, structurally hashed)
and SAT solving with kissat (cadical / minisat as alternatives)."""
import os, subprocess, tempfile, time, shutil
from . import terms as tm
from .terms import T


def _find(*c):
    for p in c:
        if os.path.sep in p:
            if os.access(p, os.X_OK):
                return p
        else:
            q = shutil.which(p)
            if q:
                return q
    return None


KISSAT = _find('kissat', '/root/.kani/kani-0.68.0/bin/kissat')
CADICAL = _find('cadical', '/app/lean4-4.33.0/build/release/stage1/bin/cadical')
MINISAT = _find('minisat')


class Blaster:
    def __init__(self):
        self.n = 1            # literal 1 = true
        self.clauses = [(1,)]
        self.gates = {}
        self.bits = {}        # term id -> list of literals, LSB first
        self.vars = {}        # name -> literals
        self.keep = []

    TRUE = 1

    def new(self):
        self.n += 1
        return self.n

    # -- gates
    def AND(self, a, b):
        if a == -1 or b == -1 or a == -b:
            return -1
        if a == 1 or a == b:
            return b
        if b == 1:
            return a
        if a > b:
            a, b = b, a
        k = ('a', a, b)
        g = self.gates.get(k)
        if g is None:
            g = self.new()
            self.gates[k] = g
            c = self.clauses
            c.append((-g, a))
            c.append((-g, b))
            c.append((g, -a, -b))
        return g

    def OR(self, a, b):
        return -self.AND(-a, -b)

    def XOR(self, a, b):
        if a == 1:
            return -b
        if a == -1:
            return b
        if b == 1:
            return -a
        if b == -1:
            return a
        if a == b:
            return -1
        if a == -b:
            return 1
        s = 1
        if a < 0:
            a = -a
            s = -s
        if b < 0:
            b = -b
            s = -s
        if a > b:
            a, b = b, a
        k = ('x', a, b)
        g = self.gates.get(k)
        if g is None:
            g = self.new()
            self.gates[k] = g
            c = self.clauses
            c.append((-g, a, b))
            c.append((-g, -a, -b))
            c.append((g, -a, b))
            c.append((g, a, -b))
        return g * s

    def MUX(self, s, a, b):
        """s ? a : b"""
        if s == 1:
            return a
        if s == -1:
            return b
        if a == b:
            return a
        if a == -b:
            return -self.XOR(s, a)
        if a == 1 or a == s:
            return self.OR(s, b)
        if a == -1 or a == -s:
            return self.AND(-s, b)
        if b == 1 or b == -s:
            return self.OR(-s, a)
        if b == -1 or b == s:
            return self.AND(s, a)
        if s < 0:
            s, a, b = -s, b, a
        sg = 1
        if a < 0:
            a, b, sg = -a, -b, -1
        k = ('m', s, a, b)
        g = self.gates.get(k)
        if g is None:
            g = self.new()
            self.gates[k] = g
            c = self.clauses
            c.append((-g, -s, a))
            c.append((g, -s, -a))
            c.append((-g, s, b))
            c.append((g, s, -b))
            c.append((-g, a, b))
            c.append((g, -a, -b))
        return g * sg

    def XOR3(self, a, b, c):
        return self.XOR(self.XOR(a, b), c)

    def MAJ(self, a, b, c):
        l = sorted((a, b, c), key=abs)
        a, b, c = l
        if abs(a) == 1:
            return self.OR(b, c) if a == 1 else self.AND(b, c)
        if a == b:
            return a
        if a == -b:
            return c
        if b == c:
            return b
        if b == -c:
            return a
        sg = 1
        if a < 0:
            a, b, c, sg = -a, -b, -c, -1
        k = ('j', a, b, c)
        g = self.gates.get(k)
        if g is None:
            g = self.new()
            self.gates[k] = g
            cl = self.clauses
            cl.append((g, -a, -b))
            cl.append((g, -a, -c))
            cl.append((g, -b, -c))
            cl.append((-g, a, b))
            cl.append((-g, a, c))
            cl.append((-g, b, c))
        return g * sg

    # -- word level
    def addc(self, x, y, cin=-1):
        out = []
        c = cin
        n = len(x)
        for i in range(n):
            a, b = x[i], y[i]
            out.append(self.XOR3(a, b, c))
            if i + 1 < n:
                c = self.MAJ(a, b, c)
        return out

    def carry(self, x, y, cin):
        c = cin
        for a, b in zip(x, y):
            c = self.MAJ(a, b, c)
        return c

    def mul(self, x, y):
        W = len(x) + len(y)
        # accumulate columns with full adders (carry-save, then ripple)
        acc = [-1] * W
        for i, b in enumerate(y):
            if b == -1:
                continue
            row = [self.AND(a, b) for a in x]
            seg = acc[i:i + len(x) + 1]
            acc[i:i + len(x) + 1] = self.addc(seg, row + [-1])
        return acc

    def divrem(self, x, y):
        """restoring division (division by zero: quotient fixed to 0 by the caller, remainder x)"""
        n = len(x)
        r = [-1] * n
        q = [-1] * n
        for i in range(n - 1, -1, -1):
            r2 = [x[i]] + r
            y2 = y + [-1]
            ny = [-l for l in y2]
            d = self.addc(r2, ny, 1)
            ge = self.carry(r2, ny, 1)
            q[i] = ge
            r = [self.MUX(ge, d[k], r2[k]) for k in range(n)]
        return q, r

    def shift(self, t, left, fill):
        x = self.bits[t.a[0].id]
        s = self.bits[t.a[1].id]
        w = t.w
        f = fill
        cur = list(x)
        k = 0
        over = -1
        for i, sb in enumerate(s):
            amt = 1 << i
            if amt >= w:
                over = self.OR(over, sb)
                continue
            if left:
                sh = [f] * amt + cur[:w - amt]
            else:
                sh = cur[amt:] + [f] * amt
            cur = [self.MUX(sb, sh[j], cur[j]) for j in range(w)]
        if over != -1:
            cur = [self.MUX(over, f, c) for c in cur]
        return cur

    def blast(self, root):
        bits = self.bits
        if root.id in bits:
            return bits[root.id]
        st = [root]
        while st:
            t = st[-1]
            if t.id in bits:
                st.pop()
                continue
            kids = [x for x in t.a if isinstance(x, T)]
            todo = [k for k in kids if k.id not in bits]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            bits[t.id] = self.one(t, [bits[k.id] for k in kids])
            self.keep.append(t)
        return bits[root.id]

    def one(self, t, k):
        op = t.op
        w = t.w
        if op == 'c':
            v = t.a[0]
            return [1 if (v >> i) & 1 else -1 for i in range(w)]
        if op == 'v':
            ls = self.vars.get(t.a[0])
            if ls is None:
                ls = [self.new() for _ in range(w)]
                self.vars[t.a[0]] = ls
            return ls
        if op == 'cat':
            out = []
            for x in reversed(k):
                out.extend(x)
            return out
        if op == 'ext':
            return k[0][t.a[2]:t.a[1] + 1]
        if op == 'not':
            return [-x for x in k[0]]
        if op == 'and':
            return [self.AND(a, b) for a, b in zip(*k)]
        if op == 'or':
            return [self.OR(a, b) for a, b in zip(*k)]
        if op == 'xor':
            return [self.XOR(a, b) for a, b in zip(*k)]
        if op == 'ite':
            s = k[0][0]
            return [self.MUX(s, a, b) for a, b in zip(k[1], k[2])]
        if op == 'add':
            return self.addc(k[0], k[1], -1)
        if op == 'sub':
            return self.addc(k[0], [-b for b in k[1]], 1)
        if op == 'eq':
            r = 1
            for a, b in zip(*k):
                r = self.AND(r, -self.XOR(a, b))
            return [r]
        if op == 'ult':
            # x < y  <=> no carry out of x + ~y + 1
            return [-self.carry(k[0], [-b for b in k[1]], 1)]
        if op == 'mulx':
            return self.mul(k[0], k[1])
        if op == 'udiv':
            nz = -1
            for l in k[1]:
                nz = self.OR(nz, l)
            return [self.AND(nz, l) for l in self.divrem(k[0], k[1])[0]]
        if op == 'urem':
            return self.divrem(k[0], k[1])[1]
        if op == 'shl':
            return self.shift(t, True, -1)
        if op == 'lshr':
            return self.shift(t, False, -1)
        if op == 'ashr':
            return self.shift(t, False, k[0][-1])
        raise Exception('blast ' + op)


class Result:
    __slots__ = ('status', 'model', 'time', 'vars', 'clauses', 'backend')

    def __init__(self, status, model=None, time=0.0, nv=0, nc=0, backend=''):
        self.status = status
        self.model = model
        self.time = time
        self.vars = nv
        self.clauses = nc
        self.backend = backend


def solve_cnf(n, clauses, timeout, backend='kissat'):
    t0 = time.time()
    fd, path = tempfile.mkstemp(suffix='.cnf', dir=os.environ.get('VC_TMP'))
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('p cnf %d %d\n' % (n, len(clauses)))
            f.write('\n'.join(' '.join(map(str, c)) + ' 0' for c in clauses))
            f.write('\n')
        if backend == 'kissat' and KISSAT:
            cmd = [KISSAT, '-q', '--time=%d' % max(1, int(timeout)), path]
        elif backend in ('kissat', 'cadical') and CADICAL:
            backend = 'cadical'
            cmd = [CADICAL, '-q', '-t', str(max(1, int(timeout))), path]
        else:
            backend = 'minisat'
            out = path + '.out'
            subprocess.run([MINISAT, '-verb=0', '-cpu-lim=%d' % max(1, int(timeout)), path, out],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            txt = open(out).read().split() if os.path.exists(out) else ['UNKNOWN']
            if os.path.exists(out):
                os.unlink(out)
            if txt[:1] == ['UNSAT']:
                return 'unsat', None, time.time() - t0, backend
            if txt[:1] == ['SAT']:
                return 'sat', [int(x) for x in txt[1:]], time.time() - t0, backend
            return 'unknown', None, time.time() - t0, backend
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout + 30)
        except subprocess.TimeoutExpired:
            return 'unknown', None, time.time() - t0, backend
        if p.returncode == 20:
            return 'unsat', None, time.time() - t0, backend
        if p.returncode == 10:
            m = []
            for l in p.stdout.decode().split('\n'):
                if l.startswith('v '):
                    m.extend(int(x) for x in l[2:].split())
            return 'sat', m, time.time() - t0, backend
        return 'unknown', None, time.time() - t0, backend
    finally:
        os.unlink(path)


def abstract_products(conj):
    """replace every product by a fresh variable constrained by facts true of all products:
    its range from the operands' known bits, its parity, and when it is zero.  Only an
    over-approximation, so only an unsat answer is final."""
    seen = set()
    st = list(conj)
    prods = []
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'mulx' and t.a[1].op != 'c' and t.a[0].op != 'c':
            prods.append(t)
        for x in t.a:
            if isinstance(x, tm.T):
                st.append(x)
    if not prods:
        return None
    mp = {}
    for t in prods:
        mp[t.id] = tm.var('product!%d' % t.id, t.w)
    lem = []
    for t in prods:
        p, (x, y) = mp[t.id], t.a
        x, y = tm.substitute([x, y], mp)
        lo = tm.umin(x) * tm.umin(y)
        hi = tm.umax(x) * tm.umax(y)
        if lo:
            lem.append(tm.not_(tm.ult(p, tm.const(lo, t.w))))
        lem.append(tm.not_(tm.ult(tm.const(hi, t.w), p)))
        lem.append(tm.eq(tm.bit(p, 0), tm.and_(tm.bit(x, 0), tm.bit(y, 0))))
        z = tm.or_(tm.eq(x, tm.const(0, x.w)), tm.eq(y, tm.const(0, y.w)))
        lem.append(tm.eq(z, tm.eq(p, tm.const(0, t.w))))
        # a product is at least the left operand times the right operand's leading power of two
        for a, b in ((x, y), (y, x)):
            nz = tm.umin(b)
            if nz:
                k = nz.bit_length() - 1
                w = t.w + 1
                if a.w + k <= w:
                    lem.append(tm.not_(tm.ult(tm.zext(p, w), tm.shlc(tm.zext(a, w), k))))
    return tm.substitute(list(conj), mp) + lem


def check_sat(conj, timeout=60, backend='kissat'):
    """conj: list of width-1 terms, all asserted. Returns Result; model maps variable names to ints."""
    ab = abstract_products(conj)
    if ab is not None:
        r = check_plain(ab, min(timeout, 40), backend)
        if r.status == 'unsat':
            r.backend += '+products'
            return r
        r2 = check_plain(conj, max(2, timeout - r.time), backend)
        r2.time += r.time
        return r2
    return check_plain(conj, timeout, backend)


def check_plain(conj, timeout=60, backend='kissat'):
    t0 = time.time()
    b = Blaster()
    lits = []
    for c in conj:
        if c.op == 'c':
            if c.a[0] == 0:
                return Result('unsat', None, 0.0, 0, 0, 'simplifier')
            continue
        l = b.blast(c)[0]
        if l == -1:
            return Result('unsat', None, time.time() - t0, b.n, len(b.clauses), 'simplifier')
        if l != 1:
            lits.append(l)
    if not lits:
        return Result('sat', {}, time.time() - t0, 0, 0, 'simplifier')
    cl = b.clauses + [(l,) for l in lits]
    st, m, dt, be = solve_cnf(b.n, cl, timeout, backend)
    model = None
    if st == 'sat':
        pos = set(x for x in m if x > 0)
        model = {}
        for name, ls in b.vars.items():
            v = 0
            for i, l in enumerate(ls):
                if l in pos:
                    v |= 1 << i
            model[name] = v
    return Result(st, model, time.time() - t0, b.n, len(cl), be)
