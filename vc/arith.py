"""Lemmas of real/integer arithmetic, proved by z3 on every run, and the cut-point machinery that
connects them with the bit-vector terms of the executed code.

A lemma is a list of polynomial hypotheses and a goal over real variables (every integer is a
real, so what is proved for reals holds for the machine values, which are mathematical integers
here because each product and sum is formed at full width)."""
import subprocess, shutil, time
from . import terms as tm
from .terms import const, zext, ext, cat, eq, not_

Z3 = shutil.which('z3') or 'z3'


class X:
    """an SMT-LIB real expression"""

    def __init__(self, s, names=frozenset()):
        self.s, self.names = s, names

    def _b(self, o, op, swap=False):
        o = lift(o)
        a, b = (o, self) if swap else (self, o)
        return X('(%s %s %s)' % (op, a.s, b.s), a.names | b.names)

    def __add__(self, o): return self._b(o, '+')
    def __radd__(self, o): return self._b(o, '+', True)
    def __sub__(self, o): return self._b(o, '-')
    def __rsub__(self, o): return self._b(o, '-', True)
    def __mul__(self, o): return self._b(o, '*')
    def __rmul__(self, o): return self._b(o, '*', True)
    def __lt__(self, o): return self._b(o, '<')
    def __le__(self, o): return self._b(o, '<=')
    def __gt__(self, o): return self._b(o, '>')
    def __ge__(self, o): return self._b(o, '>=')
    def __eq__(self, o): return self._b(o, '=')
    __hash__ = None


def lift(v):
    if isinstance(v, X):
        return v
    if isinstance(v, tuple):
        return X('(/ %d.0 %d.0)' % v)
    return X('%d.0' % v if v >= 0 else '(- %d.0)' % -v)


def reals(names):
    return [X(n, frozenset([n])) for n in names.split()]


def conj(*xs):
    return X('(and %s)' % ' '.join(x.s for x in xs), frozenset().union(*[x.names for x in xs]))


_cache = {}


def prove_all(lemmas, timeout=20, ints=()):
    """lemmas: list of (name, hyps, goal); ints: the variables that are integers.  Returns (names not proved, seconds)"""
    text = []
    for name, hyps, goal in lemmas:
        ns = set()
        for h in list(hyps) + [goal]:
            ns |= h.names
        text.append('(push)')
        text += ['(declare-const %s %s)' % (n, 'Int' if n in ints else 'Real') for n in sorted(ns)]
        text += ['(assert %s)' % h.s for h in hyps]
        text += ['(assert (not %s))' % goal.s, '(check-sat)', '(pop)']
    t = '\n'.join(text)
    if t in _cache:
        return _cache[t]
    t0 = time.time()
    try:
        p = subprocess.run([Z3, '-in', '-t:%d' % (timeout * 1000)], input=t.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout * len(lemmas) + 10)
        res = p.stdout.decode().split()
    except (subprocess.TimeoutExpired, OSError):
        res = []
    bad = [l[0] for k, l in enumerate(lemmas) if k >= len(res) or res[k] != 'unsat']
    _cache[t] = bad, time.time() - t0
    return _cache[t]


# ---------------------------------------------------------------- cut points

def nodes(roots):
    seen, st, out = set(), list(roots), []
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        out.append(t)
        st += [x for x in t.a if isinstance(x, tm.T)]
    return out


def products(roots):
    return [t for t in nodes(roots) if t.op == 'mulx' and t.a[0].op != 'c' and t.a[1].op != 'c']


def scale(v, T):
    """j with v == T << j on all samples (lists of ints), or None"""
    j = None
    for a, b in zip(v, T):
        if b == 0:
            if a:
                return None
            continue
        if a < b or a % b:
            return None
        k = a // b
        if k & (k - 1) or (j is not None and k != 1 << j):
            return None
        j = k.bit_length() - 1
    return j


def same_shifted(n, T, j, w):
    """the claim n == T << j as a term"""
    W = max(n.w, T.w + j) if w is None else w
    return eq(zext(n, W), tm.shlc(zext(T, W), j))


class Cuts:
    """replaces every node proved equal to a shifted or offset specification term by an image"""

    def __init__(self, check, hyp, envs):
        self.check, self.hyp, self.envs = check, list(hyp), envs
        self.count = 0

    def prove(self, claim):
        if claim.op == 'c':
            return claim.a[0] == 1
        r = self.check(self.hyp + [not_(claim)])
        if r.status == 'unsat':
            self.count += 1
            return True
        return False

    def values(self, ts):
        cols = [tm.evaluate(ts, e) for e in self.envs]
        return [list(c) for c in zip(*cols)]

    def shifted(self, roots, T, image):
        """nodes equal to T << j become image << j"""
        ns = [n for n in nodes(roots) if n.op not in ('c', 'v') and n.w >= T.w]
        vals = self.values(ns + [T])
        tv = vals.pop()
        mp = {}
        for n, v in zip(ns, vals):
            j = scale(v, tv)
            if j is None or T.w + j > n.w:
                continue
            if n is T or self.prove(same_shifted(n, T, j, None)):
                mp[n.id] = tm.shlc(zext(image, n.w), j)
        return mp

    def offset(self, roots, T, image, minw):
        """nodes equal to sext(T) + c (mod 2^w) become sext(image) + c"""
        ns = [n for n in nodes(roots) if n.op not in ('c', 'v') and n.w >= minw]
        vals = self.values(ns + [T])
        tv = [x - (1 << T.w) if x >> (T.w - 1) else x for x in vals.pop()]
        mp = {}
        for n, v in zip(ns, vals):
            M = (1 << n.w) - 1
            c = (v[0] - tv[0]) & M
            if any((a - b) & M != c for a, b in zip(v, tv)):
                continue
            sx = (lambda t: tm.sext(t, n.w) if n.w >= t.w else tm.trunc(t, n.w))
            if n is T or self.prove(eq(n, tm.add(sx(T), const(c, n.w)))):
                mp[n.id] = tm.add(sx(image), const(c, n.w))
        return mp
