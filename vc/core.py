"""Jobs, groups, discharge, native replay, evidence: the driver shared by all checks."""
import json, os, sys, time, subprocess, tempfile, shutil, random, hashlib, signal, traceback, re
import multiprocessing as mp
from . import terms as tm, ir, exec as ex, blast, contracts as ct
from .terms import const, zext, cat, ext, eq, not_, and_, orl, andl, implies

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = shutil.which('clang++-18') or shutil.which('clang++') or 'clang++'
GXX = shutil.which('g++') or 'g++'
CFLAGS = ['-std=c++11', '-w', '-I' + HERE + '/cxx', '-I' + REPO + '/include']


ASSUMED = ['clang 18 at -O0 translates the C++ as g++ and other optimisation levels do (cross-checked by native g++ -O1 runs on sample inputs only)',
           'the host build of the library: neither THLS_SYNTHESIS nor NDEBUG defined, fw_uint over masked native integers',
           'allocation succeeds; the stack is large enough',
           'machine integers are exact bit-vectors: no arithmetic is treated as mathematical']


class BuildError(Exception):
    pass


class Case:
    """one branch of a case split: hyp is a term, post(I, O) -> [(label, term)]; subst: optional
    list of (term, image term), equalities hyp implies (checked), used to simplify the
    obligation before solving; derive(run, conj): rewrites the negated obligation (a list of
    conjuncts, unsatisfiable iff it holds) using lemmas it proves, returning (conjuncts,
    number of lemma instances), or None when they do not apply; direct: when the rewritten
    obligation is not discharged, try the original one"""

    def __init__(self, label, hyp, post, timeout=None, subst=None, derive=None, direct=False):
        self.label, self.hyp, self.post, self.timeout, self.subst = label, hyp, post, timeout, subst
        self.derive, self.direct = derive, direct


class Job:
    """One function under contract, called through an extern "C" wrapper on plain words.

    ins: list of (name, width, fields) with fields a list of (field name, width) from the
    most significant down, or None.  outs: list of (name, width).
    pre(I) -> term, post(I, O) -> list of (label, term); cases(I) -> list of Case."""

    def __init__(self, name, body, ins, outs, post, pre=None, cases=None, desc='', throw_ok=False,
                 timeout=120, cxx_globals='', bounded_tests=200000, must_abort=False, covers=(), samples=None,
                 models=None, out_free=(), cuts=None, fuzz_hook='', extend=None, fallback=()):
        self.name = 'j_' + name
        self.body = body
        self.ins = [(n, w, f or [(n, w)]) for n, w, f in [(i + (None,))[:3] for i in ins]]
        self.outs = outs
        self.post = post
        self.pre = pre
        self.cases = cases
        self.desc = desc or name
        self.throw_ok = throw_ok
        self.timeout = timeout
        self.cxx_globals = cxx_globals
        self.bounded_tests = bounded_tests
        self.samples = samples
        self.models = models
        self.cuts = cuts
        self.optional = False           # calls an internal helper: left out when the library no longer has it
        self.fallback = list(fallback)  # jobs whose contracts decide when this helper's contract fails
        self.extend = extend            # adds the values of model variables to a concrete environment
        self.fuzz_hook = fuzz_hook      # C++ statements adjusting IN[] in the native search
        self.out_free = set(out_free)   # outputs whose unused high bits are not constrained

    def in_words(self):
        return sum((w + 63) // 64 for _, w, _ in self.ins)

    def out_words(self):
        return sum((w + 63) // 64 for _, w in self.outs)

    def inputs(self):
        """name -> term, over field variables"""
        I = {}
        for n, w, fs in self.ins:
            I[n] = cat(*[tm.var('%s' % fn, fw) for fn, fw in fs])
            for fn, fw in fs:
                I[fn] = tm.var(fn, fw) if fn != n else I[n]
            assert I[n].w == w, (n, w)
        return I

    def code(self):
        """the wrapper text"""
        pro = []
        k = 0
        for n, w, _ in self.ins:
            pro.append('  const uint64_t*%s=in+%d; (void)%s;' % (n, k, n))
            k += (w + 63) // 64
        k = 0
        for n, w in self.outs:
            pro.append('  uint64_t*%s=out+%d; (void)%s;' % (n, k, n))
            k += (w + 63) // 64
        return '%s\nextern "C" void %s(const uint64_t*in, uint64_t*out){\n%s\n%s\n}\n' % (
            self.cxx_globals, self.name, '\n'.join(pro), self.body)


class Group:
    """one translation unit: preamble (includes) and jobs"""

    def __init__(self, name, preamble, jobs, cflags=(), validate=True, weight=1, libs=(), contracts=True,
                 shards=1, extra=()):
        self.extra = list(extra)        # compiled for native runs only
        self.name = name
        self.preamble = preamble
        self.jobs = jobs
        self.cflags = list(cflags)
        self.validate = validate
        self.weight = weight
        self.libs = list(libs)
        self.optional = False
        self.contracts = contracts
        self.shards = shards

    def text(self):
        return self.preamble + '\n#include "vw.hpp"\nusing namespace thls;\n' + '\n'.join(j.code() for j in self.jobs + self.extra)

    def native_text(self):
        js = self.jobs + self.extra
        t = self.text()
        t += '\n#ifndef VW_NO_MAIN\n#define VW_NJOBS %d\n' % len(js)
        t += 'typedef void (*vw_fn)(const uint64_t*,uint64_t*);\n'
        t += 'static const char*vw_names[]={%s};\n' % ','.join('"%s"' % j.name for j in js)
        t += 'static vw_fn vw_fns[]={%s};\n' % ','.join(j.name for j in js)
        t += 'static int vw_nout[]={%s};\n' % ','.join(str(j.out_words()) for j in js)
        t += '#include "native_main.inc"\n#endif\n'
        return t


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_ll(g, tmp):
    src = os.path.join(tmp, 'tu.cpp')
    open(src, 'w').write(g.text())
    ll = os.path.join(tmp, 'tu.ll')
    p = run_cmd([CLANG, '-O0', '-S', '-emit-llvm', '-fno-discard-value-names'] + CFLAGS + g.cflags + [src, '-o', ll])
    if p.returncode:
        raise BuildError(p.stderr.decode()[-3000:])
    return open(ll).read()


class Native:
    """the real code compiled and run on concrete inputs"""

    def __init__(self, g, tmp, san=False, debug=False):
        self.g = g
        self.san = san
        src = os.path.join(tmp, 'nat%d.cpp' % san)
        self.exe = os.path.join(tmp, 'nat%d' % san)
        open(src, 'w').write(g.native_text())
        if san:
            cmd = [CLANG, '-O0', '-g0', '-fsanitize=undefined,bounds,float-divide-by-zero', '-fno-sanitize-recover=all']
        else:
            cmd = [GXX, '-O1']
        p = run_cmd(cmd + CFLAGS + g.cflags + [src, '-o', self.exe] + ['-lmpfr', '-lgmp'] + g.libs)
        if p.returncode:
            raise BuildError(p.stderr.decode()[-3000:])

    def run(self, job, vecs, timeout=60):
        """vecs: list of dict name->int; returns list of dict name->int, or ('abort', message)"""
        res = []
        todo = list(vecs)
        while todo:
            txt = ''
            for v in todo:
                ws = []
                for n, w, _ in job.ins:
                    for k in range((w + 63) // 64):
                        ws.append('%x' % ((v[n] >> (64 * k)) & (2**64 - 1)))
                txt += job.name + ' ' + ' '.join(ws) + '\n'
            try:
                p = run_cmd([self.exe], input=txt.encode(), timeout=timeout)
            except subprocess.TimeoutExpired:
                res.append(('timeout', ''))
                return res
            lines = [l for l in p.stdout.decode(errors='replace').split('\n') if l.startswith('=')]
            for l in lines:
                ws = [int(x, 16) for x in l[1:].split()]
                r = {}
                k = 0
                for n, w in job.outs:
                    nw = (w + 63) // 64
                    r[n] = sum(ws[k + i] << (64 * i) for i in range(nw))
                    k += nw
                res.append(r)
            if len(lines) >= len(todo):
                break
            err = p.stderr.decode(errors='replace').strip().split('\n')
            msg = [l for l in err if 'ssert' in l or 'runtime error' in l or 'terminate' in l or 'what()' in l] or err[-3:]
            res.append(('abort', ' | '.join(msg)[-600:] + ' (exit %d)' % p.returncode))
            todo = todo[len(lines) + 1:]
        return res


def rand_vec(job, rng):
    """one structured random input"""
    v = {}
    prev = {}
    for n, w, fs in job.ins:
        x = 0
        for fn, fw in fs:
            m = rng.randrange(10)
            M = (1 << fw) - 1
            if m < 4:
                f = rng.getrandbits(fw) if fw else 0
            elif m == 4:
                f = rng.choice([0, M])
            elif m == 5:
                f = 1 << rng.randrange(fw) if fw else 0
            elif m == 6:
                f = M ^ (1 << rng.randrange(fw)) if fw else 0
            elif m == 7:
                k = rng.randrange(fw + 1)
                f = (rng.getrandbits(fw) >> k) if fw else 0
            elif m == 8:
                k = rng.randrange(fw + 1)
                f = (rng.getrandbits(fw) << k) & M if fw else 0
            else:
                f = rng.getrandbits(fw) if fw else 0
            if fw in prev and rng.randrange(3) == 0:
                f = (prev[fw] + rng.choice([0, 0, 1, -1, 2, -2, rng.randrange(-30, 31)])) & M
            if fn.endswith('k') and fw == 2 and rng.randrange(4):
                f = 1
            prev[fw] = f
            x = (x << fw) | f
        v[n] = x
    return v


def fields_of(job, v):
    env = {}
    for n, w, fs in job.ins:
        x = v[n]
        pos = w
        for fn, fw in fs:
            pos -= fw
            env[fn] = (x >> pos) & ((1 << fw) - 1)
    return env


def vec_of(job, model):
    v = {}
    for n, w, fs in job.ins:
        x = 0
        for fn, fw in fs:
            x = (x << fw) | (model.get(fn, 0) & ((1 << fw) - 1))
        v[n] = x
    return v


def out_terms(job):
    return {n: tm.var('out:' + n, w) for n, w in job.outs}


class JobResult(dict):
    pass


def eval_post(job, v, out):
    """failed labels of the postcondition on concrete input/output; None if the precondition is false"""
    I = job.inputs()
    O = out_terms(job)
    env = fields_of(job, v)
    for n, w in job.outs:
        if n not in job.out_free and out[n] >> w:
            return ['invariant: bits above the width of ' + n + ' are zero']
        env['out:' + n] = out[n]
    if job.pre is not None:
        if not tm.evaluate([job.pre(I)], env)[0]:
            return None
    bad = []
    if job.post is not None:
        ps = job.post(I, O)
    else:
        ps = []
        for c in job.cases(I):
            if tm.evaluate([c.hyp], env)[0]:
                ps = c.post(I, O)
                break
        else:
            return None
    vals = tm.evaluate([t for _, t in ps], env)
    return [l for (l, _), x in zip(ps, vals) if not x]


class Run:
    """verification of one group"""

    def __init__(self, g, tmp, tier, seed, deadline, shard=0):
        self.g, self.tmp, self.tier, self.seed, self.deadline = g, tmp, tier, seed, deadline
        self.shard = shard
        self.rng = random.Random('%s/%s' % (seed, g.name))
        self.native = {}
        self.lib = ct.Library()
        self.disabled = set()
        self.nob = 0
        self.backends = {}
        self.solver_time = 0.0
        self.kinds = {}

    def nat(self, san=False):
        if san not in self.native:
            self.native[san] = Native(self.g, self.tmp, san)
        return self.native[san]

    def check(self, conj, timeout=120):
        left = self.deadline - time.time()
        r = blast.check_sat(conj, timeout=max(2, min(timeout, left)))
        self.solver_time += r.time
        self.backends[r.backend] = self.backends.get(r.backend, 0) + 1
        return r

    # ---- one symbolic execution
    def setup_state(self, eng):
        st = ex.State({}, ())
        eng.run_ctors(st)
        return st

    def execute(self, job, m, hist=None):
        eng = ex.Engine(m, [self.lib] if self.g.contracts else [], job.models)
        eng.throw_ok = job.throw_ok
        if hist is None:
            st = self.setup_state(eng)
        else:
            eng.gmem, eng.ginit, eng.objs, mem = hist
            st = ex.State(dict(mem), ())
        I = job.inputs()
        if job.pre is not None:
            p = job.pre(I)
            st.pc = st.pc + (p,)
        if job.cuts is not None:
            I['cut'] = eng.cutter = job.cuts(I)
            eng.cutter.check = lambda c: self.check(c, 60)
        oin = eng.newobj(st, 8 * max(1, job.in_words()), 'in')
        oout = eng.newobj(st, 8 * max(1, job.out_words()), 'out')
        k = 0
        cells = st.mem[oin].cells
        for n, w, _ in job.ins:
            nw = (w + 63) // 64
            t = zext(I[n], 64 * nw)
            for i in range(nw):
                cells[8 * (k + i)] = (8, ext(t, 64 * i + 63, 64 * i))
            k += nw
        before = {i: o for i, o in st.mem.items()}
        if eng.cutter is not None:
            eng.cutter.active = True
        r = eng.call_fn(st, m.funcs[job.name], [ex.mkptr(oin), ex.mkptr(oout)])
        if r is ex.DEAD:
            return eng, None, I, None, False
        O = {}
        raw = {}
        k = 0
        for n, w in job.outs:
            nw = (w + 63) // 64
            t = cat(*[eng.read_raw(st.mem[oout], 8 * (k + i), 8) for i in reversed(range(nw))])
            raw[n] = t
            O[n] = tm.trunc(t, w)
            k += nw
        # frame: nothing but `out` and the stack may be written; changed globals are history
        changed = []
        for i, o in st.mem.items():
            if i in (oin, oout) or o.kind == 'stack':
                continue
            b = before.get(i) or eng.ginit.get(i)
            if b is not o and b is not None and b.cells != o.cells:
                changed.append(i)
        mem = {i: o for i, o in st.mem.items() if i not in (oin, oout)}
        return eng, O, I, raw, (changed, (eng.gmem, eng.ginit, eng.objs, mem), st)

    def run_group(self):
        try:
            text = compile_ll(self.g, self.tmp)
        except BuildError as e:
            text = None
            keep = [j for j in self.g.jobs if not j.optional]
            if keep and len(keep) < len(self.g.jobs):   # jobs that name an internal helper of the library
                self.g.jobs = keep
                try:
                    text = compile_ll(self.g, self.tmp)
                except BuildError:
                    text = None
            if text is None:
                return {'group': self.g.name, 'uncompiled': True, 'detail': str(e), 'jobs': []}
        out = {'group': self.g.name, 'jobs': [], 'contracts': [], 'dropped': []}
        for attempt in range(4):
            m = ir.parse_module(text)
            self.lib = ct.Library(self.disabled)
            execs = []
            for job in self.g.jobs:
                try:
                    execs.append((job, self.execute(job, m), None))
                except MemoryError:
                    raise
                except Exception as e:
                    execs.append((job, None, '%s: %s' % (type(e).__name__, e)))
            bad = []
            contracts = []
            # every contract instance that was used, and those used by their proofs
            used = set()
            todo = set()
            for job, e, err in execs:
                if e is not None:
                    todo |= set(e[0].used_contracts)
            names = [k for k, s in self.lib.inst.items() if s is not None]
            todo |= set(names)
            while todo:
                k = todo.pop()
                if k in used or self.lib.inst.get(k) is None:
                    continue
                used.add(k)
                n0 = set(self.lib.inst)
                try:
                    ok, n, t = ct.prove_contract(m, self.lib, k, lambda c: self.check(c, 30), ex.Engine, self.setup_state)
                except MemoryError:
                    raise
                except Exception:
                    ok, n, t = False, 0, 0.0
                if ok:
                    contracts.append((self.lib.inst[k].name, n))
                else:
                    bad.append(k)
                todo |= set(x for x in self.lib.inst if x not in n0)
            if not bad:
                break
            for k in bad:
                out['dropped'].append(self.lib.inst[k].name)
            self.disabled |= set(bad)
        else:
            contracts = []
        out['contracts'] = contracts
        for job, e, err in execs:
            t0 = time.time()
            try:
                if e is None:
                    r = self.bounded(job, err)
                else:
                    r = self.job(job, e, m)
                    if r['status'] == 'error':      # the engine and the compiled code disagree: only the latter decides
                        r = self.bounded(job, '; '.join(str(f[:2]) for f in r['failed'])[:800])
            except MemoryError:
                raise
            except Exception as x:
                r = self.bounded(job, '%s: %s' % (type(x).__name__, x))
            if job.fallback and r['status'] in ('violation', 'bounded'):
                self.helper_failed(job, r)
            r['seconds'] = round(time.time() - t0, 2)
            out['jobs'].append(r)
            if r['status'] == 'violation' and r['violation']['confirmed']:
                break       # one confirmed failure decides the group
        out['backends'] = self.backends
        out['solver_time'] = self.solver_time
        return out

    # ---- native validation of the engine's result on samples
    def samples(self, job, n, I=None, cases=None):
        vs = []
        if job.samples is not None:
            vs += list(job.samples(self.rng))[:n]
        p = job.pre(I) if job.pre is not None else None
        tries = 0
        while len(vs) < n and tries < 50 * n:
            tries += 1
            v = rand_vec(job, self.rng)
            if p is not None and not tm.evaluate([p], fields_of(job, v))[0]:
                continue
            vs.append(v)
        return vs

    def job(self, job, e, m):
        eng, O, I, raw, info = e
        r = JobResult(job=job.name, desc=job.desc, status='proved', obligations=0, discharged=0, failed=[],
                      by_kind={}, trivial=0, instructions=eng.ninstr, inlined=len(eng.inlined),
                      contracts_used=sum(eng.used_contracts.values()), assumptions=sorted(eng.assumed))
        if self.shard == 0:
            self.safety(job, eng, I, r)
            if O is None:
                if r['status'] == 'proved':
                    r['failed'].append(('returns', 'the function never returns normally', None))
                    self.search(job, I, r, 'the function never returns normally')
                return r
            self.validate(job, I, raw, r)
            if r['status'] == 'error':
                return r
            changed, hist, st = info
            if changed:
                e2 = self.execute(job, m, hist)
                eng2, O2, I2, raw2, info2 = e2
                self.safety(job, eng2, I2, r)
                ok = O2 is not None and not info2[0]
                if not ok:
                    r['assumptions'].append('internal static state depends on the call history beyond one call; only the first two calls are covered')
                if O2 is not None:
                    self.posts(job, I2, O2, raw2, r, ' (after a previous call)')
        if O is not None:
            self.posts(job, I, O, raw, r)
        return r

    def note(self, r, kind, n=1, ok=True):
        r['obligations'] += n
        if ok:
            r['discharged'] += n
        r['by_kind'][kind] = r['by_kind'].get(kind, 0) + n

    def safety(self, job, eng, I, r):
        r['trivial'] += eng.trivial
        for k, n in eng.trivial_kinds.items():
            self.note(r, k, n)
        if not eng.obls:
            return
        tot = [andl(*(o.pc + (o.bad,))) for o in eng.obls]
        q = orl(*tot)
        hyp = eng.cutter.allfacts if eng.cutter is not None else []
        res = self.check(hyp + [q], job.timeout)
        if res.status == 'unsat':
            for o in eng.obls:
                self.note(r, o.kind)
            return
        # find the failing ones
        for o in eng.obls:
            if time.time() > self.deadline:
                res = None
            else:
                res = self.check(hyp + list(o.pc) + [o.bad], job.timeout)
            if res is not None and res.status == 'unsat':
                self.note(r, o.kind)
                continue
            self.note(r, o.kind, 1, False)
            label = '%s: %s in %s' % (o.kind, o.name, ex.demangle([o.where])[0][:160])
            if res is None or res.status == 'unknown':
                self.undecided(job, I, r, label)
            else:
                self.refuted(job, I, r, label, res.model, o.kind)
            if r['status'] == 'violation':
                return

    def posts(self, job, I, O, raw, r, sfx=''):
        inv = [eq(ext(raw[n], raw[n].w - 1, w), const(0, raw[n].w - w)) for n, w in job.outs
               if raw[n].w > w and n not in job.out_free]
        pre = [job.pre(I)] if job.pre is not None else []
        if 'cut' in I:
            pre += I['cut'].final()
            if I['cut'].count and self.shard == 0:
                self.note(r, 'loop invariant', I['cut'].count)
        if inv and self.shard == 0:
            res = self.check(pre + [not_(andl(*inv))], job.timeout)
            ok = res.status == 'unsat'
            self.note(r, 'type invariant', len(inv), ok)
            if not ok:
                lbl = 'invariant: every result fits its width' + sfx
                if res.status == 'sat':
                    self.refuted(job, I, r, lbl, res.model, 'invariant')
                else:
                    self.undecided(job, I, r, lbl)
                if r['status'] == 'violation':
                    return
        if job.cases is None:
            cs = [Case('', tm.true(), job.post)]
        else:
            cs = job.cases(I)
            if self.shard == 0:
                res = self.check(pre + [not_(c.hyp) for c in cs], job.timeout)
                ok = res.status == 'unsat'
                self.note(r, 'case split complete', 1, ok)
                if not ok:
                    r['status'] = 'error'
                    r['failed'].append(('case split', 'incomplete case split', None))
                    return
        for k, c in enumerate(cs):
            if k % self.g.shards != self.shard:
                continue
            ps = c.post(I, O)
            lbl = '; '.join(l for l, _ in ps) + (' [%s]' % c.label if c.label else '') + sfx
            if time.time() > self.deadline:
                self.note(r, 'postcondition', len(ps), False)
                self.undecided(job, I, r, lbl)
                continue
            q = pre + [c.hyp, not_(andl(*[t for _, t in ps]))]
            if c.subst and self.check([c.hyp, not_(andl(*[eq(v, t) for v, t in c.subst]))], job.timeout).status == 'unsat':
                self.note(r, 'case substitution', 1)
                q = [c.hyp] + tm.substitute(q, {v.id: t for v, t in c.subst})
            derive = c.derive
            if derive is not None and c.direct:
                derive, d = None, c.derive(self, q)
                if d is not None:
                    self.note(r, 'lemma', d[1])
                    if self.check(d[0], c.timeout or job.timeout).status == 'unsat':
                        self.note(r, 'postcondition', len(ps))
                        continue
            if derive is not None:
                d = derive(self, q)
                if d is None:
                    self.note(r, 'postcondition', len(ps), False)
                    self.undecided(job, I, r, 'post: ' + lbl, 'the lemmas do not apply')
                    if r['status'] == 'violation':
                        return
                    continue
                q, n = d
                self.note(r, 'lemma', n)
            res = self.check(q, c.timeout or job.timeout)
            if res.status == 'unsat':
                self.note(r, 'postcondition', len(ps))
                continue
            if res.status == 'sat' and derive is not None:
                # the rewritten obligation is weaker than the contract: only a replay decides
                self.note(r, 'postcondition', len(ps), False)
                msg, out = self.confirm(job, vec_of(job, res.model))
                if msg is None:
                    self.undecided(job, I, r, 'post: ' + lbl, 'not implied by the lemmas')
                else:
                    self.refuted(job, I, r, 'post: ' + lbl, res.model, 'post')
                if r['status'] == 'violation':
                    return
                continue
            self.note(r, 'postcondition', len(ps), False)
            if res.status == 'sat':
                bad = tm.evaluate([t for _, t in ps], res.model)
                which = [l for (l, _), b in zip(ps, bad) if not b]
                lbl = 'post: ' + '; '.join(which or [lbl]) + (' [%s]' % c.label if c.label else '') + sfx
                self.refuted(job, I, r, lbl, res.model, 'post')
            else:
                self.undecided(job, I, r, 'post: ' + lbl)
            if r['status'] == 'violation':
                return

    def confirm(self, job, v, kinds=('plain', 'ub')):
        """run the real code: list of failure texts (empty: no failure)"""
        o = self.nat(False).run(job, [v, v])
        for x in o:
            if isinstance(x, tuple):
                return 'the real code ' + ('aborts: ' if x[0] == 'abort' else 'does not return: ') + x[1], None
            bad = eval_post(job, v, x)
            if bad:
                return 'the real code breaks: ' + '; '.join(bad), x
        if 'ub' in kinds:
            try:
                o = self.nat(True).run(job, [v])[0]
            except BuildError:
                return None, None
            if isinstance(o, tuple):
                return 'the sanitized build of the real code stops: ' + o[1], None
            bad = eval_post(job, v, o)
            if bad:
                return 'the real code (clang -O0) breaks: ' + '; '.join(bad), o
        return None, None

    def refuted(self, job, I, r, label, model, kind):
        v = vec_of(job, model)
        msg, out = self.confirm(job, v)
        if msg is None:
            # try a few neighbours of the model before giving up
            r['failed'].append((label, 'counterexample not reproduced natively', v))
            if self.search(job, I, r, label, quiet=True):
                return
            r['status'] = 'violation'
            r['violation'] = {'obligation': label, 'input': {k: hex(x) for k, x in v.items()}, 'confirmed': False,
                              'observed': 'the verifier refutes the obligation; running the real code on its counterexample shows no failure'}
            return
        r['failed'].append((label, msg, v))
        r['status'] = 'violation'
        r['violation'] = {'obligation': label, 'input': {k: hex(x) for k, x in v.items()}, 'confirmed': True,
                          'observed': msg, 'output': None if out is None else {k: hex(x) for k, x in out.items()}}

    def undecided(self, job, I, r, label, why='solver time limit'):
        r['failed'].append((label, why, None))
        if r['status'] == 'proved':
            r['status'] = 'bounded'
            r['why'] = why
        r.setdefault('undecided', []).append(label)
        if 'searched' not in r:
            r['searched'] = 0
            self.search(job, I, r, label)

    def search(self, job, I, r, label, quiet=False, n=None):
        """look for a failing input by running the real code natively; bounded"""
        from . import cgen
        n = n or job.bounded_tests
        try:
            tested, v, msg = cgen.fuzz(self, job, n, self.rng.getrandbits(31),
                                       max(5, min(60, self.deadline - time.time() + 20)))
        except BuildError as e:
            tested, v, msg = 0, None, None
            r.setdefault('notes', []).append('native search not built: ' + str(e)[-300:])
        r['searched'] = r.get('searched', 0) + tested
        if v is not None:
            msg2, out = self.confirm(job, v)
            if msg2:
                r['status'] = 'violation'
                r['violation'] = {'obligation': label, 'input': {k: hex(x) for k, x in v.items()}, 'confirmed': True,
                                  'observed': msg2, 'output': None if out is None else {k: hex(x) for k, x in out.items()}}
                return True
        return False

    def helper_failed(self, job, r):
        """the contract of an internal helper fails: a violation only if a function of the library
        that relies on it returns a wrong result"""
        v = r.pop('violation', None)
        r['status'] = 'bounded'
        r['why'] = 'the helper contract is not proved' + (' (it fails on %s)' % v['input'] if v else '')
        lbl = v['obligation'] if v else r['failed'][0][0] if r['failed'] else job.desc
        for fb in job.fallback:
            if self.search(fb, None, r, '%s: %s; through %s' % (job.desc, lbl, fb.desc)):
                r['violation']['job'] = fb.name
                return

    def bounded(self, job, err):
        """the verifier cannot process the function: bounded stand-in, labelled as such"""
        r = JobResult(job=job.name, desc=job.desc, status='bounded', obligations=0, discharged=0, failed=[],
                      by_kind={}, trivial=0, instructions=0, inlined=0, contracts_used=0, assumptions=[],
                      why=err)
        if self.shard == 0:
            I = job.inputs()
            self.search(job, I, r, 'bounded test of the contract', n=job.bounded_tests * 5)
        return r

    def validate(self, job, I, raw, r):
        """the engine's result and the contract against the real code on sample inputs"""
        if not self.g.validate:
            return
        vs = self.samples(job, 12 if self.tier == 'quick' else 60, I)
        if not vs:
            return
        try:
            outs = self.nat(False).run(job, vs)
        except BuildError as e:
            r['status'] = 'error'
            r['failed'].append(('native build', str(e)[-500:], None))
            return
        n = 0
        names = [nm for nm, _ in job.outs]
        vars_ = tm.variables([raw[nm] for nm in names])
        undef = [x for x in vars_ if x.startswith('undef')]
        for v, o in zip(vs, outs):
            if isinstance(o, tuple):
                msg = 'the real code ' + ('aborts: ' if o[0] == 'abort' else 'does not return: ') + o[1]
                if r['status'] != 'violation':
                    r['status'] = 'violation'
                    r['violation'] = {'obligation': 'returns normally', 'input': {k: hex(x) for k, x in v.items()},
                                      'confirmed': True, 'observed': msg, 'output': None}
                return
            bad = eval_post(job, v, o)
            if bad:
                if r['status'] != 'violation':
                    r['status'] = 'violation'
                    r['violation'] = {'obligation': '; '.join(bad), 'input': {k: hex(x) for k, x in v.items()},
                                      'confirmed': True, 'observed': 'the real code breaks: ' + '; '.join(bad),
                                      'output': {k: hex(x) for k, x in o.items()}}
                return
            env = fields_of(job, v)
            if 'cut' in I:
                I['cut'].extend(env)
            if job.extend is not None:
                job.extend(env)
            got = tm.evaluate([raw[nm] for nm in names], env)
            if not undef and got != [o[nm] for nm in names]:
                r['failed'].append(('engine', 'symbolic result differs from the compiled code on %s: %s vs %s' %
                                    (v, [hex(g) for g in got], o), v))
                r['mismatch'] = True
                # the compiled code may differ because of undefined behaviour: the sanitizer decides
                msg, out = self.confirm(job, v)
                if msg:
                    r['status'] = 'violation'
                    r['violation'] = {'obligation': 'defined behaviour', 'input': {k: hex(x) for k, x in v.items()},
                                      'confirmed': True, 'observed': msg, 'output': None}
                else:
                    r['status'] = 'error'
                return
            n += 1
        r['validated_samples'] = r.get('validated_samples', 0) + n


def _task(a):
    modname, gi, shard, tier, seed, deadline, tmproot = a
    import importlib, resource
    t0 = time.time()
    sys.setrecursionlimit(20000)
    tm.reset()
    tmp = tempfile.mkdtemp(dir=tmproot)
    os.environ['VC_TMP'] = tmp
    name = '?'
    try:
        if time.time() > deadline:
            return {'gi': gi, 'skipped': True, 'group': str(gi), 'jobs': []}
        g = importlib.import_module(modname).groups(tier)[gi]
        name = g.name
        run = Run(g, tmp, tier, seed, deadline, shard)
        try:
            r = run.run_group()
        except MemoryError:
            tm.reset()
            run = Run(importlib.import_module(modname).groups(tier)[gi], tmp, tier, seed, deadline, shard)
            r = {'group': name, 'contracts': [], 'dropped': [], 'jobs': [run.bounded(j, 'out of memory') for j in run.g.jobs]}
        r['gi'] = gi
        r['wall'] = time.time() - t0
        return r
    except MemoryError:
        return {'gi': gi, 'group': name, 'error': 'out of memory', 'jobs': [], 'wall': time.time() - t0}
    except Exception:
        return {'gi': gi, 'group': name, 'error': 'internal error', 'detail': traceback.format_exc()[-3000:], 'jobs': [],
                'wall': time.time() - t0}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def run_check(prop, modname, tier, seed, budget, only=None, jobs=8, verbose=False, keep_going=False):
    import importlib
    t0 = time.time()
    mod = importlib.import_module(modname)
    groups = mod.groups(tier)
    deadline = t0 + budget
    tmproot = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    order = sorted(range(len(groups)), key=lambda i: -groups[i].weight)
    tasks = []
    for i in order:
        if only and not re.search(only, groups[i].name):
            continue
        for s in range(groups[i].shards):
            tasks.append((modname, i, s, tier, seed, deadline, tmproot))
    results = []
    try:
        with mp.get_context('fork').Pool(min(jobs, max(1, len(tasks))), maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(_task, tasks):
                results.append(r)
                hit = any(j['status'] == 'violation' and j['violation']['confirmed'] for j in r['jobs'])
                if verbose:
                    print('%-40s %6.1fs %s' % (r['group'], r.get('wall', 0), r.get('error') or
                          ' '.join('%s:%s%s' % (j['job'], j['status'], '' if j['status'] == 'proved' else ' ' +
                                   str(j.get('why') or j.get('violation') or j['failed'])[:700]) for j in r['jobs'])), flush=True)
                    if r.get('detail'):
                        print(r['detail'])
                    if r.get('dropped'):
                        print('   dropped contracts:', r['dropped'])
                if hit and not keep_going:
                    pool.terminate()    # one confirmed failure decides the check
                    break
    finally:
        shutil.rmtree(tmproot, ignore_errors=True)
    return finish(prop, mod, groups, results, tier, seed, t0, modname)


def finish(prop, mod, groups, results, tier, seed, t0, modname):
    ob = dis = 0
    kinds, backends = {}, {}
    st = 0.0
    contracts, dropped = {}, set()
    proved, bounded, viol, errors, skipped = [], [], [], [], []
    assume = set(getattr(mod, 'ASSUMPTIONS', ()))
    samples = 0
    slow = []
    uncompiled = {}
    for r in results:
        if r.get('skipped'):
            skipped.append(groups[r['gi']].name)
            continue
        if r.get('error'):
            errors.append((r['group'], r['error'], r.get('detail', '')))
            continue
        if r.get('uncompiled'):
            uncompiled[r['group']] = r.get('detail', '')
            continue
        for k, n in r.get('contracts', ()):
            if k not in contracts:
                contracts[k] = n
        dropped |= set(r.get('dropped', ()))
        for k, n in r.get('backends', {}).items():
            backends[k] = backends.get(k, 0) + n
        st += r.get('solver_time', 0)
        slow.append((round(r.get('wall', 0), 1), r['group']))
        for j in r['jobs']:
            ob += j['obligations']
            dis += j['discharged']
            for k, n in j['by_kind'].items():
                kinds[k] = kinds.get(k, 0) + n
            assume |= set(j['assumptions'])
            samples += j.get('validated_samples', 0)
            tag = r['group'] + '/' + j['job']
            if j['status'] == 'proved':
                proved.append(tag)
            elif j['status'] == 'bounded':
                bounded.append({'function': tag, 'reason': j.get('why', ''), 'inputs_tested': j.get('searched', 0),
                                'undecided': j.get('undecided', [])[:6]})
            elif j['status'] == 'violation':
                viol.append((r, j))
            else:
                errors.append((tag, 'error', json.dumps(j['failed'])[:1500]))
    cob = sum(contracts.values())
    ob += cob
    dis += cob
    bad_known = []
    rc = 0
    lines = []
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for r, j in viol:
        v = j['violation']
        g = groups[r['gi']]
        rp = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (prop, re.sub(r'\W', '_', r['group']), j['job']))
        jn = v.get('job', j['job'])
        json.dump({'property': prop, 'function': j['desc'], 'group': r['group'], 'job': jn,
                   'failed_obligation': v['obligation'], 'input': v['input'], 'observed': v['observed'],
                   'output': v.get('output'), 'confirmed_on_real_code': v['confirmed'],
                   'all_failed': [f[:2] for f in j['failed']],
                   'source': g.native_text(), 'cflags': g.cflags, 'libs': g.libs,
                   'input_widths': [[n, w] for jb in g.jobs + g.extra if jb.name == jn for n, w, _ in jb.ins],
                   'how_to_replay': 'compile "source" with g++ -std=c++11 -w -I/verif/cxx -I/repo/include (-lmpfr -lgmp) and feed '
                                    '"<job> <hex words of the inputs>" on standard input; or: python3 /verif/replay.py <this file>'},
                  open(rp, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if v['confirmed'] else ' no-failing-input-found'))
        lines.append('  %s: %s; input %s; %s' % (r['group'] + '/' + j['job'], v['obligation'], v['input'], v['observed']))
        rc = 1
    # a configuration that does not compile computes nothing wrong; a library that hardly compiles is no answer
    must = [g for g in uncompiled if not all(x.optional for x in groups if x.name == g)]
    if 4 * len(must) >= len(set(g.name for g in groups)):
        errors += [(g, 'does not compile', uncompiled[g][-1500:]) for g in must]
    else:
        for g in sorted(uncompiled):
            lines.append('NOT-COMPILED %s: not covered in this run' % g)
    if rc == 0 and errors:
        rc = 2
    for g, e, d in errors:
        lines.append('ERROR %s: %s %s' % (g, e, d))
    if rc == 0 and not proved and not bounded:
        lines.append('ERROR no obligations were generated')
        rc = 2
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': ob, 'discharged': dis,
              'checker_cmd': 'python3 /verif/check.py %s %s' % (prop, tier),
              'trusted_base': ['clang 18 -O0 (C++ to LLVM IR)', 'vc/exec.py (IR semantics and verification conditions)',
                               'vc/terms.py, vc/blast.py (term simplifier and bit-blaster)', 'kissat (SAT back end)',
                               'vc/spec.py (specification functions)'],
              'functions_under_contract': len(proved) + len(contracts),
              'top_level_contracts_proved': len(proved),
              'helper_contract_instances_proved': len(contracts),
              'helper_contract_obligations': cob,
              'helper_contracts_dropped_and_inlined': sorted(dropped)[:40],
              'obligations_by_kind': kinds,
              'queries_by_backend': backends, 'solver_seconds': round(st, 1),
              'native_cross_checks': samples,
              'bounded_stand_ins': bounded[:60], 'bounded_count': len(bounded),
              'not_run_for_time': skipped[:200], 'not_compiled': sorted(uncompiled),
              'groups': len(groups), 'slowest_groups': sorted(slow, reverse=True)[:6],
              'sample_functions': proved[:12],
          },
          'assumptions': ASSUMED + sorted(assume), 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    extra = getattr(mod, 'EXTRA', None)
    if extra:
        ev['coverage'].update(extra)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for k in known_findings(prop):
        ok, text = mod.known(k) if hasattr(mod, 'known') else (True, k['what'])
        if ok:
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, text))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for l in lines:
        print(l)
    print('%s %s: %d contracts proved, %d helper contract instances, %d/%d obligations discharged, %d bounded, %d skipped, %.1fs' %
          (prop, tier, len(proved), len(contracts), dis, ob, len(bounded), len(skipped), time.time() - t0))
    return rc
