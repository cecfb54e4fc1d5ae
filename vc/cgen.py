"""Emit specification terms as C (arbitrary-width integers) and search natively for inputs on
which the real code breaks its contract.  Used for replay searches and bounded stand-ins only."""
import os, subprocess, time
from . import terms as tm
from .terms import T


def emit(roots, varexpr, out):
    """append C statements computing roots to out; returns C names"""
    names = {}
    stack = list(roots)
    n = [0]
    U = lambda w: 'unsigned _BitInt(%d)' % w
    while stack:
        t = stack[-1]
        if t.id in names:
            stack.pop()
            continue
        kids = [x for x in t.a if isinstance(x, T)]
        todo = [k for k in kids if k.id not in names]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        k = [names[x.id] for x in kids]
        op, w = t.op, t.w
        if op == 'c':
            v = t.a[0]
            if v < 2**63:
                e = '(%s)%dull' % (U(w), v)
            else:
                W = max(w, 64)
                ps = []
                i = 0
                while v >> (64 * i):
                    ps.append('((%s)%dull << %d)' % (U(W), (v >> (64 * i)) & (2**64 - 1), 64 * i))
                    i += 1
                e = '(%s)(%s)' % (U(w), '|'.join(ps))
        elif op == 'v':
            e = varexpr(t.a[0], w)
        elif op in ('add', 'sub'):
            e = '(%s)(%s %s %s)' % (U(w), k[0], '+' if op == 'add' else '-', k[1])
        elif op == 'mulx':
            e = '(%s)%s * (%s)%s' % (U(w), k[0], U(w), k[1])
        elif op == 'udiv':
            e = '%s ? (%s)(%s / %s) : 0' % (k[1], U(w), k[0], k[1])
        elif op == 'urem':
            e = '%s ? (%s)(%s %% %s) : %s' % (k[1], U(w), k[0], k[1], k[0])
        elif op in ('and', 'or', 'xor'):
            e = '%s %s %s' % (k[0], {'and': '&', 'or': '|', 'xor': '^'}[op], k[1])
        elif op == 'not':
            e = '(%s)~%s' % (U(w), k[0])
        elif op in ('shl', 'lshr', 'ashr'):
            s = 'sh%d' % n[0]
            out.append('  unsigned %s = %s;' % (s, '(%s >= %d) ? %d : (unsigned)%s' % (k[1], w, w, k[1])
                                               if w < (1 << kids[1].w) else '(unsigned)%s' % k[1]))
            if op == 'shl':
                e = '%s >= %d ? (%s)0 : (%s)(%s << %s)' % (s, w, U(w), U(w), k[0], s)
            elif op == 'lshr':
                e = '%s >= %d ? (%s)0 : (%s)(%s >> %s)' % (s, w, U(w), U(w), k[0], s)
            elif w == 1:
                e = k[0]
            else:
                e = '(%s)((_BitInt(%d))%s >> (%s >= %d ? %d : %s))' % (U(w), w, k[0], s, w, w - 1, s)
        elif op == 'eq':
            e = '%s == %s' % (k[0], k[1])
        elif op == 'ult':
            e = '%s < %s' % (k[0], k[1])
        elif op == 'ite':
            e = '%s ? %s : %s' % (k[0], k[1], k[2])
        elif op == 'cat':
            ps = []
            pos = w
            for x, nm in zip(t.a, k):
                pos -= x.w
                ps.append('((%s)%s << %d)' % (U(w), nm, pos))
            e = '|'.join(ps)
        elif op == 'ext':
            e = '(%s)(%s >> %d)' % (U(w), k[0], t.a[2])
        else:
            raise Exception(op)
        nm = 't%d' % n[0]
        n[0] += 1
        out.append('  %s %s = %s;' % (U(w), nm, e))
        names[t.id] = nm
    return [names[r.id] for r in roots]


def spec_c(job):
    """C function: 0 precondition false, 1 ok, 2 violated"""
    from .core import out_terms
    I = job.inputs()
    O = out_terms(job)
    pos = {}
    k = 0
    for n, w, fs in job.ins:
        p = w
        for fn, fw in fs:
            p -= fw
            pos[fn] = ('in', k, w, p, fw)
        k += (w + 63) // 64
    k = 0
    for n, w in job.outs:
        pos['out:' + n] = ('out', k, w, 0, w)
        k += (w + 63) // 64

    def varexpr(name, w):
        a, k, tw, lo, fw = pos[name]
        nw = (tw + 63) // 64
        W = 64 * nw
        full = '|'.join('((unsigned _BitInt(%d))%s[%d] << %d)' % (W, a, k + i, 64 * i) for i in range(nw))
        return '(unsigned _BitInt(%d))((%s) >> %d)' % (w, full, lo)
    pre = job.pre(I) if job.pre is not None else tm.true()
    if job.post is not None:
        ok = tm.andl(*[t for _, t in job.post(I, O)])
    else:
        ok = tm.true()
        for c in job.cases(I):
            ok = tm.and_(ok, tm.implies(c.hyp, tm.andl(*[t for _, t in c.post(I, O)])))
    lines = []
    a, b = emit([pre, ok], varexpr, lines)
    hi = []
    k = 0
    for n, w in job.outs:
        nw = (w + 63) // 64
        if w % 64 and n not in job.out_free:
            hi.append('if(out[%d] >> %d) return 2;' % (k + nw - 1, w % 64))
        k += nw
    return 'static int vw_spec(const uint64_t*in,const uint64_t*out){\n%s\n  if(!%s) return 0;\n  %s\n  return %s ? 1 : 2;\n}\n' % (
        '\n'.join(lines), a, ' '.join(hi), b)


FUZZ = r'''
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <ctime>
static uint64_t S[2];
static uint64_t rn(){ uint64_t a=S[0],b=S[1]; S[0]=b; a^=a<<23; S[1]=a^b^(a>>17)^(b>>26); return S[1]+b; }
static uint64_t IN[64], OUT[64];
static void dump(const char*w){ printf("%s",w); for(int i=0;i<NIN;i++) printf(" %llx",(unsigned long long)IN[i]); printf("\n"); fflush(stdout); }
static void onsig(int){ dump("FAIL"); _exit(7); }
static const struct {int word,lo,w,flag;} F[]={ FIELDS };
static const int NF=sizeof(F)/sizeof(F[0]);
static uint64_t rf(int w){ uint64_t M= w>=64 ? ~0ull : ((1ull<<w)-1); uint64_t r=rn(); 
  switch(rn()%10){ case 0: return (rn()&1)?M:0; case 1: return (1ull<<(rn()%w))&M; case 2: return M^(1ull<<(rn()%w));
   case 3: return (r&M)>>(rn()%(w)); case 4: return (r<<(rn()%w))&M; case 5: { uint64_t a=rn()%w,b=rn()%w; return M & ((1ull<<a)+ ((rn()&1)?(1ull<<b):-(1ull<<b))); }
   default: return r&M; } }
int main(int c,char**v){ S[0]=strtoull(v[1],0,10)*0x9E3779B97F4A7C15ull+1; S[1]=S[0]^0x1234567; for(int i=0;i<20;i++) rn();
  long n=atol(v[2]); double tl=atof(v[3]); time_t t0=time(0);
  signal(SIGABRT,onsig); signal(SIGFPE,onsig); signal(SIGSEGV,onsig); signal(SIGILL,onsig); signal(SIGALRM,onsig);
  long done=0, i=0;
  for(i=0;i<n && done<n;i++){
    if((i&1023)==0 && time(0)-t0>tl) break;
    for(int k=0;k<NIN;k++) IN[k]=0;
    uint64_t prev[65]; bool has[65]={0};
    for(int k=0;k<NF;k++){ int left=F[k].w, lo=F[k].lo, word=F[k].word; 
      while(left>0){ int o=lo%64, wd=word+lo/64; int take= left<64-o?left:64-o; uint64_t x=rf(take); uint64_t M=take>=64?~0ull:((1ull<<take)-1);
        if(F[k].flag && take==2 && rn()%4) x=1;
        if(has[take] && rn()%3==0) x=(prev[take]+ (rn()&1 ? 0 : (rn()%61)-30))&M;
        has[take]=true; prev[take]=x; IN[wd]|=x<<o; left-=take; lo+=take; } }
    static const uint64_t Z[64]={0}; 
    if(rn()&1){ HOOK }
    int p=vw_spec_pre(IN,Z); if(!p) continue;
    for(int k=0;k<NOUT;k++) OUT[k]=0;
    alarm(20); JOB(IN,OUT); alarm(0); done++;
    if(vw_spec(IN,OUT)==2){ dump("FAIL"); printf("DONE %ld\n",done); return 1; }
  }
  printf("DONE %ld\n",done); return 0; }
'''


def fuzz(run, job, n, seed, tlimit):
    """returns (inputs tested, failing vector or None, message)"""
    from .core import CLANG, CFLAGS, BuildError, run_cmd
    src = os.path.join(run.tmp, 'fz_%s.cpp' % job.name)
    exe = os.path.join(run.tmp, 'fz_%s' % job.name)
    fields = []
    k = 0
    for nme, w, fs in job.ins:
        p = w
        for fn, fw in fs:
            p -= fw
            if fw:
                fields.append('{%d,%d,%d,%d}' % (k, p, fw, int(fn.endswith('k') and fw == 2)))
        k += (w + 63) // 64
    t = run.g.text()
    t += '\n' + spec_c(job)
    t += 'static int vw_spec_pre(const uint64_t*in,const uint64_t*out){ return vw_spec(in,out)!=0; }\n'
    t += '#define NIN %d\n#define NOUT %d\n#define JOB %s\n#define FIELDS %s\n' % (
        max(1, job.in_words()), max(1, job.out_words()), job.name, ','.join(fields) or '{0,0,1,0}')
    t += FUZZ.replace('HOOK', job.fuzz_hook)
    open(src, 'w').write(t)
    p = run_cmd([CLANG, '-O1'] + CFLAGS + run.g.cflags + [src, '-o', exe, '-lmpfr', '-lgmp'] + run.g.libs)
    if p.returncode:
        raise BuildError(p.stderr.decode()[-2000:])
    try:
        p = run_cmd([exe, str(seed), str(n), str(int(tlimit))], timeout=tlimit + 60)
    except subprocess.TimeoutExpired:
        return 0, None, None
    done = 0
    vec = None
    for l in p.stdout.decode(errors='replace').split('\n'):
        if l.startswith('DONE'):
            done = int(l.split()[1])
        if l.startswith('FAIL'):
            ws = [int(x, 16) for x in l.split()[1:]]
            vec = {}
            k = 0
            for nme, w, fs in job.ins:
                nw = (w + 63) // 64
                vec[nme] = sum(ws[k + i] << (64 * i) for i in range(nw)) & ((1 << w) - 1)
                k += nw
    os.unlink(exe)
    return max(done, 1 if vec else 0), vec, None
