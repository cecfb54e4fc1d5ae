"""Development aid: random one-token changes to the headers a property is anchored in, run
against its quick check in a copy of /repo/include.  mutate.py OUT N SEED Pnn[:file,...]..."""
import sys, re, random, os, shutil, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
props = {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    props[p['id']] = [f for f in p['anchors']['files'] if f.endswith(('.hpp', '.c', '.h'))]
OPS = [(r' < ', [' <= ']), (r' <= ', [' < ']), (r' > ', [' >= ']), (r' >= ', [' > ']), (r'==', ['!=']), (r'!=', ['==']),
       (r'(?<=[\w)])\s*\+\s*(?=[\w(])', ['-']), (r'(?<=[\w)])\s*-\s*(?=[\w(])', ['+']), (r'&&', ['||']), (r'\|\|', ['&&']),
       (r'(?<=[\w)]) ?& ?(?=[\w(!~])', ['|']), (r'(?<=[\w)]) ?\| ?(?=[\w(!~])', ['&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\bzg<', ['og<']), (r'\bog<', ['zg<']), (r'!(?=[\w(])', ['']), (r'~(?=[\w(])', ['']), (r'\bis_zero\b', ['is_normal']), (r'<<', ['>>']), (r'>>', ['<<']),
       (r'\bzpad_hi\b', ['opad_hi']), (r'\bx(?=[.,) ])', ['y']), (r'\by(?=[.,) ])', ['x']), (r'\bwEX\b', ['wEY']), (r'\bwFX\b', ['wFY']), (r'\bget_lsb\b', ['get_msb']), (r'\btake_lsbs\b', ['take_msbs'])]


def candidates(text):
    c = []
    pos = 0
    block = False
    depth_dbg = False
    for line in text.splitlines(True):
        s = line.strip()
        skip = block or s.startswith('//') or s.startswith('#') or s.startswith('/*') or 'assert' in s or 'cerr' in s or 'cout' in s or 'printf' in s or s.startswith('template') or 'static_assert' in s or 'throw' in s or 'DEBUG' in s or 'operator<<' in s or s.startswith('friend std') or 'dst<<' in s or 'acc<<' in s
        if '/*' in line:
            block = True
        if '*/' in line:
            block = False
        if not skip:
            code = line.split('//')[0]
            for rx, reps in OPS:
                for m in re.finditer(rx, code):
                    for r in reps:
                        c.append((pos + m.start(), pos + m.end(), r))
            for m in re.finditer(r'(?<![\w.])(0b[01]+|0x[0-9a-fA-F]+|\d+)(?![\w.])', code):
                t = m.group(1)
                v = int(t, 0) if not (len(t) > 1 and t[0] == '0' and t[1].isdigit()) else None
                if v is None:
                    continue
                for d in (1, -1):
                    if v + d >= 0:
                        c.append((pos + m.start(), pos + m.end(), ('0b' + bin(v + d)[2:].zfill(len(t) - 2)) if t.startswith('0b') else str(v + d)))
        pos += len(line)
    return c


SRC = os.environ.get('MUT_SRC', '/repo')
rng = random.Random(seed)
d = '/tmp/mut%d' % seed
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
shutil.copytree(SRC + '/include', d + '/include')
log = open(out, 'a')
for spec in sys.argv[4:]:
    pid, _, fl = spec.partition(':')
    files = fl.split(',') if fl else props[pid]
    files = ['include/thls/tops/' + f if '/' not in f else f for f in files]
    allc = []
    for f in files:
        cs = candidates(open(SRC + '/' + f).read())
        allc.append((f, cs))
    done = 0
    tries = 0
    while done < n and tries < 6 * n:
        tries += 1
        f, cs = rng.choices(allc, weights=[len(c) for _, c in allc])[0]
        a, b, r = rng.choice(cs)
        src = open(SRC + '/' + f).read()
        new = src[:a] + r + src[b:]
        if new == src:
            continue
        ln = src.count('\n', 0, a) + 1
        open(d + '/' + f, 'w').write(new)
        t0 = time.time()
        try:
            p = subprocess.run(['python3', V + '/check.py', pid, 'quick'], env=dict(os.environ, VERIF_REPO=d, VERIF_BUDGET='240'), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=400)
            o, rc = p.stdout.decode(), p.returncode
        except subprocess.TimeoutExpired:
            o, rc = 'TIMEOUT', -1
        open(d + '/' + f, 'w').write(src)
        if 'error:' in o or 'rrors generated' in o:
            kind = 'BUILD'
        elif rc == 1 and 'no-failing-input' in o:
            kind = 'NOINPUT'
            done += 1
        elif rc == 1:
            kind = 'caught'
            done += 1
        elif rc == 0:
            kind = 'SURVIVED'
            done += 1
        else:
            kind = 'RC%d' % rc
            done += 1
        log.write('%s %s %s:%d [%s->%s] %.0fs | %s\n' % (kind, pid, os.path.basename(f), ln, src[a:b], r, time.time() - t0, new.splitlines()[ln - 1].strip()[:140]))
        if kind not in ('caught', 'BUILD'):
            log.write('      ' + ' / '.join(o.strip().splitlines()[-2:])[:300] + '\n')
        log.flush()
shutil.rmtree(d)
