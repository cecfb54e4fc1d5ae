#!/usr/bin/env python3
"""python3 /verif/replay.py REPLAY.json: run the real code in /repo on the recorded input"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
d = json.load(open(sys.argv[1]))
tmp = tempfile.mkdtemp()
try:
    src = os.path.join(tmp, 'r.cpp')
    open(src, 'w').write(d['source'])
    ws = []
    for n, w in d['input_widths']:
        x = int(d['input'][n], 16)
        ws += ['%x' % ((x >> (64 * k)) & (2**64 - 1)) for k in range((w + 63) // 64)]
    line = d['job'] + ' ' + ' '.join(ws) + '\n'
    print('function :', d['function'])
    print('obligation:', d['failed_obligation'])
    print('input    :', d['input'])
    print('recorded :', d['observed'])
    for cc in (['g++', '-O1'], ['clang++', '-O0', '-fsanitize=undefined,bounds', '-fno-sanitize-recover=all']):
        exe = os.path.join(tmp, 'r')
        subprocess.check_call(cc + ['-std=c++11', '-w', '-I' + HERE + '/cxx', '-I' + os.environ.get('VERIF_REPO', '/repo') + '/include'] +
                              d.get('cflags', []) + [src, '-o', exe] + ['-lmpfr', '-lgmp'] + d.get('libs', []))
        p = subprocess.run([exe], input=line.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        print(' '.join(cc), ': exit', p.returncode, p.stdout.decode().strip(), p.stderr.decode().strip()[-500:])
finally:
    shutil.rmtree(tmp)
