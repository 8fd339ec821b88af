#!/usr/bin/env python3
"""Developer tool: validate planted changes (seeded/<id>) in scratch copies of /repo.
usage: seedtest.py [--no-tests] [--no-check] [--props C01,C02] id..."""
import sys, os, json, subprocess, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
notest = '--no-tests' in args; nocheck = '--no-check' in args
props = None
ids = []
i = 0
while i < len(args):
    if args[i] == '--props': props = args[i + 1].split(','); i += 2; continue
    if not args[i].startswith('--'): ids.append(args[i])
    i += 1
if not ids: ids = sorted(os.listdir(V + '/seeded'))
def sh(cmd, cwd=None, env=None, to=900):
    e = dict(os.environ); e.update(env or {})
    try: r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to)
    except subprocess.TimeoutExpired: return 124, 'timeout'
    return r.returncode, r.stdout.decode(errors='replace')
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
for id in ids:
    d = V + '/seeded/' + id
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        msg = []
        for which in ('orig', 'bug'):
            r = w + '/' + which
            sh('cp -a /repo %s' % r)
            sh('git checkout -q -- .', cwd=r)
            if which == 'bug':
                c, o = sh('git apply %s/patch.diff' % d, cwd=r)
                if c: msg.append('PATCH FAILS ' + o); break
            for f in ('build', 'test'):
                s = open('/opt/vp/%s.sh' % f).read().replace('/opt/vp/build.sh', w + '/build_%s.sh' % which).replace('/repo', r)
                open(w + '/%s_%s.sh' % (f, which), 'w').write(s)
            c, o = sh('bash %s/build_%s.sh' % (w, which), cwd=r)
            if c: msg.append('BUILD FAILS ' + o[-500:]); break
            dd = w + '/demo_' + which; shutil.copytree(d, dd)
            for f in ('patch.diff', 'meta.json'):
                os.remove(dd + '/' + f)
            t = time.time()
            c, o = sh('bash %s/demo.sh' % dd, cwd=r, to=300)
            msg.append('demo %s rc=%d %.0fs %s' % (which, c, time.time() - t, o.strip()[-150:] if (c == 0) != (which == 'orig') else ''))
            if which == 'bug' and not notest:
                c, o = sh('bash %s/test_bug.sh %s/out.json' % (w, w), cwd=r)
                try:
                    res = json.load(open(w + '/out.json'))
                    ps = res.get('passed', res); bad = [s for s in stable if not (s in ps if isinstance(ps, list) else ps.get(s) in (True, 'pass', 'passed', 'PASS'))]
                    msg.append('tests ok' if not bad else 'TESTS FAIL %s' % bad[:4])
                except Exception as e: msg.append('TESTS ? %s %s' % (e, o[-300:]))
        if not nocheck and len(msg) >= 2:
            for p in (props or [meta['property']]):
                t = time.time()
                e = {'KYSYM_REPO': w + '/bug', 'KYSYM_EVIDENCE': w}
                c, o = sh('python3-vt check.py %s' % p, cwd=V, env=e, to=1000)
                ln = [l for l in o.split('\n') if l.startswith(('VIOLATION', 'INCONCLUSIVE', 'OK', 'counterexample'))]
                msg.append('check %s rc=%d %.0fs %s' % (p, c, time.time() - t, ' | '.join(l[:260] for l in ln[-2:])))
                open('/tmp/w/seedlog_%s_%s' % (id, p), 'w').write(o)
        print(id, meta['property'], *msg, sep='\n   ', flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
