#!/usr/bin/env python3
"""Mutation testing of the checks: run.py LANE LANES OUT FILE[:step[:offset]]...
Works in /tmp/mut<LANE>/{repo,verif}; appends a line per mutant to OUT."""
import os, subprocess, sys, shutil, time
lane, lanes, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
MAP = {
 'validator/lib/ber.go': 'C12 C07 C02', 'validator/lib/cert.go': 'C10 C03 C13 C11 C01 C02 C07',
 'validator/lib/cms.go': 'C08 C11 C15 C02 C07', 'validator/lib/crl.go': 'C11', 'validator/lib/manifest.go': 'C11 C08 C02 C05 C07',
 'validator/lib/roa.go': 'C11 C08 C02 C01 C03 C07', 'validator/lib/tal.go': 'C09 C07', 'validator/lib/xml.go': 'C11 C08 C07',
 'validator/pki/pki.go': 'C02 C04 C01 C05 C09 C13 C06 C14 C15 C03 C07',
 'sync/lib/fetch.go': 'C25 C05 C14 C26', 'sync/lib/rrdp.go': 'C16 C17 C27', 'sync/lib/rsync.go': 'C32 C19 C18', 'sync/lib/utils.go': 'C32 C25 C18',
 'ov/ov.go': 'C20', 'sync/api/fetch.go': 'C33', 'ca/xml.go': 'C24', 'cmd/localrpki/localrpki.go': 'C26', 'cmd/ctrpki/ctrpki.go': 'C23',
 'cmd/octorpki/ct.go': 'C23', 'cmd/octorpki/filter.go': 'C21', 'cmd/octorpki/octorpki.go': 'C34 C35 C21 C19 C22 C18 C27 C23 C28',
 'cmd/octorpki/rrdp_fetcher.go': 'C19 C18', 'cmd/octorpki/rsync_fetcher.go': 'C19 C18',
}
SCALE = dict(dict((p, 0.08) for p in 'C01 C02 C03 C04 C05 C06 C09 C10 C11 C12 C13 C14 C15 C16 C17 C20 C24 C25'.split()), C07=0.02, C34=0.2, C35=0.3, C08=0.2, C18=0.4, C19=0.3, C21=0.3, C22=0.4, C23=0.3, C26=0.3, C27=0.3)
B = {}
for g, ps in {'lib':'C08 C10 C11 C12 C15','pki':'C01 C02 C03 C04 C05 C06 C07 C09 C13 C14 C30 C33','sync':'C16 C17 C25 C32','ov':'C20','ca':'C24','octo':'C18 C19 C21 C22 C27 C28 C34 C35','cli':'C23 C26'}.items():
    for p in ps.split(): B[p] = g
PROGS = {'octo': ['octorpki'], 'cli': ['localrpki', 'ctrpki', 'octorpki']}
W = '/tmp/mut%d' % lane
os.makedirs(W, exist_ok=True)
R, V = W + '/repo', W + '/verif'
subprocess.run(['rsync', '-a', '--delete', '/repo/', R + '/'] if shutil.which('rsync') else ['cp', '-a', '/repo/.', R], check=True) if not os.path.exists(R) else None
shutil.rmtree(V, ignore_errors=True)
os.makedirs(V)
for d in ('harness',): subprocess.run(['cp', '-a', '/verif/' + d, V], check=True)
for f in ('build.sh', 'known-findings.txt'): subprocess.run(['cp', '-a', '/verif/' + f, V], check=True)
os.makedirs(V + '/evidence'); os.makedirs(V + '/replays'); os.makedirs(V + '/bin')
env = dict(os.environ, VERIF_REPO=R, VERIF_NOSHRINK='1', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=vendor', GOCACHE='/root/.cache/go-build', PATH='/usr/local/bin:' + os.environ['PATH'])
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
subprocess.run(['git', '-C', R, 'pull', '-q', '/repo', 'HEAD'])
def sh(a, t):
    try:
        p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=R, timeout=t)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, ''
def note(s):
    with open(out, 'a') as f: f.write(s + '\n')
done = set()
if os.path.exists(out):
    for l in open(out): done.add(tuple(l.split('\t')[1:3]))
for spec in sys.argv[4:]:
    a = spec.split(':'); f = a[0]; step = int(a[1]) if len(a) > 1 else 1; off = int(a[2]) if len(a) > 2 else 0
    muts = subprocess.run(['/tmp/mutate', 'list', '/repo/' + f], stdout=subprocess.PIPE).stdout.decode().splitlines()
    for k, m in enumerate(muts):
        if k % step != off or (k // step) % lanes != lane or (f, str(k)) in done: continue
        desc = '\t'.join(m.split('\t')[2:])
        subprocess.run(['/tmp/mutate', 'apply', '/repo/' + f, str(k), R + '/' + f])
        pkg = './' + os.path.dirname(f)
        rc, o = sh(['go', 'build', '-o', '/dev/null', './validator/...' if 0 else pkg], 120)
        if rc: note('NOBUILD\t%s\t%d\t%s' % (f, k, desc)); continue
        rc, o = sh(['go', 'test', '-vet=off', '-count=1', '-timeout', '60s', pkg, './validator/...', './sync/...'], 120)
        if rc and 'FAIL' in o and '--- FAIL' in o or rc == 124: note('TESTS\t%s\t%d\t%s' % (f, k, desc)); continue
        verdict = 'SURVIVED'; built = set()
        t0 = time.time()
        for p in MAP[f].split():
            g = B[p]
            if not os.path.isdir(V + '/harness/cmd/' + g): continue
            if g not in built:
                rc, o = sh([V + '/build.sh', g] + PROGS.get(g, []), 300)
                if rc: verdict = 'HARNESSBUILD'; break
                built.add(g)
            rc, o = sh([V + '/bin/' + g, '-prop', p, '-tier', 'quick', '-seed', '1', '-verif', V, '-scale', str(float(os.environ.get('MUT_SCALE', '1')) * SCALE.get(p, 0.5))], 240)
            if rc == 1 and 'VIOLATION' in o: verdict = 'KILLED ' + p; break
            if rc != 0: verdict = 'ERROR %s rc=%d' % (p, rc); break
        note('%s\t%s\t%d\t%s\t%.0fs' % (verdict, f, k, desc, time.time() - t0))
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', f])
