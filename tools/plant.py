#!/usr/bin/env python3
"""Developer's tool: confirm planted bugs in a scratch copy of /repo and try the checks on them.
plant.py confirm ID...   patch applies to a copy, builds, stable tests pass, demo passes without and fails with it
plant.py catch ID...     in copies of /verif and /repo: apply, run the property's quick check (or CHECK=Cxx), undo
sweep SEED...    in these copies: all quick checks with another seed
"""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = os.environ.get('COPY', '/tmp/seed/repo')
def sh(cmd, cwd, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def confirm(i):
    d = '%s/seeded/%s' % (ROOT, i)
    sh('git checkout -q -- .', COPY)
    a = sh('bash %s/demo.sh' % d, COPY, 600)
    if a.returncode: return 'demo fails on the unchanged tree:\n' + a.stdout[-1500:]
    p = sh('git apply %s/patch.diff' % d, COPY)
    if p.returncode: return 'patch does not apply: ' + p.stdout
    try:
        b = sh('bash %s/demo.sh' % d, COPY, 600)
        if not b.returncode: return 'demo passes with the patch'
        if 'error: could not compile' in b.stdout: return 'does not compile\n' + b.stdout[-2000:]
        t = sh('. /opt/vp/env.sh; cargo test --workspace --exclude astro-float --no-fail-fast --offline -- --test-threads 8; '
               'cargo test -p astro-float --lib --no-fail-fast --offline -- --test-threads 8; cargo test -p astro-float --doc --no-fail-fast --offline -- --test-threads 8', COPY)
        ok = len(re.findall(r'^test .* \.\.\. ok', t.stdout, re.M)); bad = re.findall(r'^test (.*) \.\.\. FAILED', t.stdout, re.M)
        return 'confirmed, %d tests pass, demo says: %s' % (ok, b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else b.returncode) if not bad and ok >= 70 else 'tests fail: %s (%d ok)\n%s' % (bad, ok, t.stdout[-800:] if not bad else '')
    finally:
        sh('git checkout -q -- .', COPY)
BOX = os.environ.get('BOX', '/tmp/box')        # copies of /verif and /repo
def box():
    sh('mkdir -p %s/repo %s/verif && cd /repo && git ls-files -z | xargs -0 cp -u --parents -t %s/repo && cd %s && git ls-files -z --cached --others --exclude-standard ":!seeded" | xargs -0 cp -u --parents -t %s/verif; '
       "sed -i 's,\"/repo/,\"%s/repo/,' %s/verif/harness/Cargo.toml; cp /repo/Cargo.lock %s/repo/ 2>/dev/null" % (BOX, BOX, BOX, ROOT, BOX, BOX, BOX, BOX), '/')
def catch(i):
    d = '%s/seeded/%s' % (ROOT, i)
    prop = os.environ.get('CHECK') or json.load(open(d + '/meta.json'))['property']
    box()
    p = sh('git apply --unsafe-paths --directory=%s/repo %s/patch.diff' % (BOX, d), '/')
    if p.returncode: return 'patch does not apply: ' + p.stdout
    try:
        r = sh('python3 check.py %s' % prop, BOX + '/verif')
        return '%s exit %d: %s' % (prop, r.returncode, ' | '.join(r.stdout.strip().splitlines()[-3:])[:400])
    finally:
        sh('git apply -R --unsafe-paths --directory=%s/repo %s/patch.diff' % (BOX, d), '/')
def sweep(seed):
    box()
    out = []
    for c in range(1, 23):
        r = sh('VERIF_SEED=%s python3 check.py C%02d' % (seed, c), BOX + '/verif')
        print(seed, r.returncode, r.stdout.strip()[-1500:] if r.returncode else r.stdout.strip().splitlines()[-1], flush=True)
    return 'done'
for i in sys.argv[2:]: print(i, {'confirm': confirm, 'catch': catch, 'sweep': sweep}[sys.argv[1]](i), flush=True)
