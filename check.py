#!/usr/bin/env python3
"""Decide one property: run the real library, record what it did, let the Quint specification judge.

usage: check.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
       check.py --replay FILE       re-run the specification on a saved trace
"""
import collections, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import trace as T
import plan

SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
CHUNK = 200
TAG = re.compile(r'> TAG \((\d+), (?:List\(|\[)([0-9, ]*)')
DONE = re.compile(r'> DONE \((\d+), (\d+), (\d+)\)')
REASON = {1: 'panicked, aborted or did not return', 2: 'wrong kind of result', 3: 'wrong sign', 4: 'wrong value', 5: 'wrong precision',
          6: 'result is not well formed', 7: 'wrong inexact flag', 8: 'wrong error code', 9: 'an operand changed', 10: 'wrong success flag',
          11: 'success claimed although the known digits do not determine the rounding'}


class Broken(Exception):
    pass


MACRO = ('macro', 'ctx')         # families driven by the second program


def build(fam=''):
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    b = 'afm' if fam in MACRO else 'afh'
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet', '--bin', b], cwd=os.path.join(ROOT, 'harness'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise Broken('harness does not build:\n' + r.stdout[-4000:])
    return os.path.join(ROOT, 'harness/target/release', b)


def drive(afh, fam, seed, shard, shards, n, out):
    """Run one shard; a call that aborts or hangs ends a trace file and a new one continues."""
    files, left, sd = [], n, seed
    for part in range(4):
        path = '%s.%d' % (out, part)
        cmd = [afh, fam, str(sd), str(shard), str(shards), str(left), path] + (['thorough'] if TIER == 'thorough' else [])
        try:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=3000).returncode
        except subprocess.TimeoutExpired:
            raise Broken('driver %s timed out' % ' '.join(cmd))
        if not os.path.exists(path): raise Broken('driver %s wrote nothing (%d)' % (' '.join(cmd), rc))
        with open(path) as f: ev = [l.strip() for l in f if l.endswith('\n')]
        if rc != 0:
            pend = open(path + '.pending').read().strip()
            if not pend: raise Broken('driver %s ended with %d outside a call' % (' '.join(cmd), rc))
            w = int(pend, 16)
            if rc == 77: w = w - ((w >> 48) % 256 << 48) + (5 << 48)
            ev.append('0x%x' % w)
        files.append(ev)
        left -= len(ev)
        sd += 7777
        if rc == 0 or left < 10: break
    return files


def lit(h, piece=40000):
    """a literal the Quint lexer can take"""
    if len(h) <= piece: return h
    d, out = h[2:], []
    while d:
        out.append(d[-piece:])
        d = d[:-piece]
    return '(%s)' % ' + '.join('0x%s * 2^%d' % (x, 4 * piece * i) for i, x in enumerate(out))


def to_quint(ev, path, fam=''):
    rep, extra = ('replayx', "ctxs' = Map()") if fam in MACRO else ('replay', "memo' = Map()")
    ch = [ev[i:i + CHUNK] for i in range(0, len(ev), CHUNK)]
    rel = os.path.relpath(os.path.join(ROOT, 'spec'), os.path.dirname(path))
    with open(path, 'w') as f:
        f.write('module t {\n  import %s.* from "%s/%s"\n' % (rep, rel, rep))
        for i, c in enumerate(ch): f.write('  pure val c%d: List[int] = [%s]\n' % (i, ','.join(lit(x) for x in c)))
        f.write('  pure val T: List[List[int]] = [%s]\n' % ','.join('c%d' % i for i in range(len(ch))))
        f.write("  run traceTest = start.then(%d.reps(i => observeAll(T[i]))).then(all { q::debug(\"DONE\", (pos, bad, und)) == (pos, bad, und), "
                "regs' = Map(), pos' = pos, bad' = bad, und' = und, %s })\n}\n" % (len(ch), extra))


def judge(ev, path, fam):
    """-> list of (index, [tags]), undetermined count"""
    to_quint(ev, path, fam)
    try:
        r = subprocess.run(['quint', 'test', '--backend=typescript', '--main=t', path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=6000)
    except subprocess.TimeoutExpired:
        raise Broken('quint timed out on ' + path)
    tags, done = [], None
    for l in r.stdout.splitlines():
        m = TAG.match(l)
        if m:
            t = (int(m[1]), [int(x) for x in m[2].replace(' ', '').split(',') if x])
            if not tags or tags[-1] != t: tags.append(t)
            continue
        m = DONE.match(l)
        if m: done = (int(m[1]), int(m[2]), int(m[3]))
    if r.returncode != 0 or done is None or done[0] != len(ev):
        raise Broken('the specification could not be run on %s:\n%s' % (path, r.stdout[-3000:]))
    return tags, done[2]


def model(job, work):
    """a run of the specification's own model: (kind, file, args...)"""
    out = os.path.join(work, 'model-%s.out' % hashlib.md5(repr(job).encode()).hexdigest()[:8])
    cmd = [x.replace('$SEED', hex(SEED)) for x in job['cmd']]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=job.get('timeout', 600))
    except subprocess.TimeoutExpired:
        raise Broken('model run timed out: ' + ' '.join(cmd))
    open(out, 'w').write(r.stdout)
    if r.returncode != 0 or not re.search(job['expect'], r.stdout): raise Broken('model run failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return dict(model=job['name'], seconds=round(time.time() - t0, 1), result=re.search(job['expect'], r.stdout)[0])


def findings():
    out = []
    p = os.path.join(ROOT, 'known-findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) tag=(\d+) (.*)', l.strip())
        if m: out.append((m[1], int(m[2]), m[3]))
    return out


def main(prop):
    t0 = time.time()
    num = int(prop[1:])
    work = os.path.join(ROOT, 'work', '%s-%d' % (prop, os.getpid()))
    os.makedirs(work)
    try:
        return run(prop, num, work, t0)
    except Broken as e:
        print('ERROR property=%s %s' % (prop, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, num, work, t0):
    P = plan.PLAN[prop]
    bins = {fam: build(fam) for fam, _, _ in P[TIER]}
    jobs = []
    for fam, shards, n in P[TIER]:      # shards: how many, or which ones of 8
        for s in range(shards) if isinstance(shards, int) else shards: jobs.append((fam, s, shards if isinstance(shards, int) else 8, n))
    traces = []
    with cf.ThreadPoolExecutor(8) as ex:
        def one(j):
            fam, s, shards, n = j
            out = os.path.join(work, '%s-%d' % (fam, s))
            res = []
            for k, ev in enumerate(drive(bins[fam], fam, SEED, s, shards, n, out)):
                q = '%s-q%d.qnt' % (out, k)
                tags, und = judge(ev, q, fam)
                res.append((fam, s, ev, tags, und))
            return res
        models = [ex.submit(model, m, work) for m in P.get('models', {}).get(TIER, [])]
        for f in [ex.submit(one, j) for j in jobs]: traces += f.result()
        models = [m.result() for m in models]
    known = [(t, d) for p, t, d in findings() if p == prop]
    kt = {t for t, _ in known}
    bad, seen, other = [], set(), collections.Counter()
    ops, kinds, distinct = collections.Counter(), collections.Counter(), set()
    total = und = 0
    samples = []
    for fam, s, ev, tags, u in traces:
        und += u
        total += len(ev)
        for h in ev:
            w = int(h, 16)
            op = w & 255
            ops[T.OPS.get(op, 'op%d' % op)] += 1
            kinds[T.KIND[(w >> 48) & 255]] += 1
            if op not in (94, 98) and (w >> 48) & 255 <= 8: distinct.add(hash(w & ~(255 << 16)))
        for i, ts in tags:
            own = [t for t in ts if t // 1000 == num]
            fnd = [t for t in own if t % 1000 >= 500]
            for t in fnd:
                if t in kt: seen.add(t)
            own = [t for t in own if not (t in kt)]
            if own: bad.append((fam, s, ev, i, own))
            for t in ts:
                if t not in own and t != 99000: other[t] += 1
        if len(samples) < 4 and ev: samples.append(T.describe(ev, len(ev) - 1)[:600])
    # a property-specific offline comparison over all traces is done by the specification itself
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    for t, d in known:
        if t in seen: print('KNOWN-FINDING: property=%s %s' % (prop, d))
    lines = []
    if bad:
        os.makedirs(rdir, exist_ok=True)
        fam, s, ev, i, own = bad[0]
        rp = os.path.join(rdir, '%s-%s.trace' % (prop, TIER))
        with open(rp, 'w') as f: f.write('\n'.join(ev[:i + 1]) + '\n')
        for fam, s, ev2, i2, own2 in bad[:5]:
            print('event %d of %s/%d: %s\n%s' % (i2, fam, s, ', '.join('%d (%s)' % (t, REASON.get(t % 1000, '?')) for t in own2), T.describe(ev2, i2)))
        print('%d events contradict the specification' % len(bad))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    cov = dict(evaluations=total, distinct_nontrivial=len(distinct), rule=P['rule'], samples=samples or ['none'],
               states=total + len(traces), transitions=total, traces_validated_against_impl=len(traces),
               undetermined_by_model=und, calls_by_operation=dict(ops.most_common()), results_by_kind=dict(kinds),
               models=models, known_findings_seen=sorted(seen), tags_of_other_properties=dict(other))
    evd = dict(property=prop, tier=TIER, seed=SEED, level=P['level'], coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(bad),
               assumptions=plan.ASSUME)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(evd, f, indent=1)
    print('%s %s: %d calls in %d traces, %d undetermined, %d violations, %.0f s' % (prop, TIER, total, len(traces), und, len(bad), time.time() - t0))
    return 1 if bad else 0


def replay(path):
    ev = [l.strip() for l in open(path)]
    work = os.path.join(ROOT, 'work')
    os.makedirs(work, exist_ok=True)
    q = os.path.join(work, 'replay-%d.qnt' % os.getpid())
    fam = 'macro' if any(int(e, 16) & 255 in (102, *range(103, 110), *range(111, 117)) for e in ev) else ''
    tags, _ = judge(ev, q, fam)
    os.remove(q)
    for i, ts in tags: print(i, ts, T.describe(ev, i, True))
    return 1 if tags else 0


if __name__ == '__main__':
    sys.exit(replay(sys.argv[2]) if sys.argv[1] == '--replay' else main(sys.argv[1]))
