"""Developer's view: run a family, judge it, summarise every tag.  triage.py FAMILY SEED EVENTS SHARDS [per-key] [tag-prefix]"""
import sys, os, collections, concurrent.futures as cf
sys.path.insert(0, '/verif')
import check, trace as T
fam, seed, n, shards = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
per = int(sys.argv[5]) if len(sys.argv) > 5 else 2
pre = sys.argv[6] if len(sys.argv) > 6 else ''
W = '/verif/work/triage-%d' % os.getpid()
os.makedirs(W)
afh = check.build(fam)
def one(s):
    return [(s, ev) + check.judge(ev, '%s/%d-%d.qnt' % (W, s, k), fam) for k, ev in enumerate(check.drive(afh, fam, seed, s, shards, n, '%s/%d' % (W, s)))]
c = collections.Counter(); seen = collections.Counter(); und = 0
with cf.ThreadPoolExecutor(8) as ex:
    for res in ex.map(one, range(shards)):
        for s, ev, tags, u in res:
            und += u
            for i, ts in tags:
                key = (T.OPS.get(int(ev[i], 16) & 255, int(ev[i], 16) & 255), tuple(ts))
                c[key] += 1
                if seen[key] < per and any(str(t).startswith(pre) for t in ts): seen[key] += 1; print(s, i, ts, T.describe(ev, i)[:1500])
for k, v in c.most_common(): print(v, k)
print('undetermined', und)
import shutil; shutil.rmtree(W)
