import sys, run, collections
c = run.Check('C99')
c.build(run.ALL)
models = [(3, m) for m in run.MODELS3 if m != 'Resource'] + [(2, m) for m in run.MODELS2 if m != 'Resource']
n = int(sys.argv[1])
scs = [{'gen': 'smoke', 'seed': k, 'arg': {'ver': v, 'm': m}} for v, m in models for k in range(n)]
import time
t=time.time()
tr = c.execute(scs)
print('exec', time.time()-t, 'crashes', [(s, g, e[-1:]) for s, g, e in c.crashes][:5]); t=time.time()
res = c.validate(tr)
print('tlc', time.time()-t, sum(len(x) for x in tr.values()), c.cov)
cnt = collections.Counter()
for k, i, l, what, exp in res:
    e = tr[i][l]; key = (tr[i][0]['ver'], tr[i][0]['m'], e['f'], e.get('T'), what); cnt[key] += 1
    if cnt[key] <= 2: print(key, i, l, run.brief(e), '\n    EXP', exp)
print(cnt)
c.finish(0)
