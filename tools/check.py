"""check.py <property>: decides one property on the code in /repo.

Every check explores the specification with TLC (Check.explore), replays what
was found on the real FMUs, adds random histories of its own kind, and has TLC
validate every recorded trace against the specification (Check.conform)."""

import os
import random
import shutil
import sys

import describe
import examples
import fmu
import gen
import impgen
import package
import reference
import run
import sigs
from run import ALL, MODELS2, MODELS3

SEED_STEP = 1000003


def inst(i, ver, m, kind, **k):
    d = dict(f='Instantiate', i=i, ver=ver, m=m, kind=kind, name='inst', tok=fmu.TOKENS[m],
             rs=fmu.loc(None if m != 'Resource' else '/@/' if ver == 3 else 'file:///@/'), on=False, em=False,
             er=False, iu=False, log=True, lk=True, T='', nul='')
    d.update(k)
    return d


FILE = dict(f='file', i='-', path=list(b'/@/y.txt'), c=65, T='', nul='')


def cfg(prefix, alpha, depth=12, view='mode', leaves=False, hs=('1',), sizes=(0,), acts=0, nest=0, ts=('0',),
        inputs=False, commute=False):
    if any(e.get('m') == 'Resource' for e in prefix):
        prefix = [FILE] + prefix
    return dict(prefix=prefix, alpha=list(alpha), depth=depth, view=view, leaves=leaves, hs=list(hs),
                sizes=list(sizes), acts=acts, nest=nest, ts=list(ts), inputs=inputs, commute=commute)


def kinds(ver, m):
    """(interface type, event mode) pairs an FMU can be instantiated with"""
    if m == 'Clocks':
        return [('CS', False), ('SE', False)]
    k = [('ME', False), ('CS', False)]
    if ver == 3 and m in gen.EVENT_UPDATE:
        k.append(('CS', True))
    return k


def ev(f, i='a', **a):
    return dict(f=f, i=i, T=a.pop('T', ''), nul=a.pop('nul', ''), **a)


def to_init(ver, i='a', t=0.0, stop=None):
    a = dict(t=fmu.f2p(t), sd=stop is not None, stop=fmu.f2p(stop or 0.0))
    if ver == 2:
        return [ev('SetupExperiment', i, **a), ev('EnterInitializationMode', i)]
    return [ev('EnterInitializationMode', i, **a)]


def to_run(ver, i='a', t=0.0, stop=None):
    return to_init(ver, i, t, stop) + [ev('ExitInitializationMode', i)]


def scenarios(c, configs, shown, probe='look', n=3, keep=None, limit=None, gen_name='edge', batch=40):
    """one scenario per transition shown by the specification; calls that change nothing are made together"""
    out = []
    for s in shown:
        pre = configs[s['c'] - 1]['prefix']
        same = [e['ev'] for e in s['e'] if e['same'] and e['st'] == 0]
        rest = [e['ev'] for e in s['e'] if not (e['same'] and e['st'] == 0)]
        if keep:
            rest = [e for e in s['e'] if keep(e)]
            rest, same = [e['ev'] for e in rest], []
        sets = [[e] for e in rest] + [same[k:k + batch] for k in range(0, len(same), batch)]
        if not s['e']:
            sets = [[]]
        for evs in sets:
            a = dict(pre=pre, path=s['p'], evs=evs)
            if gen_name == 'edge':
                a.update(probe=probe, n=n)
            last = evs[0] if evs else s['p'][-1] if s['p'] else {}
            out.append((dict(gen=gen_name, arg=a), (s['c'], last.get('f'), last.get('T'), last.get('nul'),
                                                           last.get('nv'), len(last.get('v', [])))))
    rng = random.Random(c.seed)
    c.cov['spec_transitions_offered'] = c.cov.get('spec_transitions_offered', 0) + len(out)
    if limit and len(out) > limit:
        out = spread(rng, out, limit)
    out = [x for x, _ in out]
    for k, x in enumerate(out):
        x['seed'] = c.seed * SEED_STEP + k
    return out


def spread(rng, out, limit):
    """so many of them, taking from every configuration and kind of call in turn"""
    groups = {}
    for x in out:
        groups.setdefault(x[1], []).append(x)
    for g in groups.values():
        rng.shuffle(g)
    res, turn = [], 0
    while len(res) < limit:
        res += [g[turn] for g in groups.values() if turn < len(g)]
        turn += 1
    return rng.sample(res, limit)


def rand(c, gname, count, **arg):
    """seeded scenarios of a generator"""
    return [dict(gen=gname, seed=c.seed * SEED_STEP + 7919 * k, arg=arg) for k in range(count)]


def each(models, gname, count, c, **arg):
    """count random histories of each of the models"""
    return [s for ver, m in models for s in rand(c, gname, count, ver=ver, m=m, **arg)]


def amount(c, quick, thorough=None):
    return (thorough if thorough is not None else 6 * quick) if c.thorough else quick


FULL = ['mode', 'read', 'write', 'vector', 'der', 'step', 'update', 'status', 'clock', 'partition', 'log', 'offered',
        'snapone', 'updates']
BODIES = {}


def body(p):
    def deco(f):
        BODIES[p] = f
        return f
    return deco


# ------------------------------------------------------------------ modes
def mode_check(c, ver, models):
    c.build([(ver, m) for m in models])
    one = [cfg([inst('a', ver, m, k, em=e)], FULL) for m in models for k, e in kinds(ver, m)]
    c.conform(scenarios(c, one, c.explore(one), 'modes', 3))
    two = [cfg([inst('a', ver, m, k, em=e)], FULL, view='last') for m in models for k, e in kinds(ver, m)]
    c.conform(scenarios(c, two, c.explore(two), 'modes', 3, limit=amount(c, 4000, 40000)))
    c.conform(rand(c, 'modewalk', amount(c, 600, 4000), ver=ver))


@body('C01')
def c01(c):
    mode_check(c, 3, MODELS3)


@body('C02')
def c02(c):
    mode_check(c, 2, MODELS2)


@body('C03')
def c03(c):
    c.build(ALL)
    one = [cfg([inst('a', ver, m, k, em=e)], FULL + ['bad', 'limits', 'lengths']) for ver, m in ALL for k, e in kinds(ver, m)]
    shown = c.explore(one)
    c.conform(scenarios(c, one, shown, 'refused', 2, keep=lambda e: e['st'] == 3, limit=amount(c, 7000, 40000)))
    ser = [cfg([inst('a', ver, m, k, em=e)], ['mode', 'step', 'snapone', 'ser', 'serbad'], view='last', depth=8) for ver, m in ALL
           for k, e in kinds(ver, m)]
    c.conform(scenarios(c, ser, c.explore(ser), 'refused', 2, limit=amount(c, 600, 4000),
                        keep=lambda e: e['st'] == 3 and 'erialize' in e['ev']['f']))
    c.conform(rand(c, 'errors', amount(c, 700, 5000)))


@body('C04')
def c04(c):
    c.build(ALL)
    out = []
    for ver, m in ALL:
        toks = [fmu.TOKENS[m], 'NULL', '', fmu.TOKENS['BouncingBall' if m != 'BouncingBall' else 'Stair'],
                fmu.TOKENS[m][:-1], fmu.TOKENS[m] + ' ', fmu.TOKENS[m].swapcase(), ' ' + fmu.TOKENS[m]]
        names = ['inst', '', 'NULL', ' ']
        for kind in ('ME', 'CS') + (('SE',) if ver == 3 else ()):
            for name in names:
                for tok in toks:
                    for log in (True, False):
                        for em in (False, True) if ver == 3 and kind == 'CS' else (False,):
                            for on in (False, True):
                                e = inst('a', ver, m, kind, name=name, tok=tok, log=log, em=em, on=on,
                                         iu=ver == 3 and kind == 'CS' and on)
                                out.append(e)
        out.append(inst('a', 2, m, 'CS', log=False, nocb=True)) if ver == 2 else None
    scs = []
    for k, e in enumerate(out):
        pre = [FILE] if e['m'] == 'Resource' else []
        scs.append(dict(gen='edge', seed=k, arg=dict(pre=pre + [e], path=[], evs=[], probe='goon', n=3)))
    c.conform(scs)
    c.conform(rand(c, 'creation', amount(c, 600, 5000)))
    c.conform(rand(c, 'births', amount(c, 30, 200)) + rand(c, 'births', amount(c, 4, 30), n=400))


@body('C05')
def c05(c):
    c.build(ALL)
    two = [cfg([inst('a', ver, m, k, em=e)], ['mode', 'write', 'step', 'update', 'snapone', 'log', 'partition', 'vector'],
               view='last', depth=7) for ver, m in ALL for k, e in kinds(ver, m)]
    c.conform(scenarios(c, two, c.explore(two), 'reset', 10, limit=amount(c, 1200, 6000),
                        keep=lambda e: not e['same']))
    c.conform(rand(c, 'resetwalk', amount(c, 900, 6000)))
    c.conform(rand(c, 'resets', amount(c, 40, 300)) + rand(c, 'resets', amount(c, 4, 30), n=300))


def snap_configs(c, alpha, depth, two=True):
    out = []
    for ver, m in ALL:
        for k, e in kinds(ver, m):
            p = [inst('a', ver, m, k, em=e)] + to_run(ver)
            extra = {'SE': ['partition'], 'ME': ['vector'], 'CS': ['step']}[k]
            out.append(cfg(p, alpha + extra, depth=depth, view='full'))
    return out


@body('C06')
def c06(c):
    c.build(ALL)
    sub = [x for x in snap_configs(c, ['snap', 'mutate'], amount(c, 4, 5))]
    shown = c.explore(sub)
    c.conform(scenarios(c, sub, shown, 'goon', 2, limit=amount(c, 2500, 15000), keep=lambda e: True))
    c.conform(rand(c, 'snapshots', amount(c, 800, 6000)))
    c.conform(rand(c, 'hoard', amount(c, 40, 300)) + rand(c, 'depot', amount(c, 8, 60)))


@body('C07')
def c07(c):
    c.build(ALL)
    sub = [x for x in snap_configs(c, ['snap', 'ser', 'serbad', 'mutate'], amount(c, 4, 5))]
    shown = c.explore(sub)
    c.conform(scenarios(c, sub, shown, 'goon', 2, limit=amount(c, 2500, 15000), keep=lambda e: True))
    c.conform(rand(c, 'snapshots', amount(c, 800, 6000), ser=True))
    c.conform(rand(c, 'hoard', amount(c, 40, 300), ser=True) + rand(c, 'depot', amount(c, 8, 60), ser=True))
    c.conform(rand(c, 'overlong', amount(c, 40, 200), what='bytes'))


@body('C08')
def c08(c):
    c.build(ALL)
    sub = []
    for ver, m in ALL:
        for k, e in kinds(ver, m):
            p = [inst('a', ver, m, k, em=e), inst('b', ver, m, k, em=e)] + to_run(ver, 'a') + to_run(ver, 'b')
            sub.append(cfg(p, ['mutate', 'reset', 'events', 'partition' if k == 'SE' else 'step'], depth=4, view='full'))
            if k == 'SE':       # one instance preempted by the other
                sub.append(cfg(p, ['parts'], depth=amount(c, 12, 14), view='full'))
    c.conform(scenarios(c, sub, c.explore(sub), 'goon', 2, limit=amount(c, 2000, 12000), keep=lambda e: True))
    c.conform(rand(c, 'together', amount(c, 700, 6000)))
    c.conform(rand(c, 'crowd', amount(c, 24, 200)) + rand(c, 'host', amount(c, 12, 100)))
    c.conform(rand(c, 'asides', amount(c, 600, 6000)))
    c.build_importer()
    c.conform([dict(s, world='through') for s in rand(c, 'asides', amount(c, 300, 3000))])


# ------------------------------------------------------------------ co-simulation
LASTING = ('BouncingBall', 'Dahlquist', 'VanDerPol', 'Feedthrough')
GRID = ['0.3', '0.5', '1', '1.5', '2', '3', '7']


def grid_configs(models, hs, depth, ems=(False, True), ers=(False, True), ius=(False,), alpha=('grid', 'events', 'badsteps'),
                 starts=(0.0,), stops=(None,)):
    out = []
    for ver, m in models:
        h = gen.STEP[m]
        for em in (ems if ver == 3 else (False,)):
            if em and m not in gen.EVENT_UPDATE:
                continue
            for er in (ers if ver == 3 else (False,)):
                for iu in (ius if ver == 3 else (False,)):
                    for t in starts:
                        for st in stops:
                            p = [inst('a', ver, m, 'CS', em=em, er=er, iu=iu)] + \
                                to_run(ver, t=t, stop=None if st is None else t + st * h)
                            if em:
                                p.append(ev('EnterStepMode'))
                            out.append(cfg(p, alpha, depth=depth, view='full', hs=hs))
    return out


@body('C09')
def c09(c):
    c.build(ALL)
    sub = grid_configs(ALL, GRID, amount(c, 3, 4), starts=(0.0, 0.5), stops=(None, 6.0))
    c.conform(scenarios(c, sub, c.explore(sub), 'look', limit=amount(c, 3000, 20000), keep=lambda e: True))
    c.conform(rand(c, 'stepping', amount(c, 900, 8000), sets=False, n=15))
    c.conform(each([p for p in ALL if p[1] in LASTING], 'marathon', amount(c, 1, 4), c))


@body('C10')
def c10(c):
    c.build(ALL)
    cont = [p for p in ALL if p[1] in ('BouncingBall', 'Dahlquist', 'VanDerPol', 'Roberts', 'StateSpace', 'Feedthrough')]
    sub = grid_configs(cont, ['1', '2.5', '4'], amount(c, 3, 4), ems=(False,), ers=(False,),
                       alpha=('grid', 'mutate'))
    for sizes in ('0', '1', '1'), ('2', '1', '3'), ('1', '3', '2'), ('5', '4', '1'), ('3', '2', '5'):
        p = [inst('a', 3, 'StateSpace', 'CS'), ev('EnterConfigurationMode'),
             ev('Set', T='UInt64', vr=[1, 2, 3], v=list(sizes)),
             ev('Set', T='Float64', vr=[8], v=[gen.f2p(0.5 * k + 1) for k in range(int(sizes[1]))]),
             ev('ExitConfigurationMode')] + to_run(3)
        sub.append(cfg(p, ['grid', 'fill'], depth=3, view='full', hs=['1', '2.5']))
    c.conform(scenarios(c, sub, c.explore(sub), 'look', limit=amount(c, 2000, 12000), keep=lambda e: e['ev']['f'] == 'DoStep'))
    c.conform(rand(c, 'stepping', amount(c, 900, 8000), models=cont, bad=0, n=15))
    for ver, m in cont:
        c.conform(rand(c, 'long_run', amount(c, 12, 80), ver=ver, m=m, total=300 * gen.STEP[m]))
    c.conform(each([p for p in cont if p[1] in LASTING], 'marathon', amount(c, 1, 4), c, pieces=25))


EVENTFUL = [(3, 'BouncingBall'), (3, 'Stair'), (2, 'BouncingBall'), (2, 'Stair')]


@body('C11')
def c11(c):
    c.build(ALL)
    sub = grid_configs([p for p in EVENTFUL if p[1] == 'Stair'], ['1', '2', '4.5', '5', '6', '11', '55'],
                       amount(c, 3, 4), ems=(False,), ers=(False, True), alpha=('grid',), starts=(0.0, -0.4))
    for ver in (2, 3):      # heights that are hit exactly
        for h in (1.0, 0.5, 0.0):
            for v in (-1000.0, -500.0, 500.0, 0.0):
                for g in (0.0, -1000.0):
                    p = [inst('a', ver, 'BouncingBall', 'CS', er=ver == 3),
                         ev('Set', T='Float64', vr=[1, 3, 5], v=[fmu.f2p(h), fmu.f2p(v), fmu.f2p(g)])]
                    sub.append(cfg(p + to_run(ver), ['grid'], depth=3, view='full', hs=['1', '2', '3']))
    c.conform(scenarios(c, sub, c.explore(sub), 'look', limit=amount(c, 1500, 8000), keep=lambda e: True))
    for ver, m in EVENTFUL:
        c.conform(rand(c, 'long_run', amount(c, 120, 800), ver=ver, m=m, total=2.5 if m == 'BouncingBall' else 11.0))
        c.conform(rand(c, 'long_run', amount(c, 40, 300), ver=ver, m=m, er=ver == 3,
                       total=2.0 if m == 'BouncingBall' else 11.0))
    c.conform(rand(c, 'stepping', amount(c, 500, 4000), em=False, bad=0.02, n=15))


@body('C12')
def c12(c):
    c.build(ALL)
    sub = grid_configs([(3, 'Stair')], ['1', '2', '4.5', '5', '6', '11'], amount(c, 4, 5),
                       ers=(False, True), alpha=('grid', 'events', 'update'))
    sub += grid_configs([(3, 'BouncingBall')], ['1', '460', '500'], amount(c, 4, 5), ers=(False, True),
                        alpha=('grid', 'events', 'update'))
    c.conform(scenarios(c, sub, c.explore(sub), 'look', limit=amount(c, 2000, 12000), keep=lambda e: True))
    for m in ('BouncingBall', 'Stair'):
        for em in (True, False):
            for er in (True, False):
                c.conform(rand(c, 'long_run', amount(c, 60, 400), ver=3, m=m, em=em, er=er,
                               total=2.0 if m == 'BouncingBall' else 11.0))
    c.conform(rand(c, 'stepping', amount(c, 500, 4000), models=[(3, m) for m in gen.EVENT_UPDATE], bad=0.02, n=15))


@body('C13')
def c13(c):
    c.build(ALL)
    sub = []
    for ver, m in ALL:
        for k, e in kinds(ver, m):
            p = [inst('a', ver, m, k, em=e)] + to_run(ver)
            alpha = ['update', 'updates', 'events']
            if m == 'BouncingBall':
                alpha.append('ball')
            if k == 'ME':
                alpha.append('time')
            elif k == 'CS':
                alpha.append('step')
            sub.append(cfg(p, alpha, depth=amount(c, 4, 5), view='full'))
    c.conform(scenarios(c, sub, c.explore(sub), 'look', limit=amount(c, 4000, 25000), keep=lambda e: True))
    c.conform(rand(c, 'exchange', amount(c, 900, 8000), what='events', models=EVENTFUL))
    c.conform(rand(c, 'exchange', amount(c, 250, 2000), what='events'))


@body('C14')
def c14(c):
    c.build(ALL)
    me = [p for p in ALL if p[1] != 'Clocks']
    sub = [cfg([inst('a', ver, m, 'ME')], ['mode', 'vector', 'write', 'bad'], depth=8, view='last') for ver, m in me]
    c.conform(scenarios(c, sub, c.explore(sub), 'look', limit=amount(c, 2500, 15000)))
    c.conform(rand(c, 'exchange', amount(c, 1000, 8000)))
    c.conform(rand(c, 'overlong', amount(c, 60, 300), what='vectors'))


@body('C15')
def c15(c):
    c.build(ALL)
    sub, lists = [], []
    for ver, m in ALL:
        for k, e in kinds(ver, m):
            if e:
                continue
            p = [inst('a', ver, m, k)]
            sub.append(cfg(p + to_init(ver), ['access'], depth=1, view='mode'))
            if ver == 3:
                sub.append(cfg(p + to_run(ver), ['access'], depth=1, view='mode'))
                lists += [cfg(p + q, ['clocks'], depth=1, view='mode') for q in (to_init(ver), to_run(ver))]
    c.conform(scenarios(c, sub, c.explore(sub), 'look', limit=amount(c, 8000, 40000)))
    c.conform(scenarios(c, lists, c.explore(lists), 'look'))
    for ver, m in ALL:
        c.conform(rand(c, 'access', amount(c, 150 if m == 'Feedthrough' else 25, 1500 if m == 'Feedthrough' else 200),
                       ver=ver, m=m))
    c.conform(each(ALL, 'wide', amount(c, 6, 40), c))
    c.conform(rand(c, 'overlong', amount(c, 60, 300), what='values'))


@body('C16')
def c16(c):
    c.build(ALL)
    sub = [cfg([inst('a', ver, m, k, em=e)], ['mode', 'writeall', 'limits'], view='mode') for ver, m in ALL for k, e in kinds(ver, m)]
    sub += [cfg([inst('a', ver, m, k, em=e)], ['mode', 'writeall'], view='last', depth=6)
            for ver, m in ALL for k, e in kinds(ver, m) if m not in ('Feedthrough',)]
    c.conform(scenarios(c, sub, c.explore(sub), 'refused', 1, keep=lambda e: e['ev']['f'] == 'Set',
                        limit=amount(c, 3500, 20000)))
    for ver, m in ALL:
        c.conform(rand(c, 'attempts', amount(c, 60, 500), ver=ver, m=m))


@body('C17')
def c17(c):
    c.build([(3, 'StateSpace')])
    sub = []
    for k, e in kinds(3, 'StateSpace'):
        p = [inst('a', 3, 'StateSpace', k, em=e)]
        sub.append(cfg(p, ['config', 'size'], depth=amount(c, 4, 5), view='full', sizes=[0, 1, 4, 5, 6]))
        sub.append(cfg(p + to_run(3), ['config', 'size'], depth=amount(c, 4, 5), view='full', sizes=[0, 2, 5, 6]))
    c.conform(scenarios(c, sub, c.explore(sub), 'goon', 2, limit=amount(c, 2500, 15000), keep=lambda e: True))
    c.conform(rand(c, 'resizing', amount(c, 900, 8000)))


@body('C18')
def c18(c):
    c.build(ALL)
    sub = []
    for ver, m in [(3, 'VanDerPol'), (2, 'VanDerPol'), (3, 'Roberts')]:
        for k, e in kinds(ver, m):
            p = [inst('a', ver, m, k)]
            sub.append(cfg(p + to_init(ver), ['derlists'], depth=1, view='mode'))
            sub.append(cfg(p + to_run(ver), ['derlists'], depth=1, view='mode'))
    c.conform(scenarios(c, sub, c.explore(sub), 'look', batch=150))
    for ver, m in ALL:
        n = 200 if m in ('VanDerPol', 'Roberts', 'BouncingBall') else 20
        c.conform(rand(c, 'derivatives', amount(c, n), ver=ver, m=m))
    c.conform(each([(3, 'VanDerPol'), (2, 'VanDerPol'), (3, 'Roberts')], 'wide_derivatives', amount(c, 12, 100), c))


@body('C19')
def c19(c):
    c.build([(3, 'Clocks')])
    sub = []
    for lk in (True, False):
        p = [inst('a', 3, 'Clocks', 'SE', lk=lk)] + to_run(3)
        for pre in range(0, 5):
            q = list(p)
            for _ in range(pre):
                q += [ev('ActivateModelPartition', vr=1001, t=fmu.f2p(0.0)), ev('ampret')]
            sub.append(cfg(q, ['acts'], view='path', leaves=True, acts=3 if not c.thorough else 4, nest=2,
                           ts=['4'] if pre == 2 else ['1e10'] if pre == 4 else ['0'], inputs=pre == 3))
    # the borders of the time in which an activation sets the interval, from both sides
    p = [inst('a', 3, 'Clocks', 'SE', lk=False)] + to_run(3)
    sub += [cfg(p, ['acts'], view='path', leaves=True, acts=1, nest=1, inputs=False,
                ts=['3.5', '3.99', '3.9999', '3.999999', '3.9999999999', '4', '4.0000000001', '4.5', '4.99', '4.9999',
                    '4.999999', '4.9999999999', '5', '5.0000000001', '5.0001', '-4', '-4.5'])]
    c.conform(scenarios(c, sub, c.explore(sub), 'goon', 2, limit=amount(c, 4000, 30000)))
    # the clocks after an activation, read and set in lists
    lists = []
    for t, n in ((0.0, 4), (0.0, 5), (4.0, 1), (4.0, 5)):
        q = [inst('a', 3, 'Clocks', 'SE', lk=False)] + to_run(3)
        for k in range(1, n + 1):
            q += [ev('ActivateModelPartition', vr=1001, t=fmu.f2p(t))]
            q += [ev('cb', k='clock'), ev('cbret')] if t == 4.0 or k == 5 else []
            q += [ev('ampret')]
        lists.append(cfg(q, ['clocks'], depth=2, view='full'))
    c.conform(scenarios(c, lists, c.explore(lists), 'look', limit=amount(c, 600, 3000), keep=lambda e: True))
    c.conform(rand(c, 'clocks', amount(c, 700, 6000)))
    c.conform(rand(c, 'ticking', amount(c, 16, 100)))


@body('C20')
def c20(c):
    c.build([(3, m) for m in MODELS3])
    sub = grid_configs([(3, m) for m in MODELS3], GRID, amount(c, 3, 4), ius=(True,), alpha=('grid', 'events'))
    c.conform(scenarios(c, sub, c.explore(sub), 'look', limit=amount(c, 2500, 12000), keep=lambda e: True))
    c.conform(rand(c, 'observed', amount(c, 800, 6000)))
    c.conform(rand(c, 'stepping', amount(c, 300, 2000), models=[(3, m) for m in MODELS3], iu=True))


@body('C21')
def c21(c):
    c.build(ALL)
    sub = []
    for ver, m in ALL:
        for k, e in kinds(ver, m):
            for log in ((True, False) if ver == 3 else (True,)):
                sub.append(cfg([inst('a', ver, m, k, em=e, log=log)], ['logcats', 'bad', 'snapone', 'reset'],
                               depth=3, view='full'))
    c.conform(scenarios(c, sub, c.explore(sub), 'modes', 2, limit=amount(c, 4000, 30000), keep=lambda e: True))
    one = [cfg([inst('a', ver, m, k, em=e)], FULL) for ver, m in ALL for k, e in kinds(ver, m)]
    c.conform(scenarios(c, one, c.explore(one), 'look', limit=amount(c, 2500, 12000), keep=lambda e: e['st'] == 3))
    c.conform(rand(c, 'logs', amount(c, 700, 6000)))
    c.conform(rand(c, 'wide_logging', amount(c, 60, 400)))


@body('C22')
def c22(c):
    c.build([(3, 'Resource'), (2, 'Resource')])
    for ver in (2, 3):
        sub = [cfg([inst('a', ver, 'Resource', k)], ['mode', 'read', 'file', 'snapone', 'step'], depth=5, view='last')
               for k in ('ME', 'CS')]
        c.conform(scenarios(c, sub, c.explore(sub), 'modes', 2, limit=amount(c, 800, 6000)))
        c.conform(rand(c, 'resource', amount(c, 2500, 20000), ver=ver))


@body('C23')
def c23(c):
    c.build(ALL)
    two = [cfg([inst('a', ver, m, k, em=e)], ['mode', 'write', 'step', 'update', 'snapone', 'vector', 'mutate'],
               view='last', depth=7) for ver, m in ALL for k, e in kinds(ver, m) if m != 'Resource']
    c.conform(scenarios(c, two, c.explore(two), gen_name='edge_reads', limit=amount(c, 1200, 6000),
                        keep=lambda e: not e['same']))
    mods = [p for p in ALL if p[1] != 'Resource']
    c.conform(rand(c, 'inserted', amount(c, 600, 5000), models=mods))
    c.conform(rand(c, 'fresh', amount(c, 500, 4000), models=mods))


@body('C27')
def c27(c):
    c.build(ALL)
    try:
        descs = [describe.describe(run.REPO, ver, m) for ver, m in ALL]
    except (OSError, ValueError, KeyError, IndexError, AttributeError, describe.ET.ParseError) as e:
        raise run.CheckError('cannot read a model description: %s' % e)
    c.env['DESCRIPTIONS'] = c.write('descriptions.json', descs)
    scs = []
    for k, D in enumerate(descs, 1):
        def add(g, n, **a):
            scs.extend(rand(c, 'desc_' + g, n, D=D, d=k, **a))
        add('kinds', 1)
        for kind in D['kinds']:
            add('read', amount(c, 1, 3), kind=kind)
            add('set', amount(c, 2, 10), kind=kind)
            add('depend', amount(c, 12, 100), kind=kind)
            add('caps', amount(c, 4, 20), kind=kind)
            if kind != 'SE':
                add('tune', amount(c, 6, 60), kind=kind)
            if any(v['causality'] == 'structuralParameter' and v['T'] == 'UInt64' for v in D['vars']):
                add('sizes', amount(c, 4, 20), kind=kind)
        if 'ME' in D['kinds']:
            add('vectors', amount(c, 15, 100))
    c.conform(scs, 'DescTrace')


@body('C28')
def c28(c):
    c.build(ALL)
    for m in MODELS2:
        if m == 'Resource':
            continue
        c.conform(rand(c, 'versions', amount(c, 100, 800), m=m))
    for ver, m in ALL:
        if m in ('Resource', 'Clocks'):
            continue
        c.conform(rand(c, 'integrators', amount(c, 30, 250), ver=ver, m=m))


@body('C34')
def c34(c):
    c.build(ALL)
    try:
        refs = [reference.reference(run.REPO, ver, m, inst, to_run, ev, FILE) for ver, m in ALL]
    except (OSError, ValueError, KeyError, IndexError, AttributeError, describe.ET.ParseError) as e:
        raise run.CheckError('cannot read reference results: %s' % e)
    refs = [r for r in refs if r]
    for s in c.model('Reference.tla', 'Reference.cfg', {'REFERENCES': c.write('references.json', refs)}):
        r = refs[s['d'] - 1]
        row = r['rows'][s['k']] if s['k'] < len(r['rows']) else {}
        c.finding('reference results of %s for FMI %d.0, columns %s: %s' % (
                      r['m'], r['ver'], ','.join(r['cols']), 'row %d: %s' % (s['k'] + 1, s['what']) if s['k'] else s['what']),
                  dict(model=r['m'], version=r['ver'], columns=r['cols'], outputs=r['outs'], row=row, what=s['what']))
    scs = [dict(gen='reference', seed=0, arg={}, timeout=120, events=[e for row in r['rows'] for e in row['evs']])
           for r in refs if r['rows'][0]['evs']]
    c.conform(scs)
    c.build_importer()
    c.conform([dict(s, world='through') for s in scs])


CLANG = shutil.which('clang', path=os.environ.get('PATH', '') + ':/app/checker/bin') or 'clang'


def wrong_use(c):
    """what the example importers do wrong: {text: details}"""
    c.conform([dict(gen='example', seed=0, arg=dict(names=n), world='example', timeout=240) for n in examples.plan()], 'Usage')
    found = {}
    for sc, trace, l, what, exp in c.used:
        names = sc['arg']['names']
        name = names[sum(e['f'] == 'world' for e in trace[:l])]
        found['%s: %s' % (name, what.strip('{}"'))] = dict(
            what='%s: %s' % (name, what), line=l, observed=trace[l], expected=exp, events=trace[max(0, l - 20):l + 1],
            scenario={k: v for k, v in sc.items() if k != 'events'})
    return found


@body('C36')
def c36(c):
    for name, cc in [('O2', run.CC)] + ([('O0', ('gcc', '-O0')), ('clang', (CLANG, '-O3'))] if c.thorough else []):
        c.variant(name, cc)
        c.build(ALL)
        examples.build(c)
        found = wrong_use(c)
        if not c.listed(found):
            again = wrong_use(c)
            if set(again) != set(found):
                raise run.CheckError('a disagreement did not repeat: %s' % sorted(set(again) ^ set(found)))
        for text in sorted(found):
            if text not in c.known:
                c.finding(text, found[text])


# ------------------------------------------------------------------ import library
KINDS_IMP = [(2, 'ME', False), (2, 'CS', False), (3, 'ME', False), (3, 'CS', False), (3, 'CS', True), (3, 'SE', False)]


def import_paths(c, depth, tail):
    """histories of mode changes found by exploring the specification of the import library"""
    configs = [dict(ver=v, kind=k, em=e, depth=depth, tail=tail) for v, k, e in KINDS_IMP]
    path = c.write('configs.json', configs)
    shown = c.model('MCImporter.tla', 'MCImporter.cfg', {'CONFIGS': path})
    return [(configs[s['c'] - 1], s['p'], s['mode']) for s in shown]


def imp(c, gname, count, **arg):
    return rand(c, 'imp_' + gname, count, **arg)


@body('C24')
def c24(c):
    rng = random.Random(c.seed)
    lack = [(v, f) for v in (2, 3) for f in sigs.names(v)]
    if not c.thorough:
        lack = rng.sample(lack, 40)
    c.build_importer(lack)
    scs = []
    for cf, p, _ in import_paths(c, amount(c, 4, 5), 1):
        fs = [f for f in impgen.usable(cf['ver'], cf['kind'])]
        for k in range(0, len(fs), 12):         # every function in every mode
            more = [[f, rng.choice([0, 0, 1, 2, 3, 4])] for f in fs[k:k + 12] if 'Mode' not in f and f not in ('Reset', 'Terminate')]
            scs.append(dict(gen='imp_path', seed=rng.randrange(1 << 30), arg=dict(
                ver=cf['ver'], kind=cf['kind'], em=cf['em'], lf=rng.random() < 0.8, steps=p + more)))
    c.conform(scs if c.thorough else rng.sample(scs, min(len(scs), 900)), 'ImportTrace')
    scs = []
    for ver, kind, _ in KINDS_IMP:
        for lf in (True, False):
            scs += imp(c, 'each', amount(c, 25, 200), ver=ver, kind=kind, lf=lf)
    scs += [dict(gen='imp_lacking', seed=k, arg=dict(ver=v, fn=f)) for k, (v, f) in enumerate(lack)]
    scs += [dict(gen='imp_failing', seed=k, arg=dict(ver=v)) for k in range(10) for v in (2, 3)]
    c.conform(scs, 'ImportTrace')
    c.conform(imp(c, 'walk', amount(c, 300, 3000)), 'ImportTrace')


@body('C25')
def c25(c):
    c.build_importer()
    c.model('LogBuffer.tla', 'LogBuffer.cfg')
    scs = []
    for ver in (2, 3):
        fs = [f for f in sorted(set(impgen.usable(ver, 'ME') + impgen.usable(ver, 'CS')))
              if any(p.kind in ('in', 'out') and p.type in ('String', 'Binary') for p in sigs.SIGS[ver].get(f, []))]
        for f in fs:
            for base in (960, 1984) + ((4032, 8128) if c.thorough else ()):
                for k in range(0, 132, 12):
                    for tail in (0, 2):
                        scs.append(dict(gen='imp_sweep', seed=c.seed * SEED_STEP + base + k + tail,
                                        arg=dict(ver=ver, fn=f, total=base + k, tail=tail)))
    c.conform(scs, 'ImportTrace')
    scs = []
    for ver, kind, _ in KINDS_IMP:
        scs += imp(c, 'each', amount(c, 25, 200), ver=ver, kind=kind, lf=True)
    scs += imp(c, 'texts', amount(c, 500, 5000))
    c.conform(scs, 'ImportTrace')


@body('C26')
def c26(c):
    c.build([(2, 'Resource')])
    c.build_importer()
    c.model('MCPaths.tla', 'MCPaths.cfg')
    rng = random.Random(c.seed)
    paths = [[], [47], list(b'/a'), list(b'/tmp/x y/z'), list(b'C:\\x'), list(b'%'), list(b'%2F'), [255], [47] * 9,
             list(b' ' * 7), list(b'/' + b'a' * 60), list(b'/' + b'\xff' * 20)]
    paths += [[47, b] for b in range(1, 256)]
    for b in range(1, 256):
        paths.append([47, rng.randint(1, 255), b, rng.randint(1, 255)])
    for _ in range(amount(c, 150, 2000)):
        paths.append([rng.randint(1, 255) for _ in range(rng.choice([1, 2, 3, 5, 9, 40]))])
    scs = []
    for p in paths:
        n = 7 + 3 * len(p)
        scs.append(dict(gen='sizes', seed=0, arg=dict(path=p, lo=0, hi=n + 8)))
    for n in (255, 256, 1000, 1023, 1024, 2047, 4000):
        for ch in (97, 32):
            m = 7 + n * (1 if ch == 97 else 3) + 1
            scs.append(dict(gen='sizes', seed=0, arg=dict(path=[47] + [ch] * (n - 1), lo=max(0, m - 12), hi=m + 8)))
    for d in (b'', b'/', b'x', b'x/', b'x\\', b'/a/b', b'/a/b/', b'a b%d%s', b'/' + b'L' * 300):
        for i in (b'Model', b'm', b'', b'%s%n', b'N' * 200):
            for ver in (1, 2, 3):
                total = len(d) + len(i) + 40
                scs.append(dict(gen='binaries', seed=0, arg=dict(path=list(d), id=list(i), ver=ver, lo=max(0, total - 45), hi=total)))
    c.conform(scs)
    c.conform([dict(gen='located', seed=k, arg=dict(name=[b])) for k, b in enumerate(range(1, 256))])
    c.conform([dict(gen='located', seed=k, arg=dict(name=[120, b, 49])) for k, b in enumerate(range(1, 256))])
    c.conform(rand(c, 'located', amount(c, 400, 4000)))


@body('C30')
def c30(c):
    c.build(ALL)
    c.build_importer()

    def thru(scs):
        for x in scs:
            x['world'] = 'through'
        return scs
    one = [cfg([inst('a', ver, m, k, em=e)], FULL + ['limits', 'logcats']) for ver, m in ALL for k, e in kinds(ver, m)]
    c.conform(thru(scenarios(c, one, c.explore(one), 'modes', 3, limit=amount(c, 3000, 12000))))
    c.conform(thru(rand(c, 'anything', amount(c, 900, 6000))))
    c.conform(thru(rand(c, 'together', amount(c, 300, 2000))))
    c.conform(thru(rand(c, 'observed', amount(c, 200, 2000))))
    c.conform(thru(rand(c, 'clocks', amount(c, 200, 2000))))
    c.conform(thru(rand(c, 'wide', amount(c, 80, 600)) + rand(c, 'crowd', amount(c, 8, 60)) +
                   rand(c, 'host', amount(c, 4, 30)) + rand(c, 'depot', amount(c, 4, 30)) +
                   rand(c, 'hoard', amount(c, 20, 150), ser=True) + rand(c, 'wide_logging', amount(c, 40, 300))))


@body('C31')
def c31(c):
    c.guard()
    c.build(ALL)
    c.build_importer()

    def thru(scs):
        for x in scs:
            x['world'] = 'through'
        return scs
    one = [cfg([inst('a', ver, m, k, em=e)], FULL + ['limits', 'bad', 'lengths', 'ser', 'serbad']) for ver, m in ALL
           for k, e in kinds(ver, m)]
    scs = scenarios(c, one, c.explore(one), 'modes', 2, limit=amount(c, 3000, 12000))
    for x in scs:
        x['arg'] = dict(x['arg'], gen=x['gen'])
        x['gen'] = 'tidy'
    c.conform(scs)
    for world in (lambda x: x), thru:
        c.conform(world(rand(c, 'cycles', amount(c, 500, 4000))))
        for g, n in ('anything', 300), ('snapshots', 150), ('together', 150), ('observed', 60), ('clocks', 100), ('exchange', 100), \
                ('crowd', 6), ('hoard', 10), ('wide', 30), ('wide_logging', 20), ('births', 6), ('resets', 10):
            scs = rand(c, g, amount(c, n, 8 * n))
            for x in scs:
                x['arg'] = dict(x.get('arg', {}), gen=x['gen'])
                x['gen'] = 'tidy'
            c.conform(world(scs))
    scs = imp(c, 'walk', amount(c, 150, 1500)) + imp(c, 'texts', amount(c, 150, 1500))
    scs += [dict(gen='imp_failing', seed=k, arg=dict(ver=v)) for k in range(5) for v in (2, 3)]
    c.conform(scs, 'ImportTrace')


@body('C32')
def c32(c):
    c.guard()
    c.build(ALL)
    c.build_importer()
    rng = random.Random(c.seed)

    def scarce(scs, p, **kw):
        for x in scs:
            x['arg'] = dict(x.get('arg', {}), gen=x['gen'], p=p)
            x['gen'] = 'scarce'
            x.update(kw)
        return scs
    one = [cfg([inst('a', ver, m, k, em=e)], FULL + ['bad', 'lengths', 'ser', 'serbad']) for ver, m in ALL
           for k, e in kinds(ver, m)]
    shown = c.explore(one)
    for s in shown:
        s['e'] = [dict(e, ev=dict(e['ev'], fail=rng.choice([1, 1, -1, 2]))) for e in s['e']
                  if e['ev']['f'] not in ('ActivateModelPartition',)]
    scs = scenarios(c, one, shown, 'refused', 2, limit=amount(c, 3000, 20000), keep=lambda e: e['st'] != 0 or
                    e['ev']['f'] in ('GetFMUState', 'DeserializeFMUState', 'Get', 'ExitInitializationMode', 'Reset',
                                     'UpdateDiscreteStates', 'DoStep', 'SetDebugLogging', 'SerializeFMUState'))
    c.conform(scarce(scs, 0))
    scs = []
    for ver, m in ALL:
        for kind, em in kinds(ver, m):
            for world, at, top in ('', '', 3), ('through', '', 3), ('through', 'importer', 5):
                for k in range(1, top + 1):
                    for sign in 1, -1:
                        for _ in range(amount(c, 1, 4)):
                            scs.append(dict(gen='scarce_start', seed=rng.randrange(1 << 30), world=world, arg=dict(
                                ver=ver, m=m, kind=kind, em=em, k=sign * k, at=at)))
    c.conform(scarce(scs, 0))
    for world in '', 'through':
        for g, n in ('anything', 500), ('snapshots', 200), ('together', 150), ('errors', 300), ('clocks', 50):
            c.conform(scarce(rand(c, g, amount(c, n, 6 * n)), 0.3, world=world))
    c.conform([dict(gen='imp_scarce', seed=c.seed * SEED_STEP + k, arg={}) for k in range(amount(c, 500, 4000))],
              'ImportTrace')


def overlapped(c, scs, world=''):
    """the scenarios in two or three threads at a time: with themselves, call by call, and with others"""
    rng = random.Random(c.seed)
    if world:
        scs = [dict(s, world=world) for s in scs]
    half = len(scs) * 2 // 3
    groups = [[s] * rng.choice([2, 2, 3]) for s in scs[:half]]
    scs = scs[half:]
    while len(scs) >= 2:
        k = rng.choice([2, 2, 3])
        groups.append(scs[:k])
        scs = scs[k:]
    return [dict(gen='threads', world='threads', seed=0, timeout=120, arg=dict(parts=g)) for g in groups]


@body('C33')
def c33(c):
    if not c.watch_threads():
        c.assumptions.append('accesses of the threads could not be observed; only results were')
    c.build(ALL)
    c.build_importer()
    two = []
    for ver, m in ALL:
        for k, e in kinds(ver, m):
            p = [inst('a', ver, m, k, em=e), inst('b', ver, m, k, em=e)]
            two.append(cfg(p, [g for g in FULL if g != 'snapone'] + ['snapown'], depth=amount(c, 8, 12), commute=True))
    c.explore(two)
    rng = random.Random(c.seed)
    one = [cfg([inst('a', ver, m, k, em=e)], FULL + ['bad']) for ver, m in ALL for k, e in kinds(ver, m)]
    groups = {}
    for s in scenarios(c, one, c.explore(one), 'goon', 1, limit=amount(c, 3000, 30000)):
        i = [e for e in s['arg']['pre'] if e['f'] == 'Instantiate'][0]
        groups.setdefault((i['ver'], i['m']), []).append(s)
    scs = []
    for g in groups.values():
        rng.shuffle(g)
        scs += overlapped(c, g)
    for world in '', 'through':
        for g, n in ('anything', 200), ('snapshots', 40), ('errors', 40), ('clocks', 40), ('stepping', 60), ('exchange', 60):
            scs += overlapped(c, rand(c, g, amount(c, n, 6 * n)), world)
    c.conform(scs)


def histories(c, found, n, part):
    """some of the transitions found and some random histories, others for every part"""
    rng = random.Random(c.seed * 100 + part)
    scs = spread(rng, [(s, (tuple(sorted(str(e.get('m')) for e in s['arg']['pre'])),
                            (s['arg']['evs'] or [{}])[0].get('f'))) for s in found], min(len(found), 3 * n))
    scs = [dict(x) for x, _ in scs]
    for g, k in ('anything', n), ('snapshots', n // 4), ('errors', n // 4), ('stepping', n // 2), ('exchange', n // 4), \
            ('resizing', n // 4), ('observed', n // 6), ('derivatives', n // 8):
        if g == 'derivatives':
            for ver, m in ALL:
                if m in ('VanDerPol', 'Roberts', 'BouncingBall'):
                    scs += [dict(s, seed=s['seed'] + part) for s in rand(c, g, k // 4 + 1, ver=ver, m=m)]
        else:
            scs += [dict(s, seed=s['seed'] + part) for s in rand(c, g, k, **(dict(ser=True) if g == 'snapshots' else {}))]
    return scs


@body('C35')
def c35(c):
    pkgs = package.build(c)
    try:
        content = package.content(pkgs)
    except (OSError, KeyError, AttributeError, describe.ET.ParseError) as e:
        raise run.CheckError('cannot read a packaged FMU: %s' % e)
    for s in c.model('Package.tla', 'Package.cfg', {'PACKAGES': c.write('packages.json', content)}):
        c.finding('the package of %s for FMI %d.0: %s' % (s['m'], s['ver'], s['what']),
                  dict([x for x in content if (x['m'], x['ver']) == (s['m'], s['ver'])][0]))
    one = [cfg([inst('a', ver, m, k, em=e)], FULL + ['bad']) for ver, m in ALL for k, e in kinds(ver, m)]
    found = scenarios(c, one, c.explore(one), 'goon', 2)
    n = amount(c, 160, 1500)
    ub = {'UBSAN_OPTIONS': 'abort_on_error=1:halt_on_error=1:print_stacktrace=0'}
    dirty = os.path.join(run.VERIF, 'harness', 'dirty.c')
    # a pattern for what has not been written is not visible in truth values, unless they are checked;
    # the library logs what failed calls have left unwritten, so it is not checked in this way
    clang = (CLANG, '-O2',
             '-ftrivial-auto-var-init=pattern')
    variants = [('packaged', (), (), (), {}), ('sources', ('gcc', '-O2'), (), (), {}),
                ('plain', ('gcc', '-O0', '-finstrument-functions'), ['-funsigned-char', dirty], [], {}),
                ('fast', ('gcc', '-O3', '-fno-semantic-interposition'), ['-DNDEBUG'], [], {'MALLOC_PERTURB_': '90'}),
                ('clang', clang, [], ['-fsanitize=bool', '-fsanitize-trap=bool'], {}),
                ('undefined', ('gcc', '-O1', '-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=bool', '-fno-sanitize-recover=all'), [], [], ub)]
    for k, (name, cc, flags, strict, env) in enumerate(variants):
        if cc and not shutil.which(cc[0]):
            continue
        c.variant(name, cc or run.CC, flags, env)
        if name == 'packaged':
            for (ver, m), d in pkgs.items():
                shutil.copy(os.path.join(d, 'binaries', package.PLATFORM[ver], m + '.so'),
                            os.path.join(c.libs, 'fmi%d_%s.so' % (ver, m)))
        elif name == 'sources':
            refused = package.compile_sources(c, pkgs, cc)
            for ver, m, text in refused:
                c.finding('the sources in the package of %s for FMI %d.0 cannot be compiled as the package says' % (m, ver),
                          dict(m=m, ver=ver, compiler=text))
            if refused:
                continue
        else:
            c.build_importer()
            c.flags += strict
            slow = [x for x in ALL if name == 'plain' and x[1] == 'Clocks']     # counts to a billion
            c.build([x for x in ALL if x not in slow])
            c.cc = [x if x != '-O0' else '-O1' for x in c.cc]
            c.build(slow)
        scs = histories(c, found, n, k)
        if name not in ('packaged', 'sources'):
            scs += [dict(s, world='through') for s in rand(c, 'anything', n // 2)]
        for s in scs:
            s['build'] = name
        c.conform(scs)
        if name not in ('packaged', 'sources'):
            c.conform(imp(c, 'walk', n // 2) + imp(c, 'texts', n // 2), 'ImportTrace')


@body('C29')
def c29(c):
    c.build_importer()
    rng = random.Random(c.seed)
    scs = []
    for depth, tail in ((amount(c, 6, 7), 1), (amount(c, 4, 5), 2)):
        for cf, p, _ in import_paths(c, depth, tail):
            last = [['ExitConfigurationMode', 0]] if cf['ver'] == 3 else [['GetFMUstate', 0]]
            scs.append(dict(gen='imp_path', seed=rng.randrange(1 << 30), arg=dict(
                ver=cf['ver'], kind=cf['kind'], em=cf['em'], lf=False, steps=p + last + [['Reset', 0]], n=1)))
    c.conform(scs, 'ImportTrace')
    c.conform(imp(c, 'walk', amount(c, 300, 3000)), 'ImportTrace')


if __name__ == '__main__':
    if sys.argv[1] in BODIES:
        sys.exit(run.main(sys.argv[1], BODIES[sys.argv[1]]))
    print('unknown property', sys.argv[1])
    sys.exit(2)
