"""Scenario generators of the single properties (see gen.py for the vocabulary)."""

import math
import random

import fmu
import gen
from fmu import OK, f2p, p2f, loc
from gen import GENERATORS, H, STEP, generator, walk, rnd_config, variables, settable


# ------------------------------------------------------------------ tools
def of_event(w, e):
    e = dict(e)
    e.pop('f')
    for k in ('T', 'nul'):
        e.pop(k, None)
    return H(w, e.pop('i'), e.pop('ver'), e.pop('m'), e.pop('kind'), **e)


def nestify(path):
    """the flat pieces of activations -> activations with the calls to make in their callbacks"""
    pos = 0

    def block(stop):
        nonlocal pos
        out = []
        while pos < len(path) and path[pos]['f'] not in stop:
            e = dict(path[pos])
            pos += 1
            if e['f'] == 'ActivateModelPartition':
                nest = []
                while pos < len(path) and path[pos]['f'] == 'cb':
                    pos += 1
                    nest.append(block(('cbret',)))
                    pos += 1
                if pos < len(path) and path[pos]['f'] == 'ampret':
                    pos += 1
                e['nest'] = nest
            out.append(e)
        return out
    return block(())


def rename(e, i):
    e = dict(e, i=i)
    if 'nest' in e:
        e['nest'] = [[rename(x, i) for x in p] for p in e['nest']]
    return e


def record(h, fn):
    """run fn(h) and return its calls with their lines"""
    h.seen = []
    fn(h)
    out, h.seen = h.seen, None
    return out


def replay(h, calls, own=False):
    """the same calls on another instance (or the same one later); every line refers to its model"""
    t = h.w.trace
    for e, r0, r1 in calls:
        n0 = len(t)
        h.run(dict(rename(e, h.i), own=own))
        for k, line in enumerate(range(n0, len(t))):
            if r0 + k < r1:
                t[line]['tw'] = r0 + k + 1


def again(h, inst, own=False, **opts):
    """a further instance with the options of h"""
    o = dict(h.opts)
    o.update(opts)
    return H(h.w, inst, h.ver, h.m, h.kind, own=own, **o)


def resource_file(w, c=65):
    w.do(dict(f='file', i='-', path=list(b'/@/y.txt'), c=c, T='', nul=''))


EVERY3 = [(3, m) for m in STEP]
EVERY2 = [(2, m) for m in STEP if m not in ('Roberts', 'StateSpace', 'Clocks')]
MIX = {'advance': 6, 'get': 2, 'set': 3, 'all': 1, 'bad': .15, 'illegal': .15, 'update': .5, 'deriv': .5, 'clock': 1,
       'log': .2}
STATUS = ['Status', 'Real', 'Integer', 'Boolean', 'String']
GOOD = {'advance': 6, 'get': 2, 'set': 3, 'all': 1, 'update': .5, 'deriv': .5, 'clock': 1}


def config(rng, models=None, **o):
    c = rnd_config(rng, models=models or EVERY3 + EVERY2, **o)
    return c


def start(w, rng, name='a', models=None, kinds=None, own=False, ver=None, **over):
    c = rnd_config(rng, models=models or EVERY3 + EVERY2, kinds=kinds, ver=ver)
    c.update(over)
    if c['m'] == 'Resource':
        resource_file(w)
    h = H(w, name, own=own, **c)
    if h.alive:
        vary(h, rng, own)
    return h


def vary(h, rng, own=False):
    """another number of states, inputs and outputs, and matrices that tell them apart"""
    if h.m != 'StateSpace' or h.ver != 3 or rng.random() < 0.4:
        return
    h.do('EnterConfigurationMode', own=own)
    vrs = rng.choice([[1, 2, 3], [2], [3], [1], [3, 1]])
    h.set('UInt64', vrs, [str(rng.randint(0, 5)) for _ in vrs], own=own)
    h.do('ExitConfigurationMode', own=own)
    for vr in rng.sample([4, 5, 6, 7, 8, 9], rng.randint(2, 6)):
        h.setf(vr, *[rng.uniform(-2, 2) for _ in range(h.size('Float64', vr))], own=own)


# ------------------------------------------------------------------ behaviours of the specification
PROBES = {}


def probe(f):
    PROBES[f.__name__] = f
    return f


@generator
def edge(w, rng, pre, path, evs, probe='look', n=3):
    """the calls of a behaviour of the specification, then what the probe adds"""
    hs = {}

    def go(e):
        e = dict(e)
        e.setdefault('own', True)
        e.setdefault('tw', 0)
        if e['f'] == 'Instantiate':
            h = of_event(w, e)
            if h.alive:
                hs[e['i']] = h
        elif e['f'] == 'file':
            w.do(e)
        elif e['i'] in hs:
            hs[e['i']].run(e)
    for e in nestify(pre):
        go(e)
    for e in nestify(path):
        go(e)
    PROBES[probe](w, rng, hs, go, nestify(evs), n)


@probe
def look(w, rng, hs, go, evs, n):
    for e in evs:
        go(e)
    for h in hs.values():
        h.read_all(own=True)


@probe
def modes(w, rng, hs, go, evs, n):
    """calls that tell the modes apart"""
    for e in evs:
        go(e)
    for h in hs.values():
        for _ in range(n):
            k = rng.random()
            if k < 0.6:
                gen.plain(h, rng.choice(gen.ANY3 if h.ver == 3 else gen.ANY2), own=True)
            elif h.mode == 'Terminated':
                h.do('Reset', own=True)
            else:
                gen.advance(h, rng, own=True)


@probe
def refused(w, rng, hs, go, evs, n):
    """everything is as before the refused call, and the run is over"""
    h = hs['a']
    h.read_all(own=True)
    for e in evs:
        go(e)
    h.read_all(own=True)
    for _ in range(n):
        gen.plain(h, rng.choice(gen.ANY3 if h.ver == 3 else gen.ANY2), own=True)
    if 'p' in h.snaps and rng.random() < 0.5:
        h.do('SetFMUState', k='p', own=True)
    else:
        h.do('Reset', own=True)
    h.read_all(own=True)
    for _ in range(n):
        gen.advance(h, rng, own=True)
    h.read_all(own=True)


@probe
def reset(w, rng, hs, go, evs, n):
    for e in evs:
        go(dict(e, own=False))
    a = hs['a']
    after_reset(a, rng, n)


@probe
def goon(w, rng, hs, go, evs, n):
    """carry on on every instance"""
    for e in evs:
        go(e)
    for h in hs.values():
        h.read_all(own=True)
        for _ in range(n):
            if h.mode != 'Terminated':
                gen.advance(h, rng, own=True)
        h.read_all(own=True)


@generator
def edge_reads(w, rng, pre, path, evs):
    """a behaviour of the specification, then the same with every possible read before each call"""
    a = None
    for e in pre:
        if e['f'] == 'Instantiate':
            a = of_event(w, e)
        else:
            w.do(e)

    def go(h):
        for e in nestify(path) + nestify(evs):
            h.run(dict(e, own=False, tw=0))
        h.read_all()
    calls = record(a, go)
    b = again(a, 'b')
    for e, p, q in calls:
        if e['f'] in fmu.STATE and 'k' in e:
            e = dict(e, k='b' + e['k'])
        b.read_all(own=True)
        replay(b, [(e, p, q)])


# ------------------------------------------------------------------ C01, C02
@generator
def modewalk(w, rng, ver, n=50):
    h = start(w, rng, ver=ver, own=True)
    walk(h, rng, n, {'advance': 6, 'any': 1.2, 'get': 1, 'set': 1, 'update': .5, 'deriv': .5, 'clock': .5, 'reset': .2,
                     'snap': .6, 'log': .2, 'revive': .8}, own=True)


# ------------------------------------------------------------------ C03
@generator
def errors(w, rng, ver=None, n=20):
    h = start(w, rng, ver=ver, own=True)
    walk(h, rng, rng.randint(0, n), dict(GOOD, snap=.5), own=True)
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        if h.mode == 'Terminated':
            h.do('Reset', own=True)
            walk(h, rng, rng.randint(0, n), dict(GOOD, snap=.5), own=True)
        h.read_all(own=True)
        if k < 0.1:
            nowhere(w, rng, h)
        elif k < 0.2 and h.ver == 3:
            h.do(rng.choice(fmu.NOT_IMPL3 + ('EvaluateDiscreteStates',)), own=True)
        elif k < 0.35 and h.ncp is not None:
            s = STEP[h.m]
            h.step(rng.choice([0.0, -s, s]), t=h.ncp + rng.choice([0.0, s, -s]), own=True)
        elif k < 0.45 and settable(h.ver, h.m):
            prefix_set(h, rng)
        elif k < 0.7:
            gen.rnd_bad(h, rng, own=True)
        else:
            gen.rnd_illegal(h, rng, own=True)
        h.read_all(own=True)
        for _ in range(rng.randint(0, 4)):
            if h.mode == 'Terminated':
                gen.plain(h, rng.choice(gen.ANY3 if h.ver == 3 else gen.ANY2), own=True)
            else:
                gen.advance(h, rng, own=True)
        h.read_all(own=True)
        k = rng.random()
        if h.mode == 'Terminated':
            if k < 0.5 and h.snaps:
                h.do('SetFMUState', k=rng.choice(list(h.snaps)), own=True)
            else:
                h.do('Reset', own=True)
        h.read_all(own=True)
        walk(h, rng, rng.randint(0, 8), GOOD, own=True)


def prefix_set(h, rng):
    """a list of values of which one is refused"""
    cand = [(T, [v for v in r if gen.set_ok(h, T, v)]) for T, r in settable(h.ver, h.m).items()]
    cand = [c for c in cand if c[1]]
    if not cand:
        return
    T, r = rng.choice(cand)
    vrs = [rng.choice(r) for _ in range(rng.randint(0, 3))]
    vals = []
    for v in vrs:
        vals += [gen.value(rng, h, T, v) for _ in range(h.size(T, v))]
    vrs.append(rng.choice([99, 77]))
    vals.append(gen.dummy(h, T))
    for _ in range(rng.randint(0, 2)):
        v = rng.choice(r)
        vrs.append(v)
        vals += [gen.value(rng, h, T, v) for _ in range(h.size(T, v))]
    h.set(T, vrs, vals, own=True)


def nowhere(w, rng, h):
    """a call without an instance"""
    fs = ['Terminate', 'Reset', 'EnterEventMode', 'ExitInitializationMode', 'EnterContinuousTimeMode']
    f = rng.choice(fs + ['Get', 'SetTime', 'DoStep', 'GetFMUState'])
    e = dict(f=f, i='null', ver=h.ver, m=h.m, T='', nul='', own=True, tw=0)
    if f == 'Get':
        e.update(T='Float64', vr=[0], nv=1)
    elif f == 'SetTime':
        e.update(t=f2p(0.0))
    elif f == 'DoStep':
        e.update(t=f2p(0.0), h=f2p(1.0))
    elif f == 'GetFMUState':
        e.update(k='nobody')
    w.do(e)


# ------------------------------------------------------------------ C04
@generator
def creation(w, rng, ver=None, n=15):
    """instances created after anything happened to others, then looked at"""
    c = config(rng, ver=ver)
    if c['m'] == 'Resource':
        resource_file(w)
    olds = []
    for k in range(rng.randint(0, 3)):
        h = H(w, 'o%d' % k, **dict(c, **({} if rng.random() < 0.5 else
                                         {x: y for x, y in config(rng, models=[(c['ver'], c['m'])]).items()})))
        walk(h, rng, rng.randint(0, n), MIX)
        if rng.random() < 0.4:
            h.do('FreeInstance')
        olds.append(h)
    h = H(w, 'a', name=rng.choice(['inst', 'x', 'a long name ' * 20, 'é']), own=True, **c)
    h.read_all(own=True)
    h.enter_init(own=True)
    h.read_all(own=True)
    h.exit_init(own=True)
    h.read_all(own=True)
    for _ in range(3):
        gen.advance(h, rng, own=True)
    h.read_all(own=True)


# ------------------------------------------------------------------ C05
def after_reset(a, rng, n, free=False):
    """the second instance first, then the reset one with the same calls"""
    w = a.w
    a.do('Reset', own=True)
    b = again(a, 'b')
    if not a.lerr:
        b.logging(False)

    def go(h):
        h.read_all()
        walk(h, rng, n, dict(MIX, bad=.1, illegal=.1))
        h.read_all()
    calls = record(b, go)
    replay(a, calls)


@generator
def resetwalk(w, rng, models=None, n=30):
    h = start(w, rng, models=models and [tuple(x) for x in models])
    walk(h, rng, rng.randint(0, n), dict(MIX, snap=.3, reset=.2, revive=0))
    for _ in range(rng.randint(0, 3)):
        gen.advance(h, rng)
    after_reset(h, rng, 20)


# ------------------------------------------------------------------ C06, C07
def calm(h, rng, n, **a):
    walk(h, rng, n, dict(GOOD, reset=.1, illegal=.05, bad=.05), **a)


@generator
def snapshots(w, rng, n=20, ser=False, models=None):
    h = start(w, rng, models=models and [tuple(x) for x in models])
    calm(h, rng, rng.randint(0, n))
    saved = []
    for k in range(rng.randint(1, 3)):
        slot = 's%d' % k
        h.do('GetFMUState', k=slot, own=True)
        mir = h.mirror()
        if ser:
            h.do('SerializedFMUStateSize', k=slot, own=True)
            h.do('SerializeFMUState', k=slot, b='b%d' % k, delta=0, own=True)
        h.read_all()
        calls = record(h, lambda x: (x.read_all(), calm(x, rng, rng.randint(1, 10)), x.read_all()))
        saved.append((slot, 'b%d' % k, mir, calls))
        if rng.random() < 0.3:
            h.do('Reset')
            calm(h, rng, rng.randint(0, 6))
    for _ in range(rng.randint(1, 4)):
        slot, buf, mir, calls = rng.choice(saved)
        x = h
        if rng.random() < 0.4:
            name = 'b%d' % rng.randint(0, 1)
            if name in w.inst:
                x = w.hs[name]
            else:
                x = again(h, name)
                w.hs = dict(getattr(w, 'hs', {}), **{name: x})
                calm(x, rng, rng.randint(0, 8))
        use = slot
        if ser:
            if rng.random() < 0.5:
                h.do('FreeFMUState', k=slot, own=True)
            elif rng.random() < 0.5:
                use = rng.choice(['fresh', slot] + [s[0] for s in saved])
            x.do('DeserializeFMUState', k=use, b=buf, delta=0, own=True)
            if use != slot:
                # a slot that was overwritten no longer holds what it held
                saved = [s for s in saved if s[0] != use or ser]
        x.do('SetFMUState', k=use, own=True)
        x.load(mir)
        replay(x, calls)
        if rng.random() < 0.3:
            x.do('Reset')
        calm(x, rng, rng.randint(0, 5))
    if ser and rng.random() < 0.5:
        slot, buf, mir, calls = rng.choice(saved)
        d = rng.choice([-1, 1, -8, 8, -100000, 4096])
        h.do('GetFMUState', k='last', own=True)
        h.do(rng.choice(['SerializeFMUState', 'DeserializeFMUState']), k='last', b=buf, delta=d, own=True)
        h.read_all(own=True)
        h.do('SetFMUState', k='last', own=True)
        h.read_all(own=True)
    for slot in [s[0] for s in saved] + ['never']:
        if rng.random() < 0.7:
            h.do('FreeFMUState', k=slot, own=True)
            h.read_all(own=True)


# ------------------------------------------------------------------ C08
@generator
def together(w, rng, n=25, same=True, num=0):
    c = config(rng)
    if c['m'] == 'Resource':
        resource_file(w)
    num = num or rng.choice([2, 2, 3])
    alone = []
    for k in range(num):
        o = c if same and rng.random() < 0.6 else config(rng, models=[(c['ver'], c['m'])])
        h = H(w, 'r%d' % k, **o)
        calls = record(h, lambda x: (walk(x, rng, rng.randint(n // 5, n), dict(MIX, reset=.3, snap=.3)), x.read_all()))
        alone.append((h, calls))
        if rng.random() < 0.5:
            h.do('FreeInstance')
    # now all of them at the same time
    live = []
    for k, (h, calls) in enumerate(alone):
        live.append([None, k, h, list(calls)])
    while live:
        x = rng.choice(live)
        if x[0] is None:
            x[0] = again(x[2], 'i%d' % x[1], own=False)
            continue
        if not x[3]:
            if rng.random() < 0.5:
                x[0].do('FreeInstance')
            live.remove(x)
            continue
        for _ in range(rng.choice([1, 1, 2, 4])):
            if x[3]:
                e, r0, r1 = x[3].pop(0)
                e = dict(e)
                if 'k' in e and e['f'] in fmu.STATE:
                    e['k'] = 'i' + e['k']
                replay(x[0], [(e, r0, r1)])


@generator
def asides(w, rng, n=25):
    """calls of one instance from inside the callbacks of another one"""
    a = start(w, rng, own=True, iu=rng.random() < 0.8, log=True, on=rng.random() < 0.5)
    if not a.alive:
        return
    near = rng.random() < 0.8
    o = config(rng, models=[(a.ver, a.m)] if near else None, **({'kind': a.kind} if near and rng.random() < 0.5 else {}))
    if o['m'] == 'Resource' and a.m != 'Resource':
        resource_file(w)
    b = H(w, 'b', own=True, **o)
    if not b.alive:
        return
    walk(b, rng, rng.randint(0, 12), MIX)
    left = [rng.randint(3, 30)]

    def other():
        if left[0] > 0:
            left[0] -= 1
            walk(b, rng, rng.randint(1, 2), dict(MIX, bad=.6, snap=.5, revive=.8))
    w.aside = other
    walk(a, rng, n, dict(MIX, bad=.6, illegal=.6, snap=.5, reset=.2, revive=.9))
    w.aside = None
    a.read_all()
    b.read_all()


# ------------------------------------------------------------------ C09 .. C12, C20
@generator
def stepping(w, rng, models=None, em=None, er=None, iu=None, n=12, read=True, sets=True, maxn=30, bad=0.1):
    pool = [tuple(x) for x in models] if models else None
    c = rnd_config(rng, models=pool or EVERY3 + EVERY2, kinds=['CS'])
    c['kind'] = 'CS'
    if c['ver'] == 3:
        if em is not None:
            c['em'] = em and c['m'] in gen.EVENT_UPDATE
        if er is not None:
            c['er'] = er
        if iu is not None:
            c['iu'] = iu
    if c['m'] == 'Resource':
        resource_file(w)
    h = H(w, 'a', own=True, **c)
    s = STEP[h.m]
    vary(h, rng, True)
    if sets:
        for _ in range(rng.randint(0, 2)):
            gen.rnd_set(h, rng, own=True)
    t0 = rng.choice([0.0, 0.0, 0.0, 0.5, -1.0, 3.0, 10.0, rng.uniform(-5, 5),
                     *[f * min(1e5, 3e6 * s) for f in (1, -0.3, rng.random())]])
    if h.m == 'Stair':
        t0 = rng.choice([0.0, 0.0, -0.4, 0.2, 0.6, rng.uniform(-1, 0.9), -100.0])
    stop = rng.choice([None, None, t0 + s * rng.randint(3, 200), t0 + s * rng.uniform(1, 200)])
    h.enter_init(t0, stop, own=True)
    if sets:
        for _ in range(rng.randint(0, 2)):
            gen.rnd_set(h, rng, own=True)
    h.exit_init(own=True)
    h.time_read(own=True)
    for _ in range(n):
        if h.mode == 'EventMode':
            for _ in range(rng.randint(0, 2)):
                h.update(own=True)
            if sets and rng.random() < 0.3:
                gen.rnd_set(h, rng, own=True)
            h.do('EnterStepMode', own=True)
        if h.mode not in ('StepMode', 'StepComplete') or h.ncp is None:
            break
        k = rng.random()
        if k < bad:
            badstep(h, rng)
            h.time_read(own=True)
            if rng.random() < 0.7:
                break
            h.do('Reset', own=True)
            h.init(t0, stop, own=True)
            continue
        e = gen.rnd_step(h, rng, maxn, own=True)
        h.time_read(own=True)
        if h.ver == 2:
            h.do('GetStatus', T='Real', sk=2, own=True)
            h.do('GetStatus', T='Boolean', sk=3, own=True)
            h.do('GetStatus', T=rng.choice(STATUS), sk=rng.randrange(4), own=True)
        if read and rng.random() < 0.5:
            h.read_all(own=True)
        if e and e['st'] == OK and h.ver == 3 and (e['x'][0] and h.em or (h.em and rng.random() < 0.1)):
            if rng.random() < 0.85:
                h.do('EnterEventMode', own=True)
        if sets and rng.random() < 0.2:
            gen.rnd_set(h, rng, own=True)
    h.read_all(own=True)


def badstep(h, rng):
    s = STEP[h.m]
    k = rng.randrange(7)
    near = max(1.0, abs(h.ncp)) * 1e-5
    if k == 5:
        h.step(s, t=h.ncp + near * rng.choice([0.9, 1.1, -0.9, -1.1, 2.0]), own=True)
    elif k == 6 and h.stop < math.inf:
        h.step(h.stop - h.ncp + near * rng.choice([0.9, 1.1, 2.0, -0.9]), own=True)
    elif k == 0:
        h.step(s, t=h.ncp + rng.choice([s, -s, 2 * s, 1e-3, -1e-3, math.inf, -math.inf, math.nan]), own=True)
    elif k == 1:
        h.step(rng.choice([0.0, -s, -1e-9, -0.0, math.nan, -math.nan, -math.inf]), own=True)
    elif k == 2 and h.stop < math.inf:
        h.step(h.stop - h.ncp + rng.choice([s, 10 * s, 1.0, math.inf]), own=True)
    elif k == 3 and h.stop < math.inf:
        h.step(max(h.stop - h.ncp, s), own=True)
    else:
        h.step(s, t=h.ncp + rng.choice([0.0, 5e-6, -5e-6, 0.5]), own=True)


@generator
def long_run(w, rng, ver, m, em=False, er=False, total=3.0, pieces=10, iu=False):
    """a complete run from start values or chosen ones, divided at random"""
    h = H(w, 'a', ver, m, 'CS', em=em, er=er, iu=iu, own=True)
    s = STEP[m]
    vary(h, rng, True)
    if m == 'BouncingBall' and rng.random() < 0.15:     # heights that are hit exactly
        h.set('Float64', [1, 3, 5], [f2p(v) for v in (rng.choice([1.0, 2.0, 0.5, 0.0]),
                                                      rng.choice([-1000.0, -500.0, -250.0, 1000.0, 0.0]),
                                                      rng.choice([0.0, 0.0, -1000.0]))], own=True)
    elif m == 'BouncingBall' and rng.random() < 0.7:
        h.set('Float64', [1, 3, 5, 6], [f2p(v) for v in (rng.uniform(0.001, 1.5), rng.uniform(-2, 2),
                                                         rng.choice([-9.81, -1.62, -20.0]), rng.uniform(0, 0.95))],
              own=True)
    if m == 'Stair' and rng.random() < 0.5:
        h.set('Int32', [1], [rng.choice([1, 5, 8, 9, -2])], own=True)
    if m == 'Roberts' and rng.random() < 0.5:
        h.setf(2, rng.uniform(1e-5, 1), own=True)
        h.setf(4, rng.uniform(0, 1e-4), own=True)
    t0 = rng.choice([0.0, 0.0, 0.3]) if m != 'Stair' else rng.choice([0.0, 0.0, -0.2, 0.4])
    h.init(t0, own=True)
    left = total
    for _ in range(pieces * 3):
        if h.mode == 'EventMode':
            for _ in range(rng.choice([1, 1, 1, 2, 0])):
                h.update(own=True)
            h.do('EnterStepMode', own=True)
        if left <= 0 or h.mode not in ('StepMode', 'StepComplete') or h.ncp is None:
            break
        hh = rng.choice([s * rng.randint(1, max(1, int(2 * total / pieces / s))), s, total / pieces,
                         rng.uniform(s, 2 * total / pieces + s)])
        t = h.ncp
        e = h.step(hh, own=True)
        h.read_all(own=True)
        if h.ver == 2:
            h.do('GetStatus', T='Boolean', sk=3, own=True)
            h.do('GetStatus', T='Real', sk=2, own=True)
            h.do('GetStatus', T=rng.choice(STATUS), sk=rng.randrange(4), own=True)
        if e['st'] == OK and h.ver == 3 and e['x'][1]:
            break
        left -= (h.ncp - t) if h.ncp is not None else hh
        if e['st'] == OK and h.ver == 3 and h.em and e['x'][0]:
            h.do('EnterEventMode', own=True)


# ------------------------------------------------------------------ C13, C14
@generator
def exchange(w, rng, models=None, n=30, what='all'):
    """model exchange: an importer that sets states, time and inputs as it likes"""
    pool = [tuple(x) for x in models] if models else [p for p in EVERY3 + EVERY2 if p[1] not in ('Clocks',)]
    ver, m = rng.choice(pool)
    if m == 'Resource':
        resource_file(w)
    kind = 'ME' if what != 'events' or rng.random() < 0.7 or ver == 2 or m not in gen.EVENT_UPDATE else 'CS'
    h = H(w, 'a', ver, m, kind, own=True, em=kind == 'CS')
    for _ in range(rng.randint(0, 2)):
        gen.rnd_set(h, rng, own=True)
    if ver == 3 and m == 'StateSpace' and rng.random() < 0.4:
        h.do('EnterConfigurationMode', own=True)
        gen.rnd_set(h, rng, own=True)
        h.do('ExitConfigurationMode', own=True)
    t0 = rng.choice([0.0, 0.0, 0.5, -1.0])
    h.enter_init(t0, own=True)
    h.read_all(own=True)
    for _ in range(rng.randint(0, 2)):
        gen.rnd_set(h, rng, own=True)
    h.exit_init(own=True)
    for _ in range(n):
        if h.mode == 'Terminated':
            break
        k = rng.random()
        if k < 0.15:
            h.read_all(own=True)
        elif k < 0.3:
            gen.rnd_set(h, rng, own=True)
            vectors(h, rng)
        elif h.mode == 'EventMode':
            if k < 0.6:
                if m == 'BouncingBall' and rng.random() < 0.7:
                    ball(h, rng)
                gen.rnd_update(h, rng, own=True)
                if rng.random() < 0.5:
                    h.update(own=True)
                h.read_all(own=True)
            elif k < 0.75 and kind == 'ME':
                h.settime(next_time(h, rng), own=True)
            else:
                h.do('EnterStepMode' if kind == 'CS' else 'EnterContinuousTimeMode', own=True)
        elif h.mode == 'ContinuousTimeMode':
            if k < 0.45:
                h.settime(next_time(h, rng), own=True)
                h.time_read(own=True)
            elif k < 0.6:
                h.setx([rng.choice([rng.uniform(-2, 2), 0.0, -1e-11, 1e-3, -0.5]) for _ in range(h.nx)], own=True)
                vectors(h, rng)
                h.read_all(own=True)
            elif k < 0.7:
                h.do('CompletedIntegratorStep', own=True)
                h.read_all(own=True)
            elif k < 0.8 and ver == 3:
                h.update(own=True)
            else:
                h.do('EnterEventMode', own=True)
        elif h.mode == 'StepMode':
            if k < 0.5:
                h.update(own=True)
            elif k < 0.7:
                h.do('EnterEventMode', own=True)
            else:
                gen.rnd_step(h, rng, 10, own=True)
    k = rng.random()
    if k < 0.2 and h.mode != 'Terminated':
        f = rng.choice(['GetContinuousStates', 'GetDerivatives', 'GetNominals', 'GetEventIndicators'])
        want = h.nz if f == 'GetEventIndicators' else h.nx
        h.vec(f, rng.choice([x for x in (0, 1, 2, 3, 4, want + 1, want + 2) if x != want]), own=True)
    elif k < 0.3 and h.mode == 'ContinuousTimeMode':
        h.setx([0.5] * rng.choice([x for x in (0, 1, 2, 3, 4) if x != h.nx]), own=True)
    h.read_all(own=True)


def vectors(h, rng):
    """some of the vectors, in any order"""
    if h.mode in ('EventMode', 'ContinuousTimeMode') and h.kind == 'ME':
        fs = ['GetContinuousStates', 'GetDerivatives', 'GetEventIndicators']
        for f in rng.sample(fs, rng.randint(1, 3)):
            h.vec(f, own=True)


def ball(h, rng):
    hv = rng.choice([0.0, -1e-9, 1e-9, -0.3, 0.4, -0.0, 2.2250738585072014e-308])
    vv = rng.choice([-3.0, -0.1, -0.14285714, -0.15, 0.0, 1.0, -1e-3, -rng.uniform(0, 3)])
    h.set('Float64', [1, 3], [f2p(hv), f2p(vv)], own=True)


def next_time(h, rng):
    t = h.time
    if h.m == 'Stair':
        return rng.choice([math.floor(t) + 1.0, math.floor(t) + 1.0, t + 0.25, math.floor(t) + 1 - 1e-6,
                           math.floor(t) + 0.9, t])
    return t + rng.choice([0.0, 0.1, 0.5, 1e-3, rng.uniform(0, 2)])


# ------------------------------------------------------------------ C15, C16
@generator
def access(w, rng, ver, m='Feedthrough', n=30):
    kind = rng.choice(['ME', 'CS']) if m != 'Clocks' else rng.choice(['CS', 'SE'])
    if m == 'Resource':
        resource_file(w)
    h = H(w, 'a', ver, m, kind, own=True)
    for _ in range(rng.randint(0, 3)):
        gen.advance(h, rng, own=True)
    vs = variables(ver, m)
    for _ in range(n):
        if h.mode == 'Terminated':
            h.do('Reset', own=True)
            for _ in range(rng.randint(0, 3)):
                gen.advance(h, rng, own=True)
        k = rng.random()
        if k < 0.5:
            cand = [(T, [v for v in r if gen.set_ok(h, T, v)]) for T, r in settable(ver, m).items()]
            cand = [x for x in cand if x[1]]
            if not cand:
                gen.advance(h, rng, own=True)
                continue
            T, r = rng.choice(cand)
            vrs = [rng.choice(r) for _ in range(rng.choice([1, 2, 3, 4, 7, 0]))]
            if m == 'StateSpace' and T == 'UInt64':
                vrs = vrs[:2]
            vals = []
            for v in vrs:
                vals += [gen.value(rng, h, T, v) for _ in range(h.size(T, v))]
            h.set(T, vrs, vals, own=True)
            if h.readable():
                g = [rng.choice(vs[T]) for _ in range(rng.choice([1, 2, 3, 6]))] + vrs
                h.get(T, g, own=True)
        elif k < 0.6:
            h.read_all(own=True)
        elif k < 0.7:
            T = rng.choice(list(vs))
            if h.readable():
                h.get(T, [rng.choice(vs[T]) for _ in range(rng.choice([0, 1, 2, 5, 9]))], own=True)
        elif k < 0.8 and m in gen.LIMITED:
            gen.rnd_limit(h, rng, own=True)
            h.read_all(own=True)
        elif k < 0.85:
            gen.rnd_bad(h, rng, own=True)
            h.read_all(own=True)
        else:
            gen.advance(h, rng, 5, own=True)


@generator
def attempts(w, rng, ver, m, n=12):
    """attempts to set anything in whatever mode"""
    c = config(rng, models=[(ver, m)])
    if m == 'Resource':
        resource_file(w)
    h = H(w, 'a', own=True, **c)
    vary(h, rng, True)
    walk(h, rng, rng.randint(0, n), GOOD, own=True)
    vs = variables(ver, m)
    for _ in range(4):
        if rng.random() < 0.25:
            h.read_all(own=True)
            gen.rnd_limit(h, rng, own=True)
            h.read_all(own=True)
            if h.mode == 'Terminated':
                h.do('Reset', own=True)
                walk(h, rng, rng.randint(0, n), GOOD, own=True)
        T = rng.choice(list(vs))
        v = rng.choice(vs[T])
        vals = [anyvalue(rng, h, T, v) for _ in range(h.size(T, v))]
        h.read_all(own=True)
        h.set(T, [v], vals, own=True)
        h.read_all(own=True)
        if h.mode == 'Terminated':
            h.do('Reset', own=True)
            walk(h, rng, rng.randint(0, n), GOOD, own=True)


def anyvalue(rng, h, T, v):
    try:
        return gen.value(rng, h, T, v)
    except KeyError:
        return gen.dummy(h, T)


# ------------------------------------------------------------------ C17
@generator
def resizing(w, rng, n=8):
    kind = rng.choice(['ME', 'CS', 'CS'])
    h = H(w, 'a', 3, 'StateSpace', kind, own=True, em=kind == 'CS' and rng.random() < 0.3)

    def config_mode():
        h.do('EnterConfigurationMode', own=True)
        for _ in range(rng.randint(0, 3)):
            vrs = rng.choice([[1], [2], [3], [1, 2], [2, 3], [1, 2, 3], [3, 2, 1]])
            h.set('UInt64', vrs, [str(rng.randint(0, 5)) for _ in vrs], own=True)
            if rng.random() < 0.5:
                h.read_all(own=True)
        if rng.random() < 0.3:
            gen.rnd_set(h, rng, own=True)
        if rng.random() < 0.06:
            h.set('UInt64', [rng.choice([1, 2, 3])], [rng.choice(['6', '7', '100', '4294967297', str(2 ** rng.randint(31, 63) + rng.randint(0, 5))])], own=True)
        h.read_all(own=True)
        h.do('ExitConfigurationMode', own=True)
        h.read_all(own=True)

    def fill():
        for vr in rng.sample([4, 5, 6, 7, 8, 9], rng.randint(0, 4)):
            h.setf(vr, *[rng.uniform(-2, 2) for _ in range(h.size('Float64', vr))], own=True)
        if rng.random() < 0.5:
            vrs = rng.sample([4, 5, 6, 7, 9], 2)
            h.set('Float64', vrs, [f2p(rng.uniform(-1, 1)) for v in vrs for _ in range(h.size('Float64', v))], own=True)
        h.read_all(own=True)
    if rng.random() < 0.7:
        config_mode()
    if h.mode == 'Instantiated':
        fill()
        h.init(own=True)
    for _ in range(n):
        if h.mode == 'Terminated':
            break
        k = rng.random()
        if h.mode == 'EventMode':
            if k < 0.3:
                config_mode()
            elif k < 0.5:
                h.update(own=True)
            else:
                h.do('EnterStepMode' if kind == 'CS' else 'EnterContinuousTimeMode', own=True)
        elif h.mode == 'StepMode':
            if k < 0.3:
                config_mode()
            elif k < 0.6:
                gen.rnd_step(h, rng, 5, own=True)
                h.read_all(own=True)
            elif k < 0.7 and h.em:
                h.do('EnterEventMode', own=True)
            else:
                fill()
        elif h.mode == 'ContinuousTimeMode':
            if k < 0.4:
                h.setx([rng.uniform(-1, 1) for _ in range(h.nx)], own=True)
                h.read_all(own=True)
            elif k < 0.6:
                fill()
            else:
                h.do('EnterEventMode', own=True)
    h.read_all(own=True)


# ------------------------------------------------------------------ C18
@generator
def derivatives(w, rng, ver, m, n=20):
    kind = rng.choice(['CS', 'SE'] if m == 'Clocks' else ['ME', 'CS'])
    if m == 'Resource':
        resource_file(w)
    h = H(w, 'a', ver, m, kind, own=True)
    for _ in range(rng.randint(1, 4)):
        gen.advance(h, rng, 10, own=True)
    for _ in range(n):
        k = rng.random()
        if h.mode == 'Terminated':
            break
        if k < 0.4 and m in ('VanDerPol', 'Roberts'):
            gen.rnd_deriv(h, rng, own=True)
        elif k < 0.4 and m == 'BouncingBall':
            if h.mode in ('StepMode', 'StepComplete'):
                vr = [rng.choice([1, 3]) for _ in range(rng.randint(0, 4))]
                h.do('GetOutputDerivatives', vr=vr, ord=[1] * len(vr), own=True)
        elif k < 0.7:
            gen.rnd_set(h, rng, own=True)
        elif k < 0.73:
            if m == 'BouncingBall':
                h.do('GetOutputDerivatives', vr=[rng.choice([1, 2, 3, 4, 5])], ord=[rng.choice([1, 2, 0, -1])], own=True)
            else:
                f = rng.choice(['GetDirectionalDerivative', 'GetOutputDerivatives'] +
                               (['GetAdjointDerivative'] if ver == 3 else []))
                gen.plain(h, f, own=True)
        else:
            gen.advance(h, rng, 10, own=True)
    h.read_all(own=True)


# ------------------------------------------------------------------ C19
@generator
def clocks(w, rng, n=25, depth=3):
    h = H(w, 'a', 3, 'Clocks', 'SE', own=True, lk=rng.random() < 0.8)
    h.init(own=True)
    for _ in range(n):
        k = rng.random()
        if k < 0.6:
            gen.rnd_activate(h, rng, depth, own=True)
        elif k < 0.8:
            h.get('Int32', list(range(2001, 2008)), own=True)
        elif k < 0.9:
            gen.rnd_clock(h, rng, own=True)
        else:
            h.set('Int32', [2006], [rng.randint(-100, 100)], own=True)
    if rng.random() < 0.2:
        h.do('ActivateModelPartition', vr=rng.choice([1004, 1005, 7]), t=f2p(1.0), own=True)
    h.read_all(own=True)


# ------------------------------------------------------------------ C20
@generator
def observed(w, rng, n=10):
    """the same run without and with an intermediate update callback"""
    c = rnd_config(rng, models=[p for p in EVERY3], kinds=['CS'])
    c.update(kind='CS', iu=False)
    if c['m'] == 'Resource':
        resource_file(w)
    a = H(w, 'a', **c)

    def go(h):
        if rng.random() < 0.5:
            gen.rnd_set(h, rng)
        h.init(rng.choice([0.0, 0.0, 0.5]))
        for _ in range(n):
            if h.mode == 'EventMode':
                h.update()
                h.do('EnterStepMode')
            if h.mode != 'StepMode':
                break
            e = gen.rnd_step(h, rng, 15)
            if rng.random() < 0.4:
                h.read_all()
            if e and e['st'] == OK and h.em and e['x'][0]:
                h.do('EnterEventMode')
            if rng.random() < 0.2:
                gen.rnd_set(h, rng)
        if rng.random() < 0.2:
            h.step(-1.0)
        h.read_all()
    calls = record(a, go)
    b = again(a, 'b', iu=True)
    if rng.random() < 0.5:
        replay(b, calls)
    else:
        # with other instances, with and without callbacks, stepping in between
        d = again(a, 'd', iu=rng.random() < 0.5)
        for x in calls:
            replay(b, [x])
            replay(d, [x])


# ------------------------------------------------------------------ C21
@generator
def logs(w, rng, n=25):
    """the same history with logging on, and with it off or without a callback"""
    c = config(rng)
    if c['m'] == 'Resource':
        resource_file(w)
    a = H(w, 'a', name=rng.choice(['inst', 'me']), **c)

    def go(h):
        walk(h, rng, n, dict(MIX, bad=.8, illegal=.8, log=1, snap=.3, reset=.3, revive=.7))
        if rng.random() < 0.5:
            h.logging(rng.random() < 0.5, rng.choice([['nope'], ['logEvents', 'nope'], ['logStatusError', 'nope'],
                                                      ['nope', 'logStatusError'], ['', 'logEvents'],
                                                      [rng.choice(gen.UNKNOWN)]]))
        elif rng.random() < 0.5:
            h.logging(True, [], n=rng.choice([1, 2]), nul='list')
        for _ in range(4):
            gen.plain(h, rng.choice(gen.ANY3 if h.ver == 3 else gen.ANY2))
            if rng.random() < 0.3:
                gen.rnd_get(h, rng)
    calls = record(a, go)
    k = rng.random()
    if a.ver == 3 and k < 0.4:
        b = again(a, 'b', log=False)
    else:
        b = again(a, 'b', name='other')
        b.logging(False)
    # without the calls that switch logging, unless there is no callback anyway
    calls = [x for x in calls if x[0]['f'] != 'SetDebugLogging' or w.trace[x[1]]['st'] != OK or not b.opts['log']]
    if b.alive:
        replay(b, [(dict(e, k='b' + e['k']) if e['f'] in fmu.STATE and 'k' in e else e, p, q) for e, p, q in calls])


# ------------------------------------------------------------------ C22
def quote(b, rng, p=0.3):
    out = b''
    for x in b:
        c = bytes([x])
        if c == b'%' or (c not in b'/@' and (x > 126 or x < 33 or rng.random() < p)):
            out += b'%' + (b'%02X' % x if rng.random() < 0.5 else b'%02x' % x)
        else:
            out += c
    return out


@generator
def resource(w, rng, ver):
    """every kind of location, with the file appearing, changing and vanishing"""
    names = [b'', b'dir', b'a b', b'100%', b'\xc3\xa4\xc3\xb6', b'x+y=z', b'deep/er/still', b'%41', b'q?#&', b'~', b'\x7f\x01',
             bytes([rng.randint(1, 255) for _ in range(5)]).replace(b'/', b'_').replace(b'@', b'-'), b'L' * 200]
    d = rng.choice(names)
    base = b'/@/' + (d + b'/' if d else b'')
    c = rng.choice([0, 1, 48, 65, 97, 127, 128, 200, 255, rng.randint(0, 255)])
    more = [rng.randint(0, 255) for _ in range(rng.choice([0, 1, 10]))]

    def write(c, **a):
        w.do(dict(f='file', i='-', path=list(base + b'y.txt'), c=c, more=more, T='', nul='', **a))
    there = rng.random() < 0.8
    if there:
        write(c)
    kind = rng.choice(['ME', 'CS'])
    k = rng.random()
    if k < 0.1:         # almost the file, and files where a relative path leads
        for name in b'y.txt', b'rel/y.txt':
            w.do(dict(f='file', i='-', path=list(name), c=rng.randint(0, 255), more=more, T='', nul=''))
        rs = rng.choice([b'', b'rel/', b'rel', b'rel/no/', b'file:/'])
        if ver == 2:
            rs = rng.choice([b'', b'.', b'rel', b'file:', b'file:.', b'file:rel', b'file:./rel', b'file', b'file.', b'file:%2E',
                             b'file:%2F' + base[1:], base, b'file' + base, b'fil:' + base, b'File:' + base, b'files:' + base,
                             b'xfile://' + base, b' file://' + base, b'http://' + base, b':' + base])
    elif k < 0.85:
        if ver == 3:
            rs = base
        else:
            body = quote(base, rng) if rng.random() < 0.7 else quote(base, rng, 0)
            if rng.random() < 0.5:
                body = body.rstrip(b'/') if body.rstrip(b'/') != b'/@' else body
            rs = rng.choice([b'file://', b'file:']) + body
    elif k < 0.89:
        rs = None
    elif k < 0.98:
        rs = rng.choice([b'http://x/', b'/nowhere/', b'', b'file:', b'y', b'FILE:///@/', b'file', b'ftp:///@/'])
        if ver == 3:
            rs = rng.choice([b'/nowhere/', b'', b'file:///@/', b'/@/not/'])
    else:
        tail = bytes(rng.choice(b'abc/') for _ in range(rng.choice([300, 1000, 3900, 4000, 4060, 4080, 4096, 4100, 5000,
                                                                     9000])))
        rs = (b'file:///@/' if ver == 2 else b'/@/') + tail + b'/'
    o = {'rs': list(rs) if rs is not None else list(fmu.NO_LOCATION)}
    h = H(w, 'a', ver, 'Resource', kind, own=True, **o)
    here = h.w.trace[-1]['rs'] != list(fmu.NO_LOCATION)
    for step in range(rng.randint(2, 9)):
        k = rng.random()
        if k < 0.25:
            if h.readable():
                h.get('Int32', [1] * rng.choice([1, 1, 2]), own=True)
        elif k < 0.35:
            c = rng.randint(0, 255)
            write(c)
        elif k < 0.4:
            w.do(dict(f='file', i='-', path=list(base + b'y.txt'), c=-1, T='', nul=''))
        elif k < 0.5 and h.mode == 'Terminated':
            h.do('Reset', own=True)
        elif k < 0.55 and ver == 3:
            h.get('Float64', [0], own=True)
        elif h.mode == 'Instantiated':
            h.enter_init(own=True)
        elif h.mode == 'InitializationMode':
            h.exit_init(own=True)
        elif h.mode != 'Terminated':
            gen.advance(h, rng, 3, own=True)
    if h.readable():
        h.get('Int32', [1], own=True)


# ------------------------------------------------------------------ C26
@generator
def sizes(w, rng, path, lo, hi):
    """the URI of a path, for every size of the buffer in a range"""
    for n in range(lo, hi):
        w.do(dict(f='uri', i='-', path=path, size=n, own=True))


@generator
def binaries(w, rng, path, id, ver, lo, hi):
    for n in range(lo, hi):
        w.do(dict(f='binpath', i='-', path=path, id=id, ver=ver, size=n, own=True))


@generator
def located(w, rng, name=None):
    """a directory with a random name, its URI, and the FMU that reads its file from there"""
    if name is None:
        n = rng.choice([1, 1, 2, 3, 8, 30])
        name = [rng.randint(1, 255) for _ in range(n)]
        if rng.random() < 0.3:
            name = list(rng.choice([b'a b', b'100%', b'%41', b'%', b'%%', b'x%2Fy', b'a+b', b'[x]', b'{y}', b'"q"', b'back\\slash']))
    name = [b for b in name if b not in b'/@'] or [97]
    if bytes(name).strip(b'.') == b'':
        name = [97]
    base = list(b'/@/') + name + ([47] if rng.random() < 0.5 else [])
    full = list(b'/@/') + name + list(b'/y.txt')
    w.do(dict(f='file', i='-', path=full, c=rng.randint(1, 255), T='', nul=''))
    u = w.do(dict(f='uri', i='-', path=base, size=4096, own=True))
    if u['st'] != 0:
        return
    h = H(w, 'a', 2, 'Resource', rng.choice(['ME', 'CS']), own=True, rs=u['x'])
    if h.alive:
        h.enter_init(own=True)
        h.get('Int32', [1], own=True)
        h.exit_init(own=True)
        h.get('Int32', [1], own=True)


# ------------------------------------------------------------------ C23
def read_some(h, rng, **a):
    """one of the calls that only read"""
    k = rng.random()
    if k < 0.5:
        return gen.rnd_get(h, rng, **a)
    if k < 0.6:
        return gen.rnd_deriv(h, rng, **a)
    fs = ['GetContinuousStates', 'GetDerivatives', 'GetNominals', 'GetEventIndicators']
    fs = [f for f in fs if gen.allowed(h, f)]
    if h.ver == 3:
        fs += ['GetNumberOfContinuousStates', 'GetNumberOfEventIndicators']
    elif gen.allowed(h, 'GetStatus'):
        fs.append('GetStatus')
    if h.m == 'BouncingBall' and gen.allowed(h, 'GetOutputDerivatives'):
        fs.append('GetOutputDerivatives')
    f = rng.choice(fs) if fs else None
    if f == 'GetStatus':
        return h.do(f, T=rng.choice(STATUS), sk=rng.randrange(4), **a)
    return gen.plain(h, f, **a) if f else None


@generator
def inserted(w, rng, n=25, models=None):
    a = start(w, rng, models=models and [tuple(x) for x in models])

    def go(h):
        walk(h, rng, n, {'advance': 6, 'set': 4, 'update': 1, 'clock': 0, 'reset': .2, 'snap': .3, 'illegal': .1, 'bad': .1})
        h.read_all()
    calls = record(a, go)
    b = again(a, 'b')
    dense = rng.choice([0.3, 1.0, 3.0])
    for e, p, q in calls:
        if e['f'] in fmu.STATE and 'k' in e:
            e = dict(e, k='b' + e['k'])
        k = dense
        while rng.random() < k:
            read_some(b, rng, own=True)
            k -= 1
        if rng.random() < 0.1:
            b.read_all(own=True)
        replay(b, [(e, p, q)])


@generator
def fresh(w, rng, n=20, models=None):
    """read everything after every single call"""
    h = start(w, rng, own=True, models=models and [tuple(x) for x in models])
    for _ in range(n):
        k = rng.random()
        if k < 0.5:
            gen.rnd_set(h, rng, own=True)
        elif h.mode == 'Terminated':
            h.do('Reset', own=True)
        else:
            gen.advance(h, rng, 8, own=True)
        if rng.random() < 0.3:
            read_some(h, rng, own=True)
        h.read_all(own=True)
        if rng.random() < 0.3:
            h.read_all(own=True)


# ------------------------------------------------------------------ C28
@generator
def versions(w, rng, m, n=12):
    """the same co-simulation run with FMI 2.0 and FMI 3.0"""
    a = H(w, 'a', 2, m, 'CS', own=True)
    b = H(w, 'b', 3, m, 'CS', own=True)
    if m == 'Resource':
        pass

    def both(f):
        n0 = len(w.trace)
        f(a)
        n1 = len(w.trace)
        f(b)
        for k in range(n1, len(w.trace)):
            x, y = w.trace[k - n1 + n0], w.trace[k]
            if x['f'] == y['f'] == 'Get':
                y['tw'] = k - n1 + n0 + 1
    types = [T for T in settable(2, m)]

    def sets():
        T = rng.choice(types)
        r = [v for v in settable(2, m)[T] if gen.set_ok(a, T, v) and gen.set_ok(b, T, v) and (m, v) != ('Feedthrough', 33)]
        if not r:
            return
        v = rng.choice(r)
        x = gen.value(rng, a, T, v)
        both(lambda h: h.set(T, [v], [bool(x) if T == 'Boolean' and h.ver == 3 else x], own=True))

    def reads():
        for T, r in variables(2, m).items():
            if T == 'Boolean':
                continue
            r = [v for v in r if not (m == 'Feedthrough' and v in (33, 34))]
            both(lambda h: h.get(T, r, own=True))
    for _ in range(rng.randint(0, 3)):
        if types:
            sets()
    t0 = rng.choice([0.0, 0.0, 0.5, -1.0]) if m != 'Stair' else rng.choice([0.0, 0.0, -0.4])
    stop = t0 + STEP[m] * rng.choice([rng.randint(1, 60), rng.uniform(1, 100)]) if rng.random() < 0.5 else None
    both(lambda h: h.enter_init(t0, stop, own=True))
    for _ in range(rng.randint(0, 2)):
        if types:
            sets()
    both(lambda h: h.exit_init(own=True))
    reads()
    for _ in range(n):
        if a.ncp is None or b.mode != 'StepMode' or a.mode != 'StepComplete':
            break
        hh = STEP[m] * rng.choice([1, 2, 3, rng.randint(1, 30), rng.uniform(0.3, 20)])
        if stop is not None and a.ncp + hh > stop > a.ncp and rng.random() < 0.5:
            hh = stop - a.ncp
        both(lambda h: h.step(hh, own=True))
        reads()
        if types and rng.random() < 0.3:
            sets()
    both(lambda h: h.read_all(vectors=False, own=True))


@generator
def integrators(w, rng, ver, m, n=10, steps=40):
    """an importer that integrates the model exchange variant against the co-simulation variant"""
    cs = H(w, 'c', ver, m, 'CS', own=True)
    me = H(w, 'e', ver, m, 'ME', own=True)
    s = STEP[m]
    if settable(ver, m):
        for _ in range(rng.randint(0, 4)):
            T = rng.choice(list(settable(ver, m)))
            r = [v for v in settable(ver, m)[T] if gen.set_ok(cs, T, v)]
            if r:
                v = rng.choice(r)
                vals = [gen.value(rng, cs, T, v) for _ in range(cs.size(T, v))]
                cs.set(T, [v], vals, own=True)
                me.set(T, [v], vals, own=True)
    t0 = rng.choice([0.0, 0.0, 1.0, -0.5]) if m != 'Stair' else rng.choice([0.0, -0.4])
    cs.init(t0, own=True)
    me.init(t0, own=True)
    e = me.update(own=True)
    nxt = p2f(e['fv'][0]) if e['x'][4] else None
    me.do('EnterContinuousTimeMode', own=True)
    z = [p2f(v) for v in me.vec('GetEventIndicators', own=True)['fv']] if me.nz else []
    k, over = 0, False
    for _ in range(n):
        if cs.ncp is None or cs.mode not in ('StepMode', 'StepComplete') or over:
            break
        cnt = rng.randint(1, steps)
        to = t0 + (k + cnt) * s
        if cs.step(to - cs.ncp, own=True)['st'] == 3:
            break
        reached = round((p2f(cs.time_read(own=True)['fv'][0]) - t0) / s)
        while k < reached:
            x = [p2f(v) for v in me.vec('GetContinuousStates', own=True)['fv']] if me.nx else []
            dx = [p2f(v) for v in me.vec('GetDerivatives', own=True)['fv']] if me.nx else []
            k += 1
            t = t0 + k * s
            me.settime(t, own=True)
            if x:
                me.setx([a + s * b for a, b in zip(x, dx)], own=True)
            zz = [p2f(v) for v in me.vec('GetEventIndicators', own=True)['fv']] if me.nz else []
            hit = any((p <= 0 and q > 0) or (p > 0 and q <= 0) for p, q in zip(z, zz))
            z = zz
            if hit or (nxt is not None and nxt <= t):
                me.do('EnterEventMode', own=True)
                e = me.update(own=True)
                if e['st'] != OK:
                    return
                nxt = p2f(e['fv'][0]) if e['x'][4] else None
                over = e['x'][1]
                me.do('EnterContinuousTimeMode', own=True)
                if ver == 3 and me.nz:
                    z = [p2f(v) for v in me.vec('GetEventIndicators', own=True)['fv']]
            me.do('CompletedIntegratorStep', own=True)
        for T, r in variables(ver, m).items():
            p = cs.get(T, r, own=True)
            i = len(w.trace)
            me.get(T, r, own=True, tw=i)


# ------------------------------------------------------------------ C30
@generator
def anything(w, rng, n=60):
    """a long history of calls of every kind"""
    h = start(w, rng, own=True, on=rng.random() < 0.3, log=rng.random() < 0.9)
    if not h.alive:
        return
    walk(h, rng, n, {'advance': 6, 'any': .2, 'get': 2, 'set': 3, 'all': 1, 'bad': .2, 'update': .5, 'deriv': 1, 'clock': .5,
                     'reset': .2, 'snap': .8, 'log': .3, 'revive': .8}, own=True)
    if rng.random() < 0.5:
        h.do('FreeInstance', own=True)


# ------------------------------------------------------------------ C31
def release(w, rng, own=False):
    """give back every snapshot and every instance, in some order"""
    live = list(w.inst)
    rng.shuffle(live)
    slots = [k for k, v in w.snap.items() if v.value]
    rng.shuffle(slots)
    for k in slots:
        of = [i for i in live if w.inst[i].ver == w.snapver.get(k, w.inst[i].ver)]
        if of:
            w.do(dict(f='FreeFMUState', i=rng.choice(of), k=k, T='', nul='', own=own, tw=0))
    for i in live:
        w.do(dict(f='FreeInstance', i=i, T='', nul='', own=own, tw=0))


@generator
def tidy(w, rng, gen='anything', **arg):
    """any scenario, and then everything is released"""
    GENERATORS[gen](w, rng, **arg)
    for e in w.trace:       # these refer to lines with the same results, not with the same memory
        e['tw'] = 0
    if w.inst and not w.active:
        release(w, rng)


@generator
def cycles(w, rng, n=12, k=5):
    """the same calls from the same state, again and again"""
    h = start(w, rng, on=rng.random() < 0.5)
    if not h.alive:
        return
    walk(h, rng, rng.randint(0, n), dict(MIX, snap=.5, reset=.2))

    def once(x):
        x.do('Reset')
        walk(x, rng, rng.randint(1, n), dict(MIX, snap=1, revive=.5, bad=.5))
        x.do('GetFMUState', k='c')
        if rng.random() < 0.5:
            x.do('SerializeFMUState', k='c', b='c', delta=0)
            x.do('DeserializeFMUState', k=rng.choice(['c', 'd']), b='c', delta=0)
        walk(x, rng, rng.randint(0, 4), MIX)
        if rng.random() < 0.5:
            x.do('FreeFMUState', k='c')
    calls = record(h, once)
    other = rng.random() < 0.5
    for c in range(k):
        if c == 0:      # what is kept from the first time on is kept for all
            calls = record(h, lambda x: [x.run(rename(e, x.i)) for e, _, _ in calls])
        else:
            replay(h, calls)
        if other:
            b = again(h, 'b', tok='wrong' if rng.random() < 0.2 else h.opts['tok'])
            if b.alive:
                b.slots = 'o-'
                walk(b, rng, rng.randint(0, 5), MIX)
                for s in [s for s, v in w.snap.items() if s.startswith('o-') and v.value]:
                    b.do('FreeFMUState', k=s)
                b.do('FreeInstance')
    release(w, rng)


# ------------------------------------------------------------------ C32
def refusals(rng, p, importer=False):
    """which request of a call is refused"""
    def choose(ev):
        if ev['f'] in ('file', 'Instantiate', 'ActivateModelPartition') or rng.random() >= p:
            return {}
        at = 'importer' if importer and rng.random() < 0.5 else ''
        return dict(fail=rng.choice([1, 1, -1, 2]), at=at)
    return choose


@generator
def scarce(w, rng, gen='anything', p=0.3, **arg):
    """any scenario during which requests for memory and handles are refused; then everything is released"""
    w.scarce = refusals(random.Random(rng.random()), p, hasattr(w, 'imp')) if p else None
    GENERATORS[gen](w, rng, **arg)
    if w.inst and not w.active:
        release(w, rng)
    hit = False
    for e in w.trace:
        hit = hit or e['hit'] > 0
        e['own'], e['tw'] = hit, 0


@generator
def scarce_start(w, rng, k, at='', n=4, **o):
    """instantiation with one request refused, and again"""
    if o['m'] == 'Resource':
        resource_file(w)
    opts = dict(fail=k, at=at, on=rng.random() < 0.5, log=rng.random() < 0.8)
    if rng.random() < 0.2:
        opts['tok'] = 'wrong'
    if rng.random() < 0.7:
        opts['rs'] = '/@/' if o['ver'] == 3 else 'file:///@/'
    for i in 'ab':
        h = H(w, i, **{**o, **opts})
        opts.pop('tok', None)
        opts['fail'] = 0
        if h.alive:
            walk(h, rng, n, dict(GOOD, snap=1))
            h.read_all()
