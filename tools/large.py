"""Large numbers: of instances, snapshots, values, steps, activations, resets."""

import fmu
import gen
import scen
from fmu import OK, f2p
from gen import H, STEP, generator, walk
from scen import GOOD, MIX, config, record, replay, resource_file, start

COUNTS = [33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 1000, 1025]


@generator
def crowd(w, rng, num=40):
    """many instances of one FMU at the same time"""
    scen.together(w, rng, n=8, num=num)


@generator
def host(w, rng, num=270):
    """hundreds of instances at the same time, of which some are used and compared with one that was alone"""
    c = config(rng)
    if c['m'] == 'Resource':
        resource_file(w)
    a = H(w, 'a', **c)
    calls = record(a, lambda x: (walk(x, rng, rng.randint(4, 12), GOOD), x.read_all()))
    if rng.random() < 0.5:
        a.do('FreeInstance')
    all_of_them = [scen.again(a, 'i%d' % k, own=False) for k in range(num)]
    picked = {0, 1, 63, 64, 127, 128, 255, 256, num - 1} | {rng.randrange(num) for _ in range(6)}
    left = [[all_of_them[k], list(calls)] for k in sorted(picked)]
    while left:
        x = rng.choice(left)
        if x[1]:
            e, r0, r1 = x[1].pop(0)
            e = dict(e)
            if 'k' in e and e['f'] in fmu.STATE:
                e['k'] = x[0].i + e['k']
            replay(x[0], [(e, r0, r1)])
        else:
            if rng.random() < 0.5:
                x[0].do('FreeInstance')
            left.remove(x)


@generator
def depot(w, rng, n=270, ser=False):
    """hundreds of snapshots at the same time, some of which are restored"""
    h = start(w, rng)
    if not h.alive:
        return
    picked = {0, 1, 63, 64, 127, 128, 255, 256, n - 1} | {rng.randrange(n) for _ in range(6)}
    held = []
    for k in range(n):
        slot = 's%d' % k
        if k in picked:
            scen.calm(h, rng, rng.randint(0, 2))
        h.do('GetFMUState', k=slot, own=True)
        if k in picked:
            mir = h.mirror()
            if ser:
                h.do('SerializeFMUState', k=slot, b='b%d' % k, delta=0, own=True)
            held.append((slot, 'b%d' % k, mir, record(h, lambda x: (x.read_all(), scen.calm(x, rng, 1), x.read_all()))))
    rng.shuffle(held)
    for slot, buf, mir, calls in held:
        if ser and rng.random() < 0.6:
            h.do('DeserializeFMUState', k=slot, b=buf, delta=0, own=True)
        h.do('SetFMUState', k=slot, own=True)
        h.load(mir)
        replay(h, calls)


@generator
def hoard(w, rng, n=40, ser=False):
    """many snapshots at the same time"""
    h = start(w, rng)
    if not h.alive:
        return
    held = []
    for k in range(n):
        scen.calm(h, rng, rng.randint(0, 2))
        slot = 's%d' % k
        h.do('GetFMUState', k=slot, own=True)
        mir = h.mirror()
        if ser:
            h.do('SerializeFMUState', k=slot, b='b%d' % k, delta=0, own=True)
        calls = record(h, lambda x: (x.read_all(), scen.calm(x, rng, rng.randint(0, 2)), x.read_all()))
        held.append((slot, 'b%d' % k, mir, calls))
    for _ in range(n):
        slot, buf, mir, calls = rng.choice(held)
        if ser and rng.random() < 0.6:
            h.do('DeserializeFMUState', k=slot, b=buf, delta=0, own=True)
        h.do('SetFMUState', k=slot, own=True)
        h.load(mir)
        replay(h, calls)
        if rng.random() < 0.4 and len(held) > 1:
            slot = held.pop(rng.randrange(len(held)))[0]
            h.do('FreeFMUState', k=slot, own=True)


@generator
def wide(w, rng, ver=None, m=None, n=6):
    """calls with many references"""
    h = start(w, rng, models=m and [(ver, m)], own=True)
    if not h.alive:
        return
    ver, m = h.ver, h.m
    for _ in range(n):
        if rng.random() < 0.4:
            gen.advance(h, rng)
        vs = gen.variables(ver, m)
        if h.readable():
            T = rng.choice(list(vs))
            h.get(T, [rng.choice(vs[T]) for _ in range(rng.choice(COUNTS))])
        if m != 'StateSpace':
            gen.rnd_set(h, rng, rng.choice(COUNTS))
            h.read_all()


@generator
def wide_derivatives(w, rng, ver, m):
    """derivatives of many unknowns with respect to many knowns"""
    h = start(w, rng, models=[(ver, m)], own=True)
    if not h.alive:
        return
    for _ in range(rng.randint(1, 4)):
        gen.advance(h, rng, 10)
    for _ in range(4):
        gen.rnd_deriv(h, rng, most=rng.choice([9, 17, 33, 65, 130, 260]))


@generator
def marathon(w, rng, ver, m, steps=70000, pieces=50):
    """more internal steps than 16 bits can count"""
    h = H(w, 'a', ver, m, 'CS', own=True, em=False, er=ver == 3 and rng.random() < 0.5)
    if m == 'BouncingBall':
        h.setf(5, rng.choice([-9.81, 0.0]))
    elif m == 'Dahlquist':
        h.setf(3, rng.choice([1e-4, 1.0]))
    h.init(rng.choice([0.0, 0.5]))
    done = 0
    while done < steps:
        n = rng.randint(1, 2 * steps // pieces)
        done += n
        if h.step(n * STEP[m])['st'] != OK:
            break
        h.time_read()
    h.read_all()


@generator
def ticking(w, rng, n=300):
    """more activations than 8 bits can count"""
    h = H(w, 'a', 3, 'Clocks', 'SE', own=True, lk=rng.random() < 0.5)
    h.init()
    for k in range(n):
        vr = rng.choice([1001, 1002]) if k % 20 else rng.choice([1001, 1002, 1003])
        h.do('ActivateModelPartition', vr=vr, t=f2p(k * rng.choice([0.1, 0.01])))
        if rng.random() < 0.2:
            h.get('Int32', list(range(2001, 2008)))
        if rng.random() < 0.2:
            gen.rnd_clock(h, rng)
        if rng.random() < 0.2:
            h.set('Int32', [2006], [rng.randint(-100, 10**6)])
    h.read_all()


@generator
def births(w, rng, n=150):
    """many instances one after the other, and what the last one looks like"""
    c = config(rng)
    if c['m'] == 'Resource':
        resource_file(w)
    for k in range(n):
        h = H(w, 'i%d' % k, own=True, **dict(c, tok='wrong') if rng.random() < 0.1 else c)
        if h.alive:
            if rng.random() < 0.2:
                walk(h, rng, rng.randint(1, 4), GOOD)
            h.do('FreeInstance')
    h = H(w, 'last', own=True, **c)
    h.read_all()
    walk(h, rng, 8, GOOD)
    h.read_all()


@generator
def resets(w, rng, n=60):
    """many resets of one instance, and what it looks like then"""
    h = start(w, rng)
    if not h.alive:
        return
    for k in range(n):
        walk(h, rng, rng.randint(0, 3), dict(MIX, snap=.3, revive=0))
        h.do('Reset')
    scen.after_reset(h, rng, 15)


@generator
def wide_logging(w, rng, n=5):
    """calls with many categories of messages"""
    h = start(w, rng, own=True, log=True)
    if not h.alive:
        return
    for _ in range(n):
        cats = ['logEvents', 'logStatusError'] if rng.random() < 0.7 else ['logEvents']
        few = [rng.choice(cats) for _ in range(rng.choice(COUNTS))]
        if rng.random() < 0.2:
            few[rng.randrange(len(few))] = rng.choice(['', 'logAll', 'logevents'])
        h.logging(rng.random() < 0.8, few)
        walk(h, rng, 4, dict(MIX, bad=2, illegal=2, revive=2))


@generator
def overlong(w, rng, what, n=8):
    """lengths that are right only in their lower 32 bits"""
    if not fmu.reservable():
        return
    h = start(w, rng, own=True, **({'ver': 3} if what == 'values' else {'kinds': ['ME']} if what == 'vectors' else {}))
    if not h.alive:
        return
    for _ in range(n):
        if h.mode == 'Terminated':
            h.do('Reset')
        for _ in range(rng.randint(0, 3)):
            gen.advance(h, rng, 3)
        if what == 'values':
            vs = {T: r for T, r in gen.variables(h.ver, h.m).items() if T not in ('String', 'Binary')}
            T = rng.choice(list(vs))
            vrs = [rng.choice(vs[T]) for _ in range(rng.choice([1, 2, 5]))]
            h.get(T, vrs, nv=sum(h.size(T, v) for v in vrs) + fmu.LARGE)
        elif what == 'vectors':
            f = rng.choice(['GetContinuousStates', 'GetDerivatives', 'GetNominals', 'GetEventIndicators'])
            h.vec(f, (h.nz if f == 'GetEventIndicators' else h.nx) + fmu.LARGE)
        else:
            h.do('GetFMUState', k='long')
            h.do('SerializeFMUState', k='long', b='long', delta=0)
            h.do(rng.choice(['SerializeFMUState', 'DeserializeFMUState']), k='long', b='long', delta=fmu.LARGE)
        h.read_all()
