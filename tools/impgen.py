"""Scenarios for the import library."""

import random
import struct

import gen
import sigs
from importer import bits

NEW = {'ME': 'InstantiateModelExchange', 'CS': 'InstantiateCoSimulation', 'SE': 'InstantiateScheduledExecution'}
LETTERS = ''.join(chr(c) for c in list(range(32, 127)) + list(range(161, 256)))
RANGE = {'Int8': (-2**7, 2**7 - 1), 'UInt8': (0, 2**8 - 1), 'Int16': (-2**15, 2**15 - 1), 'UInt16': (0, 2**16 - 1),
         'Int32': (-2**31, 2**31 - 1), 'UInt32': (0, 2**32 - 1), 'Int64': (-2**63, 2**63 - 1),
         'UInt64': (0, 2**64 - 1), 'Size': (0, 2**64 - 1), 'vr': (0, 2**32 - 1), 'Boolean': (0, 1), 'Bool2': (0, 1)}
SOME = [0.0, -0.0, 1.0, -1.0, 0.1, 1e-4, 9.999999999999999e-5, 1e-5, 123456789.0, 1e15, 1e16, 1e17, 0.30000000000000004,
        float('inf'), float('-inf'), float('nan'), 5e-324, 1.7976931348623157e308, 9999999.5, 99999995.0, 0.5, 2.5, 1e22,
        1e100, 3.141592653589793, 2.2250738585072014e-308]


def f32(x):
    try:
        return struct.unpack('>f', struct.pack('>f', x))[0]
    except OverflowError:
        return 3.4028234663852886e38


def number(rng):
    r = rng.random()
    if r < 0.4:
        return rng.choice(SOME)
    if r < 0.7:
        return rng.uniform(-10, 10)
    if r < 0.85:
        return float(rng.randint(-10**9, 10**9)) * 10.0 ** rng.randint(-12, 12)
    return struct.unpack('>d', struct.pack('>Q', rng.getrandbits(64)))[0]


def word(rng, n=None):
    if n is None:
        n = rng.choice([0, 1, 2, 3, 7, 15, 40])
    return ''.join(rng.choice(LETTERS) for _ in range(n))


def value(t, rng, n=None):
    if t in ('Float64', 'd'):
        return bits(number(rng))
    if t == 'Float32':
        return bits(f32(number(rng)))
    if t in ('String', 's'):
        return word(rng, n)
    if t == 'Binary':
        return bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 8, 33]) if n is None else n)).hex()
    lo, hi = RANGE[t]
    return '%d' % rng.choice([lo, hi, 0, 1, rng.randint(lo, hi)])


def pointer(rng):
    return rng.choice(['(nil)', '0x%x' % (1 + rng.getrandbits(rng.choice([8, 32, 47]))), '0x1'])


def fill(ver, fn, rng, n=None, elem=None):
    """arguments and answers of a call; n: length of the arrays; elem: length of texts and binaries"""
    a, o = {}, {}
    sig = sigs.SIGS[ver][fn]
    counts = {}
    same = rng.random() < 0.7
    m = rng.choice([0, 1, 1, 2, 3, 5, 17]) if n is None else n
    for x in sig:
        if x.kind == 'val' and x.type == 'n':
            counts[x.name] = m if same or n is not None else rng.choice([0, 1, 2, 4])
    if 'Binary' in fn:
        counts = {k: m for k in counts}
    for x in sig:
        k = int(counts.get(x.count, 0))
        if x.name == 'sizes':
            continue
        if x.kind == 'val':
            if x.type == 'n':
                a[x.name] = ['%d' % counts[x.name]]
            elif x.type == 'b':
                a[x.name] = ['%d' % rng.randint(0, 1)]
            elif x.type == 'u':
                a[x.name] = [value('vr', rng)]
            elif x.type == 'i':
                a[x.name] = ['%d' % rng.randint(0, 3)]
            else:
                a[x.name] = [value(x.type, rng, elem)]
        elif x.kind == 'in':
            a[x.name] = [value(x.type, rng, elem) for _ in range(k)]
        elif x.kind == 'out':
            o[x.name] = [value(x.type, rng, elem) for _ in range(k)]
        elif x.kind == 'ptr':
            a[x.name] = [pointer(rng)]
        elif x.kind == 'pp':
            a[x.name], o[x.name] = [pointer(rng)], [pointer(rng)]
        elif x.kind == 'one':
            o[x.name] = [value(x.type, rng, elem)]
        else:
            o[x.name] = ['%d' % rng.randint(0, 1) for _ in range(5)] + [bits(number(rng))]
    if fn == 'SetBinary':
        a['sizes'] = ['%d' % (len(v) // 2) for v in a['values']]
    elif fn == 'GetBinary':
        o['sizes'] = ['%d' % (len(v) // 2) for v in o['values']]
    return a, o


def talk(rng, p=0.15):
    """what the FMU says during a call"""
    says = []
    while rng.random() < p:
        t = word(rng)
        how = rng.randint(0, 2)
        if how == 2:
            t += ' %d' % rng.randint(-10**6, 10**6)
        if rng.random() < 0.05:
            t = word(rng, rng.choice([1000, 1023, 1024, 2000, 3900])) + t
        says.append([rng.randint(0, 4), word(rng, rng.choice([0, 3, 20])), t, how])
    return says


def call(w, i, fn, rng, st=0, n=None, elem=None, says=None, extra=None, **more):
    x = w.inst[i]
    ev = dict(f='call', i=i, fn=fn, ret=st, says=talk(rng) if says is None else says, text=word(rng))
    a, o = fill(x.ver, fn, rng, n, elem) if fn in sigs.SIGS[x.ver] else ({}, {})
    a.update(more)
    ev['a'], ev['o'] = a, o
    ev.update(extra or {})
    return w.do(ev)


def born(w, i, ver, kind, rng, em=None, lm=None, lf=True, lack='', st=0, name=None):
    w.do(dict(f='create', i=i, ver=ver, name=word(rng, 5) if name is None else name,
              lm=rng.random() < 0.7 if lm is None else lm, lf=lf))
    w.do(dict(f='load', i=i, file=lack))
    fn = NEW[kind] if ver == 3 else 'Instantiate'
    more = {}
    if ver == 2:
        more['fmuType'] = ['%d' % {'ME': 0, 'CS': 1}[kind]]
    elif kind == 'CS' and em is not None:
        more['eventModeUsed'] = ['%d' % em]
    if kind == 'SE':
        more['logMessage'] = [pointer(rng)]
    return call(w, i, fn, rng, st, **more)


def usable(ver, kind):
    """functions an instance of this kind can call"""
    out = []
    for f in sigs.names(ver):
        if f.startswith('Instantiate') or f == 'FreeInstance':
            continue
        if ver == 2 and f in (sigs.CS2 if kind == 'ME' else sigs.ME2):
            continue
        out.append(f)
    return out


def path(w, rng, ver, kind, em, lf, steps, n=None):
    """the calls of one behaviour of the specification: [function, status] pairs"""
    born(w, 'a', ver, kind, rng, em=em, lf=lf)
    for fn, st in steps:
        call(w, 'a', fn, rng, st, n=n)


def each(w, rng, ver, kind, lf):
    """every function in random order, with random answers"""
    born(w, 'a', ver, kind, rng, lf=lf)
    fs = usable(ver, kind)
    rng.shuffle(fs)
    for fn in fs:
        call(w, 'a', fn, rng, rng.choice([0, 0, 0, 1, 2, 3, 4] + ([5] if ver == 2 else [])))
    call(w, 'a', 'FreeInstance', rng)


def walk(w, rng, n=40):
    """several instances used in turn"""
    kinds = [(2, 'ME'), (2, 'CS'), (3, 'ME'), (3, 'CS'), (3, 'SE')]
    who = {}
    for i in 'abc'[:rng.randint(1, 3)]:
        ver, kind = rng.choice(kinds)
        born(w, i, ver, kind, rng, lf=rng.random() < 0.8)
        who[i] = usable(ver, kind), [f for f in usable(ver, kind) if 'Mode' in f or f in ('Reset', 'Terminate')]
    for _ in range(n):
        i = rng.choice(sorted(who))
        fn = rng.choice(who[i][0] if rng.random() < 0.7 else who[i][1])
        st = rng.choice([0, 0, 0, 0, 0, 0, 1, 2, 3, 4])
        call(w, i, fn, rng, st)
        if len(who) > 1 and rng.random() < 0.03:
            call(w, i, 'FreeInstance', rng)
            w.do(dict(f='free', i=i))
            del who[i]


def lacking(w, rng, ver, fn):
    """an FMU that lacks a function"""
    for kind in ('ME', 'CS') + (('SE',) if ver == 3 else ()):
        for lm in (True, False):
            for lf in (True, False):
                i = '%s%d%d' % (kind, lm, lf)
                born(w, i, ver, kind, rng, lm=lm, lf=lf, lack=fn)
                w.do(dict(f='free', i=i))


def failing(w, rng, ver):
    """instantiation refused by the FMU, library that is not there"""
    for kind in ('ME', 'CS') + (('SE',) if ver == 3 else ()):
        for lf in (True, False):
            born(w, kind, ver, kind, rng, lf=lf, st=3)
            w.do(dict(f='free', i=kind))
    w.do(dict(f='create', i='m', ver=ver, name='m', lm=True, lf=True))
    w.do(dict(f='load', i='m', file='missing'))
    w.do(dict(f='free', i='m'))


def sweep(w, rng, ver, fn, total, count=12, tail=None):
    """texts whose length runs through a range around a power of two: first element of so many characters"""
    kind = 'CS'
    if ver == 2 and fn in sigs.ME2 or ver == 3 and fn in ('GetContinuousStates',):
        kind = 'ME'
    born(w, 'a', ver, kind, rng, lm=False)
    for k in range(count):
        if k % 4 == 0 and k:            # a new instance has a small buffer again
            call(w, 'a', 'FreeInstance', rng)
            w.do(dict(f='free', i='a'))
            born(w, 'a', ver, kind, rng, lm=False)
        length(w, rng, ver, fn, total + k, tail)


def length(w, rng, ver, fn, size, tail=None, more=None):
    """one call whose text has about this many characters, made of elements of one kind"""
    x = w.inst['a']
    sig = sigs.SIGS[ver][fn]
    arr = [p for p in sig if p.kind in ('in', 'out') and p.type not in ('vr', 'Size')]
    p = arr[-1]
    if p.type == 'String':
        extra = [word(rng, rng.randint(0, 4)) for _ in range(rng.randint(0, 3) if tail is None else tail)]
        used = sum(len(e) + 4 for e in extra)
        n = 1 + len(extra)
        vals = extra + [word(rng, max(0, size - used - 60 - 4 * n))]
        if rng.random() < 0.5:
            vals = vals[-1:] + vals[:-1]
    elif p.type == 'Binary':
        extra = [value('Binary', rng, rng.randint(0, 3)) for _ in range(rng.randint(0, 3) if tail is None else tail)]
        n = 1 + len(extra)
        vals = extra + [value('Binary', rng, max(0, size - 100 - 16 * n) // 2)]
        if rng.random() < 0.5:
            vals = vals[-1:] + vals[:-1]
    else:
        each_ = {'Float64': 18, 'Float32': 9}.get(p.type, 4)
        n = max(1, size // (each_ + 6 + (10 if ver == 3 else 10)))
        vals = [value(p.type, rng) for _ in range(n)]
    a, o = fill(ver, fn, rng, n=n)
    (o if p.kind == 'out' else a)[p.name] = vals
    if 'Binary' in fn:
        (o if p.kind == 'out' else a)['sizes'] = ['%d' % (len(v) // 2) for v in vals]
    if p.type in ('String', 'Binary'):
        for q in sig:
            if q.type == 'vr' and q.kind == 'in':
                a[q.name] = ['%d' % rng.randint(0, 9) for _ in range(n)]
    w.do(dict(f='call', i='a', fn=fn, ret=0, says=[], text='', a=a, o=o, **(more or {})))
    del x


def texts(w, rng, n=25):
    """calls with long and short texts in random order on the same instances"""
    kinds = [(2, 'ME'), (2, 'CS'), (3, 'ME'), (3, 'CS'), (3, 'SE')]
    ver, kind = rng.choice(kinds)
    name = word(rng, rng.choice([0, 5, 900, 1000, 1024, 2050])) if rng.random() < 0.3 else word(rng, 4)
    born(w, 'a', ver, kind, rng, name=name)
    fs = usable(ver, kind)
    arrays = [f for f in fs if any(p.kind in ('in', 'out') and p.type not in ('vr', 'Size') for p in sigs.SIGS[ver].get(f, []))]
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            length(w, rng, ver, rng.choice(arrays), rng.choice([20, 500, 1000, 1024, 1030, 2040, 2048, 2060, 4100, 9000]))
        elif r < 0.6:
            call(w, 'a', rng.choice(fs), rng, n=rng.choice([0, 1, 30, 100]))
        else:
            call(w, 'a', rng.choice(fs), rng)


def scarce(w, rng, k=0, n=12):
    """requests of the library for memory and handles are refused now and then"""
    ver, kind = rng.choice([(2, 'ME'), (2, 'CS'), (3, 'ME'), (3, 'CS'), (3, 'SE')])

    def fail(top=1):
        return rng.choice([1, -1]) * rng.randint(1, top) if rng.random() < 0.5 else 0
    name = word(rng, rng.choice([4, 4, 4, 900, 1024, 2050]))
    lm, lf = rng.random() < 0.7, rng.random() < 0.9
    for p in fail(3), 0:
        if 'a' not in w.inst:
            w.do(dict(f='create', i='a', ver=ver, name=name, lm=lm, lf=lf, fail=p))
    for p in fail(), 0:
        if w.do(dict(f='load', i='a', file='', fail=p))['st'] == 0:
            break
    fn = NEW[kind] if ver == 3 else 'Instantiate'
    more = {'fmuType': ['%d' % {'ME': 0, 'CS': 1}[kind]]} if ver == 2 else {}
    if kind == 'SE':
        more['logMessage'] = [pointer(rng)]
    for p in fail(2), 0:
        if call(w, 'a', fn, rng, 0, extra=dict(fail=p), **more)['st'] == 0:
            break
    fs = usable(ver, kind)
    arrays = [f for f in fs if any(p.kind in ('in', 'out') and p.type not in ('vr', 'Size') for p in sigs.SIGS[ver].get(f, []))]
    for _ in range(n):
        if rng.random() < 0.6:
            length(w, rng, ver, rng.choice(arrays), rng.choice([20, 500, 1000, 1024, 1030, 2040, 2048, 2060, 4100, 9000]),
                   more=dict(fail=fail()))
        else:
            call(w, 'a', rng.choice(fs), rng, rng.choice([0, 0, 0, 1, 3]), extra=dict(fail=fail()))
    call(w, 'a', 'FreeInstance', rng, extra=dict(fail=fail()))


gen.GENERATORS.update(imp_scarce=scarce, imp_path=path, imp_each=each, imp_walk=walk, imp_lacking=lacking, imp_failing=failing,
                      imp_sweep=sweep, imp_texts=texts)
