"""Scenarios that ask an FMU about everything its model description says."""

import fmu
from fmu import OK, f2p, p2f
from gen import H, TYPES, TYPES2, generator, f32
from scen import resource_file


class Asked:
    """one instance, questioned along a description"""

    def __init__(self, w, rng, D, d, kind, **opts):
        self.w, self.rng, self.D, self.kind = w, rng, D, kind
        self.ver = D['ver']
        w.rec(dict(f='description', i='-', d=d), OK)
        if D['m'] == 'Resource':
            resource_file(w)
        self.h = H(w, 'a', D['ver'], D['m'], kind, tok=D['token'], **opts)
        self.sizes()

    def sizes(self):
        self.sz = {v['vr']: int(v['start'][0]) for v in self.D['vars']
                   if v['causality'] == 'structuralParameter' and v['T'] == 'UInt64' and v['hs']}

    def size(self, v):
        n = 1
        for d in v['dims']:
            n *= self.sz.get(d['n'], 0) if d['ref'] else d['n']
        return n

    def get(self, v, T=None, nv=None):
        if v['T'] == 'Clock' and T is None:
            return None
        n = self.size(v) if nv is None else nv
        return self.h.do('Get', T=T or v['T'], vr=[v['vr']], nv=1 if self.ver == 2 else n)

    def all(self, which=None):
        vs = [v for v in (which or self.D['vars']) if v['T'] != 'Clock']
        self.rng.shuffle(vs)
        return [self.get(v) for v in vs]

    def other(self, v, k=None):
        """values for a variable: those declared, or others that are certainly legal"""
        rng, T, n = self.rng, v['T'], self.size(v)
        start = v['start'] if v['hs'] and len(v['start']) == n else None
        if start and rng.random() < 0.2:
            return start
        if T == 'Float64':
            return [f2p(rng.choice([0.5, 0.25, 0.75, rng.uniform(0.01, 0.99)])) for _ in range(n)]
        if T == 'Float32':
            return [f2p(f32(rng.uniform(0, 1))) for _ in range(n)]
        if T == 'String':
            return ['616263' for _ in range(n)]
        if T == 'Binary':
            return ['00ff' for _ in range(n)]
        if T == 'Boolean':
            x = rng.random() < 0.5
            return [x if self.ver == 3 else int(x) for _ in range(n)]
        x = rng.choice([1, 2])
        return [str(x) if T in fmu.TEXT_INTS else x for _ in range(n)]

    def set(self, v, T=None, vals=None):
        return self.h.do('Set', T=T or v['T'], vr=[v['vr']], v=self.other(v) if vals is None else vals)

    def again(self, init):
        self.h.do('Reset')
        self.sizes()
        if init:
            self.h.enter_init()

    def settable(self, v):
        return v['T'] != 'Clock' and v['variability'] != 'constant' and (
            v['causality'] in ('input', 'parameter') or v['initial'] in ('exact', 'approx'))


def types(ver):
    return TYPES if ver == 3 else TYPES2


@generator
def desc_kinds(w, rng, D=None, d=None):
    w.rec(dict(f='description', i='-', d=d), OK)
    tok = D['token']
    about = dict(f='about', i='-', ver=D['ver'], m=D['m'], T='', nul='')
    w.do(about)
    n = 0
    for kind in ('ME', 'CS') + (('SE',) if D['ver'] == 3 else ()):
        for em in (False, True) if kind == 'CS' and D['ver'] == 3 else (False,):
            for t in (tok, tok[:-1], tok + '}', tok.swapcase() + '.', ''):
                n += 1
                h = H(w, 'k%d' % n, D['ver'], D['m'], kind, tok=t, em=em)
                if h.alive:
                    w.do(about)
                    h.do('FreeInstance')


@generator
def desc_read(w, rng, D=None, d=None, kind=None):
    """declared variables as declared, everything else not at all"""
    a = Asked(w, rng, D, d, kind)
    if not a.h.alive:
        return
    refs = sorted({v['vr'] for v in D['vars']})
    near = sorted({r + k for r in refs for k in (-1, 0, 1, 2) if r + k >= 0} | {refs[-1] + 7, 99, 4294967295})
    for init in (False, True) if D['ver'] == 3 else (True,):
        a.again(init)
        a.all()
    a.again(True)
    declared = {(v['T'], v['vr']): v for v in D['vars']}
    for T in types(D['ver']):
        for r in near:
            v = declared.get((T, r), dict(T=T, vr=r, dims=[]))
            e = a.get(v, T=T, nv=None if (T, r) in declared else 1)
            if e['st'] != OK:
                a.again(True)
            elif D['ver'] == 3:
                for nv in {a.size(v) + 1, max(0, a.size(v) - 1)} - {a.size(v)}:
                    if rng.random() < 0.5:
                        a.get(v, nv=nv)
                        a.again(True)
    if D['ver'] == 3:
        for r in near:
            for f in ('GetClock', 'GetIntervalDecimal'):
                a.again(kind != 'SE')
                if kind == 'SE':
                    a.h.init()
                a.h.do(f, vr=[r])


@generator
def desc_set(w, rng, D=None, d=None, kind=None):
    a = Asked(w, rng, D, d, kind)
    if not a.h.alive:
        return
    some = {'Float64': f2p(0.5), 'Float32': f2p(0.5), 'Boolean': True if D['ver'] == 3 else 1, 'String': '61', 'Binary': '61'}
    for v in D['vars']:
        for T in types(D['ver']):
            if T != v['T'] and rng.random() < 0.7:
                continue
            for init in (False, True):
                a.again(init)
                if T == v['T']:
                    e = a.set(v)
                    if e['st'] == OK:
                        a.get(v) if init or D['ver'] == 3 else None
                        a.set(v)
                else:
                    a.set(v, T=T, vals=[some.get(T, '1' if T in fmu.TEXT_INTS else 1)])
    for r in sorted({v['vr'] for v in D['vars']})[-1] + 1, 77777:
        for T in types(D['ver']):
            a.again(rng.random() < 0.5)
            a.set(dict(vr=r), T=T, vals=[some.get(T, '1' if T in fmu.TEXT_INTS else 1)])


@generator
def desc_depend(w, rng, D=None, d=None, kind=None, n=12):
    """set one variable, and see what else changes"""
    a = Asked(w, rng, D, d, kind)
    if not a.h.alive:
        return
    def rounds(vs):
        for _ in range(n):
            if not vs:
                return
            a.all()
            if a.set(rng.choice(vs))['st'] != OK:
                return
        a.all()
    can = [v for v in D['vars'] if a.settable(v)]
    if D['ver'] == 3:
        rounds(can)
    a.h.enter_init()
    rounds(can)
    if kind == 'SE' or a.h.exit_init()['st'] != OK:
        return
    states = {v['der'] for v in D['vars'] if v['der'] >= 0}
    free = [v for v in D['vars'] if v['vr'] in states or v['causality'] == 'input']
    rounds(free)
    if kind == 'ME' and a.h.do('EnterContinuousTimeMode')['st'] == OK:
        rounds([v for v in free if v['T'] in fmu.FLOATS and v['variability'] == 'continuous'])


@generator
def desc_tune(w, rng, D=None, d=None, kind=None, n=14):
    """set in every mode what can be set there"""
    em = kind == 'CS' and D['ver'] == 3 and D['em'] and rng.random() < 0.5
    a = Asked(w, rng, D, d, kind, em=em)
    if not a.h.alive:
        return
    h = a.h
    can = [v for v in D['vars'] if v['causality'] == 'input' and v['T'] != 'Clock' or
           v['causality'] == 'parameter' and v['variability'] == 'tunable']
    smooth = [v for v in can if v['causality'] == 'input' and v['T'] in fmu.FLOATS and v['variability'] == 'continuous']
    h.init()
    at = 'Event' if kind == 'ME' or em else 'Step'
    for _ in range(n):
        vs = can if at == 'Event' or at == 'Step' and not em else smooth
        for v in rng.sample(vs, min(len(vs), rng.randint(0, 3))):
            a.set(v)
            a.get(v)
        if at == 'Step':
            if rng.random() < 0.7 or not em:
                if h.step(rng.choice([1, 2, 5]) * 0.1)['st'] != OK:
                    return
                continue
            at = 'Event'
        elif at == 'Event' and rng.random() < 0.3:
            if h.update()['st'] != OK:
                return
            continue
        elif at == 'Continuous':
            at = 'Event'
        else:
            at = 'Step' if kind == 'CS' else 'Continuous'
        f = {'Event': 'EnterEventMode', 'Step': 'EnterStepMode', 'Continuous': 'EnterContinuousTimeMode'}[at]
        if h.do(f)['st'] != OK:
            return


@generator
def desc_vectors(w, rng, D=None, d=None):
    a = Asked(w, rng, D, d, 'ME')
    if not a.h.alive:
        return
    if D['ver'] == 3 and a.sz and rng.random() < 0.6:
        resize(a)
    can = [v for v in D['vars'] if a.settable(v)]
    byref = {v['vr']: v for v in D['vars']}
    ders = [byref[u['vr']] for u in D['ders'] if u['vr'] in byref]
    sts = [byref[v['der']] for v in ders if v['der'] in byref]
    inds = [byref[u['vr']] for u in D['ind'] if u['vr'] in byref]
    for v in rng.sample(can, rng.randint(0, len(can))):
        a.set(v)
    a.h.enter_init()
    a.h.exit_init()
    nx = sum(a.size(v) for v in ders)
    nz = D['nz'] if D['ver'] == 2 else sum(a.size(v) for v in inds)
    def look():
        a.all(sts + ders + inds)
        for f in rng.sample(['GetContinuousStates', 'GetDerivatives', 'GetEventIndicators', 'GetNominals'], 4):
            a.h.do(f, n=nz if f == 'GetEventIndicators' else nx)
        if D['ver'] == 3:
            a.h.do('GetNumberOfContinuousStates')
            a.h.do('GetNumberOfEventIndicators')
    look()
    if a.h.do('EnterContinuousTimeMode')['st'] != OK:
        return
    for _ in range(3):
        look()
        a.h.do('SetContinuousStates', v=[f2p(rng.uniform(0.1, 1)) for _ in range(nx)])
    f = rng.choice(['GetContinuousStates', 'GetDerivatives', 'GetEventIndicators', 'GetNominals', 'SetContinuousStates'])
    m = (nz if f == 'GetEventIndicators' else nx) + rng.choice([1, -1, 2])
    if m >= 0:
        a.h.do(f, **({'v': [f2p(0.0)] * m} if f[0] == 'S' else {'n': m}))


def resize(a):
    a.h.do('EnterConfigurationMode')
    for v in [v for v in a.D['vars'] if v['vr'] in a.sz]:
        lo, hi = (v['min'], v['max']) if v['bounded'] else (1, 2)
        x = a.rng.randint(lo, hi)
        if a.set(v, vals=[str(x)])['st'] == OK:
            a.sz[v['vr']] = x
    a.h.do('ExitConfigurationMode')


@generator
def desc_sizes(w, rng, D=None, d=None, kind=None):
    """structural parameters up to their limits, and the arrays that follow"""
    a = Asked(w, rng, D, d, kind)
    if not a.h.alive:
        return
    for v in [v for v in D['vars'] if v['vr'] in a.sz]:
        lo, hi = (v['min'], v['max']) if v['bounded'] else (1, 2)
        for x in list(range(lo, hi + 1)) + ([hi + 1, hi + 5] if v['bounded'] else []):
            a.again(False)
            a.h.do('EnterConfigurationMode')
            if a.set(v, vals=[str(x)])['st'] == OK:
                a.sz[v['vr']] = x
                a.h.do('ExitConfigurationMode')
                a.all()
    for _ in range(3):
        a.again(False)
        resize(a)
        a.all()
        for v in [v for v in D['vars'] if a.settable(v)]:
            a.set(v)
        a.all()


@generator
def desc_caps(w, rng, D=None, d=None, kind=None):
    """declared capabilities work"""
    a = Asked(w, rng, D, d, kind, iu=kind == 'CS', em=False)
    if not a.h.alive:
        return
    h, cap = a.h, D['caps'][kind]
    cats = D['cats']
    for c in cats + [cats]:
        h.logging(rng.random() < 0.5, c if isinstance(c, list) else [c])
    h.init()
    def snap():
        if cap['snap']:
            h.do('GetFMUState', k='s')
            if cap['ser']:
                h.do('SerializedFMUStateSize', k='s')
                h.do('SerializeFMUState', k='s', b='b', delta=0)
                h.do('DeserializeFMUState', k='t', b='b', delta=0)
                h.do('SetFMUState', k='t')
            h.do('SetFMUState', k='s')
    snap()
    pairs = [(u['vr'], k) for u in D['ders'] for k in u['deps']]
    def derivs():
        for u, k in pairs:
            if cap['dir']:
                h.do('GetDirectionalDerivative', un=[u], kn=[k], v=[f2p(1.0)])
            if cap['adj'] and D['ver'] == 3:
                h.do('GetAdjointDerivative', un=[u], kn=[k], v=[f2p(1.0)])
    if kind == 'ME':
        h.do('EnterContinuousTimeMode')
        derivs()
    if kind == 'CS':
        if D['ver'] == 2 and D['ders']:
            h.step(1e-2)
        derivs()
        if D['hstep']:
            step = p2f(D['step'])
            for n in (5, 1, 3):
                n *= max(1, round(1e-4 / step))
                a.again(False)
                if rng.random() < 0.5:
                    h.init(t=step * rng.choice([1, 4]))
                else:
                    h.init()
                h.step(n * step)
        if D['vstep']:
            a.again(False)
            h.init()
            s = max(p2f(D['step']), 1e-4) if D['hstep'] else 0.2
            for n in (1, 3, 2):
                h.step(n * s)
    snap()
    a.again(False)
    h.logging(True, [rng.choice(['nonsense', 'logAll', ''])])
