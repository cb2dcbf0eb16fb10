"""Scenario generators.  A generator drives real FMUs through fmu.World; which
calls it makes depends on a random source and on a light mirror of the mode and
sizes, never on expected values: judging is the business of the specification."""

import math
import struct

import fmu
from fmu import OK, f2p, loc

STEP = {'BouncingBall': 1e-3, 'Dahlquist': 0.1, 'Feedthrough': 0.1, 'Stair': 0.2, 'VanDerPol': 1e-2,
        'Roberts': 1e-6, 'StateSpace': 1e-3, 'Resource': 1.0, 'Clocks': 1.0}
EVENT_UPDATE = ('BouncingBall', 'Stair', 'StateSpace', 'Clocks', 'Feedthrough')
NX = {'BouncingBall': 2, 'VanDerPol': 2, 'Roberts': 2, 'Dahlquist': 1}
NZ = {'BouncingBall': 1, 'Roberts': 2}
TYPES = ['Float32', 'Float64', 'Int8', 'UInt8', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64',
         'Boolean', 'String', 'Binary']
TYPES2 = ['Float64', 'Int32', 'Boolean', 'String']
FT = {}
for _t, _r in (('Float32', range(1, 5)), ('Float64', range(5, 11)), ('Int8', (11, 12)), ('UInt8', (13, 14)),
               ('Int16', (15, 16)), ('UInt16', (17, 18)), ('Int32', (19, 20)), ('UInt32', (21, 22)),
               ('Int64', (23, 24, 33, 34)), ('UInt64', (25, 26)), ('Boolean', (27, 28)), ('String', (29, 30)),
               ('Binary', (31, 32))):
    FT[_t] = list(_r)


def variables(ver, m):
    """readable variables: {type: [vr]}"""
    if m == 'BouncingBall':
        return {'Float64': list(range(0, 8))}
    if m == 'Dahlquist':
        return {'Float64': [0, 1, 2, 3]}
    if m == 'VanDerPol':
        return {'Float64': [0, 1, 2, 3, 4, 5]}
    if m == 'Roberts':
        return {'Float64': [0] + list(range(2, 11)), 'Boolean': [1]}
    if m == 'StateSpace':
        return {'Float64': [0] + list(range(4, 13)), 'UInt64': [1, 2, 3]}
    if m == 'Stair':
        return {'Float64': [0], 'Int32': [1]}
    if m == 'Resource':
        return {'Float64': [0], 'Int32': [1]}
    if m == 'Clocks':
        return {'Float64': [0], 'Int32': list(range(2001, 2008))}
    if m == 'Feedthrough':
        if ver == 3:
            return dict(FT, Float64=[0] + FT['Float64'])
        return {'Float64': [0] + FT['Float64'], 'Int32': [19, 20, 33, 34], 'Boolean': [27, 28], 'String': [29, 30]}
    raise KeyError(m)


def settable(ver, m):
    """variables that can be set in some mode"""
    return {
        'BouncingBall': {'Float64': [1, 3, 5, 6]}, 'Dahlquist': {'Float64': [1, 3]},
        'VanDerPol': {'Float64': [1, 3, 5]}, 'Roberts': {'Float64': [2, 4, 6], 'Boolean': [1]},
        'StateSpace': {'Float64': [4, 5, 6, 7, 8, 9, 11], 'UInt64': [1, 2, 3]}, 'Stair': {'Int32': [1]},
        'Resource': {}, 'Clocks': {'Int32': [2006]},
        'Feedthrough': {t: [v for v in r if v % 2 == 1 or v == 6] for t, r in variables(ver, m).items()},
    }[m]


TRACK3 = {'EnterInitializationMode': 'InitializationMode', 'EnterEventMode': 'EventMode',
          'EnterContinuousTimeMode': 'ContinuousTimeMode', 'EnterStepMode': 'StepMode',
          'Terminate': 'Terminated', 'Reset': 'Instantiated'}


class H:
    """one instance, with the mirror the generators steer by"""

    def __init__(self, w, i, ver, m, kind, name='inst', tok=None, rs=None, on=False, em=False, er=False, iu=False,
                 log=True, lk=True, own=False, tw=0, **more):
        self.w, self.i, self.ver, self.m, self.kind, self.em, self.er = w, i, ver, m, kind, em, er
        if m == 'Resource' and rs is None:
            rs = '/@/' if ver == 3 else 'file:///@/'
        self.opts = dict(name=name, tok=fmu.TOKENS[m] if tok is None else tok,
                         rs=rs if isinstance(rs, list) else loc(rs), on=on, em=em, er=er, iu=iu, log=log, lk=lk)
        self.opts.update(more)
        self.snaps = {}
        self.seen = None
        self.mode, self.sizes, self.ncp, self.time, self.start, self.stop = 'Instantiated', [3, 3, 3], 0.0, 0.0, 0.0, math.inf
        self.lerr = True
        self.terminated_by_error = False
        self.default_own = own
        e = w.do(dict(f='Instantiate', i=i, ver=ver, m=m, kind=kind, own=own, tw=tw, **self.opts))
        self.alive = e['x'][0]

    # ---------------------------------------------------------------- mirror
    def mirror(self):
        return dict(mode=self.mode, sizes=list(self.sizes), ncp=self.ncp, time=self.time, start=self.start,
                    stop=self.stop, em=self.em, er=self.er)

    def load(self, mir):
        for k, v in mir.items():
            setattr(self, k, list(v) if isinstance(v, list) else v)

    def ev(self, f, **a):
        e = dict(f=f, i=self.i)
        e.update(a)
        e.setdefault('T', '')
        e.setdefault('nul', '')
        e.setdefault('own', self.default_own)
        e.setdefault('tw', 0)
        return e

    slots = ''      # what its snapshots and buffers are called

    def do(self, f, **a):
        if self.slots:
            a.update({x: self.slots + a[x] for x in ('k', 'b') if x in a and not a[x].startswith(self.slots)})
        return self.run(self.ev(f, **a))

    def run(self, e):
        n0 = len(self.w.trace)
        r = self.w.do(e)
        if self.seen is not None:
            self.seen.append((e, n0, len(self.w.trace)))
        self.track(e, r)
        for k in range(n0, len(self.w.trace)):      # lines of nested calls
            self.w.trace[k]['own'] = self.w.trace[k]['own'] or e['own']
        return r

    def track(self, e, r):
        f, st = e['f'], r['st']
        if st != OK:
            # functions that are not offered leave the mode alone
            if st == 3 and not (self.ver == 3 and f in fmu.NOT_IMPL3 + ('EvaluateDiscreteStates',)) \
                    and not (self.ver == 3 and f == 'GetOutputDerivatives' and self.m != 'BouncingBall'
                             and self.mode in ('StepMode', 'Terminated')):
                self.mode = 'Terminated'
            elif st == 2 and f == 'DoStep':
                self.ncp = None
            return
        if f in TRACK3:
            self.mode = TRACK3[f]
        if f == 'Reset':
            self.sizes, self.ncp, self.time, self.start, self.stop = [3, 3, 3], 0.0, 0.0, 0.0, math.inf
        elif f in ('EnterInitializationMode', 'SetupExperiment'):
            if 't' in e:
                self.start = self.time = self.ncp = fmu.p2f(e['t'])
                self.stop = fmu.p2f(e['stop']) if e['sd'] else math.inf
        elif f == 'ExitInitializationMode':
            if self.ver == 2:
                self.mode = 'EventMode' if self.kind == 'ME' else 'StepComplete'
            else:
                self.mode = {'ME': 'EventMode', 'CS': 'EventMode' if self.em else 'StepMode',
                             'SE': 'ClockActivationMode'}[self.kind]
        elif f == 'EnterConfigurationMode':
            self.mode = 'ConfigurationMode' if self.mode == 'Instantiated' else 'ReconfigurationMode'
        elif f == 'ExitConfigurationMode':
            self.mode = 'Instantiated' if self.mode == 'ConfigurationMode' else \
                {'ME': 'EventMode', 'CS': 'StepMode', 'SE': 'ClockActivationMode'}[self.kind]
        elif f == 'Set' and e['T'] == 'UInt64' and self.m == 'StateSpace':
            for vr, v in zip(e['vr'], e['v']):
                if vr in (1, 2, 3):
                    self.sizes[vr - 1] = min(int(v), 1000)
        elif f == 'GetFMUState':
            self.snaps[e['k']] = self.mirror()
        elif f == 'SetFMUState' and e['k'] in self.snaps:
            self.load(self.snaps[e['k']])
        elif f == 'DoStep':
            if self.ver == 3 and (r['x'][2] or r['x'][1]) and len(r['fv']):
                self.ncp = fmu.p2f(r['fv'][0])
            else:
                self.ncp = fmu.p2f(e['t']) + fmu.p2f(e['h'])
        elif f == 'SetTime':
            self.time = fmu.p2f(e['t'])
        elif f == 'SetDebugLogging':
            if e['n'] == 0 or 'logStatusError' in e['cats']:
                self.lerr = e['on']

    # ---------------------------------------------------------------- sizes
    def size(self, T, vr):
        if self.m == 'StateSpace' and T == 'Float64':
            m, n, r = self.sizes
            return {4: n * n, 5: n * m, 6: r * n, 7: r * m, 8: n, 9: m, 10: r, 11: n, 12: n}.get(vr, 1)
        return 1

    @property
    def nx(self):
        return self.sizes[1] if self.m == 'StateSpace' else NX.get(self.m, 0)

    @property
    def nz(self):
        return NZ.get(self.m, 0)

    # ---------------------------------------------------------------- single calls
    def get(self, T, vrs, nv=None, nul='', **a):
        if nv is None:
            nv = sum(self.size(T, v) for v in vrs)
        return self.do('Get', T=T, vr=list(vrs), nv=nv, nul=nul, **a)

    def set(self, T, vrs, vals, nul='', **a):
        return self.do('Set', T=T, vr=list(vrs), v=list(vals), nul=nul, **a)

    def setf(self, vr, *vals, **a):
        return self.set('Float64', [vr], [f2p(v) for v in vals], **a)

    def enter_init(self, t=0.0, stop=None, **a):
        sd = stop is not None
        e = dict(t=f2p(t), sd=sd, stop=f2p(stop if sd else 0.0))
        if self.ver == 2:
            self.do('SetupExperiment', **e, **a)
            return self.do('EnterInitializationMode', **a)
        return self.do('EnterInitializationMode', **e, **a)

    def exit_init(self, **a):
        return self.do('ExitInitializationMode', **a)

    def init(self, t=0.0, stop=None, **a):
        self.enter_init(t, stop, **a)
        return self.exit_init(**a)

    def step(self, h, t=None, **a):
        return self.do('DoStep', t=f2p(self.ncp if t is None else t), h=f2p(h), **a)

    def vec(self, f, n=None, nul='', **a):
        want = self.nz if f == 'GetEventIndicators' else self.nx
        return self.do(f, n=want if n is None else n, nul=nul, **a)

    def setx(self, vals, nul='', **a):
        return self.do('SetContinuousStates', v=[f2p(x) for x in vals], nul=nul, **a)

    def update(self, nul='', **a):
        return self.do('UpdateDiscreteStates', nul=nul, **a)

    def settime(self, t, **a):
        return self.do('SetTime', t=f2p(t), **a)

    def logging(self, on, cats=(), n=None, nul='', **a):
        return self.do('SetDebugLogging', on=on, cats=list(cats), n=len(cats) if n is None else n, nul=nul, **a)

    def time_read(self, **a):
        return self.get('Float64', [0], **a)

    # ---------------------------------------------------------------- everything observable
    def readable(self):
        return self.ver == 3 or self.mode != 'Instantiated'

    def read_all(self, vectors=True, **a):
        out = []
        if self.readable():
            for T, vrs in variables(self.ver, self.m).items():
                out.append(self.get(T, vrs, **a))
        if vectors:
            vecmodes = {'InitializationMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'}
            if self.mode in vecmodes:
                out.append(self.vec('GetContinuousStates', **a))
                out.append(self.vec('GetEventIndicators', **a))
                if self.ver == 3 or self.mode != 'InitializationMode':
                    out.append(self.vec('GetDerivatives', **a))
                    out.append(self.vec('GetNominals', **a))
            if self.ver == 3:
                out.append(self.do('GetNumberOfContinuousStates', **a))
                out.append(self.do('GetNumberOfEventIndicators', **a))
        return out


# ------------------------------------------------------------------ values
def fval(rng, wide=False):
    k = rng.random()
    if wide and k < 0.25:
        return rng.choice([0.0, -0.0, 1e-300, 1.7976931348623157e308, -1e10, math.inf, -math.inf, math.nan, 5e-324,
                           math.pi, 2.0**53 + 1])
    if k < 0.5:
        return rng.randint(-8, 8) / 2
    return rng.uniform(-4, 4)


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


RANGE = {'Int8': (-128, 127), 'UInt8': (0, 255), 'Int16': (-2**15, 2**15 - 1), 'UInt16': (0, 2**16 - 1),
         'Int32': (-2**31, 2**31 - 1), 'UInt32': (0, 2**32 - 1), 'Int64': (-2**63, 2**63 - 1),
         'UInt64': (0, 2**64 - 1)}


def value(rng, h, T, vr):
    """a legal value for a settable variable (one per element)"""
    m = h.m
    if T == 'Float64':
        if m == 'Feedthrough':
            return f2p(fval(rng, True))
        if m == 'BouncingBall':
            return f2p({1: rng.choice([1.0, 0.5, rng.uniform(0, 2), 0.0, -0.01]), 3: rng.uniform(-3, 3),
                        5: rng.choice([-9.81, -1.62, rng.uniform(-20, -0.5), 0.0]),
                        6: rng.choice([0.7, 0.5, rng.uniform(0, 1)])}[vr])
        if m == 'Roberts':
            return f2p({2: rng.uniform(0, 1), 4: rng.uniform(0, 1e-3), 6: rng.uniform(0, 1)}[vr])
        return f2p(fval(rng))
    if T == 'Float32':
        return f2p(f32(fval(rng, True)))
    if T == 'Boolean':
        return rng.random() < 0.5 if h.ver == 3 else rng.choice([0, 1])
    if T == 'String':
        n = rng.choice([0, 1, 2, 5, 20, 100, 126, 127])
        return bytes(rng.randint(1, 255) for _ in range(n)).hex()
    if T == 'Binary':
        n = rng.choice([0, 1, 2, 5, 20, 127, 128])
        return bytes(rng.randint(0, 255) for _ in range(n)).hex()
    if m == 'Stair':
        return rng.choice([1, 0, -3, 5, 8, 9])
    if m == 'Clocks':
        return rng.randint(-1000, 1000)
    if m == 'StateSpace':
        return str(rng.randint(0, 5))
    if m == 'Feedthrough' and vr == 33:
        v = rng.choice([1, 2])
    else:
        lo, hi = RANGE[T]
        v = rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(lo, hi)])
    return str(v) if T in fmu.TEXT_INTS else v


def set_ok(h, T, vr):
    """may this variable be set now (mirror of the mode only)"""
    m, mode, me = h.m, h.mode, h.kind == 'ME'
    before = ('Instantiated', 'InitializationMode')
    events = before + ('EventMode',)
    if h.ver == 2 and mode == 'Terminated':
        return False
    if mode == 'ContinuousTimeMode' and T not in ('Float64', 'Float32'):
        return False
    if m == 'BouncingBall':
        if vr in (1, 3):
            return mode in events + ('ContinuousTimeMode',)
        return not me or mode in (before if vr == 5 else events)
    if m == 'Dahlquist':
        return vr == 1 or not me or mode in before
    if m == 'VanDerPol':
        return vr != 5 or not me or mode in events
    if m == 'Stair':
        return mode in before
    if m == 'StateSpace':
        if T == 'UInt64':
            return mode in ('ConfigurationMode', 'ReconfigurationMode')
        return vr != 11 or mode in ('EventMode', 'ContinuousTimeMode')
    if m == 'Feedthrough':
        if vr == 5:
            return not me or mode in before
        if vr in (3, 6, 9):
            return not me or mode in events
    return True


# ------------------------------------------------------------------ steps of a random walk
def rnd_get(h, rng, **a):
    if not h.readable():
        return None
    vs = variables(h.ver, h.m)
    T = rng.choice(list(vs))
    n = rng.choice([1, 1, 2, 3, 5])
    return h.get(T, [rng.choice(vs[T]) for _ in range(n)], **a)


def rnd_set(h, rng, n=None, **a):
    vs = settable(h.ver, h.m)
    cand = [(T, [v for v in r if set_ok(h, T, v)]) for T, r in vs.items()]
    cand = [(T, r) for T, r in cand if r]
    if not cand:
        return None
    T, r = rng.choice(cand)
    n = n or rng.choice([1, 1, 2, 3])
    if h.m == 'StateSpace' and T == 'UInt64':
        n = min(n, 3)
    vrs = [rng.choice(r) for _ in range(n)]
    vals = []
    for v in vrs:
        vals += [value(rng, h, T, v) for _ in range(h.size(T, v))]
    return h.set(T, vrs, vals, **a)


def rnd_bad(h, rng, **a):
    """a call with invalid arguments"""
    types = TYPES if h.ver == 3 else TYPES2
    vs, ss = variables(h.ver, h.m), settable(h.ver, h.m)
    k = rng.randrange(12 if h.m in LIMITED else 10)
    if k > 9:
        return rnd_limit(h, rng, **a)
    if k == 9:      # length of a serialized state
        slot = h.i + '-bad'     # of its own: calls from inside callbacks must not touch it
        h.do('GetFMUState', k=slot, **a)
        return h.do(rng.choice(['SerializeFMUState', 'DeserializeFMUState']), k=slot, b=slot,
                    delta=rng.choice([-1, 1, 8, -8, 1000, -100]), **a)
    if k == 0:      # unknown reference or wrong type
        T = rng.choice(types)
        vr = rng.choice([99, 4711, 2**31, 2**32 - 1, 500])
        if h.m != 'Resource' and h.m != 'Clocks' and rng.random() < 0.5:
            other = [v for t, r in vs.items() if t != T for v in r if v not in vs.get(T, [])]
            vr = rng.choice(other) if other else vr
        return h.get(T, [vr % 2**31], 1, **a) if rng.random() < 0.5 else \
            h.set(T, [vr % 2**31], [dummy(h, T)], **a)
    if k == 1:      # wrong number of values
        if h.ver == 2:
            return None
        T = rng.choice(list(vs))
        vr = [rng.choice(vs[T]) for _ in range(rng.choice([1, 2]))]
        want = sum(h.size(T, v) for v in vr)
        nv = rng.choice([n for n in (want - 1, want + 1, want + 3, 0) if n >= 0 and n != want])
        return h.get(T, vr, nv, **a)
    if k == 2:
        if h.ver == 2 or not ss:
            return None
        T = rng.choice(list(ss))
        vr = [rng.choice(ss[T]) for _ in range(rng.choice([1, 2]))]
        vals = []
        for v in vr:
            vals += [value(rng, h, T, v) for _ in range(h.size(T, v))]
        vals = vals[:-1] if rng.random() < 0.5 and vals else vals + [value(rng, h, T, vr[-1])]
        return h.set(T, vr, vals, **a)
    if k == 3:      # missing arrays
        T = rng.choice(list(vs))
        return h.get(T, [vs[T][0]], nul=rng.choice(['vr', 'val']), **a)
    if k == 4:
        if not ss:
            return None
        T = rng.choice(list(ss))
        v = ss[T][0]
        vals = [value(rng, h, T, v) for _ in range(h.size(T, v))]
        return h.set(T, [v], vals, nul=rng.choice(['vr', 'val']), **a) if vals else None
    if k == 5:      # vector length
        f = rng.choice(['GetContinuousStates', 'GetDerivatives', 'GetNominals', 'GetEventIndicators'])
        want = h.nz if f == 'GetEventIndicators' else h.nx
        return h.vec(f, rng.choice([n for n in (0, 1, 2, 3, 4, want + 1) if n != want]), **a)
    if k == 6:
        return h.setx([0.5] * rng.choice([n for n in (0, 1, 2, 3, 4) if n != h.nx]), **a)
    if k == 7:
        return h.do('SetFMUState', k='none', **a)
    return h.logging(True, rng.choice([['x'], ['logEvents', 'nope'], ['logStatusErrors'], [rng.choice(UNKNOWN)]]), **a)


# categories that do not exist; a message that repeats them is no format
UNKNOWN = ['%s' * 30, '%', '100%', '%n%n%n%n', '%d%s%%s%x' * 9, '\\n\t', 'x' * 3000, '%5000d', '%.*s' * 20,
           'logEventsX', 'logEvent', 'logevents', 'xlogEvents', 'logEvents ', 'logStatusErro', 'LogStatusError', 'logStatus', 'log']


LIMITED = ('Stair', 'StateSpace', 'Feedthrough')


def rnd_limit(h, rng, **a):
    """a value at or beyond the limits of a variable, possibly after good ones"""
    if h.m == 'Stair':
        if set_ok(h, 'Int32', 1) or rng.random() < 0.1:
            v = [rng.choice([9, 10, 10, 11, 2**31 - 1, -2**31])]
            if rng.random() < 0.3:
                v = [rng.choice([3, 9])] + v
            return h.set('Int32', [1] * len(v), v, **a)
    elif h.m == 'StateSpace':
        if not set_ok(h, 'UInt64', 1):
            if h.mode not in ('Instantiated', 'StepMode', 'EventMode'):
                return None
            h.do('EnterConfigurationMode', **a)
        vrs = [rng.choice([1, 2, 3])]
        v = [rng.choice(['5', '6', '6', '7', '100', str(2**32), str(2**63), str(2**64 - 1)])]
        if rng.random() < 0.3:
            vrs, v = [rng.choice([1, 2, 3])] + vrs, [str(rng.randint(0, 5))] + v
        return h.set('UInt64', vrs, v, **a)
    elif h.m == 'Feedthrough':
        k = rng.randrange(3)
        if k == 0:
            bad = rng.choice([0, 3, -1, 7, 2**31 - 1])
            if h.ver == 3:
                bad = rng.choice([bad, 2**32 + 1, 2**32 + 2, -2**63, 2**63 - 1])
                return h.set('Int64', [33], [str(bad)], **a)
            return h.set('Int32', [33], [bad], **a)
        if k == 1:
            n = rng.choice([127, 128, 129, 300])
            return h.set('String', [29], [bytes(rng.randint(1, 255) for _ in range(n)).hex()], **a)
        if h.ver == 3:
            n = rng.choice([128, 129, 130, 400])
            return h.set('Binary', [31], [bytes(rng.randint(0, 255) for _ in range(n)).hex()], **a)
    return None


def dummy(h, T):
    if T in ('Float32', 'Float64'):
        return f2p(1.0)
    if T in ('String', 'Binary'):
        return '61'
    if T == 'Boolean':
        return True if h.ver == 3 else 1
    return '1' if T in fmu.TEXT_INTS else 1


ANY3 = ['EnterInitializationMode', 'ExitInitializationMode', 'EnterEventMode', 'Terminate', 'EnterConfigurationMode',
        'ExitConfigurationMode', 'EnterContinuousTimeMode', 'CompletedIntegratorStep', 'SetTime',
        'SetContinuousStates', 'GetContinuousStates', 'GetDerivatives', 'GetNominals', 'GetEventIndicators',
        'EnterStepMode', 'GetOutputDerivatives', 'DoStep', 'GetDirectionalDerivative', 'GetAdjointDerivative']
ANY2 = ['SetupExperiment', 'EnterInitializationMode', 'ExitInitializationMode', 'EnterEventMode', 'Terminate',
        'EnterContinuousTimeMode', 'CompletedIntegratorStep', 'SetTime', 'SetContinuousStates',
        'GetContinuousStates', 'GetDerivatives', 'GetNominals', 'GetEventIndicators', 'GetOutputDerivatives',
        'SetInputDerivatives', 'DoStep', 'CancelStep', 'GetStatus', 'UpdateDiscreteStates',
        'GetDirectionalDerivative']


def plain(h, f, **a):
    """function f with plain valid arguments"""
    if f in ('EnterInitializationMode', 'SetupExperiment') and (h.ver == 3 or f == 'SetupExperiment'):
        return h.do(f, t=f2p(0.0), sd=False, stop=f2p(0.0), **a)
    if f == 'SetTime':
        return h.do(f, t=f2p(h.time or 0.0), **a)
    if f == 'SetContinuousStates':
        return h.setx([0.5] * h.nx, **a)
    if f in fmu.VEC:
        return h.vec(f, **a)
    if f in ('GetOutputDerivatives', 'SetInputDerivatives'):
        return h.do(f, vr=[1], ord=[1], **a)
    if f == 'DoStep':
        return h.step(STEP[h.m] * 2, t=h.ncp if h.ncp is not None else 0.0, **a)
    if f in ('GetDirectionalDerivative', 'GetAdjointDerivative'):
        return h.do(f, un=[4], kn=[1], v=[f2p(1.0)], **a)
    if f == 'GetStatus':
        return h.do(f, T='Real', sk=2, **a)
    return h.do(f, **a)


ALLOWED3 = {
    'EnterInitializationMode': ['Instantiated'], 'ExitInitializationMode': ['InitializationMode'],
    'EnterEventMode': ['ContinuousTimeMode', 'StepMode'],
    'Terminate': ['ContinuousTimeMode', 'StepMode', 'EventMode', 'ClockActivationMode', 'ReconfigurationMode'],
    'EnterConfigurationMode': ['Instantiated', 'StepMode', 'EventMode', 'ClockActivationMode'],
    'ExitConfigurationMode': ['ConfigurationMode', 'ReconfigurationMode'], 'EnterContinuousTimeMode': ['EventMode'],
    'CompletedIntegratorStep': ['ContinuousTimeMode'], 'SetContinuousStates': ['ContinuousTimeMode'],
    'SetTime': ['EventMode', 'ContinuousTimeMode'],
    'GetDerivatives': ['InitializationMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
    'GetEventIndicators': ['InitializationMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
    'GetContinuousStates': ['InitializationMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
    'GetNominals': ['InitializationMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
    'EnterStepMode': ['InitializationMode', 'EventMode'], 'GetOutputDerivatives': ['StepMode', 'Terminated'],
    'DoStep': ['StepMode'],
    'GetDirectionalDerivative': ['InitializationMode', 'StepMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
    'GetAdjointDerivative': ['InitializationMode', 'StepMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
}
ALLOWED2 = {
    'SetupExperiment': ['Instantiated'], 'EnterInitializationMode': ['Instantiated'],
    'ExitInitializationMode': ['InitializationMode'], 'EnterEventMode': ['EventMode', 'ContinuousTimeMode'],
    'Terminate': ['EventMode', 'ContinuousTimeMode', 'StepComplete'], 'EnterContinuousTimeMode': ['EventMode'],
    'CompletedIntegratorStep': ['ContinuousTimeMode'], 'SetContinuousStates': ['ContinuousTimeMode'],
    'SetTime': ['EventMode', 'ContinuousTimeMode'],
    'GetEventIndicators': ['InitializationMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
    'GetContinuousStates': ['InitializationMode', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
    'GetDerivatives': ['EventMode', 'ContinuousTimeMode', 'Terminated'],
    'GetNominals': ['Instantiated', 'EventMode', 'ContinuousTimeMode', 'Terminated'],
    'GetOutputDerivatives': ['StepComplete', 'Terminated'], 'SetInputDerivatives': [],
    'DoStep': ['StepComplete'], 'CancelStep': [], 'GetStatus': ['StepComplete', 'Terminated'],
    'UpdateDiscreteStates': ['EventMode'],
    'GetDirectionalDerivative': ['InitializationMode', 'EventMode', 'ContinuousTimeMode', 'StepComplete',
                                 'Terminated'],
}


def allowed(h, f):
    return h.mode in (ALLOWED3 if h.ver == 3 else ALLOWED2)[f]


def rnd_illegal(h, rng, **a):
    fs = [f for f in (ANY3 if h.ver == 3 else ANY2) if not allowed(h, f)]
    return plain(h, rng.choice(fs), **a) if fs else None


def rnd_step(h, rng, maxn=30, **a):
    """a communication step of up to maxn internal steps"""
    s = STEP[h.m]
    k = rng.random()
    if h.m in ('BouncingBall', 'StateSpace'):
        maxn *= 4
    if h.m == 'Roberts':
        maxn *= 2
    if k < 0.5:
        hh = s * rng.randint(1, maxn)
    elif k < 0.75:
        hh = s * rng.uniform(0.05, maxn)
    elif k < 0.9:
        hh = s
    else:
        hh = s * rng.choice([0.3, 0.5, 1.5, 2.5, 7.3])
    if h.ncp is None:
        return None
    if h.ncp + hh > h.stop and rng.random() < 0.8:
        return None
    return h.step(hh, **a)


def rnd_deriv(h, rng, most=3, **a):
    mode = h.mode
    if h.ver == 3:
        if mode not in ALLOWED3['GetDirectionalDerivative']:
            return None
    elif mode == 'Instantiated':
        return None
    if h.m not in ('VanDerPol', 'Roberts'):
        return None
    pool = list(range(0, 11))
    un = [rng.choice(pool) for _ in range(rng.randint(0, most))]
    kn = [rng.choice(pool) for _ in range(rng.randint(0, most))]
    f = 'GetDirectionalDerivative' if h.ver == 2 or rng.random() < 0.5 else 'GetAdjointDerivative'
    n = len(kn) if f[3] == 'D' else len(un)
    return h.do(f, un=un, kn=kn, v=[f2p(fval(rng)) for _ in range(n)], **a)


def advance(h, rng, maxn=30, **a):
    """the next natural call of the life cycle"""
    m = h.mode
    if m == 'Instantiated':
        if h.ver == 3 and h.m == 'StateSpace' and rng.random() < 0.4:
            return h.do('EnterConfigurationMode', **a)
        t = rng.choice([0.0, 0.0, 0.0, 1.0, -2.0, 0.5, rng.uniform(-3, 3)])
        if h.m == 'Stair':
            t = rng.choice([0.0, 0.0, -1.0, 0.5])
        stop = rng.choice([None, None, None, t + STEP[h.m] * rng.randint(10, 300)])
        return h.enter_init(t, stop, **a)
    if m in ('ConfigurationMode', 'ReconfigurationMode'):
        return h.do('ExitConfigurationMode', **a)
    if m == 'InitializationMode':
        return h.exit_init(**a)
    if m == 'EventMode':
        k = rng.random()
        if k < 0.4:
            return h.update(**a)
        if h.kind == 'CS':
            return h.do('EnterStepMode', **a)
        return h.do('EnterContinuousTimeMode', **a)
    if m == 'ContinuousTimeMode':
        k = rng.random()
        if k < 0.3:
            return h.do('EnterEventMode', **a)
        if k < 0.5:
            return h.setx([fval(rng) for _ in range(h.nx)], **a)
        if k < 0.7:
            return h.do('CompletedIntegratorStep', **a)
        return h.settime(h.time + rng.choice([0.1, 0.25, 0.5, 1.0]), **a)
    if m in ('StepMode', 'StepComplete'):
        if h.ncp is None:
            return h.do('Terminate', **a)
        k = rng.random()
        if h.ver == 3 and h.em and k < 0.15:
            return h.do('EnterEventMode', **a)
        if h.ver == 3 and h.m == 'StateSpace' and k < 0.25:
            return h.do('EnterConfigurationMode', **a)
        return rnd_step(h, rng, maxn, **a)
    if m == 'ClockActivationMode':
        return rnd_activate(h, rng, **a)
    return None


def rnd_activate(h, rng, depth=2, **a):
    def act(d):
        vr = rng.choice([1001, 1002, 1003])
        t = rng.choice([0.0, 1.0, 3.9, 4.0, 4.7, 5.0, rng.uniform(0, 8)])
        if rng.random() < 0.1:
            t = rng.choice([-4.5, -0.5, 4.9999999, 104.0, 2.0**31, 2.0**32 + 4, 1e300, float('inf'), -float('inf'), float('nan')])
        nest = []
        if d > 0 and rng.random() < 0.5:
            for _ in range(rng.randint(1, 3)):
                evs = []
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    k = rng.random()
                    if k < 0.6:
                        evs.append(act(d - 1))
                    elif k < 0.8:
                        evs.append(h.ev('Get', T='Int32', vr=[2001, 2002, 2003, 2004, 2005], nv=5, **a))
                    elif k < 0.9:
                        evs.append(h.ev('GetClock', vr=[1005], **a))
                    else:
                        evs.append(h.ev('Set', T='Int32', vr=[2006], v=[rng.randint(1, 50)], **a))
                nest.append(evs)
        return h.ev('ActivateModelPartition', vr=vr, t=f2p(t), nest=nest, **a)
    return h.run(act(depth))


def rnd_update(h, rng, **a):
    """a discrete update; in FMI 3.0 every place for results may be missing"""
    if h.ver == 3 and rng.random() < 0.2:
        if rng.random() < 0.3:
            return h.update(nul='all', **a)
        return h.update(nul='some', mis=sorted(rng.sample(range(1, 7), rng.randint(1, 5))), **a)
    return h.update(**a)


def rnd_clock(h, rng, **a):
    if h.m != 'Clocks':
        return None
    k = rng.randrange(3)
    n = rng.choice([1, 1, 1, 2, 3, 9])
    if k == 0:
        return h.do('GetClock', vr=[1005] * n, **a)
    if k == 1:
        return h.do('GetIntervalDecimal', vr=[1003] * n, **a)
    return h.do('SetClock', vr=[rng.choice([1001, 1002, 1003]) for _ in range(n)], v=[rng.random() < 0.5 for _ in range(n)], **a)


def walk(h, rng, n, wt, **a):
    """n random calls; wt: weights of the kinds of calls"""
    kinds, ws = list(wt), list(wt.values())
    for _ in range(n):
        k = rng.choices(kinds, ws)[0]
        if k == 'advance':
            if h.mode == 'Terminated':
                if rng.random() < wt.get('revive', 0.5):
                    h.do('Reset', **a)
                else:
                    rnd_get(h, rng, **a)
            else:
                advance(h, rng, **a)
        elif k == 'get':
            rnd_get(h, rng, **a)
        elif k == 'all':
            h.read_all(**a)
        elif k == 'set':
            rnd_set(h, rng, **a)
        elif k == 'bad':
            rnd_bad(h, rng, **a)
        elif k == 'illegal':
            rnd_illegal(h, rng, **a)
        elif k == 'update':
            if h.ver == 3 or h.mode == 'EventMode':
                rnd_update(h, rng, **a)
        elif k == 'deriv':
            rnd_deriv(h, rng, **a)
        elif k == 'clock':
            rnd_clock(h, rng, **a)
        elif k == 'reset':
            h.do('Reset', **a)
        elif k == 'any':
            plain(h, rng.choice(ANY3 if h.ver == 3 else ANY2), **a)
        elif k == 'snap':
            slot = h.i + rng.choice('xyz')
            if slot in h.snaps and rng.random() < 0.5:
                h.do('SetFMUState', k=slot, **a)
            else:
                h.do('GetFMUState', k=slot, **a)
        elif k == 'log':
            h.logging(rng.random() < 0.5, rng.choice([[], ['logStatusError'], ['logEvents'],
                                                      ['logEvents', 'logStatusError']]), **a)


def rnd_config(rng, ver=None, m=None, kind=None, models=None, kinds=None):
    """a random FMU and options"""
    if m is None:
        pool = models or [(3, x) for x in STEP if x != 'Resource'] + [(2, x) for x in STEP if x not in
                                                                     ('Resource', 'Roberts', 'StateSpace', 'Clocks')]
        if ver:
            pool = [p for p in pool if p[0] == ver]
        ver, m = rng.choice(pool)
    if kind is None:
        ks = ['SE', 'SE', 'SE', 'CS'] if m == 'Clocks' else ['ME', 'CS']
        if kinds:
            ks = [k for k in ks if k in kinds] or ks
        kind = rng.choice(ks)
    o = dict(ver=ver, m=m, kind=kind)
    if ver == 3 and kind == 'CS':
        o['er'] = rng.random() < 0.4
        o['em'] = m in EVENT_UPDATE and rng.random() < 0.5
        o['iu'] = rng.random() < 0.3
    return o


GENERATORS = {}


def generator(f):
    GENERATORS[f.__name__] = f
    return f


@generator
def smoke(w, rng, ver=None, m=None, kind=None, n=60):
    h = H(w, 'a', **rnd_config(rng, ver, m, kind), own=True)
    walk(h, rng, n, {'advance': 6, 'get': 3, 'set': 3, 'all': 2, 'bad': .3, 'illegal': .3, 'update': .5, 'deriv': 1,
                     'clock': 1, 'reset': .2, 'log': .3}, own=True)
