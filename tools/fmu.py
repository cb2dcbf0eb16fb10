"""Drives real reference FMUs (shared libraries built from /repo) through the
public C API and records what a caller observes, in the form the TLA+ trace
specification reads."""

import ctypes as C
import mmap
import os
import struct

OK, WARNING, DISCARD, ERROR = 0, 1, 2, 3

NO_LOCATION = [-1]

TOKENS = {
    'BouncingBall': '{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF1}',
    'Dahlquist': '{221063D2-EF4A-45FE-B954-B5BFEEA9A59B}',
    'Stair': '{BD403596-3166-4232-ABC2-132BDF73E644}',
    'VanDerPol': '{BD403596-3166-4232-ABC2-132BDF73E644}',
    'Roberts': '{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF2}',
    'StateSpace': '{D773325B-AB94-4630-BF85-643EB24FCB78}',
    'Resource': '{7b9c2114-2ce5-4076-a138-2cbc69e069e5}',
    'Clocks': '{C5F142BA-B849-42DA-B4A1-4745BFF3BE28}',
    'Feedthrough': '{37B954F1-CC86-4D8F-B97F-C7C36F6670D2}',
}

CTYPES = {
    'Float32': C.c_float, 'Float64': C.c_double, 'Int8': C.c_int8, 'UInt8': C.c_uint8,
    'Int16': C.c_int16, 'UInt16': C.c_uint16, 'Int32': C.c_int32, 'UInt32': C.c_uint32,
    'Int64': C.c_int64, 'UInt64': C.c_uint64, 'Boolean': C.c_bool, 'String': C.c_char_p,
}
TEXT_INTS = ('UInt32', 'Int64', 'UInt64')
FLOATS = ('Float32', 'Float64')


def f2p(x):
    """double -> pair of signed 32 bit halves"""
    hi, lo = struct.unpack('>ii', struct.pack('>d', x))
    return [hi, lo]


def p2f(p):
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def loc(text):
    """resource location: bytes/str -> list of ints"""
    if text is None:
        return list(NO_LOCATION)
    if isinstance(text, str):
        text = text.encode('utf-8')
    return list(text)


LOG3 = C.CFUNCTYPE(None, C.c_void_p, C.c_int, C.c_char_p, C.c_void_p)
LOG2 = C.CFUNCTYPE(None, C.c_void_p, C.c_char_p, C.c_int, C.c_char_p, C.c_void_p)
IU3 = C.CFUNCTYPE(None, C.c_void_p, C.c_double, C.c_bool, C.c_bool, C.c_bool, C.c_bool,
                  C.POINTER(C.c_bool), C.POINTER(C.c_double))
CLK3 = C.CFUNCTYPE(None, C.c_void_p)
VOID0 = C.CFUNCTYPE(None)


class Callbacks2(C.Structure):
    _fields_ = [('logger', C.c_void_p), ('allocateMemory', C.c_void_p), ('freeMemory', C.c_void_p),
                ('stepFinished', C.c_void_p), ('componentEnvironment', C.c_void_p)]


class EventInfo2(C.Structure):
    _fields_ = [('newDiscreteStatesNeeded', C.c_int), ('terminateSimulation', C.c_int),
                ('nominalsOfContinuousStatesChanged', C.c_int),
                ('valuesOfContinuousStatesChanged', C.c_int),
                ('nextEventTimeDefined', C.c_int), ('nextEventTime', C.c_double)]


class Instance:
    __slots__ = ('id', 'ptr', 'ver', 'm', 'env', 'lib', 'name', 'keep', 'kind', 'freed')


VR = C.c_uint32
CANARY = 0x47        # as floating point numbers these bytes are large
PAD = 64
HELD = bool(os.environ.get('VERIF_HELD'))


LARGE = 2**30        # in an event: a length that is larger by 2^32 than the one that remains


MAP_NORESERVE = 0x4000


def reservable():
    """is there address space for the largest arrays"""
    try:
        Reserved(C.c_double, LARGE).map.close()
        return True
    except (OSError, BufferError):
        return False


def length(n):
    """the number that is announced"""
    return n - LARGE + 2**32 if n >= LARGE else n


class Reserved:
    """an array of more than 2^32 elements, of which hardly any are touched; only its beginning is looked at"""

    def __init__(self, ctype, n, values=None):
        self.ctype, self.n = ctype, length(n)
        self.map = mmap.mmap(-1, C.sizeof(ctype) * self.n, flags=mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | MAP_NORESERVE)
        self.arr = (ctype * (n - LARGE)).from_buffer(self.map) if n > LARGE else None
        self.inp = values is not None
        for k, v in enumerate(values or ()):
            self.arr[k] = v

    @property
    def ptr(self):
        return C.addressof((C.c_char * 1).from_buffer(self.map))

    def damage(self):
        return 0


def array(ctype, n, values=None, **a):
    return Reserved(ctype, n, values) if n >= LARGE else Arr(ctype, n, values, **a)


class Arr:
    """array with guard bytes behind it; reports writes beyond the announced length
    and, for inputs, any change"""

    def __init__(self, ctype, n, values=None, zero=False, shift=0):
        self.ctype, self.n = ctype, n
        size = C.sizeof(ctype) * n
        self.buf = (C.c_char * (size + PAD)).from_buffer(C.create_string_buffer(shift + size + PAD), shift)
        C.memset(self.buf, CANARY, size + PAD)
        if zero:
            C.memset(self.buf, 0, size)
        self.arr = (ctype * n).from_buffer(self.buf) if n else None
        self.keep = None
        if values is not None:
            for k, v in enumerate(values):
                self.arr[k] = v
            self.inp = bytes(self.buf)
        else:
            self.inp = None
        self.size = size

    @property
    def ptr(self):
        return C.cast(self.buf, C.c_void_p)

    def damage(self):
        b = bytes(self.buf)
        if self.inp is not None:
            return 0 if b == self.inp else 1
        return 0 if b[self.size:] == bytes([CANARY]) * PAD else 1


class Held:
    """what libraries hold"""

    def watch(self, lib):
        """from now on count what the library holds"""
        if HELD:
            n = (C.c_long * 3)()
            lib.verif_held(n)
            self.held.append((lib, list(n)))
        return lib

    def holds(self):
        """blocks, bytes and handles held by all libraries since the start of the scenario"""
        r = [0, 0, 0]
        n = (C.c_long * 3)()
        for lib, base in self.held:
            lib.verif_held(n)
            r = [a + b - c for a, b, c in zip(r, n, base)]
        return r

    armed = None
    scarce = None       # decides which calls meet a refusal

    def arm(self, lib, k):
        """the k-th request of the library for memory or a handle is refused (k < 0: and all after it)"""
        lib.verif_fail.argtypes, lib.verif_fail.restype = (C.c_long,), C.c_long
        lib.verif_fail(k)
        self.armed = lib

    def disarm(self):
        """how many requests were refused"""
        lib, self.armed = self.armed, None
        return lib.verif_fail(0) if lib else 0


def symbol(lib, m, name):
    """a function of an FMU, with or without the prefix of FMUs compiled from their sources"""
    try:
        return getattr(lib, name)
    except AttributeError:
        return getattr(lib, m + '_' + name)


class World(Held):
    """all instances, snapshots and buffers of one scenario, and its trace"""
    zero = False        # results are prepared as zeros rather than as rubbish

    def __init__(self, libdir, scratch=None, limit=100000):
        self.libdir, self.scratch = libdir, scratch
        self.made = set()
        self.libs = {}
        self.inst = {}
        self.envs = {}
        self.snap = {}
        self.snapver = {}
        self.ser = {}
        self.trace = []
        self.logs = []
        self.cbs = []
        self.nest = []
        self.active = []
        self.keep = []
        self.limit = limit
        self.sink = None
        self.held = []
        self.lent = {}

    # ------------------------------------------------------------------ libraries
    def lib(self, ver, m):
        key = (ver, m)
        if key not in self.libs:
            self.libs[key] = self.watch(C.CDLL(os.path.join(self.libdir, 'fmi%d_%s.so' % (ver, m))))
        return self.libs[key]

    def fn(self, o, name, *types, res=C.c_int):
        f = symbol(o.lib, o.m, 'fmi%d%s' % (o.ver, name))
        f.restype = res
        f.argtypes = types
        return f

    # ------------------------------------------------------------------ callbacks
    def _log3(self, env, status, cat, msg):
        self.logs.append([self.envs.get(env, '?'), status, (cat or b'').decode('latin1'), True])
        self.digress(msg)

    def _log2(self, env, name, status, cat, msg):
        i = self.envs.get(env, '?')
        want = self.names.get(i)
        self.logs.append([i, status, (cat or b'').decode('latin1'), name == want])
        self.digress(msg)

    aside = None        # what is done with other instances from inside a callback

    def digress(self, msg=None):
        if not self.aside:
            return
        do, self.aside = self.aside, None
        text = C.string_at(msg) if msg else b''
        logs, cbs, self.logs, self.cbs = self.logs, self.cbs, [], []
        do()
        self.logs, self.cbs, self.aside = logs, cbs, do
        self.garbled = self.garbled or msg and C.string_at(msg, len(text) + 1) != text + b'\0'

    garbled = False

    names = {}

    def _iu(self, env, t, setreq, getok, fin, early, er_req, er_time):
        i = self.envs.get(env, '?')
        o = self.inst.get(i)
        ok, val = 1, 0.0
        if o is not None and getattr(self, 'iu_read', True):
            ok, val = self.probe(o)
        self.digress()
        if not early:       # the answer of the callback is of no importance then
            if er_req:
                er_req[0] = True
            if er_time:
                er_time[0] = t
        self.cbs.append([i, f2p(t), [bool(setreq), bool(getok), bool(fin), bool(early)], ok, f2p(val)])

    def probe(self, o):
        vr = {'BouncingBall': 1, 'Dahlquist': 1, 'VanDerPol': 1, 'Roberts': 2, 'StateSpace': 11}.get(o.m, 0)
        n = 1
        if o.m == 'StateSpace':
            sz = C.c_uint64()
            v = (VR * 1)(2)
            f = self.fn(o, 'GetUInt64', C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p, C.c_size_t)
            if f(o.ptr, v, 1, C.byref(sz), 1) != 0:
                return 3, 0.0
            n = sz.value
        out = (C.c_double * max(n, 1))()
        v = (VR * 1)(vr)
        f = self.fn(o, 'GetFloat64', C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p, C.c_size_t)
        st = f(o.ptr, v, 1, out, n)
        # 0: value read, 3: the read failed (1 would mean: not read)
        return (0 if st == 0 else 3), out[0]

    def _clock_cb(self, kind, env=None):
        """lock, unlock or clock update callback of a scheduled execution instance"""
        if kind == 'clock':
            i = self.envs.get(env, '?')
        else:
            i = self.active[-1] if self.active else '?'
        self._begin_amp()
        self.rec({'f': 'cb', 'i': i, 'k': kind}, OK)
        plan = self.nest[-1] if self.nest else []
        if plan:
            for ev in plan.pop(0):
                self.do(ev)
        self.rec({'f': 'cbret', 'i': i}, OK)

    # ------------------------------------------------------------------ recording
    def maker(self, ev):
        """the library whose requests can be refused during a call"""
        if ev['f'] == 'Instantiate':
            return self.lib(ev['ver'], ev['m'])
        o = self.inst.get(ev['i'])
        return o and o.lib

    def lend(self, o, ptrs, texts):
        """texts an instance has given out; they stay as they are until the next call of that instance"""
        self.fresh = {o.id}
        self.lent[o.id] = [(p, bytes.fromhex(t)) for p, t in zip(ptrs or (), texts) if t != '??']

    def spoilt(self, i):
        """calls of one instance leave alone what the others have given out"""
        mine = self.lent.pop(i, None)
        bad = any(C.string_at(p, len(t)) != t for v in self.lent.values() for p, t in v)
        if bad:
            self.lent = {}
        if mine is not None and i in self.fresh:
            self.lent[i] = mine
        self.fresh = set()
        return bad

    fresh = set()

    def rec(self, ev, st, x=(), fv=(), ov=0):
        hit = self.disarm()
        e = {'T': '', 'nul': '', 'tw': 0, 'own': False}
        e.update(ev)
        e.pop('nest', None)
        e['st'] = st
        e['x'] = list(x)
        e['fv'] = [f2p(v) for v in fv]
        e['logs'], self.logs = self.logs, []
        e['cb'], self.cbs = self.cbs, []
        e['ov'] = ov
        if ev['f'] not in ('file', 'uri', 'binpath') and self.spoilt(ev['i']) | bool(self.garbled):
            e['spoilt'] = True
            self.garbled = False
        if HELD:
            e['held'] = self.holds()
            e['hit'] = hit
        self.trace.append(e)
        if len(self.trace) > self.limit:
            raise RuntimeError('trace too long')
        return e

    def do(self, ev):
        """execute one call and record it"""
        if self.sink:
            self.sink(ev)
        if self.logs or self.cbs:
            self.logs, self.cbs = [], []
        f = ev['f']
        if self.scarce and 'fail' not in ev:
            ev = dict(ev, **self.scarce(ev))
        if ev.get('fail') and self.maker(ev):
            self.arm(self.maker(ev), ev['fail'])
        if f == 'Instantiate':
            return self.instantiate(ev)
        if f == 'file':
            return self.file(ev)
        if f in ('uri', 'binpath'):
            return self.location(ev)
        if f == 'about':
            return self.about(ev)
        if ev['i'] == 'null':
            o = Instance()
            o.id, o.ptr, o.ver, o.m, o.kind = 'null', None, ev['ver'], ev['m'], 'CS'
            o.lib = self.lib(o.ver, o.m)
        else:
            o = self.inst[ev['i']]
        if f in STATE:
            return self.state_fn(o, ev)
        if f == 'ActivateModelPartition':
            return self.activate(o, ev)
        return (self.call3 if o.ver == 3 else self.call2)(o, ev)

    # ------------------------------------------------------------------ instances
    def instantiate(self, ev):
        o = Instance()
        o.id, o.ver, o.m, o.kind = ev['i'], ev['ver'], ev['m'], ev['kind']
        o.lib = self.lib(o.ver, o.m)
        o.freed = False
        env = 0x1000 + 16 * (len(self.envs) + 1)
        self.envs[env] = o.id
        o.env = env
        name = None if ev['name'] == 'NULL' else ev['name'].encode()
        o.name = name
        self.names = dict(self.names)
        # an instance without a name reports itself as "?"
        self.names[o.id] = name if name else b'?'
        tok = None if ev['tok'] == 'NULL' else ev['tok'].encode()
        rs = None if ev['rs'] == NO_LOCATION else self.real(bytes(ev['rs']))
        on = bool(ev.get('on', False))
        o.keep = []
        if o.ver == 3:
            log = LOG3(self._log3) if ev['log'] else LOG3()
            o.keep.append(log)
            if ev['kind'] == 'ME':
                f = self.fn(o, 'InstantiateModelExchange', C.c_char_p, C.c_char_p, C.c_char_p, C.c_bool,
                            C.c_bool, C.c_void_p, LOG3, res=C.c_void_p)
                o.ptr = f(name, tok, rs, self.free(False, True), on, env, log)
            elif ev['kind'] == 'CS':
                iu = IU3(self._iu) if ev['iu'] else IU3()
                o.keep.append(iu)
                f = self.fn(o, 'InstantiateCoSimulation', C.c_char_p, C.c_char_p, C.c_char_p, C.c_bool,
                            C.c_bool, C.c_bool, C.c_bool, C.c_void_p, C.c_size_t, C.c_void_p, LOG3, IU3,
                            res=C.c_void_p)
                o.ptr = f(name, tok, rs, self.free(False, True), on, ev['em'], ev['er'], *self.required(o), env, log, iu)
            else:
                clk = CLK3(lambda e: self._clock_cb('clock', e))
                lock = VOID0(lambda: self._clock_cb('lock')) if ev['lk'] else VOID0()
                unlock = VOID0(lambda: self._clock_cb('unlock')) if ev['lk'] else VOID0()
                o.keep += [clk, lock, unlock]
                f = self.fn(o, 'InstantiateScheduledExecution', C.c_char_p, C.c_char_p, C.c_char_p, C.c_bool,
                            C.c_bool, C.c_void_p, LOG3, CLK3, VOID0, VOID0, res=C.c_void_p)
                o.ptr = f(name, tok, rs, self.free(False, True), on, env, log, clk, lock, unlock)
        else:
            log = LOG2(self._log2)
            cb = Callbacks2()
            cb.logger = self.formatting(log) if ev['log'] else None
            cb.componentEnvironment = env
            o.keep += [log, cb]
            f = self.fn(o, 'Instantiate', C.c_char_p, C.c_int, C.c_char_p, C.c_char_p, C.c_void_p,
                        C.c_int, C.c_int, res=C.c_void_p)
            o.ptr = f(name, 0 if ev['kind'] == 'ME' else 1, tok, rs,
                      None if ev.get('nocb') else C.byref(cb), self.free(0, 1), 1 if on else 0)
        self.keep.append(o.keep)
        if o.ptr:
            self.inst[o.id] = o
        return self.rec(ev, OK, [bool(o.ptr)])

    def formatting(self, log):
        """the logger in C that hands its text to this one"""
        if self.logger is None:
            self.logger = C.CDLL(os.path.join(os.path.dirname(os.path.abspath(self.libdir)), 'logger.so'))
        self.logger.verif_sink(log)
        return C.cast(self.logger.verif_log2, C.c_void_p)

    logger = None

    # arguments on which nothing depends, other ones in every call
    nfree = 0

    def free(self, *choices):
        self.nfree += 1
        return choices[(self.nfree * 2654435761 >> 9) % len(choices)]

    def tolerance(self):
        return self.free((0, 0.0), (1, 1e-4), (0, 1e-4), (1, 1e-12), (0, -1.0), (1, 0.5))

    def stop(self, ev):
        return p2f(ev['stop']) if ev['sd'] else self.free(0.0, p2f(ev['stop']), -1e9, p2f(ev['t']), float('nan'), 1e9)

    def required(self, o):
        n = self.free(0, 1, 2)
        a = (VR * 2)(0, 1)
        o.keep.append(a)
        return (C.cast(a, C.c_void_p), n) if n else (None, 0)

    def real(self, path):
        """/@/ stands for the scratch directory of the run"""
        return path.replace(b'/@/', os.path.realpath(self.scratch or '/nonexistent').encode() + b'/')

    def file(self, ev):
        path = self.real(bytes(ev['path']))
        root = os.path.realpath(self.scratch).encode() + b'/'
        if not path.startswith(b'/'):       # relative to the directory of the run, which has nothing else in it
            root = os.getcwdb() + b'/'
            assert root == os.path.realpath(self.scratch).encode() + b'_cwd/', root
            path = root + path
        assert path.startswith(root) and b'..' not in path, path
        if ev['c'] >= 0:
            self.made.add(path)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as fh:
                # 256 + 255 stands for an empty file
                fh.write(b'' if ev.get('empty') else bytes([ev['c']]) + bytes(ev.get('more', [])))
        elif os.path.exists(path):
            os.remove(path)
        return self.rec(ev, OK)

    def about(self, ev):
        """what an FMU says of its version"""
        out = []
        for name in ('GetVersion',) + (('GetTypesPlatform',) if ev['ver'] == 2 else ()):
            f = symbol(self.lib(ev['ver'], ev['m']), ev['m'], 'fmi%d%s' % (ev['ver'], name))
            f.restype, f.argtypes = C.c_char_p, ()
            out.append((f() or b'').decode('latin-1'))
        return self.rec(ev, OK, out)

    def location(self, ev):
        """file URI or path of the platform binary, formed by the import library"""
        lib = C.CDLL(os.path.join(self.libdir, 'importer.so'))
        lib.FMIPathToURI.argtypes = C.c_char_p, C.c_void_p, C.c_size_t
        lib.FMIPlatformBinaryPath.argtypes = C.c_char_p, C.c_char_p, C.c_int, C.c_void_p, C.c_size_t
        buf = Arr(C.c_char, ev['size'])
        path = self.real(bytes(ev['path']))
        if ev['f'] == 'uri':
            st = lib.FMIPathToURI(path, buf.ptr, ev['size'])
        else:
            st = lib.FMIPlatformBinaryPath(path, bytes(ev['id']), ev['ver'], buf.ptr, ev['size'])
        out = b''
        if st == OK:
            out = bytes(buf.buf)[:ev['size']]
            # no terminator: all of it and one byte more, which no text can have
            out = out[:out.index(0)] if 0 in out else out + b'\0'
            root = os.path.realpath(self.scratch or '/nonexistent').encode() + b'/'
            out = out.replace(root, b'/@/')
        return self.rec(ev, st, list(out), ov=buf.damage())

    def clear(self):
        """remove the files a scenario made"""
        for path in self.made:
            if os.path.exists(path):
                os.remove(path)

    # ------------------------------------------------------------------ snapshots
    def state_fn(self, o, ev):
        f, p = ev['f'], o.ptr
        v3 = o.ver == 3
        st = 'FMUState' if v3 else 'FMUstate'
        slot = ev['k'] if 'k' in ev else None
        if f == 'GetFMUState':
            h = self.snap.setdefault(slot, C.c_void_p())
            return self.rec(ev, self.fn(o, 'Get' + st, C.c_void_p, C.c_void_p)(p, C.byref(h)))
        if f == 'SetFMUState':
            h = self.snap.get(slot, C.c_void_p())
            return self.rec(ev, self.fn(o, 'Set' + st, C.c_void_p, C.c_void_p)(p, h))
        if f == 'FreeFMUState':
            h = self.snap.setdefault(slot, C.c_void_p())
            r = self.fn(o, 'Free' + st, C.c_void_p, C.c_void_p)(p, C.byref(h))
            return self.rec(ev, r, [not h.value] if r == OK else [])
        if f == 'SerializedFMUStateSize':
            h = self.snap.get(slot, C.c_void_p())
            n = C.c_size_t(0)
            r = self.fn(o, 'Serialized' + st + 'Size', C.c_void_p, C.c_void_p, C.c_void_p)(p, h, C.byref(n))
            return self.rec(ev, r, [n.value > 0] if r == OK else [])
        # announced size
        if o.ptr:
            n = C.c_size_t(0)
            self.fn(o, 'Serialized' + st + 'Size', C.c_void_p, C.c_void_p, C.c_void_p)(
                p, self.snap.get(slot, C.c_void_p()), C.byref(n))
            size = n.value
        else:
            size = 64
        self.logs = []
        given = max(0, size + ev['delta'])
        if f == 'SerializeFMUState':
            h = self.snap.get(slot, C.c_void_p())
            a = array(C.c_uint8, max(size, given), shift=1)
            r = self.fn(o, 'Serialize' + st, C.c_void_p, C.c_void_p, C.c_void_p, C.c_size_t)(p, h, a.ptr, length(given))
            ov = a.damage()
            if given >= LARGE:
                return self.rec(ev, r, ov=ov | any(a.map[:size]))
            if r == OK:
                self.ser[ev['b']] = bytes(a.buf)[:size]
            else:
                # a refused call writes nothing
                ov |= 0 if bytes(a.buf) == bytes([CANARY]) * len(a.buf) else 1
            return self.rec(ev, r, ov=ov)
        if f == 'DeserializeFMUState':
            data = self.ser.get(ev['b'], b'\0' * size)
            if given >= LARGE:
                a = Reserved(C.c_uint8, given)
                a.map[:len(data)] = data
            else:
                a = Arr(C.c_uint8, max(len(data), given), shift=3)
                C.memmove(a.buf, data, len(data))
                a.inp = bytes(a.buf)
            h = self.snap.setdefault(slot, C.c_void_p())
            before = h.value
            name = 'Deserialize' if v3 else 'DeSerialize'
            r = self.fn(o, name + st, C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p)(p, a.ptr, length(given), C.byref(h))
            ov = a.damage()
            if r != OK and h.value != before:
                ov = 1
            return self.rec(ev, r, ov=ov)
        raise ValueError(f)

    # ------------------------------------------------------------------ clocks
    def _begin_amp(self):
        if self.pending is not None:
            ev, self.pending = self.pending, None
            logs, self.logs = self.logs, []
            self.rec(ev, OK, ['begun'])
            self.logs = logs

    pending = None

    def activate(self, o, ev):
        self._begin_amp()
        self.pending = ev
        self.active.append(o.id)
        self.nest.append([list(p) for p in ev.get('nest', [])])
        st = self.fn(o, 'ActivateModelPartition', C.c_void_p, VR, C.c_double)(o.ptr, ev['vr'], p2f(ev['t']))
        self.active.pop()
        self.nest.pop()
        if self.pending is not None and st != OK:
            self.pending = None
            return self.rec(ev, st, ['refused'])
        self._begin_amp()
        return self.rec({'f': 'ampret', 'i': o.id}, st)

    # ------------------------------------------------------------------ variables
    def vrs(self, ev):
        return Arr(VR, len(ev['vr']), ev['vr'])

    def encode(self, T, v, ver):
        if T in FLOATS:
            return p2f(v)
        if T in TEXT_INTS:
            return int(v)
        if T == 'Boolean':
            return bool(v) if ver == 3 else int(v)
        return v

    def set3(self, o, ev):
        T, vals = ev['T'], ev['v']
        vr = self.vrs(ev)
        vp = None if ev['nul'] == 'vr' else vr.ptr
        if T in ('String', 'Binary'):
            raw = [bytes.fromhex(h) for h in vals]
            bufs = [C.create_string_buffer(b, len(b) + 1) for b in raw]
            a = Arr(C.c_void_p, len(raw), [C.addressof(b) for b in bufs])
            ap = None if ev['nul'] == 'val' else a.ptr
            if T == 'String':
                st = self.fn(o, 'SetString', C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p, C.c_size_t)(
                    o.ptr, vp, vr.n, ap, len(raw))
            else:
                sz = Arr(C.c_size_t, len(raw), [len(b) for b in raw])
                st = self.fn(o, 'SetBinary', C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p, C.c_void_p,
                             C.c_size_t)(o.ptr, vp, vr.n, None if ev['nul'] == 'size' else sz.ptr, ap, len(raw))
            # the FMU must keep copies, not our memory
            ov = vr.damage() | a.damage()
            for b in bufs:
                C.memset(b, 0x5A, len(b))
            return self.rec(ev, st, ov=ov)
        a = Arr(CTYPES[T], len(vals), [self.encode(T, v, 3) for v in vals])
        st = self.fn(o, 'Set' + T, C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p, C.c_size_t)(
            o.ptr, vp, vr.n, None if ev['nul'] == 'val' else a.ptr, len(vals))
        return self.rec(ev, st, ov=vr.damage() | a.damage())

    def out(self, T, a, n):
        """decode n values of type T: (exact, floats)"""
        if T in FLOATS:
            return [], [a.arr[k] for k in range(n)]
        if T in TEXT_INTS:
            return [str(a.arr[k]) for k in range(n)], []
        if T == 'Boolean':
            return [bool(a.arr[k]) for k in range(n)], []
        return [a.arr[k] for k in range(n)], []

    def get3(self, o, ev):
        T, n = ev['T'], ev['nv']
        vr = self.vrs(ev)
        vp = None if ev['nul'] == 'vr' else vr.ptr
        if T in ('String', 'Binary'):
            a = Arr(C.c_void_p, n, zero=self.zero)
            ap = None if ev['nul'] == 'val' else a.ptr
            if T == 'String':
                st = self.fn(o, 'GetString', C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p, C.c_size_t)(
                    o.ptr, vp, vr.n, ap, n)
                x = [C.string_at(a.arr[k]).hex() for k in range(n)] if st == OK and vr.n else []
                ends = [t + '00' for t in x]
            else:
                sz = Arr(C.c_size_t, n, zero=self.zero)
                st = self.fn(o, 'GetBinary', C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p, C.c_void_p,
                             C.c_size_t)(o.ptr, vp, vr.n, None if ev['nul'] == 'size' else sz.ptr, ap, n)
                x = []
                if st == OK and vr.n:
                    for k in range(n):
                        if not a.arr[k] or a.arr[k] == 0x4747474747474747 or sz.arr[k] > 1 << 20:
                            x.append('??')
                        else:
                            x.append(C.string_at(a.arr[k], sz.arr[k]).hex())
                ends = x
            if x:
                self.lend(o, a.arr, ends)
            return self.rec(ev, st, x, ov=vr.damage() | a.damage())
        a = array(CTYPES[T], n)
        st = self.fn(o, 'Get' + T, C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p, C.c_size_t)(
            o.ptr, vp, vr.n, None if ev['nul'] == 'val' else a.ptr, a.n)
        x, fv = self.out(T, a, n) if st == OK and vr.n and n < LARGE else ([], [])
        return self.rec(ev, st, x, fv, ov=vr.damage() | a.damage())

    NAME2 = {'Float64': 'Real', 'Int32': 'Integer', 'Boolean': 'Boolean', 'String': 'String'}
    CT2 = {'Float64': C.c_double, 'Int32': C.c_int32, 'Boolean': C.c_int32, 'String': C.c_void_p}

    def set2(self, o, ev):
        T, vals = ev['T'], ev['v']
        vr = self.vrs(ev)
        bufs = []
        if T == 'String':
            bufs = [C.create_string_buffer(bytes.fromhex(h)) for h in vals]
            a = Arr(C.c_void_p, len(vals), [C.addressof(b) for b in bufs])
        else:
            a = Arr(self.CT2[T], len(vals), [self.encode(T, v, 2) for v in vals])
        st = self.fn(o, 'Set' + self.NAME2[T], C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p)(
            o.ptr, None if ev['nul'] == 'vr' else vr.ptr, vr.n, None if ev['nul'] == 'val' else a.ptr)
        ov = vr.damage() | a.damage()
        for b in bufs:
            C.memset(b, 0x5A, len(b))
        return self.rec(ev, st, ov=ov)

    def get2(self, o, ev):
        T, n = ev['T'], ev['nv']
        vr = self.vrs(ev)
        a = Arr(self.CT2[T], n, zero=self.zero and T == 'String')
        st = self.fn(o, 'Get' + self.NAME2[T], C.c_void_p, C.c_void_p, C.c_size_t, C.c_void_p)(
            o.ptr, None if ev['nul'] == 'vr' else vr.ptr, vr.n, None if ev['nul'] == 'val' else a.ptr)
        x, fv = [], []
        if st == OK:
            if T == 'String':
                x = [C.string_at(a.arr[k]).hex() for k in range(n)]
                self.lend(o, a.arr, [t + '00' for t in x])
            elif T == 'Float64':
                fv = [a.arr[k] for k in range(n)]
            else:
                x = [a.arr[k] for k in range(n)]
        return self.rec(ev, st, x, fv, ov=vr.damage() | a.damage())

    # ------------------------------------------------------------------ FMI 3.0
    def call3(self, o, ev):
        f, p = ev['f'], o.ptr
        P, S, D, B = C.c_void_p, C.c_size_t, C.c_double, C.c_bool
        if f == 'Get':
            return self.get3(o, ev)
        if f == 'Set':
            return self.set3(o, ev)
        if f in ('ExitInitializationMode', 'EnterEventMode', 'Terminate', 'Reset', 'EnterConfigurationMode',
                 'ExitConfigurationMode', 'EnterContinuousTimeMode', 'EnterStepMode', 'EvaluateDiscreteStates'):
            return self.rec(ev, self.fn(o, f, P)(p))
        if f == 'EnterInitializationMode':
            return self.rec(ev, self.fn(o, f, P, B, D, D, B, D)(p, *self.tolerance(), p2f(ev['t']), ev['sd'], self.stop(ev)))
        if f == 'FreeInstance':
            self.fn(o, f, P, res=None)(p)
            self.inst.pop(o.id, None)
            return self.rec(ev, OK)
        if f == 'SetDebugLogging':
            return self.debug_logging(o, ev)
        if f == 'DoStep':
            v = [C.c_uint8(self.free(0, 1) if self.zero else 0xA5) for _ in range(3)]
            t = C.c_double(-1e99)
            st = self.fn(o, f, P, D, D, B, P, P, P, P)(p, p2f(ev['t']), p2f(ev['h']), self.free(True, False),
                                                        *[C.byref(b) for b in v], C.byref(t))
            if st == OK:
                return self.rec(ev, st, [b.value != 0 for b in v], [t.value], ov=1 if any(b.value > 1 for b in v) else 0)
            return self.rec(ev, st)
        if f == 'UpdateDiscreteStates':
            v = [C.c_uint8(0xA5) for _ in range(5)]
            t = C.c_double(-1e99)
            mis = range(1, 7) if ev['nul'] == 'all' else ev['mis'] if ev['nul'] == 'some' else ()
            st = self.fn(o, f, P, P, P, P, P, P, P)(p, *[None if k in mis else C.byref(b) for k, b in enumerate(v + [t], 1)])
            if mis and st == OK:
                there = [k for k in range(5) if k + 1 not in mis]
                return self.rec(ev, st, [v[k].value != 0 for k in there],
                                [t.value] if 5 not in mis and 6 not in mis and v[4].value else [],
                                ov=1 if any(v[k].value > 1 for k in there) else 0)
            return self.event_info(ev, st, [b.value for b in v], t.value, False)
        if f == 'CompletedIntegratorStep':
            return self.completed(o, ev, C.c_uint8)
        if f == 'SetTime':
            return self.rec(ev, self.fn(o, f, P, D)(p, p2f(ev['t'])))
        if f in VEC:
            return self.vector(o, ev, VEC[f][1])
        if f in ('GetNumberOfContinuousStates', 'GetNumberOfEventIndicators'):
            n = C.c_size_t(9999)
            st = self.fn(o, f, P, P)(p, C.byref(n))
            return self.rec(ev, st, [n.value] if st == OK else [])
        if f in ('GetDirectionalDerivative', 'GetAdjointDerivative'):
            un, kn = Arr(VR, len(ev['un']), ev['un']), Arr(VR, len(ev['kn']), ev['kn'])
            sd = Arr(C.c_double, len(ev['v']), [p2f(x) for x in ev['v']])
            n = len(ev['un']) if f[3] == 'D' else len(ev['kn'])
            a = Arr(C.c_double, n)
            st = self.fn(o, f, P, P, S, P, S, P, S, P, S)(p, un.ptr, un.n, kn.ptr, kn.n, sd.ptr, sd.n, a.ptr, n)
            return self.rec(ev, st, [], [a.arr[k] for k in range(n)] if st == OK else [],
                            ov=un.damage() | kn.damage() | sd.damage() | a.damage())
        if f == 'GetOutputDerivatives':
            vr = self.vrs(ev)
            od = Arr(C.c_int32, len(ev['ord']), ev['ord'])
            a = Arr(C.c_double, vr.n)
            st = self.fn(o, f, P, P, S, P, P, S)(p, vr.ptr, vr.n, od.ptr, a.ptr, vr.n)
            return self.rec(ev, st, [], [a.arr[k] for k in range(vr.n)] if st == OK else [],
                            ov=vr.damage() | od.damage() | a.damage())
        if f == 'GetClock':
            vr = self.vrs(ev)
            a = Arr(C.c_uint8, vr.n)
            st = self.fn(o, f, P, P, S, P)(p, None if ev['nul'] == 'vr' else vr.ptr, vr.n, None if ev['nul'] == 'val' else a.ptr)
            return self.rec(ev, st, [a.arr[k] != 0 for k in range(vr.n)] if st == OK else [], ov=a.damage())
        if f == 'SetClock':
            vr = self.vrs(ev)
            a = Arr(C.c_bool, vr.n, ev['v'])
            st = self.fn(o, f, P, P, S, P)(p, None if ev['nul'] == 'vr' else vr.ptr, vr.n, None if ev['nul'] == 'val' else a.ptr)
            return self.rec(ev, st, ov=a.damage())
        if f == 'GetIntervalDecimal':
            vr = self.vrs(ev)
            a, q = Arr(C.c_double, vr.n), Arr(C.c_int32, vr.n)
            st = self.fn(o, f, P, P, S, P, P)(p, None if ev['nul'] == 'vr' else vr.ptr, vr.n, None if ev['nul'] == 'val' else a.ptr,
                                              None if ev['nul'] == 'qual' else q.ptr)
            ok = range(vr.n) if st == OK else ()
            # the interval is given where it has changed
            return self.rec(ev, st, [q.arr[k] for k in ok], [a.arr[k] for k in ok if q.arr[k] == 2],
                            ov=a.damage() | q.damage())
        if f in NOT_IMPL3:
            big = C.create_string_buffer(256)
            b = C.cast(big, C.c_void_p)
            vr = (VR * 1)(0)
            v = C.cast(vr, C.c_void_p)
            sig = {
                'GetNumberOfVariableDependencies': ((P, VR, P), (p, 0, b)),
                'GetVariableDependencies': ((P, VR, P, P, P, P, S), (p, 0, b, b, b, b, 1)),
                'GetIntervalFraction': ((P, P, S, P, P, P), (p, v, 1, b, b, b)),
                'GetShiftDecimal': ((P, P, S, P), (p, v, 1, b)),
                'GetShiftFraction': ((P, P, S, P, P), (p, v, 1, b, b)),
                'SetIntervalDecimal': ((P, P, S, P), (p, v, 1, b)),
                'SetIntervalFraction': ((P, P, S, P, P), (p, v, 1, b, b)),
                'SetShiftDecimal': ((P, P, S, P), (p, v, 1, b)),
                'SetShiftFraction': ((P, P, S, P, P), (p, v, 1, b, b)),
            }[f]
            return self.rec(ev, self.fn(o, f, *sig[0])(*sig[1]))
        raise ValueError(f)

    def event_info(self, ev, st, flags, t, nul):
        if st != OK or nul:
            return self.rec(ev, st)
        bad = any(b not in (0, 1) for b in flags)
        return self.rec(ev, st, [b != 0 for b in flags], [t] if flags[4] else [], ov=1 if bad else 0)

    def completed(self, o, ev, bt):
        P = C.c_void_p
        e, t = bt(0x25), bt(0x25)
        nul = ev['nul']
        st = self.fn(o, 'CompletedIntegratorStep', P, C.c_bool if o.ver == 3 else C.c_int, P, P)(
            o.ptr, self.free(True, False), None if nul in ('enter', 'both') else C.byref(e),
            None if nul in ('term', 'both') else C.byref(t))
        return self.rec(ev, st, [e.value != 0, t.value != 0] if st == OK else [])

    def debug_logging(self, o, ev):
        cats = ev['cats']
        a = (C.c_char_p * max(1, len(cats)))(*[None if c == 'NULL' else c.encode() for c in cats])
        b = C.c_bool if o.ver == 3 else C.c_int
        st = self.fn(o, 'SetDebugLogging', C.c_void_p, b, C.c_size_t, C.c_void_p)(
            o.ptr, ev['on'], ev['n'], None if ev['nul'] == 'list' else C.cast(a, C.c_void_p))
        return self.rec(ev, st)

    def vector(self, o, ev, name):
        f = ev['f']
        if f == 'SetContinuousStates':
            a = Arr(C.c_double, len(ev['v']), [p2f(x) for x in ev['v']])
        else:
            a = array(C.c_double, ev['n'])
        st = self.fn(o, name, C.c_void_p, C.c_void_p, C.c_size_t)(
            o.ptr, None if ev['nul'] == 'val' else a.ptr, a.n)
        fv = [a.arr[k] for k in range(a.n)] if st == OK and f != 'SetContinuousStates' and a.n < LARGE else []
        return self.rec(ev, st, [], fv, ov=a.damage())

    # ------------------------------------------------------------------ FMI 2.0
    def call2(self, o, ev):
        f, p = ev['f'], o.ptr
        P, S, D, I = C.c_void_p, C.c_size_t, C.c_double, C.c_int
        if f == 'Get':
            return self.get2(o, ev)
        if f == 'Set':
            return self.set2(o, ev)
        if f in ('EnterInitializationMode', 'ExitInitializationMode', 'EnterEventMode', 'Terminate', 'Reset',
                 'EnterContinuousTimeMode', 'CancelStep'):
            return self.rec(ev, self.fn(o, f, P)(p))
        if f == 'SetupExperiment':
            return self.rec(ev, self.fn(o, f, P, I, D, D, I, D)(p, *self.tolerance(), p2f(ev['t']), ev['sd'], self.stop(ev)))
        if f == 'FreeInstance':
            self.fn(o, f, P, res=None)(p)
            self.inst.pop(o.id, None)
            return self.rec(ev, OK)
        if f == 'SetDebugLogging':
            return self.debug_logging(o, ev)
        if f == 'DoStep':
            return self.rec(ev, self.fn(o, f, P, D, D, I)(p, p2f(ev['t']), p2f(ev['h']), self.free(1, 0)))
        if f == 'UpdateDiscreteStates':
            ei = EventInfo2()
            C.memset(C.byref(ei), 0xA5, C.sizeof(ei))
            st = self.fn(o, 'NewDiscreteStates', P, P)(p, C.byref(ei))
            flags = [ei.newDiscreteStatesNeeded, ei.terminateSimulation, ei.nominalsOfContinuousStatesChanged,
                     ei.valuesOfContinuousStatesChanged, ei.nextEventTimeDefined]
            return self.event_info(ev, st, flags, ei.nextEventTime, False)
        if f == 'CompletedIntegratorStep':
            return self.completed(o, ev, C.c_int)
        if f == 'SetTime':
            return self.rec(ev, self.fn(o, f, P, D)(p, p2f(ev['t'])))
        if f in VEC:
            return self.vector(o, ev, VEC[f][0])
        if f == 'GetDirectionalDerivative':
            un, kn = Arr(VR, len(ev['un']), ev['un']), Arr(VR, len(ev['kn']), ev['kn'])
            sd = Arr(C.c_double, len(ev['v']), [p2f(x) for x in ev['v']])
            a = Arr(C.c_double, un.n)
            st = self.fn(o, f, P, P, S, P, S, P, P)(p, un.ptr, un.n, kn.ptr, kn.n, sd.ptr, a.ptr)
            return self.rec(ev, st, [], [a.arr[k] for k in range(un.n)] if st == OK else [],
                            ov=un.damage() | kn.damage() | sd.damage() | a.damage())
        if f in ('GetOutputDerivatives', 'SetInputDerivatives'):
            vr = self.vrs(ev)
            od = Arr(C.c_int32, len(ev['ord']), ev['ord'])
            if f == 'GetOutputDerivatives':
                a = Arr(C.c_double, vr.n)
                st = self.fn(o, 'GetRealOutputDerivatives', P, P, S, P, P)(p, vr.ptr, vr.n, od.ptr, a.ptr)
                return self.rec(ev, st, [], [a.arr[k] for k in range(vr.n)] if st == OK else [], ov=a.damage())
            a = Arr(C.c_double, vr.n, [0.0] * vr.n)
            return self.rec(ev, self.fn(o, 'SetRealInputDerivatives', P, P, S, P, P)(p, vr.ptr, vr.n, od.ptr, a.ptr))
        if f == 'GetStatus':
            T = ev['T']
            big = C.create_string_buffer(64)
            name = 'GetStatus' if T == 'Status' else 'Get%sStatus' % T
            st = self.fn(o, name, P, I, P)(p, ev['sk'], C.cast(big, P))
            if st != OK:
                return self.rec(ev, st)
            if T == 'Real':
                return self.rec(ev, st, [], [C.cast(big, C.POINTER(C.c_double))[0]])
            return self.rec(ev, st, [C.cast(big, C.POINTER(C.c_int))[0]])
        raise ValueError(f)


STATE = ('GetFMUState', 'SetFMUState', 'FreeFMUState', 'SerializedFMUStateSize', 'SerializeFMUState',
         'DeserializeFMUState')
VEC = {
    'SetContinuousStates': ('SetContinuousStates', 'SetContinuousStates'),
    'GetContinuousStates': ('GetContinuousStates', 'GetContinuousStates'),
    'GetDerivatives': ('GetDerivatives', 'GetContinuousStateDerivatives'),
    'GetNominals': ('GetNominalsOfContinuousStates', 'GetNominalsOfContinuousStates'),
    'GetEventIndicators': ('GetEventIndicators', 'GetEventIndicators'),
}
NOT_IMPL3 = ('GetNumberOfVariableDependencies', 'GetVariableDependencies', 'GetIntervalFraction',
             'GetShiftDecimal', 'GetShiftFraction', 'SetIntervalDecimal', 'SetIntervalFraction',
             'SetShiftDecimal', 'SetShiftFraction')
