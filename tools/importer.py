"""Drives the import library (built from /repo) against stand-in FMUs that record
what reaches them and answer as told, and records what a caller observes."""

import ctypes as C
import os
import struct

import fmu
import sigs
from fmu import HELD, Arr, Held

CT = {
    'Float32': C.c_float, 'Float64': C.c_double, 'Int8': C.c_int8, 'UInt8': C.c_uint8, 'Int16': C.c_int16,
    'UInt16': C.c_uint16, 'Int32': C.c_int32, 'UInt32': C.c_uint32, 'Int64': C.c_int64, 'UInt64': C.c_uint64,
    'Boolean': C.c_uint8, 'Bool2': C.c_int, 'String': C.c_void_p, 'Binary': C.c_void_p, 'Size': C.c_size_t,
    'vr': C.c_uint32,
}
SCALAR = {'b': None, 'd': C.c_double, 'n': C.c_size_t, 'u': C.c_uint32, 'i': C.c_int, 's': C.c_char_p}
MODES = {0: '', 1: 'StartAndEnd', 2: 'Instantiated', 4: 'Initialization', 8: 'Terminated', 16: 'Configuration',
         32: 'Reconfiguration', 64: 'Event', 128: 'Continuous', 256: 'Step', 512: 'Clock'}
KINDS = {'ME': 0, 'CS': 1, 'SE': 2}
INFO = ['newDiscreteStatesNeeded', 'terminateSimulation', 'nominalsOfContinuousStatesChanged',
        'valuesOfContinuousStatesChanged', 'nextEventTimeDefined', 'nextEventTime']

HOOK = C.CFUNCTYPE(C.c_uint64, C.c_char_p, C.c_void_p, C.POINTER(C.c_uint64), C.c_int)
LOGMSG = C.CFUNCTYPE(None, C.c_void_p, C.c_int, C.c_char_p, C.c_char_p)
LOGFUN = C.CFUNCTYPE(None, C.c_void_p, C.c_int, C.c_char_p)


def bits(x):
    return struct.pack('>d', x).hex()


def unbits(s):
    return struct.unpack('>d', bytes.fromhex(s))[0]


def ptext(p):
    return '0x%x' % p if p else '(nil)'


def raw(s):
    return s.encode('latin-1')


class Inst:
    pass


class Importer(Held):
    def __init__(self, libdir, scratch=None):
        self.libdir, self.scratch = libdir, scratch
        self.held = []
        self.lib = self.watch(C.CDLL(os.path.join(libdir, 'importer.so')))
        self.lib.FMICreateInstance.restype = C.c_void_p
        self.stubs = {}
        self.inst, self.byptr, self.bycomp = {}, {}, {}
        self.trace, self.sink, self.keep = [], None, []
        self.logs, self.heard, self.arrived = [], [], []
        self.script = None
        self.error = None
        self.n = 0
        self.c_msg = LOGMSG(self._msg)
        self.c_fun = LOGFUN(self._fun)
        self.c_hook = HOOK(self._hook)

    # ---------------------------------------------------------------- callbacks
    def _who(self, p):
        return self.byptr.get(p or 0, '?')

    def _msg(self, inst, status, category, message):
        self.heard.append([self._who(inst), status, (category or b'').decode('latin-1'),
                           (message or b'').decode('latin-1')])

    def _fun(self, inst, status, message):
        self.logs.append([self._who(inst), status, (message or b'').decode('latin-1')])

    def _hook(self, fn, comp, args, n):
        try:
            return self._arrive(fn.decode(), comp, [args[k] for k in range(n)])
        except BaseException as e:       # an exception cannot pass through C
            self.error = e
            return 0

    def _read(self, ptr, t, n, sizes=None):
        if not ptr or n > 1 << 20:
            return []
        arr = (CT[t] * n).from_address(ptr)
        return [self._text(t, arr[k], sizes[k] if sizes else 0) for k in range(n)]

    def _text(self, t, v, size=0):
        if t in ('Float32', 'Float64'):
            return bits(v)
        if t == 'String':
            return C.string_at(v).decode('latin-1') if v else '(null)'
        if t == 'Binary':
            return C.string_at(v, size).hex() if v else ''
        return '%d' % v

    def _arrive(self, fn, comp, a):
        s = self.script
        ver = s['ver']
        if fn in ('GetVersion', 'GetTypesPlatform'):
            self.arrived.append(dict(fn=fn, comp='', args=[]))
            return s['const']
        if fn == 'FreeInstance':
            self.arrived.append(dict(fn=fn, comp=ptext(comp), args=[]))
            return 0
        sig = sigs.SIGS[ver][fn]
        val = {x.name: a[k] for k, x in enumerate(sig)}
        seen = []
        for k, x in enumerate(sig):
            u = a[k]
            if x.kind == 'val':
                if x.type == 'd':
                    seen.append(['%016x' % u])
                elif x.type == 's':
                    seen.append([C.string_at(u).decode('latin-1') if u else '(null)'])
                elif x.type == 'i':
                    seen.append(['%d' % C.c_int(u & 0xffffffff).value])
                else:
                    seen.append(['%d' % u])
            elif x.kind == 'in':
                sizes = None
                if x.type == 'Binary':
                    sizes = (C.c_size_t * val['nValueReferences']).from_address(val['sizes']) if val['sizes'] else None
                seen.append(self._read(u, x.type, val[x.count], sizes))
            elif x.kind == 'ptr':
                seen.append([ptext(u)])
            elif x.kind == 'pp':
                seen.append([ptext(C.c_void_p.from_address(u).value or 0)] if u else ['null'])
            else:
                seen.append(['null'] if not u and (not x.count or val[x.count]) else [])
        if fn == 'Instantiate' and val['functions']:
            cb = (C.c_void_p * 5).from_address(val['functions'])
            s['cbs'] = [cb[k] or 0 for k in range(5)]
            s['logger'], s['env'] = s['cbs'][0], s['cbs'][4]
        elif fn.startswith('Instantiate'):
            s['logger'], s['env'] = val.get('logMessage', 0), val.get('instanceEnvironment', 0)
            s['cbs'] = [s['logger']]
        self.arrived.append(dict(fn=fn, comp='' if fn.startswith('Inst') else ptext(comp), args=seen))
        for k, x in enumerate(sig):
            if x.kind in ('out', 'one', 'pp', 'info') and a[k] and fn == s['fn'] and s['outs'][k]:
                self._write(a[k], x, s['outs'][k], val)
        who = s['inst']
        if fn.startswith('Instantiate'):
            who.logger, who.env = s['logger'], s['env']
        for st, cat, text, how in s['says']:
            self._say(who, st, cat, text, how)
        return s['ret']

    def _say(self, who, st, cat, text, how):
        if not who.logger:
            return
        if who.ver == 3:
            LOGMSG(who.logger)(who.env, st, raw(cat), raw(text))
            return
        if how == 0:
            C.CFUNCTYPE(None, C.c_void_p, C.c_char_p, C.c_int, C.c_char_p, C.c_char_p)(who.logger)(
                who.env, b'inst', st, raw(cat), raw(text.replace('%', '%%')))
        elif how == 1:
            C.CFUNCTYPE(None, C.c_void_p, C.c_char_p, C.c_int, C.c_char_p, C.c_char_p, C.c_char_p)(who.logger)(
                who.env, b'inst', st, raw(cat), b'%s', raw(text))
        else:
            head, num = text.rsplit(' ', 1)
            C.CFUNCTYPE(None, C.c_void_p, C.c_char_p, C.c_int, C.c_char_p, C.c_char_p, C.c_char_p, C.c_int)(who.logger)(
                who.env, b'inst', st, raw(cat), b'%s %d', raw(head), int(num))

    def _write(self, ptr, x, vals, got):
        if x.kind == 'info':
            info = fmu.EventInfo2.from_address(ptr)
            for f, v in zip(INFO, vals):
                setattr(info, f, unbits(v) if f == 'nextEventTime' else int(v))
            return
        if x.kind == 'pp':
            C.c_void_p.from_address(ptr).value = int(vals[0], 16) if vals[0] != '(nil)' else None
            return
        n = got[x.count] if x.kind == 'out' else 1
        arr = (CT[x.type] * len(vals)).from_address(ptr)
        for k, v in enumerate(vals[:n]):
            arr[k] = self._value(x.type, v)

    def _value(self, t, v):
        if t in ('Float32', 'Float64'):
            return unbits(v)
        if t in ('String', 'Binary'):
            b = C.create_string_buffer(raw(v) if t == 'String' else bytes.fromhex(v) or b'')
            self.keep.append(b)
            return C.addressof(b)
        return int(v)

    # ---------------------------------------------------------------- events
    def do(self, ev):
        ev = dict(ev)
        self.logs, self.heard, self.arrived, self.error = [], [], [], None
        if self.sink:
            self.sink({k: v for k, v in ev.items()})
        if ev.get('fail'):
            self.arm(self.lib, ev['fail'])
        getattr(self, 'do_' + ev['f'])(ev)
        ev['hit'] = self.disarm()
        if self.error:
            raise self.error
        ev['logs'], ev['heard'], ev['arrived'] = self.logs, self.heard, self.arrived
        if HELD:
            ev['held'] = self.holds()
        self.trace.append(ev)
        return ev

    def do_create(self, ev):
        x = Inst()
        x.id, x.ver, x.name, x.logger, x.env, x.comp, x.file = ev['i'], ev['ver'], ev['name'], 0, 0, 0, ''
        p = self.lib.FMICreateInstance(raw(ev['name']), self.c_msg if ev['lm'] else None,
                                       self.c_fun if ev['lf'] else None)
        x.ptr = C.c_void_p(p)
        if p:
            self.inst[x.id] = x
            self.byptr[p] = x.id
        ev['st'], ev['ptr'] = 0 if p else 3, ptext(p)

    def do_load(self, ev):
        x = self.inst[ev['i']]
        f = ev['file']
        if f == 'missing':
            path = os.path.join(self.libdir, 'nothere.so')
        else:
            path = os.path.join(self.libdir, 'stub%d%s.so' % (x.ver, '_' + f if f else ''))
            if path not in self.stubs:
                lib = C.CDLL(path)
                C.c_void_p.in_dll(lib, 'verif_hook').value = C.cast(self.c_hook, C.c_void_p).value
                self.stubs[path] = lib
        x.file = f
        ev['st'] = self.lib.FMILoadPlatformBinary(x.ptr, path.encode())

    def do_call(self, ev):
        x = self.inst[ev['i']]
        fn, ver = ev['fn'], x.ver
        new = fn.startswith('Instantiate')
        const = fn in ('GetVersion', 'GetTypesPlatform')
        a, o = ev.pop('a', {}), ev.pop('o', {})
        sig = sigs.SIGS[ver].get(fn, [])
        s = self.script = dict(ver=ver, fn=fn, inst=x, says=ev['says'], logger=0, env=0, cbs=[], ret=ev['ret'])
        if const:
            b = C.create_string_buffer(raw(ev['text']))
            s['const'] = C.addressof(b)
        if new:
            self.n += 1
            s['ret'] = 0 if ev['ret'] else 0x5EED0000 + 16 * self.n
            a = dict(a)
            a['instanceName'] = [x.name]
            a['instanceEnvironment'] = [ptext(x.ptr.value)]
        recs, vals, arrs = [], [], []
        for p in sig:
            v = list(a.get(p.name, []))
            r = dict(n=p.name, k=p.kind, T=p.type, v=v, p='')
            keep = None
            if p.kind == 'val':
                if p.type == 'b':
                    cv = (C.c_int if ver == 2 else C.c_bool)(int(v[0]))
                elif p.type == 'd':
                    cv = C.c_double(unbits(v[0]))
                elif p.type == 's':
                    cv = C.c_char_p(raw(v[0]))
                else:
                    cv = SCALAR[p.type](int(v[0]))
            elif p.kind == 'ptr':
                cv = C.c_void_p(int(v[0], 16) if v and v[0] != '(nil)' else None)
                r['p'] = v[0] if v else ''
            elif p.kind == 'in':
                n = int(a[p.count][0])
                keep = Arr(CT[p.type], n, [self._value(p.type, e) for e in v] if n else [])
                cv = keep.ptr
            elif p.kind == 'out':
                keep = Arr(CT[p.type], int(a[p.count][0]))
                cv = keep.ptr
                if keep.n and p.type in ('String', 'Binary', 'Size'):
                    C.memset(keep.ptr, 0, keep.size)
            elif p.kind == 'pp':
                keep = Arr(C.c_void_p, 1)
                keep.arr[0] = int(v[0], 16) if v[0] != '(nil)' else None
                cv = keep.ptr
            elif p.kind == 'one':
                keep = Arr(CT[p.type], 1)
                if p.type == 'String':
                    keep.arr[0] = self._value('String', 'unset')
                cv = keep.ptr
            else:
                keep = C.create_string_buffer(C.sizeof(fmu.EventInfo2))
                cv = C.cast(keep, C.c_void_p)
            if p.kind in ('in', 'out', 'one', 'pp', 'info'):
                r['p'] = ptext(cv.value)
            recs.append(r)
            vals.append(cv)
            arrs.append(keep)
        s['outs'] = [list(o.get(p.name, [])) for p in sig]
        if new:
            if ver == 2:
                by = dict(zip([p.name for p in sig], vals))
                given = [by[k] for k in ('fmuResourceLocation', 'fmuType', 'fmuGUID', 'visible', 'loggingOn')]
            else:
                skip = ('instanceName',) + (() if 'Scheduled' in fn else ('instanceEnvironment', 'logMessage'))
                given = [v for p, v in zip(sig, vals) if p.name not in skip]
        else:
            given = vals
        f = getattr(self.lib, 'FMI%d%s' % (ver, fn))
        f.restype = C.c_char_p if const else None if (ver == 2 and fn == 'FreeInstance') else C.c_int
        r = f(x.ptr, *given)
        if self.error:
            raise self.error
        ev['st'] = 0 if const or r is None else r
        got = []
        for p, keep in zip(sig, arrs):
            if p.kind == 'out':
                sizes = None
                if p.type == 'Binary':
                    sz = arrs[[q.name for q in sig].index('sizes')]
                    sizes = list(sz.arr) if sz.n else []
                got.append([self._text(p.type, keep.arr[k], sizes[k] if sizes else 0) for k in range(keep.n)])
            elif p.kind == 'one':
                got.append([self._text(p.type, keep.arr[0])])
            elif p.kind == 'pp':
                got.append([ptext(keep.arr[0] or 0)])
            elif p.kind == 'info':
                info = fmu.EventInfo2.from_buffer(keep)
                got.append([bits(info.nextEventTime) if n == 'nextEventTime' else '%d' % getattr(info, n) for n in INFO])
            else:
                got.append([])
        ev['args'], ev['outs'], ev['got'] = recs, s['outs'], got
        ev['texts'] = [(r or b'').decode('latin-1')] if const else []
        ev['cbs'] = [ptext(p) for p in s['cbs']]
        ev['comp'] = ptext(s['ret']) if new else ''
        ev['ov'] = sum(k.damage() for k in arrs if isinstance(k, Arr))
        ev['mode'] = MODES.get(self.lib.verif_mode(x.ptr), 'unknown')
        ev['kind'] = self.lib.verif_kind(x.ptr)
        ev['ver'] = ver

    def do_free(self, ev):
        x = self.inst.pop(ev['i'])
        self.lib.FMIFreeInstance(x.ptr)
        self.byptr.pop(x.ptr.value, None)
        ev['st'] = 0

    def clear(self):
        for x in list(self.inst.values()):
            if HELD:
                self.do(dict(f='free', i=x.id))
                continue
            self.lib.FMIFreeInstance(x.ptr)
        self.inst = {}
