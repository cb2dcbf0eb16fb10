"""Drives real FMUs through the import library instead of calling them directly.  The calls, and
what is expected of them, are the same."""

import ctypes as C
import os

from fmu import CLK3, HELD, IU3, LOG3, NO_LOCATION, OK, VOID0, WARNING, Instance, World

LOGMSG = C.CFUNCTYPE(None, C.c_void_p, C.c_int, C.c_char_p, C.c_void_p)
LOGFUN = C.CFUNCTYPE(None, C.c_void_p, C.c_int, C.c_char_p)
MODES = {2: 'Instantiated', 4: 'InitializationMode', 8: 'Terminated', 16: 'ConfigurationMode',
         32: 'ReconfigurationMode', 64: 'EventMode', 128: 'ContinuousTimeMode', 256: 'StepMode',
         512: 'ClockActivationMode'}
# the library looks up only the functions of the interface type
ONLY_ME2 = ('EnterEventMode', 'UpdateDiscreteStates', 'EnterContinuousTimeMode', 'CompletedIntegratorStep', 'SetTime',
            'SetContinuousStates', 'GetDerivatives', 'GetEventIndicators', 'GetContinuousStates', 'GetNominals')
ONLY_CS2 = ('SetInputDerivatives', 'GetOutputDerivatives', 'DoStep', 'CancelStep', 'GetStatus')


class Through(World):
    zero = True

    def __init__(self, libdir, scratch=None, limit=100000):
        super().__init__(libdir, scratch, limit)
        self.imp = self.watch(C.CDLL(os.path.join(libdir, 'importer.so')))
        self.salt = self.count = 0
        self.sure, self.mine, self.made_by = {}, {}, {}
        self.calls = 0

    def fn(self, o, name, *types, res=C.c_int):
        f = getattr(self.imp, 'FMI%d%s' % (o.ver, name))
        f.restype = res
        f.argtypes = types
        return f

    def imode(self, o):
        self.imp.verif_mode.argtypes = C.c_void_p,
        return MODES.get(self.imp.verif_mode(o.ptr), '?')

    def maker(self, ev):
        if ev.get('at') == 'importer':
            return self.imp
        if ev['f'] == 'Instantiate':
            self.made_by[ev['i']] = ev
        ev = self.made_by.get(ev['i'], {})
        return self.lib(ev['ver'], ev['m']) if 'm' in ev else None

    def rec(self, ev, st, *a, **k):
        if ev['f'] == 'FreeInstance':
            self.release(self.mine.pop(ev['i']))
        e = super().rec(ev, st, *a, **k)
        i = e['i']
        o = self.inst.get(i)
        # the library does not follow failed calls and restored states
        if e['f'] == 'Instantiate':
            self.sure[i] = True
        elif e['f'] == 'Reset' and st == OK:
            self.sure[i] = True
        elif st != OK or e['f'] == 'SetFMUState':
            self.sure[i] = False
        e['imode'] = self.imode(o) if o is not None and self.sure.get(i) else ''
        return e

    def do(self, ev):
        o = self.inst.get(ev['i'])
        # the library reads what it is given, for its log
        if ev['i'] == 'null' or ev.get('nul') or (o is not None and o.ver == 2 and
                                 ev['f'] in (ONLY_CS2 if o.kind == 'ME' else ONLY_ME2)):
            return dict(ev, st=WARNING, x=[], fv=[])
        # the one call that the library refuses by itself
        if ev['f'] == 'ExitConfigurationMode' and o is not None and 'onfiguration' not in self.imode(o):
            return dict(ev, st=WARNING, x=[], fv=[])
        return super().do(ev)

    def _log(self, inst, status, cat, msg):
        self.logs.append([self.envs.get(inst, '?'), status, (cat or b'').decode('latin1'), True])
        self.digress(msg)

    def _fun(self, inst, status, msg):
        self.calls += 1

    def instantiate(self, ev):
        if ev['ver'] == 2:      # the library always brings a logger for FMI 2.0
            ev = dict(ev, log=True)
        o = Instance()
        o.id, o.ver, o.m, o.kind, o.lib, o.freed = ev['i'], ev['ver'], ev['m'], ev['kind'], self.imp, False
        name = ev['name'].encode()
        o.name = name
        log = LOGMSG(self._log) if ev['log'] else LOGMSG()
        fun = LOGFUN(self._fun) if ev.get('lf', True) else LOGFUN()
        o.keep = [log, fun]
        self.keep.append(o.keep)
        make = self.imp.FMICreateInstance
        make.restype, make.argtypes = C.c_void_p, (C.c_char_p, LOGMSG, LOGFUN)
        o.ptr = make(name, log, fun)
        if not o.ptr:
            return self.rec(ev, OK, [False])
        o.env = o.ptr
        self.envs[o.ptr] = o.id
        load = self.imp.FMILoadPlatformBinary
        load.argtypes = C.c_void_p, C.c_char_p
        if HELD:
            self.lib(o.ver, o.m)
        if load(o.ptr, os.path.join(self.libdir, 'fmi%d_%s.so' % (o.ver, o.m)).encode()) != OK:
            self.release(o)
            return self.rec(ev, OK, [False])
        self.count += 1
        if not self.armed and (self.salt + self.count) % 3 == 0:       # refused first, then tried again
            self.create(o, ev, b'another token', None, False)
            self.logs = []
        st = self.create(o, ev, ev['tok'].encode(), None if ev['rs'] == NO_LOCATION else self.real(bytes(ev['rs'])),
                         bool(ev.get('on', False)))
        if st == OK:
            self.inst[o.id] = self.mine[o.id] = o
        else:
            self.release(o)
        return self.rec(ev, OK, [st == OK])

    def create(self, o, ev, tok, rs, on):
        if o.ver == 2:
            st = self.fn(o, 'Instantiate', C.c_void_p, C.c_char_p, C.c_int, C.c_char_p, C.c_int, C.c_int)(
                o.ptr, rs, 0 if ev['kind'] == 'ME' else 1, tok, self.free(0, 1), 1 if on else 0)
        elif ev['kind'] == 'ME':
            st = self.fn(o, 'InstantiateModelExchange', C.c_void_p, C.c_char_p, C.c_char_p, C.c_bool, C.c_bool)(
                o.ptr, tok, rs, self.free(False, True), on)
        elif ev['kind'] == 'CS':
            iu = IU3(self._iu) if ev['iu'] else IU3()
            o.keep.append(iu)
            st = self.fn(o, 'InstantiateCoSimulation', C.c_void_p, C.c_char_p, C.c_char_p, C.c_bool, C.c_bool, C.c_bool,
                         C.c_bool, C.c_void_p, C.c_size_t, IU3)(
                             o.ptr, tok, rs, self.free(False, True), on, ev['em'], ev['er'], *self.required(o), iu)
        else:
            clk = CLK3(lambda e: self._clock_cb('clock', e))
            lock = VOID0(lambda: self._clock_cb('lock')) if ev['lk'] else VOID0()
            unlock = VOID0(lambda: self._clock_cb('unlock')) if ev['lk'] else VOID0()
            o.keep += [clk, lock, unlock]
            st = self.fn(o, 'InstantiateScheduledExecution', C.c_void_p, C.c_char_p, C.c_char_p, C.c_bool, C.c_bool,
                         C.c_void_p, LOG3, CLK3, VOID0, VOID0)(
                             o.ptr, tok, rs, self.free(False, True), on, None, LOG3(), clk, lock, unlock)
        return st

    def release(self, o):
        self.imp.FMIFreeInstance.argtypes = C.c_void_p,
        self.imp.FMIFreeInstance(o.ptr)
