"""Runs the example importers of the repository.  Every call they make arrives at a stand-in library, is made on the
real FMU and recorded; what they write to their result files is recorded where it is written."""

import _ctypes
import csv
import ctypes as C
import os
import shutil
import struct

import describe
import fmu
import gen
import importer
import reference
import run
import sigs
from fmu import OK, World, f2p, p2f

PLATFORM = {2: 'linux64', 3: 'x86_64-linux'}
COMMON = ['BouncingBall', 'Dahlquist', 'Feedthrough', 'Resource', 'Stair', 'VanDerPol']

# states and event indicators; the programs for model exchange skip what has to do with them unless NX and NZ are
# defined, which the project does not do
SIZES = {'BouncingBall': (2, 1), 'Dahlquist': (1, 0), 'StateSpace': (3, 0), 'VanDerPol': (2, 0)}

# name: version, model, sources in examples/, simulates until the stop time, definitions
PROGRAMS = {}
for _v in (2, 3):
    for _m in COMMON + (['StateSpace'] if _v == 3 else []):
        for _k in ('cs', 'me'):
            PROGRAMS['%s_%s_fmi%d' % (_m, _k, _v)] = (_v, _m, [_m, 'simulate_fmi%d_%s' % (_v, _k)], True, [])
        if _m in SIZES:
            PROGRAMS['%s_me_states_fmi%d' % (_m, _v)] = (_v, _m, [_m, 'simulate_fmi%d_me' % _v], True,
                                                         ['-DNX=%d' % SIZES[_m][0], '-DNZ=%d' % SIZES[_m][1]])
for _n, _m, _e in (('cs_early_return', 'BouncingBall', True), ('cs_event_mode', 'BouncingBall', True),
                   ('cs_intermediate_update', 'BouncingBall', True), ('cs_reconfiguration', 'StateSpace', False),
                   ('scs_synchronous', 'Clocks', False)):
    PROGRAMS[_n] = (3, _m, [_m, _n], _e, [])
PROGRAMS['jacobian'] = (3, 'VanDerPol', ['jacobian'], False, [])
PROGRAMS['import_shared_library'] = (3, 'VanDerPol', ['import_shared_library'], False, [])
STATIC = 'import_static_library'


def plan():
    """the programs to be run; those that do the same in two versions together"""
    two = [n for n in PROGRAMS if n.endswith('_fmi2')]
    return [[n, n[:-1] + '3'] for n in two] + [[n] for n in [*PROGRAMS, STATIC]
                                               if n not in two and n[:-1] + '2' not in two]


def build(c):
    """the programs as libraries, and the stand-ins for the FMUs"""
    jobs, more = [], run.further('src')
    for name, (ver, m, src, _, defs) in PROGRAMS.items():
        jobs.append(c.cc + ['-g', '-w', '-fPIC', '-shared', '-Wl,-Bsymbolic', '-Dmain=verif_main', '-DFMI_VERSION=%d' % ver,
                    *defs, '-DDISABLE_PREFIX', '-I%s/include' % run.REPO, '-I%s/%s' % (run.REPO, m), '-I%s/examples' % run.REPO,
                    '-o', '%s/%s.so' % (c.libs, name)] + ['%s/examples/%s.c' % (run.REPO, s) for s in src]
                    + ['%s/src/FMI.c' % run.REPO, '%s/src/FMI%d.c' % (run.REPO, ver)] + c.flags + ['-ldl', '-lm'])
    m = 'VanDerPol'
    jobs.append(c.cc + ['-g', '-w', '-fPIC', '-shared', '-Wl,-Bsymbolic', '-Dmain=verif_main', '-DFMI_VERSION=3',
                '-I%s/include' % run.REPO, '-I%s/%s' % (run.REPO, m), '-o', '%s/%s.so' % (c.libs, STATIC),
                '%s/examples/%s.c' % (run.REPO, STATIC), '%s/%s/model.c' % (run.REPO, m),
                '%s/src/fmi3Functions.c' % run.REPO, '%s/src/cosimulation.c' % run.REPO] + c.flags + ['-lm'])
    if more:
        jobs = [j + more if run.sh(j + more).returncode == 0 else j for j in jobs]
    for ver in (2, 3):
        name = '%s/tap%d' % (c.libs, ver)
        with open(name + '.c', 'w') as fh:
            fh.write(sigs.stub_source(ver))
        jobs.append(['gcc', '-O1', '-w', '-fPIC', '-shared', '-o', name + '.so', name + '.c'])
    c._compile(jobs)


NAMES2 = {'Real': 'Float64', 'Integer': 'Int32', 'Boolean': 'Boolean', 'String': 'String'}
SIMPLE = ('ExitInitializationMode', 'EnterEventMode', 'Terminate', 'Reset', 'EnterConfigurationMode',
          'ExitConfigurationMode', 'EnterContinuousTimeMode', 'EnterStepMode', 'EvaluateDiscreteStates', 'CancelStep',
          'FreeInstance')
VECTORS = {'SetContinuousStates': 'SetContinuousStates', 'GetContinuousStates': 'GetContinuousStates',
           'GetDerivatives': 'GetDerivatives', 'GetContinuousStateDerivatives': 'GetDerivatives',
           'GetNominalsOfContinuousStates': 'GetNominals', 'GetEventIndicators': 'GetEventIndicators'}
VOID = C.c_void_p
IUCB = fmu.IU3
CLKCB = fmu.CLK3
CT = dict(importer.CT, Boolean=C.c_uint8)


def double(u):
    return struct.unpack('<d', struct.pack('<Q', u))[0]


def texts(ptr, n):
    arr = (VOID * n).from_address(ptr) if n else []
    return [C.string_at(arr[k]) for k in range(n)]


class Example(World):
    """one run of one program"""
    zero = True

    def run(self, name):
        self.prog = PROGRAMS.get(name)
        here = os.path.join(os.path.realpath(self.scratch), name)
        os.makedirs(here, exist_ok=True)
        old, out = os.getcwd(), os.dup(1)
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try:
            os.chdir(here)
            lib = os.path.join(here, 'program.so')
            shutil.copy(os.path.join(self.libdir, name + '.so'), lib)
            self.head, self.pos = None, 0
            if self.prog:
                self.place(here)
            lib = C.CDLL(lib)
            self.libc = C.CDLL(None)
            argv = (C.c_char_p * 2)(name.encode(), None)
            code = lib.verif_main(1, argv)
            self.libc.fflush(None)
            if self.error:
                raise self.error
            self.written()
            self.rec(dict(f='end', i='-', less=0, until=bool(self.prog and self.prog[3]), nothing=not self.prog), code)
        finally:
            os.chdir(old)
            os.dup2(out, 1)
            os.close(out)
            os.close(null)
            # a loaded library is known by its inode and by the name it was loaded with: the files stay, and the
            # stand-in is unloaded, for another program looks for it under the same name
            if self.tap:
                _ctypes.dlclose(self.tap._handle)

    def place(self, here):
        """the stand-in where the program looks for the FMU"""
        self.ver, self.m = self.prog[:2]
        d = os.path.join(here, self.m, 'binaries', PLATFORM[self.ver])
        os.makedirs(d)
        so = os.path.join(d, self.m + '.so')
        shutil.copy(os.path.join(self.libdir, 'tap%d.so' % self.ver), so)
        self.cols = {v['name']: v for v in describe.describe(run.REPO, self.ver, self.m)['vars']}
        self.tap = C.CDLL(so)
        self.hook = importer.HOOK(self._hook)
        VOID.in_dll(self.tap, 'verif_hook').value = C.cast(self.hook, VOID).value
        self.ids, self.prog_cb, self.inside = {}, {}, 0
        self.rows_inside, self.reads_inside = [], []
        res = os.path.join(here, self.m, 'resources')
        os.makedirs(res)
        if self.m == 'Resource':
            with open(os.path.join(run.REPO, self.m, 'y.txt'), 'rb') as fh:
                text = fh.read()
            at = os.path.join(res, 'y.txt').replace(os.path.realpath(self.scratch) + '/', '/@/')
            self.do(dict(f='file', i='-', path=list(at.encode()), c=text[0], more=list(text[1:]), T='', nul=''))

    error = tap = None

    # ------------------------------------------------------------------ results
    def written(self):
        """rows written to the result file since the last call"""
        self.libc.fflush(None)
        if self.head is None:
            found = [f for f in os.listdir('.') if f.endswith('_out.csv')]
            if not found:
                return
            self.result = found[0]
        size = os.stat(self.result).st_size
        if size <= self.pos:
            return
        with open(self.result, 'rb') as fh:
            fh.seek(self.pos)
            new = fh.read()
        new = new[:new.rfind(b'\n') + 1]
        self.pos += len(new)
        for line in csv.reader(new.decode('latin-1').splitlines()):
            if self.head is None:
                self.head = line
                continue
            row = dict(t=self.cell(None, line[0]), cols=[self.column(n) for n in self.head[1:]],
                       vals=[self.cell(n, x) for n, x in zip(self.head[1:], line[1:])], n=len(line) - 1)
            if self.inside:
                self.rows_inside.append(row)
            else:
                self.rec(dict(f='row', i=next(iter(self.inst), '-'), **row), OK)

    def column(self, name):
        v = self.cols.get(name)
        return dict(name=name, T=v['T'], vr=v['vr']) if v else dict(name=name, T='', vr=0)

    def cell(self, name, text):
        try:
            return reference.cell(self.ver, self.cols[name] if name else dict(T='Float64'), text)
        except (ValueError, KeyError, IndexError):
            return []

    # ------------------------------------------------------------------ calls
    def _hook(self, fn, comp, args, n):
        try:
            self.written()
            return self.arrive(fn.decode(), comp, [args[k] for k in range(n)])
        except BaseException as e:       # an exception cannot pass through C
            self.error = self.error or e
            return 3

    def arrive(self, fn, comp, a):
        if fn in ('GetVersion', 'GetTypesPlatform'):
            f = getattr(self.lib(self.ver, self.m), 'fmi%d%s' % (self.ver, fn))
            f.restype = VOID
            return f()
        if fn.startswith('Instantiate'):
            return self.create(fn, dict(zip([x.name for x in sigs.SIGS[self.ver][fn]], a)))
        i = self.ids.get(comp, 'null')
        sig = sigs.SIGS[self.ver].get(fn, [])
        ev, outs = self.event(fn, {x.name: u for x, u in zip(sig, a)}, [x.name for x in sig], a)
        ev.update(i=i, ver=self.ver, m=self.m)
        ev.setdefault('T', '')
        ev.setdefault('nul', '')
        if self.inside and not self.active:
            e = self.aloof(ev)
        else:
            self.rows_inside, self.reads_inside = [], []
            e = self.do(ev)
            if self.rows_inside:
                e['rows'], e['reads'] = self.rows_inside, self.reads_inside
        self.give(e, outs)
        return e['st']

    def aloof(self, ev):
        """a call made from inside another one"""
        kept = self.trace, self.logs, self.cbs
        self.trace, self.logs, self.cbs = [], [], []
        try:
            e = self.do(ev)
        finally:
            self.trace, self.logs, self.cbs = kept
        if e['f'] == 'Get' and e['st'] == OK:
            self.reads_inside.append(dict(vr=e['vr'], T=e['T'], x=e['x'], fv=e['fv']))
        return e

    def create(self, fn, v):
        i = 'abcdefgh'[len(self.ids)]
        text = lambda k: C.string_at(v[k]).decode('latin-1') if v[k] else 'NULL'
        ev = dict(f='Instantiate', i=i, ver=self.ver, m=self.m, name=text('instanceName'), em=False, er=False, iu=False,
                  lk=False, T='', nul='', on=bool(v['loggingOn']))
        place = v['resourcePath' if self.ver == 3 else 'fmuResourceLocation']
        place = C.string_at(place) if place else None
        if place is not None:
            place = place.replace(os.path.realpath(self.scratch).encode() + b'/', b'/@/')
        ev['rs'] = fmu.loc(place)
        if self.ver == 2:
            cb = (VOID * 5).from_address(v['functions']) if v['functions'] else [None] * 5
            ev.update(kind='ME' if v['fmuType'] & 0xffffffff == 0 else 'CS', tok=text('fmuGUID'), log=bool(cb[0]),
                      nocb=not v['functions'])
        else:
            ev.update(kind={'M': 'ME', 'C': 'CS', 'S': 'SE'}[fn[11]], tok=text('instantiationToken'), log=bool(v['logMessage']))
            if ev['kind'] == 'CS':
                ev.update(em=bool(v['eventModeUsed'] & 1), er=bool(v['earlyReturnAllowed'] & 1), iu=bool(v['intermediateUpdate']))
            elif ev['kind'] == 'SE':
                ev['lk'] = bool(v['lockPreemption'])
            self.prog_cb[i] = v
        e = self.do(ev)
        if not e['x'][0]:
            return 0
        self.ids[0x700000 + 16 * len(self.ids)] = i
        return max(self.ids)

    def event(self, fn, v, names, a):
        """the call in the form the specification speaks of, and where its results go"""
        ver, ev, outs = self.ver, dict(f=fn), []
        arr = lambda k, t, n: list((CT[t] * n).from_address(v[k])) if n and v[k] else []
        if fn in SIMPLE or (ver == 2 and fn == 'EnterInitializationMode'):
            return ev, outs
        if fn in ('EnterInitializationMode', 'SetupExperiment'):
            ev.update(t=f2p(double(v['startTime'])), sd=bool(v['stopTimeDefined'] & 1), stop=f2p(double(v['stopTime'])))
        elif fn in ('GetBinary', 'SetBinary'):
            n = v['nValueReferences']
            ev.update(f=fn[:3], T='Binary', vr=arr('valueReferences', 'vr', n))
            if fn[0] == 'G':
                ev['nv'] = v['nValues']
                outs = [('Binary', v['values'], v['sizes'])]
            else:
                p = arr('values', 'Binary', v['nValues'])
                ev['v'] = [C.string_at(x, z).hex() for x, z in zip(p, arr('sizes', 'Size', n))]
        elif fn[:3] in ('Get', 'Set') and fn[3:] in (NAMES2 if ver == 2 else fmu.CTYPES):
            T = NAMES2[fn[3:]] if ver == 2 else fn[3:]
            n, val = (v['nvr'], 'value') if ver == 2 else (v['nValueReferences'], 'values')
            nv = n if ver == 2 else v['nValues']
            ev.update(f=fn[:3], T=T, vr=arr('vr' if ver == 2 else 'valueReferences', 'vr', n))
            t = 'Bool2' if ver == 2 and T == 'Boolean' else T
            if fn[0] == 'G':
                ev['nv'] = nv
                outs = [(t, v[val], None)]
            elif T == 'String':
                ev['v'] = [x.hex() for x in texts(v[val], nv)]
            else:
                x = arr(val, t, nv)
                ev['v'] = [f2p(y) for y in x] if T in fmu.FLOATS else [str(y) for y in x] if T in fmu.TEXT_INTS else \
                    [bool(y) for y in x] if T == 'Boolean' and ver == 3 else x
        elif fn in VECTORS:
            ev['f'] = VECTORS[fn]
            n = a[1]
            if fn[0] == 'S':
                ev['v'] = [f2p(x) for x in arr(names[0], 'Float64', n)]
            else:
                ev['n'] = n
                outs = [('Float64', a[0], None)]
        elif fn == 'SetTime':
            ev['t'] = f2p(double(v['time']))
        elif fn == 'DoStep':
            ev.update(t=f2p(double(v['currentCommunicationPoint'])), h=f2p(double(v['communicationStepSize'])))
            if ver == 3:
                outs = [('Boolean', u, None) for u in a[3:6]] + [('Float64', a[6], None)]
        elif fn == 'UpdateDiscreteStates':
            outs = [('Boolean', u, None) for u in a[:5]] + [('Float64', a[5], None)]
        elif fn == 'NewDiscreteStates':
            ev['f'], outs = 'UpdateDiscreteStates', [('info', a[0], None)]
        elif fn == 'CompletedIntegratorStep':
            outs = [('Boolean' if ver == 3 else 'Bool2', u, None) for u in a[1:3]]
        elif fn in ('GetDirectionalDerivative', 'GetAdjointDerivative'):
            un, kn = (a[0], a[1]), (a[2], a[3])
            ref = lambda p: list((C.c_uint32 * p[1]).from_address(p[0]))
            nseed = a[5] if ver == 3 else a[3]
            ev.update(un=ref(un), kn=ref(kn), v=[f2p(x) for x in (C.c_double * nseed).from_address(a[4])])
            outs = [('Float64', a[6 if ver == 3 else 5], None)]
        elif fn == 'GetClock':
            ev['vr'] = arr('valueReferences', 'vr', v['nValueReferences'])
            outs = [('Boolean', v['values'], None)]
        elif fn == 'GetIntervalDecimal':
            ev['vr'] = arr('valueReferences', 'vr', v['nValueReferences'])
            outs = [('Int32', v['qualifiers'], None), ('Float64', v['intervals'], None)]
        elif fn == 'ActivateModelPartition':
            ev.update(vr=v['clockReference'] & 0xffffffff, t=f2p(double(v['activationTime'])))
        elif fn in ('GetStatus', 'GetRealStatus', 'GetIntegerStatus', 'GetBooleanStatus'):
            T = fn[3:-6] or 'Status'
            ev.update(f='GetStatus', T=T, sk=C.c_int(v['s'] & 0xffffffff).value)
            outs = [('Float64' if T == 'Real' else 'Int32', v['value'], None)]
        else:
            raise ValueError('no example makes this call: ' + fn)
        return ev, outs

    def give(self, e, outs):
        """write what the FMU has answered where the program wants it"""
        x, fv = list(e['x']), [p2f(p) for p in e['fv']]
        if e['st'] != OK:
            return
        for k, (T, ptr, sizes) in enumerate(outs):
            if T == 'info':
                info = fmu.EventInfo2.from_address(ptr)
                for name, val in zip(importer.INFO, x):
                    setattr(info, name, int(val))
                if fv:
                    info.nextEventTime = fv[0]
                return
            vals = fv if T in fmu.FLOATS else x
            if len(outs) > 1:                   # single values
                vals = vals[:1] if T in fmu.FLOATS else [vals[k]] if T != 'Int32' else vals
            for j, val in enumerate(vals):
                at = ptr + j * C.sizeof(CT[T])
                if T in ('String', 'Binary'):
                    b = C.create_string_buffer(bytes.fromhex(val))
                    self.keep.append(b)
                    val = C.addressof(b)
                    if sizes:
                        C.c_size_t.from_address(sizes + 8 * j).value = len(b) - 1
                elif T not in fmu.FLOATS:
                    val = int(val)
                CT[T].from_address(at).value = val

    # ------------------------------------------------------------------ callbacks
    def _iu(self, env, t, setreq, getok, fin, early, er_req, er_time):
        super()._iu(env, t, setreq, getok, fin, early, er_req, er_time)
        v = self.prog_cb.get(self.envs.get(env))
        if v:
            self.inside += 1
            IUCB(v['intermediateUpdate'])(v['instanceEnvironment'], t, setreq, getok, fin, early, er_req, er_time)
            self.written()
            self.inside -= 1

    def _clock_cb(self, kind, env=None):
        i = self.envs.get(env, '?') if kind == 'clock' else self.active[-1] if self.active else '?'
        self._begin_amp()
        self.rec({'f': 'cb', 'i': i, 'k': kind}, OK)
        v = self.prog_cb.get(i)
        if v and kind == 'clock':
            CLKCB(v['clockUpdate'])(v['instanceEnvironment'])
        self.rec({'f': 'cbret', 'i': i}, OK)


def example(w, rng, names):
    """the second program writes what the first has written"""
    w.run(names[0])
    for name in names[1:]:
        first = [k + 1 for k, e in enumerate(w.trace) if e['f'] == 'row']
        v = Example(w.libdir, w.scratch)
        v.sink = w.sink
        w.rec(dict(f='world', i='-'), OK)
        try:
            v.run(name)
        finally:
            w.trace += v.trace
        rows = [e for e in v.trace if e['f'] == 'row']
        for e, k in zip(rows, first):
            e['tw'] = k
        v.trace[-1]['less'] = len(first) - len(rows)


gen.GENERATORS['example'] = example
