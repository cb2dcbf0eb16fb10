"""Builds the code under test, runs scenarios on it, validates the recorded
traces with TLC and reports."""

import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import sigs

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
CC = 'gcc', '-O2'
NPROC = min(8, os.cpu_count() or 1)

MODELS3 = ['BouncingBall', 'Clocks', 'Dahlquist', 'Feedthrough', 'Resource', 'Roberts', 'Stair',
           'StateSpace', 'VanDerPol']
MODELS2 = ['BouncingBall', 'Dahlquist', 'Feedthrough', 'Resource', 'Stair', 'VanDerPol']
ALL = [(3, m) for m in MODELS3] + [(2, m) for m in MODELS2]


SOURCES = {'src': ['FMI.c', 'FMI2.c', 'FMI3.c', 'fmi2Functions.c', 'fmi3Functions.c', 'cosimulation.c']}


def further(directory):
    """sources that are not there now"""
    known = SOURCES.get(directory, ['model.c'])
    return sorted(f for f in glob.glob(os.path.join(REPO, directory, '*.c')) if os.path.basename(f) not in known)


class CheckError(Exception):
    """the check itself could not give an answer"""


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.text, self.replay = text, replay


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                          timeout=timeout, **kw)


def java_classes():
    out = os.path.join(VERIF, 'build', 'java')
    src = sorted(glob.glob(os.path.join(SPEC, 'java', 'verif', '*.java')))
    done = os.path.join(out, 'verif', 'Overrides.class')
    if not os.path.exists(done) or any(os.path.getmtime(s) > os.path.getmtime(done) for s in src):
        os.makedirs(out, exist_ok=True)
        r = sh(['javac', '-cp', JAR, '-d', out] + src)
        if r.returncode:
            raise CheckError('javac failed:\n' + r.stdout)
    return out


class Check:
    """one run of one check"""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='vf_%s_' % prop.lower(), dir=os.environ.get('VERIF_SCRATCH', '/var/tmp'))
        self.libs = os.path.join(self.dir, 'lib')
        os.makedirs(self.libs)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.events = 0
        self.skipped = 0
        self.known = []
        self.env = {}
        self.flags, self.wenv = [], {'MALLOC_PERTURB_': '165'}
        self.failed = []
        self.cc = list(CC)

    # ------------------------------------------------------------------ building
    def guard(self):
        """builds from now on report every invalid access and what they hold"""
        asan = sh(['gcc', '-print-file-name=libasan.so']).stdout.strip()
        self.flags = ['-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer',
                      os.path.join(VERIF, 'harness', 'heap.c')]
        for f in ('malloc', 'calloc', 'realloc', 'reallocarray', 'aligned_alloc', 'free', 'strdup', 'strndup', 'asprintf',
                  'vasprintf', 'fopen', 'fdopen', 'fclose', 'open', 'close', 'dlopen', 'dlclose'):
            self.flags.append('-Wl,--wrap=' + f)
        self.wenv = {'LD_PRELOAD': os.path.realpath(asan), 'VERIF_HELD': '1', 'MALLOC_PERTURB_': '0',
                     'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:max_malloc_fill_size=65536:malloc_fill_byte=165:'
                                     'free_fill_byte=90:max_free_fill_size=65536:detect_stack_use_after_return=1',
                     'UBSAN_OPTIONS': 'abort_on_error=1:halt_on_error=1'}

    def watch_threads(self):
        """builds from now on report every unordered access of two threads; says whether that is possible here"""
        tsan = os.path.realpath(sh(['gcc', '-print-file-name=libtsan.so']).stdout.strip())
        gate = os.path.join(self.libs, 'gate.so')
        self._compile([['gcc', '-O2', '-w', '-fPIC', '-shared', '-o', gate, os.path.join(VERIF, 'harness', 'gate.c')]])
        env = {'LD_PRELOAD': tsan, 'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:exitcode=66:report_signal_unsafe=0',
               'MALLOC_PERTURB_': '0', 'PYTHONMALLOC': 'malloc'}
        probe = os.path.join(self.dir, 'probe.so')
        src = os.path.join(self.dir, 'probe.c')
        with open(src, 'w') as fh:
            fh.write('static int n; int f(int k) { n += k; return n; }\n')
        self._compile([['gcc', '-O1', '-fsanitize=thread', '-fPIC', '-shared', '-o', probe, src]])
        run = lambda code: subprocess.run([sys.executable, '-c', 'import ctypes, threading, sys\n'
                                           'l = ctypes.CDLL(sys.argv[1])\n' + code, probe],
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120,
                                          env=dict(os.environ, **env)).returncode
        if run('l.f(1)') == 0:
            self.flags, self.wenv = ['-fsanitize=thread', '-fno-omit-frame-pointer'], env
            return True
        return False

    def variant(self, name, cc=CC, flags=(), env=None):
        """builds from now on are of another kind, and used instead of the former"""
        self.libs = os.path.join(self.dir, 'lib_' + name)
        os.makedirs(self.libs, exist_ok=True)
        self.cc, self.flags = list(cc), list(flags)
        self.wenv = dict({'MALLOC_PERTURB_': '165'}, **(env or {}))

    def build(self, which):
        jobs = []
        for ver, m in which:
            more = further('src') + further(m)
            cmd = self.cc + ['-g', '-w', '-fPIC', '-shared', '-fvisibility=hidden',
                   '-DFMI_VERSION=%d' % ver, '-DDISABLE_PREFIX',
                   '-I%s/include' % REPO, '-I%s/%s' % (REPO, m), '-o', '%s/fmi%d_%s.so' % (self.libs, ver, m),
                   '%s/%s/model.c' % (REPO, m), '%s/src/fmi%dFunctions.c' % (REPO, ver),
                   '%s/src/cosimulation.c' % REPO] + more + self.flags + ['-lm']
            if m == 'Clocks':       # it counts to a billion, and need not do so
                cmd.append('-Dvolatile=')
            if more and sh(cmd).returncode == 0:
                continue
            jobs.append([x for x in cmd if x not in more])
        self._compile(jobs)

    @staticmethod
    def _compile(jobs):
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for cmd, r in zip(jobs, ex.map(sh, jobs)):
                if r.returncode:
                    raise CheckError('build failed: %s\n%s' % (' '.join(cmd), r.stdout))

    def build_importer(self, lacking=()):
        """the import library, and stand-in FMUs: complete ones and ones that lack a function"""
        src = ['%s/src/FMI%s.c' % (REPO, v) for v in ('', '2', '3')]
        lib = lambda src: (self.cc + ['-g', '-w', '-fPIC', '-shared', '-I%s/include' % REPO, '-I%s/src' % REPO, '-o',
                           '%s/importer.so' % self.libs] + src + [os.path.join(VERIF, 'harness', 'shim.c')]
                           + self.flags + ['-ldl', '-lm'])
        more = further('src')
        jobs = [] if more and sh(lib(src + more)).returncode == 0 else [lib(src)]
        for ver, f in [(2, ''), (3, '')] + list(lacking):
            name = '%s/stub%d%s' % (self.libs, ver, '_' + f if f else '')
            with open(name + '.c', 'w') as fh:
                fh.write(sigs.stub_source(ver, f))
            jobs.append(['gcc', '-O1', '-w', '-fPIC', '-shared', '-o', name + '.so', name + '.c'])
        self._compile(jobs)

    # ------------------------------------------------------------------ scenarios
    def _worker(self, scs, tag, step=False):
        inf, outf = os.path.join(self.dir, 'in_%s' % tag), os.path.join(self.dir, 'out_%s' % tag)
        scratch = os.path.join(self.dir, 'scratch_%s' % tag)
        os.makedirs(scratch, exist_ok=True)
        cwd = scratch + '_cwd'
        os.makedirs(cwd, exist_ok=True)
        with open(inf, 'w') as fh:
            for s in scs:
                s = dict(s)
                s.setdefault('arg', {})
                if s.get('gen', '').startswith('imp_'):
                    s.setdefault('world', 'importer')
                fh.write(json.dumps(s) + '\n')
        with open(os.path.join(self.dir, 'err_%s' % tag), 'w') as err:
            p = subprocess.Popen([sys.executable, os.path.join(HERE, 'worker.py'), self.libs, scratch, inf, outf]
                                 + (['step'] if step else []),
                                 stdout=subprocess.DEVNULL, stderr=err, cwd=cwd,
                                 env=dict(os.environ, **self.wenv))
            rc = p.wait()
        traces, started, evs = {}, [], []
        if os.path.exists(outf):
            for line in open(outf):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if 'start' in d:
                    started.append(d['start'])
                elif 'ev' in d:
                    evs.append(d['ev'])
                else:
                    traces[d['id']] = d['trace']
                    if d.get('failed'):
                        self.failed.append(d['failed'])
            os.remove(outf)
        os.remove(inf)
        with open(os.path.join(self.dir, 'err_%s' % tag)) as fh:
            err = fh.read()
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, traces, started, evs, err

    def _chunk(self, scs, tag):
        """run scenarios, isolating those that crash"""
        traces, crashes = {}, []
        n = 0
        while scs:
            rc, tr, started, _, err = self._worker(scs, '%s_%d' % (tag, n))
            n += 1
            traces.update(tr)
            if rc == 0:
                break
            bad = started[-1] if started and started[-1] not in tr else None
            if bad is None and rc < 0 and started and \
                    self._worker(scs, '%s_%d_end' % (tag, n))[0] < 0:       # at the end of the process
                crashes.append(([s for s in scs if s['id'] == started[-1]][0], -rc, [], err))
                break
            if bad is None or rc > 0:
                raise CheckError('worker failed (%s): %s' % (rc, err[-2000:]))
            sc = [s for s in scs if s['id'] == bad][0]
            # repeat alone; only a repeated crash counts
            rc2, tr2, _, evs, err2 = self._worker([sc], '%s_%d_again' % (tag, n), step=True)
            if rc2 == 0:        # perhaps it needs what happened before
                upto = scs[:scs.index(sc) + 1]
                for _ in range(1 if rc == -signal.SIGALRM else 3):
                    rc3, _, _, _, err3 = self._worker(upto, '%s_%d_upto' % (tag, n))
                    if rc3 < 0:
                        break
                if rc3 < 0:
                    crashes.append((sc, -rc3, [], err3))
                    break
                traces.update(tr2)
            elif rc2 > 0:
                raise CheckError('worker failed (%s): %s' % (rc2, err2[-2000:]))
            else:
                crashes.append((sc, -rc2, evs, err2))
                if len(crashes) > 3 or rc2 == -signal.SIGALRM:      # a time limit costs much time
                    break
            done = set(traces) | {c[0]['id'] for c in crashes}
            scs = [s for s in scs if s['id'] not in done]
        return traces, crashes

    def execute(self, scenarios):
        """list of scenarios -> {id: trace}; raises Violation on a reproducible crash"""
        logger = os.path.join(self.dir, 'logger.so')        # for the FMUs for FMI 2.0, of whatever build
        if not os.path.exists(logger):
            self._compile([['gcc', '-O1', '-w', '-fPIC', '-shared', '-o', logger, os.path.join(VERIF, 'harness', 'logger.c')]])
        for k, s in enumerate(scenarios):
            s['id'] = k
        chunks = [scenarios[k::NPROC] for k in range(NPROC)]
        chunks = [c for c in chunks if c]
        traces, crashes = {}, []
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for tr, cr in ex.map(self._chunk, chunks, ['%d' % k for k in range(len(chunks))]):
                traces.update(tr)
                crashes += cr
        self.crashes = crashes
        return traces

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=NPROC, timeout=3000, heap='6g', extra=()):
        meta = tempfile.mkdtemp(prefix='tlc_', dir=self.dir)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.Overrides',
               '-DTLA-Library=' + SPEC, '-Djava.io.tmpdir=' + meta, '-Dfile.encoding=UTF-8',
               '-cp', '%s:%s:%s' % (java_classes(), JAR, CM), 'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
               '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = sh(cmd, timeout=timeout, cwd=SPEC, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + module)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def counts(out):
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if not m:
            raise CheckError('no state count from TLC:\n' + out[-4000:])
        return int(m.group(1)), int(m.group(2))

    def _validate_part(self, args):
        part, tag, module = args
        path = os.path.join(self.dir, 'traces_%s.json' % tag)
        with open(path, 'w') as fh:
            json.dump([t for _, t in part], fh, separators=(',', ':'))
        rc, out = self.tlc(module + '.tla', os.path.join(SPEC, module + '.cfg'),
                           {'TRACE': path, 'PROPERTY': self.prop, **self.env}, workers=2, heap='3500m')
        os.remove(path)
        if rc != 0:
            raise CheckError('TLC failed (%d):\n%s' % (rc, out[-6000:]))
        _, dist = self.counts(out)
        res = []
        # TLC breaks long values over several lines
        for m in re.finditer(r'<<\s*"(MISMATCH|SKIPPED|USAGE)",\s*(\d+),\s*(\d+),\s*(\{[^}]*\}),\s*"((?:[^"\\]|\\.)*)"\s*>>', out):
            res.append((m.group(1), int(m.group(2)) - 1, int(m.group(3)) - 1, m.group(4),
                        m.group(5).replace('\\"', '"')))
        marks = out.count('"MISMATCH"') + out.count('"SKIPPED"') + out.count('"USAGE"')
        if marks != len(res):
            raise CheckError('cannot read TLC output:\n' + out[-4000:])
        # every trace ends either at its end or at a reported line
        cut = {k: l for kind, k, l, _, _ in res if kind == 'MISMATCH'}
        want = sum((cut[k] + 1) if k in cut else len(t) + 1 for k, (_, t) in enumerate(part))
        if dist != want:
            raise CheckError('TLC visited %d states, expected %d\n%s' % (dist, want, out[-3000:]))
        # accepted calls: every visited state but the initial ones was entered by one
        return dist, dist - len(part), [(w, part[k][0], l, what, exp) for w, k, l, what, exp in res]

    def validate(self, traces, module='Trace'):
        """-> list of (kind, id, line, what, expected)"""
        items = [(k, t) for k, t in sorted(traces.items()) if t]
        if not items:
            return []
        total = sum(len(t) for _, t in items)
        nparts = max(1, min(4, total // 4000 + 1))
        parts = [items[k::nparts] for k in range(nparts)]
        res = []
        with cf.ThreadPoolExecutor(nparts) as ex:
            for states, steps, r in ex.map(self._validate_part, [(p, str(k), module) for k, p in enumerate(parts)]):
                res += r
                self.cov['states'] += states
                self.cov['transitions'] += steps
        return res

    # ------------------------------------------------------------------ the usual sequence
    def crashed(self):
        """raise if a process of the last execution was killed"""
        if self.crashes:
            sc, sig, evs, err = self.crashes[0]
            last = evs[-1] if evs else {}
            what = 'the FMU process was killed by signal %d (%s) in %s' % (
                sig, {14: 'no answer within the time limit', 11: 'invalid memory access', 6: 'abort'}.get(sig, ''),
                json.dumps(last)[:300])
            why = re.search(r'(?m)^(?:SUMMARY|.*runtime error): .*$', err)
            if why:
                what += ': ' + why.group(0)[:300]
            self.violation(what, {'scenario': {k: v for k, v in sc.items()}, 'events': evs, 'what': what,
                                  'report': err[-6000:]})

    def conform(self, scenarios, module='Trace'):
        """execute, validate, repeat what disagreed, and raise on what still disagrees"""
        if not scenarios:
            return
        traces = self.execute(scenarios)
        self.crashed()
        res = self.validate(traces, module)
        byid = {s['id']: s for s in scenarios}
        self.used = [(byid[k], traces[k], l, what, exp) for kind, k, l, what, exp in res if kind == 'USAGE']
        nev = sum(len(t) for t in traces.values())
        self.cov['traces_validated_against_impl'] += len(traces) - len({r[1] for r in res if r[0] == 'SKIPPED'})
        hits = sum(e.get('hit', 0) for t in traces.values() for e in t)
        if hits:
            self.cov['requests_refused'] = self.cov.get('requests_refused', 0) + hits
        met = sum(e.get('met', 0) for t in traces.values() for e in t)
        if met:
            self.cov['calls_begun_together'] = self.cov.get('calls_begun_together', 0) + met
        self.cov['calls_validated'] = self.cov.get('calls_validated', 0) + nev
        self.skipped += sum(1 for r in res if r[0] == 'SKIPPED')
        for k in sorted(traces)[:1] + sorted(traces)[-1:]:
            if len(self.cov['samples']) < 4:
                self.cov['samples'].append([brief(e) for e in traces[k][:12]])
        bad = [r for r in res if r[0] == 'MISMATCH']
        if bad:
            # only what repeats counts: alone, or else after the same scenarios as before
            bad.sort(key=lambda r: r[2])
            again = [dict(byid[r[1]]) for r in bad[:5]]
            for scs in again, scenarios, again, scenarios, scenarios:
                tr = self.execute(scs)
                self.crashed()
                bad2 = [r for r in self.validate(tr, module) if r[0] == 'MISMATCH']
                if bad2:
                    break
            else:
                raise CheckError('a disagreement did not repeat: %s' % (bad[:2],))
            _, k, l, what, exp = min(bad2, key=lambda r: r[2])
            t = tr[k]
            text = 'after %d calls, %s: expected %s' % (l, brief(t[l]), exp)
            replay = {'what': 'disagreement on ' + what, 'line': l, 'observed': t[l], 'expected': exp,
                      'events': t[:l + 1], 'scenario': {k2: v for k2, v in scs[k].items() if k2 != 'events'}}
            if scs is scenarios:
                replay['after'] = [s for s in scenarios[:k] if (k - s['id']) % NPROC == 0][-200:]
            self.violation(text, replay)
        for text in self.failed:
            lack = re.search(r"undefined symbol: (\w*fmi[23]\w+)", text)
            if lack:
                what = 'the FMU has no function ' + lack.group(1)
                self.violation(what, {'what': what, 'report': text[-3000:]})
        if self.failed:
            raise CheckError('a scenario failed: %s' % self.failed[0][-2000:])

    def violation(self, text, replay):
        raise Violation(text, replay)

    def listed(self, texts):
        """are all of these known findings?"""
        with open(os.path.join(VERIF, 'known-findings.txt')) as fh:
            start = 'known: property=%s ' % self.prop
            return set(texts) <= {x[len(start):].strip() for x in fh if x.startswith(start)}

    def finding(self, text, replay):
        """a violation, unless it is listed as a known finding"""
        if self.listed([text]):
            self.known.append(text)
        else:
            self.violation(text, replay)

    # ------------------------------------------------------------------ model checking
    def model(self, module, cfg, env=None, emit=True, timeout=3000, heap='6g'):
        """exhaustive run of a specification; returns the behaviours it emitted"""
        rc, out = self.tlc(module, os.path.join(SPEC, cfg), env, timeout=timeout, heap=heap)
        if rc != 0:
            text = '\n'.join(x for x in out.splitlines() if not x.startswith(('"@@', 'Parsing', 'Semantic')))
            raise CheckError('model checking %s failed (%d):\n%s' % (module, rc, text[:6000]))
        gen, dist = self.counts(out)
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        seqs = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                seqs.append(json.loads(json.loads(line)[2:]))
        return seqs

    def explore(self, configs, timeout=3000):
        """every state of the specification within the bounds of the configurations, each with
        the calls possible there"""
        return self.model('MC.tla', 'MC.cfg', {'CONFIGS': self.write('configs.json', configs)}, timeout=timeout)

    def write(self, name, data):
        path = os.path.join(self.dir, name)
        with open(path, 'w') as fh:
            json.dump(data, fh)
        return path

    # ------------------------------------------------------------------ end
    def finish(self, code):
        shutil.rmtree(self.dir, ignore_errors=True)
        return code

    def evidence(self, violations, level='model_checking'):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        if self.skipped:
            self.cov['traces_without_verdict'] = self.skipped
        doc = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
               'seed': self.seed, 'level': level, 'coverage': self.cov, 'wall_s': round(time.time() - self.t0, 2),
               'violations': violations, 'assumptions': self.assumptions}
        with open(os.path.join(d, self.prop + '.json'), 'w') as fh:
            json.dump(doc, fh, indent=1)


def brief(e):
    """one event of a trace, without the fields that say nothing"""
    return {k: v for k, v in e.items()
            if v not in ('', [], False, None) and k not in ('tw', 'own') and not (k == 'ov' and v == 0)}


def main(prop, body):
    c = Check(prop)
    try:
        try:
            body(c)
        except Violation as v:
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, prop + '.json')
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'text': v.text, **v.replay}, fh, indent=1)
            c.evidence(1)
            print('%s: %s' % (prop, v.text[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return c.finish(1)
        c.evidence(0)
        for k in c.known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        print('%s held: %s' % (prop, json.dumps({k: v for k, v in c.cov.items() if k != 'samples'})))
        return c.finish(0)
    except CheckError as e:
        print('%s: no answer: %s' % (prop, e))
        return c.finish(2)
    except BaseException:
        c.finish(2)
        raise
