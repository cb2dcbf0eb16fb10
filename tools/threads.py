"""Several worlds at the same time, each in a thread of its own.  The calls of the threads begin
together (harness/gate.c).  The trace of the whole is the traces of the worlds one after the other:
what a world observes does not depend on the others."""

import ctypes as C
import os
import random
import threading
import traceback

import fmu
import gen
import through


def gated(base):
    class Gated(base):
        def fn(self, o, name, *types, res=C.c_int):
            f = super().fn(o, name, *types, res=res)
            go = C.CFUNCTYPE(res, *types)(self.go)
            aim = C.cast(f, C.c_void_p).value

            def call(*a):
                self.gate.verif_aim(aim)
                return go(*a)
            return call
    return Gated


WORLDS = {'through': gated(through.Through), '': gated(fmu.World)}


class Threads:
    """parts: the scenarios of the threads"""
    held = ()

    def __init__(self, libdir, scratch):
        self.libdir, self.scratch = libdir, scratch
        self.trace, self.worlds, self.sink, self.salt = [], [], None, 0
        self.gate = C.CDLL(os.path.join(libdir, 'gate.so'))
        self.gate.verif_aim.argtypes = C.c_void_p,
        self.gate.verif_met.restype = C.c_long

    def run(self, parts, rounds=1):
        failed = []
        # no library is unloaded before the end
        keep = [C.CDLL(os.path.join(self.libdir, f)) for f in sorted(os.listdir(self.libdir))
                if f.startswith('fmi') and f.endswith('.so')] if any(p.get('world') for p in parts) else []
        for n in range(rounds):
            worlds = []
            for k, p in enumerate(parts):
                scratch = os.path.join(self.scratch, 't%d' % k)
                os.makedirs(scratch, exist_ok=True)
                w = WORLDS[p.get('world', '')](self.libdir, scratch)
                w.gate, w.go, w.salt = self.gate, C.cast(self.gate.verif_go, C.c_void_p).value, p['seed']
                worlds.append(w)

            def body(w, p):
                try:
                    gen.GENERATORS[p['gen']](w, random.Random(p['seed'] + n), **p.get('arg', {}))
                except Exception:
                    failed.append(traceback.format_exc())
                finally:
                    self.gate.verif_leave()
            met = self.gate.verif_met()
            self.gate.verif_start(len(parts))
            ts = [threading.Thread(target=body, args=x) for x in zip(worlds, parts)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            met = self.gate.verif_met() - met
            for w in worlds:
                w.clear()
                self.trace.append(dict(f='world', i='-', T='', nul='', tw=0, own=False, st=0, x=[], fv=[], logs=[], cb=[],
                                       ov=0, met=met if w is worlds[0] else 0))
                base = len(self.trace)
                for e in w.trace:
                    if e['tw']:
                        e['tw'] += base
                    self.trace.append(e)
            self.worlds += worlds
        del keep
        if failed:
            raise RuntimeError(failed[0])

    def clear(self):
        pass


@gen.generator
def threads(w, rng, parts, rounds=1):
    w.run(parts, rounds)
