"""Executes scenarios on real FMUs, one JSON object per input line, and writes
one trace per output line.  Runs in its own process: a crash or a hang of the
code under test ends this process only."""

import json
import random
import signal
import sys
import traceback

import descgen  # noqa: F401
import examples
import fmu
import gen
import importer
import impgen  # noqa: F401
import large  # noqa: F401
import scen  # noqa: F401
import threads
import through

WORLDS = {'importer': importer.Importer, 'through': through.Through, 'threads': threads.Threads,
          'example': examples.Example}


def main():
    libdir, scratch, infile, outfile = sys.argv[1:5]
    step = len(sys.argv) > 5 and sys.argv[5] == 'step'
    out = open(outfile, 'w')
    for line in open(infile):
        sc = json.loads(line)
        out.write(json.dumps({'start': sc['id']}) + '\n')
        out.flush()
        signal.alarm(sc.get('timeout', 60))
        w = WORLDS.get(sc.get('world'), fmu.World)(libdir, scratch)
        w.salt = sc.get('seed', 0)
        if step:
            w.sink = lambda ev: (out.write(json.dumps({'ev': ev}) + '\n'), out.flush())
        failed = ''
        try:
            if 'events' in sc:
                for ev in sc['events']:
                    w.do(ev)
            else:
                gen.GENERATORS[sc['gen']](w, random.Random(sc['seed']), **sc.get('arg', {}))
        except Exception:
            # an answer nobody expects can confuse a generator; what was recorded is judged first
            failed = traceback.format_exc()
        signal.alarm(0)
        w.clear()
        out.write(json.dumps({'id': sc['id'], 'trace': w.trace, 'failed': failed}, separators=(',', ':')) + '\n')
        out.flush()


main()
