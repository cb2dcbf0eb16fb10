"""The reference results shipped with the FMUs, with the calls of the default experiment, in the form the
TLA+ module Reference speaks of.  Nothing is judged here."""

import csv
import os
import xml.etree.ElementTree as ET

import describe
import fmu
import gen
from fmu import f2p

LIMIT = 2e6     # internal steps


def cell(ver, v, text):
    if v['T'] == 'String':
        return [text.encode().hex()]
    if v['T'] == 'Binary':
        return [text.lower()]
    vals = [describe.value(v['T'], x) for x in text.split()]
    return [int(x) for x in vals] if v['T'] == 'Boolean' and ver == 2 else vals


def reference(repo, ver, m, inst, to_run, ev, file):
    """the reference results of a model, None if there are none"""
    path = os.path.join(repo, m, m + '_out.csv')
    if not os.path.exists(path):
        return None
    desc = describe.describe(repo, ver, m)
    e = ET.parse(os.path.join(repo, m, 'FMI%d.xml' % ver)).getroot().find('DefaultExperiment')
    start, stop = float(e.get('startTime', '0')), float(e.get('stopTime', '0'))
    with open(path, newline='', encoding='utf8') as fh:
        lines = [x for x in csv.reader(fh) if x]
    cols = lines[0][1:]
    outs = [v for v in desc['vars'] if v['causality'] == 'output' and v['T'] != 'Clock']
    byname = {v['name']: v for v in outs}
    d = dict(m=m, ver=ver, cols=cols, outs=sorted(byname), start=f2p(start), stop=f2p(stop),
             hstep=e.get('stepSize') is not None, step=f2p(float(e.get('stepSize', '0'))), rows=[])
    used = [(k, byname[c]) for k, c in enumerate(cols) if c in byname]
    last, steps = start, 0
    for n, line in enumerate(lines[1:]):
        t = float(line[0])
        if n == 0:
            evs = []
            if m == 'Resource':
                with open(os.path.join(repo, m, 'y.txt'), 'rb') as fh:
                    evs.append(dict(file, c=fh.read(1)[0]))
            evs += [inst('a', ver, m, 'CS')] + to_run(ver, t=start, stop=stop)
        else:
            evs = [ev('DoStep', t=f2p(last), h=f2p(t - last))]
        last = t
        if (stop - start) / gen.STEP[m] > LIMIT:
            evs = []            # nobody can carry this out
        else:
            for k, v in used:
                vals = cell(ver, v, line[1 + k])
                evs.append(ev('Get', T=v['T'], vr=[v['vr']], nv=len(vals), col=k + 1))
        d['rows'].append(dict(t=f2p(t), evs=evs, vals=[cell(ver, byname[c], x) if c in byname else []
                                                      for c, x in zip(cols, line[1:])]))
    return d
