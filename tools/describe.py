"""Reads a model description (FMI 2.0 or 3.0) into the form the TLA+ module
Description speaks of.  Nothing is judged here."""

import os
import struct
import xml.etree.ElementTree as ET

import fmu
from fmu import f2p

TYPE2 = {'Real': 'Float64', 'Integer': 'Int32', 'Boolean': 'Boolean', 'String': 'String', 'Enumeration': 'Int32'}
TYPE3 = {'Enumeration': 'Int64'}
KIND = {'ModelExchange': 'ME', 'CoSimulation': 'CS', 'ScheduledExecution': 'SE'}


def value(T, text):
    """a start value as the driver reports it"""
    if T == 'Float64':
        return f2p(float(text))
    if T == 'Float32':
        return f2p(struct.unpack('f', struct.pack('f', float(text)))[0])
    if T == 'Boolean':
        return text in ('true', '1')
    if T in fmu.TEXT_INTS:
        return str(int(text))
    return int(text)


def truth(e, name):
    return e.get(name, 'false') in ('true', '1')


def variable(ver, e, a, T):
    """e: element with the common attributes, a: element with those of the type"""
    v = dict(name=e.get('name'), vr=int(e.get('valueReference')), T=T, causality=e.get('causality', 'local'),
             variability=e.get('variability', 'continuous' if T in fmu.FLOATS else 'discrete'),
             initial=e.get('initial', ''), hs=False, start=[], dims=[], der=-1, hn=False, nominal=f2p(1.0),
             bounded=False, min=0, max=0, interval=e.get('intervalVariability', ''))
    if T == 'Clock':
        return v
    if a.get('start') is not None:
        v['hs'] = True
        if T == 'String':
            v['start'] = [a.get('start').encode().hex()]
        else:
            v['start'] = [value(T, x) for x in a.get('start').split()]
            if T == 'Boolean' and ver == 2:
                v['start'] = [int(x) for x in v['start']]
    for s in e.findall('Start'):
        v['hs'] = True
        v['start'].append(s.get('value').encode().hex() if T == 'String' else s.get('value').lower())
    for d in e.findall('Dimension'):
        ref = d.get('valueReference')
        v['dims'].append(dict(ref=ref is not None, n=int(ref if ref is not None else d.get('start'))))
    if a.get('derivative') is not None:
        v['der'] = int(a.get('derivative'))
    if a.get('nominal') is not None:
        v['nominal'] = f2p(float(a.get('nominal')))
    if T not in fmu.FLOATS and a.get('min') is not None and a.get('max') is not None:
        v['bounded'], v['min'], v['max'] = True, int(a.get('min')), int(a.get('max'))
    return v


def describe(repo, ver, m):
    root = ET.parse(os.path.join(repo, m, 'FMI%d.xml' % ver)).getroot()
    d = dict(m=m, ver=ver, fmi=root.get('fmiVersion'), token=root.get('guid' if ver == 2 else 'instantiationToken'),
             kinds=[], ids=[], caps={k: dict(snap=False, ser=False, dir=False, adj=False) for k in KIND.values()},
             em=False, iu=False, vstep=False, hstep=False, step=f2p(0.0), cats=[], vars=[])
    for tag, k in KIND.items():
        e = root.find(tag)
        if e is None:
            continue
        d['kinds'].append(k)
        d['ids'].append(e.get('modelIdentifier'))
        st = 'FMUstate' if ver == 2 else 'FMUState'
        d['caps'][k] = dict(snap=truth(e, 'canGetAndSet' + st), ser=truth(e, 'canSerialize' + st),
                            dir=truth(e, 'providesDirectionalDerivative' + ('' if ver == 2 else 's')),
                            adj=truth(e, 'providesAdjointDerivatives'))
        if k == 'CS':
            d['em'], d['iu'] = truth(e, 'hasEventMode'), truth(e, 'providesIntermediateUpdate')
            d['vstep'] = truth(e, 'canHandleVariableCommunicationStepSize')
            if e.get('fixedInternalStepSize') is not None:
                d['hstep'], d['step'] = True, f2p(float(e.get('fixedInternalStepSize')))
    d['cats'] = [c.get('name') for c in root.findall('LogCategories/Category')]
    order = []
    for e in root.find('ModelVariables'):
        if ver == 2:
            a = [x for x in e if x.tag in TYPE2][0]
            v = variable(2, e, a, TYPE2[a.tag])
        else:
            v = variable(3, e, e, TYPE3.get(e.tag, e.tag))
        d['vars'].append(v)
        order.append(v['vr'])
    if ver == 2:            # positions in the list of variables -> value references
        for v in d['vars']:
            if v['der'] >= 0:
                v['der'] = order[v['der'] - 1] if v['der'] <= len(order) else -2

    def unknown(e):
        ref = e.get('index' if ver == 2 else 'valueReference')
        num = (lambda x: order[int(x) - 1] if 0 < int(x) <= len(order) else -2) if ver == 2 else int
        deps = e.get('dependencies')
        return dict(vr=num(ref), hd=deps is not None, deps=[num(x) for x in (deps or '').split()])

    s = root.find('ModelStructure')
    if ver == 2:
        d['outputs'] = [unknown(e) for e in s.findall('Outputs/Unknown')]
        d['ders'] = [unknown(e) for e in s.findall('Derivatives/Unknown')]
        d['init'] = [unknown(e) for e in s.findall('InitialUnknowns/Unknown')]
        d['ind'] = []
        d['nz'] = int(root.get('numberOfEventIndicators', '0'))
    else:
        d['outputs'] = [unknown(e) for e in s.findall('Output')]
        d['ders'] = [unknown(e) for e in s.findall('ContinuousStateDerivative')]
        d['init'] = [unknown(e) for e in s.findall('InitialUnknown')]
        d['ind'] = [unknown(e) for e in s.findall('EventIndicator')]
        d['nz'] = -1
    return d
