"""Builds the FMUs as the project does, unpacks them, and compiles the sources found inside in the way the
FMUs say.  What a package contains is judged by the TLA+ module Package."""

import glob
import hashlib
import os
import shutil
import xml.etree.ElementTree as ET
import zipfile

import run
import sigs

PLATFORM = {2: 'linux64', 3: 'x86_64-linux'}


def build(c):
    """the packages made by the project's own build, unpacked: {(version, model): directory}"""
    src = os.path.join(c.dir, 'src')
    shutil.copytree(run.REPO, src, ignore=lambda d, names: [n for n in names if n == '.git' or (
        d.rstrip('/') == run.REPO.rstrip('/') and n == 'build')])
    # what a compiler warns about depends on the optimisation: it must not decide whether there is an answer
    cc = os.path.join(c.dir, 'cc')
    with open(cc, 'w') as fh:
        fh.write('#!/bin/bash\nexec gcc "${@/#-Werror*/-w}"\n')
    os.chmod(cc, 0o755)
    out = {}
    for ver in (2, 3):
        b = os.path.join(c.dir, 'cmake%d' % ver)
        models = [m for v, m in run.ALL if v == ver]
        for cmd in (['cmake', '-S', src, '-B', b, '-G', 'Ninja', '-DFMI_VERSION=%d' % ver, '-DFMI_ARCHITECTURE=x86_64',
                     '-DCMAKE_BUILD_TYPE=Release'],
                    ['cmake', '--build', b, '-j', str(run.NPROC), '--target'] + models):
            r = run.sh(cmd, timeout=600, env=dict(os.environ, CC=cc, CXX='g++'))
            if r.returncode:
                raise run.CheckError('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
        for m in models:
            d = os.path.join(c.dir, 'fmu', '%d_%s' % (ver, m))
            path = os.path.join(b, 'fmus', m + '.fmu')
            if not os.path.exists(path):
                raise run.CheckError('the build makes no ' + path)
            with zipfile.ZipFile(path) as z:
                z.extractall(d)
            out[ver, m] = d
    shutil.copytree(os.path.join(src, 'include'), os.path.join(c.dir, 'fmi'),
                    ignore=lambda d, names: [n for n in names if not n.startswith('fmi')])
    return out


def digest(path):
    with open(path, 'rb') as fh:
        return hashlib.sha1(fh.read().replace(b'\r\n', b'\n')).hexdigest()


def sources(ver, d):
    """what has to be compiled: (model identifier, language, files, definitions, include directories)"""
    if ver == 2:
        e = ET.parse(os.path.join(d, 'modelDescription.xml')).getroot().find('CoSimulation')
        return [(e.get('modelIdentifier'), '', [f.get('name') for f in e.findall('SourceFiles/File')], [], [])]
    res = []
    for b in ET.parse(os.path.join(d, 'sources', 'buildDescription.xml')).getroot().findall('BuildConfiguration'):
        for s in b.findall('SourceFileSet'):
            res.append((b.get('modelIdentifier'), s.get('language', ''), [f.get('name') for f in s.findall('SourceFile')],
                        ['%s=%s' % (x.get('name'), x.get('value')) if x.get('value') else x.get('name')
                         for x in s.findall('PreprocessorDefinition')],
                        [x.get('name') for x in s.findall('IncludeDirectory')]))
    return res


def compile_sources(c, pkgs, cc, flags=()):
    """compiles them; gives those that a compiler refuses, as (version, model, what it said)"""
    refused = []
    for (ver, m), d in sorted(pkgs.items()):
        cmd = list(cc) + ['-g', '-w', '-fPIC', '-shared', '-o', os.path.join(c.libs, 'fmi%d_%s.so' % (ver, m)),
                          '-I' + os.path.join(d, 'sources'), '-I' + os.path.join(c.dir, 'fmi')] + list(flags)
        for _, lang, files, defs, incs in sources(ver, d):
            if lang.startswith('C') and lang[1:].isdigit():
                cmd.append('-std=c' + lang[1:])
            cmd += ['-D' + x for x in defs] + ['-I' + os.path.join(d, 'sources', x) for x in incs]
            cmd += [os.path.join(d, 'sources', f) for f in files]
        for _ in range(2):
            r = run.sh(cmd + ['-lm'])
            if not r.returncode:
                break
        else:
            if 'error:' not in r.stdout and 'undefined reference' not in r.stdout and 'multiple definition' not in r.stdout:
                raise run.CheckError('build failed: %s\n%s' % (' '.join(cmd), r.stdout))
            refused.append((ver, m, r.stdout[:3000]))
    return refused


def content(pkgs):
    """what is in the packages, for the module Package"""
    res = []
    for (ver, m), d in sorted(pkgs.items()):
        files = [os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs]
        root = ET.parse(os.path.join(d, 'modelDescription.xml')).getroot()
        kinds = [e for e in root if e.tag in ('ModelExchange', 'CoSimulation', 'ScheduledExecution')]
        lib = os.path.join('binaries', PLATFORM[ver], m + '.so')
        found = run.sh(['nm', '-D', '--defined-only', os.path.join(d, lib)]).stdout.split() if lib in files else []
        related = []
        for f in files:
            if f.startswith('extra' + os.sep) and f.endswith('.xml'):
                related += [os.path.join(os.path.dirname(f), e.get('source'))
                            for e in ET.parse(os.path.join(d, f)).getroot().iter('Related') if e.get('source')]
        here = os.path.join(run.REPO, m)
        shipped = {'modelDescription.xml': os.path.join(here, 'FMI%d.xml' % ver)}
        for f in files:
            for where in (here, os.path.join(run.REPO, 'include'), os.path.join(run.REPO, 'src')):
                p = os.path.join(where, os.path.basename(f))
                if os.path.dirname(f) != '' and os.path.exists(p):
                    shipped[f] = p
        res.append(dict(m=m, ver=ver, files=files, ids=[e.get('modelIdentifier') for e in kinds], lib=lib,
                        functions=['fmi%d%s' % (ver, f) for f in sigs.names(ver)],
                        symbols=[x for x in found if x.startswith('fmi')],
                        builds=[i for i, _, _, _, _ in sources(ver, d)],
                        sources=[os.path.join('sources', f) for _, _, fs, _, _ in sources(ver, d) for f in fs],
                        resources=['resources/y.txt'] if m == 'Resource' else [], related=related,
                        altered=[f for f, p in shipped.items() if f in files and digest(p) != digest(os.path.join(d, f))]))
    return res
