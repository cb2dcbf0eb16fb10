"""The functions of the FMI 2.0 and FMI 3.0 C API that the import library wraps.

One line per function: its name and its arguments after the instance.
  b:x  boolean       d:x  double       n:x  size          u:x  value reference
  i:x  int or enum   s:x  string       p:x  opaque pointer
  T[n]:x   array of n elements of type T read by the FMU
  >T[n]:x  array written by the FMU    >T:x  single value written by the FMU
  >p:x     pointer written by the FMU  >E:x  the event info of FMI 2.0"""

FMI3 = '''
SetDebugLogging b:loggingOn n:nCategories String[nCategories]:categories
EnterInitializationMode b:toleranceDefined d:tolerance d:startTime b:stopTimeDefined d:stopTime
ExitInitializationMode
EnterEventMode
Terminate
Reset
@Get Float32 Float64 Int8 UInt8 Int16 UInt16 Int32 UInt32 Int64 UInt64 Boolean String
@Set Float32 Float64 Int8 UInt8 Int16 UInt16 Int32 UInt32 Int64 UInt64 Boolean String
GetBinary vr[nValueReferences]:valueReferences n:nValueReferences >Size[nValueReferences]:sizes >Binary[nValues]:values n:nValues
SetBinary vr[nValueReferences]:valueReferences n:nValueReferences Size[nValueReferences]:sizes Binary[nValues]:values n:nValues
GetClock vr[nValueReferences]:valueReferences n:nValueReferences >Boolean[nValueReferences]:values
SetClock vr[nValueReferences]:valueReferences n:nValueReferences Boolean[nValueReferences]:values
GetNumberOfVariableDependencies u:valueReference >Size:nDependencies
GetVariableDependencies u:dependent >Size[nDependencies]:elementIndicesOfDependent >vr[nDependencies]:independents >Size[nDependencies]:elementIndicesOfIndependents >Int32[nDependencies]:dependencyKinds n:nDependencies
GetFMUState >p:FMUState
SetFMUState p:FMUState
FreeFMUState >p:FMUState
SerializedFMUStateSize p:FMUState >Size:size
SerializeFMUState p:FMUState >UInt8[size]:serializedState n:size
DeserializeFMUState UInt8[size]:serializedState n:size >p:FMUState
GetDirectionalDerivative vr[nUnknowns]:unknowns n:nUnknowns vr[nKnowns]:knowns n:nKnowns Float64[nSeed]:seed n:nSeed >Float64[nSensitivity]:sensitivity n:nSensitivity
GetAdjointDerivative vr[nUnknowns]:unknowns n:nUnknowns vr[nKnowns]:knowns n:nKnowns Float64[nSeed]:seed n:nSeed >Float64[nSensitivity]:sensitivity n:nSensitivity
EnterConfigurationMode
ExitConfigurationMode
GetIntervalDecimal vr[nValueReferences]:valueReferences n:nValueReferences >Float64[nValueReferences]:intervals >Int32[nValueReferences]:qualifiers
GetIntervalFraction vr[nValueReferences]:valueReferences n:nValueReferences >UInt64[nValueReferences]:intervalCounters >UInt64[nValueReferences]:resolutions >Int32[nValueReferences]:qualifiers
GetShiftDecimal vr[nValueReferences]:valueReferences n:nValueReferences >Float64[nValueReferences]:shifts
GetShiftFraction vr[nValueReferences]:valueReferences n:nValueReferences >UInt64[nValueReferences]:shiftCounters >UInt64[nValueReferences]:resolutions
SetIntervalDecimal vr[nValueReferences]:valueReferences n:nValueReferences Float64[nValueReferences]:intervals
SetIntervalFraction vr[nValueReferences]:valueReferences n:nValueReferences UInt64[nValueReferences]:intervalCounters UInt64[nValueReferences]:resolutions
SetShiftDecimal vr[nValueReferences]:valueReferences n:nValueReferences Float64[nValueReferences]:shifts
SetShiftFraction vr[nValueReferences]:valueReferences n:nValueReferences UInt64[nValueReferences]:shiftCounters UInt64[nValueReferences]:resolutions
EvaluateDiscreteStates
UpdateDiscreteStates >Boolean:discreteStatesNeedUpdate >Boolean:terminateSimulation >Boolean:nominalsOfContinuousStatesChanged >Boolean:valuesOfContinuousStatesChanged >Boolean:nextEventTimeDefined >Float64:nextEventTime
EnterContinuousTimeMode
CompletedIntegratorStep b:noSetFMUStatePriorToCurrentPoint >Boolean:enterEventMode >Boolean:terminateSimulation
SetTime d:time
SetContinuousStates Float64[nContinuousStates]:continuousStates n:nContinuousStates
GetContinuousStateDerivatives >Float64[nContinuousStates]:derivatives n:nContinuousStates
GetEventIndicators >Float64[nEventIndicators]:eventIndicators n:nEventIndicators
GetContinuousStates >Float64[nContinuousStates]:continuousStates n:nContinuousStates
GetNominalsOfContinuousStates >Float64[nContinuousStates]:nominals n:nContinuousStates
GetNumberOfEventIndicators >Size:nEventIndicators
GetNumberOfContinuousStates >Size:nContinuousStates
EnterStepMode
GetOutputDerivatives vr[nValueReferences]:valueReferences n:nValueReferences Int32[nValueReferences]:orders >Float64[nValues]:values n:nValues
DoStep d:currentCommunicationPoint d:communicationStepSize b:noSetFMUStatePriorToCurrentPoint >Boolean:eventHandlingNeeded >Boolean:terminateSimulation >Boolean:earlyReturn >Float64:lastSuccessfulTime
ActivateModelPartition u:clockReference d:activationTime
'''

FMI2 = '''
SetDebugLogging b:loggingOn n:nCategories String[nCategories]:categories
SetupExperiment b:toleranceDefined d:tolerance d:startTime b:stopTimeDefined d:stopTime
EnterInitializationMode
ExitInitializationMode
Terminate
Reset
@Get Real Integer Boolean String
@Set Real Integer Boolean String
GetFMUstate >p:FMUstate
SetFMUstate p:FMUstate
FreeFMUstate >p:FMUstate
SerializedFMUstateSize p:FMUstate >Size:size
SerializeFMUstate p:FMUstate >UInt8[size]:serializedState n:size
DeSerializeFMUstate UInt8[size]:serializedState n:size >p:FMUstate
GetDirectionalDerivative vr[nUnknown]:vUnknown_ref n:nUnknown vr[nKnown]:vKnown_ref n:nKnown Float64[nKnown]:dvKnown >Float64[nUnknown]:dvUnknown
EnterEventMode
NewDiscreteStates >E:eventInfo
EnterContinuousTimeMode
CompletedIntegratorStep b:noSetFMUStatePriorToCurrentPoint >Bool2:enterEventMode >Bool2:terminateSimulation
SetTime d:time
SetContinuousStates Float64[nx]:x n:nx
GetDerivatives >Float64[nx]:derivatives n:nx
GetEventIndicators >Float64[ni]:eventIndicators n:ni
GetContinuousStates >Float64[nx]:x n:nx
GetNominalsOfContinuousStates >Float64[nx]:x_nominal n:nx
SetRealInputDerivatives vr[nvr]:vr n:nvr Int32[nvr]:order Float64[nvr]:value
GetRealOutputDerivatives vr[nvr]:vr n:nvr Int32[nvr]:order >Float64[nvr]:value
DoStep d:currentCommunicationPoint d:communicationStepSize b:noSetFMUStatePriorToCurrentPoint
CancelStep
GetStatus i:s >Int32:value
GetRealStatus i:s >Float64:value
GetIntegerStatus i:s >Int32:value
GetBooleanStatus i:s >Bool2:value
GetStringStatus i:s >String:value
'''

# what the FMU receives; the caller of the import library gives only some of it
INST = {
    3: {
        'InstantiateModelExchange': 's:instanceName s:instantiationToken s:resourcePath b:visible b:loggingOn '
                                    'p:instanceEnvironment p:logMessage',
        'InstantiateCoSimulation': 's:instanceName s:instantiationToken s:resourcePath b:visible b:loggingOn '
                                   'b:eventModeUsed b:earlyReturnAllowed '
                                   'vr[nRequiredIntermediateVariables]:requiredIntermediateVariables '
                                   'n:nRequiredIntermediateVariables p:instanceEnvironment p:logMessage '
                                   'p:intermediateUpdate',
        'InstantiateScheduledExecution': 's:instanceName s:instantiationToken s:resourcePath b:visible b:loggingOn '
                                         'p:instanceEnvironment p:logMessage p:clockUpdate p:lockPreemption '
                                         'p:unlockPreemption',
    },
    2: {
        'Instantiate': 's:instanceName i:fmuType s:fmuGUID s:fmuResourceLocation p:functions b:visible b:loggingOn',
    },
}

ME2 = ('EnterEventMode', 'NewDiscreteStates', 'EnterContinuousTimeMode', 'CompletedIntegratorStep', 'SetTime',
       'SetContinuousStates', 'GetDerivatives', 'GetEventIndicators', 'GetContinuousStates',
       'GetNominalsOfContinuousStates')
CS2 = ('SetRealInputDerivatives', 'GetRealOutputDerivatives', 'DoStep', 'CancelStep', 'GetStatus', 'GetRealStatus',
       'GetIntegerStatus', 'GetBooleanStatus', 'GetStringStatus')


class Arg:
    """kind: val, ptr, in, out (arrays), one (single value written), pp, info"""

    def __init__(self, text):
        t, self.name = text.split(':')
        out = t.startswith('>')
        t = t.lstrip('>')
        self.count = ''
        if '[' in t:
            t, self.count = t[:-1].split('[')
            self.kind = 'out' if out else 'in'
        elif t == 'p':
            self.kind = 'pp' if out else 'ptr'
        elif t == 'E':
            self.kind = 'info'
        else:
            self.kind = 'one' if out else 'val'
        self.type = t


def parse(text, ver):
    table = {}
    for line in text.strip().splitlines():
        words = line.split()
        if words[0].startswith('@'):
            for t in words[1:]:
                o = '>' if words[0] == '@Get' else ''
                if ver == 3:
                    a = ['vr[nValueReferences]:valueReferences', 'n:nValueReferences', '%s%s[nValues]:values' % (o, t),
                         'n:nValues']
                else:
                    e = {'Real': 'Float64', 'Integer': 'Int32', 'Boolean': 'Bool2', 'String': 'String'}[t]
                    a = ['vr[nvr]:vr', 'n:nvr', '%s%s[nvr]:value' % (o, e)]
                table[words[0][1:] + t] = [Arg(x) for x in a]
        else:
            table[words[0]] = [Arg(x) for x in words[1:]]
    return table


SIGS = {2: parse(FMI2, 2), 3: parse(FMI3, 3)}
for _v in INST:
    for _f, _t in INST[_v].items():
        SIGS[_v][_f] = [Arg(x) for x in _t.split()]

CTYPE = {'b': {2: 'int', 3: '_Bool'}, 'd': 'double', 'n': 'size_t', 'u': 'unsigned', 'i': 'int', 's': 'const char *'}


def stub_source(ver, lacking=None):
    """C source of a library that exports all functions of one FMI version and hands
    every call to one hook"""
    out = ['#include <stddef.h>', '#include <stdint.h>', '#include <string.h>',
           'uint64_t (*verif_hook)(const char *, void *, uint64_t *, int);',
           'static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }']
    for f, args in SIGS[ver].items():
        if f == lacking:
            continue
        pars, vals = [], []
        for a in args:
            if a.kind == 'val':
                t = CTYPE[a.type]
                t = t[ver] if isinstance(t, dict) else t
            else:
                t = 'void *'
            pars.append('%s %s' % (t, a.name))
            vals.append('bits(%s)' % a.name if t == 'double' else '(uint64_t)%s' % a.name)
        new = f.startswith('Instantiate')
        out.append('%s fmi%d%s(%s) { uint64_t a_[] = { %s }; return (%s)verif_hook("%s", %s, a_, %d); }' % (
            'void *' if new else 'int', ver, f, ', '.join(([] if new else ['void *c_']) + pars),
            ', '.join(vals) or '0', 'void *' if new else 'int', f, '0' if new else 'c_', len(vals)))
    for f in ('GetVersion',) + (('GetTypesPlatform',) if ver == 2 else ()):
        if f != lacking:
            out.append('const char *fmi%d%s(void) { uint64_t a_[] = { 0 }; return (const char *)verif_hook("%s", 0, a_, 0); }'
                       % (ver, f, f))
    if lacking != 'FreeInstance':
        out.append('void fmi%dFreeInstance(void *c_) { uint64_t a_[] = { 0 }; verif_hook("FreeInstance", c_, a_, 0); }' % ver)
    return '\n'.join(out) + '\n'


def names(ver):
    return sorted(SIGS[ver]) + ['FreeInstance', 'GetVersion'] + (['GetTypesPlatform'] if ver == 2 else [])
