--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exploration of the specification.  A configuration gives the instances, *)
(* the groups of calls that may be made on them, a bound on the number of  *)
(* calls and what distinguishes states.  TLC visits every state within the *)
(* bound, checks on every transition what the properties demand of the     *)
(* specification itself (Theorem), and writes out every transition as the  *)
(* sequence of calls leading to and including it; these sequences are      *)
(* replayed on the real FMUs.                                              *)
(***************************************************************************)
EXTENDS FMU, Json, IOUtils, FiniteSetsExt

Configs == JsonDeserialize(IOEnv.CONFIGS)

VARIABLES c, w, path

Cfg == Configs[c]

-----------------------------------------------------------------------------
(* Calls *)

Ev(f, i)     == [f |-> f, i |-> i, T |-> "", nul |-> ""]
X(f, i, a)   == a @@ Ev(f, i)
Without(n, e) == [nul |-> n] @@ e

AllTypes(s)  == IF s.ver = 3 THEN << "Float32", "Float64", "Int8", "UInt8", "Int16", "UInt16", "Int32",
                  "UInt32", "Int64", "UInt64", "Boolean", "String", "Binary" >>
                ELSE << "Float64", "Int32", "Boolean", "String" >>
TypeSet(s)   == ToSet(AllTypes(s))
Candidates   == (0..35) \cup (1001..1005) \cup (2001..2007)
Refs(s, T)   == {vr \in Candidates : Get(s, T, vr)[1]}
UsedTypes(s) == {T \in TypeSet(s) : Refs(s, T) # {}}
Size(s, T, vr) == Len(Get(s, T, vr)[2])

Dummy(s, T) ==
  CASE T \in FloatTypes -> f1
    [] T \in {"String", "Binary"} -> "61"
    [] T = "Boolean" -> IF s.ver = 3 THEN TRUE ELSE 1
    [] T \in {"UInt32", "Int64", "UInt64"} -> "1"
    [] OTHER -> 1
\* the present value of a variable, as it would be given to a set call
Present(s, T, vr) ==
  LET v == Get(s, T, vr)[2] IN
  IF T = "Boolean" /\ s.ver = 2 THEN [k \in 1..Len(v) |-> IF v[k] THEN 1 ELSE 0] ELSE v

\* values of different types cannot be compared, so calls that carry values are kept in
\* sequences, one type after the other
ByType(types, Op(_)) == FlattenSeq([k \in 1..Len(types) |-> SetToSeq(Op(types[k]))])
Used(s)      == SelectSeq(AllTypes(s), LAMBDA T : Refs(s, T) # {})

GetE(i, T, vrs, nv)   == X("Get", i, [T |-> T, vr |-> vrs, nv |-> nv])
SetE(i, T, vrs, vals) == X("Set", i, [T |-> T, vr |-> vrs, v |-> vals])

\* whole-type reads
ReadEvents(s, i) ==
  ByType(Used(s), LAMBDA T :
    LET vrs == SetToSortSeq(Refs(s, T), <) IN
    {GetE(i, T, vrs, FoldLeft(LAMBDA a, b : a + Size(s, T, b), 0, vrs))})
\* writes of present values, one variable of each type that can be written now
WriteEvents(s, i) ==
  ByType(Used(s), LAMBDA T :
    LET ok == {vr \in Refs(s, T) : Set(s, T, vr, Get(s, T, vr)[2]).ok}
        vr == IF ok # {} THEN Min(ok) ELSE Min(Refs(s, T)) IN
    {SetE(i, T, << vr >>, Present(s, T, vr))})
\* an attempt to write every variable
WriteAll(s, i) ==
  ByType(Used(s), LAMBDA T : {SetE(i, T, << vr >>, Present(s, T, vr)) : vr \in Refs(s, T)})

InitArgs(t, sd, stop) == [t |-> t, sd |-> sd, stop |-> stop]
NoStop == InitArgs(f0, FALSE, f0)
HalfStep(m) == FMul(StepSize(m), FLit("0.5"))

Step(s, i, h) == X("DoStep", i, [t |-> s.ncp, h |-> h])

\* calls that change the mode
ModeEvents3(s, i) ==
  {X("EnterInitializationMode", i, NoStop), Ev("ExitInitializationMode", i), Ev("EnterEventMode", i),
   Ev("EnterContinuousTimeMode", i), Ev("EnterStepMode", i), Ev("EnterConfigurationMode", i),
   Ev("ExitConfigurationMode", i), Ev("Terminate", i), Ev("Reset", i)}
ModeEvents2(s, i) ==
  {X("SetupExperiment", i, NoStop), Ev("EnterInitializationMode", i), Ev("ExitInitializationMode", i),
   Ev("EnterEventMode", i), Ev("EnterContinuousTimeMode", i), Ev("Terminate", i), Ev("Reset", i)}
ModeEvents(s, i) == IF s.ver = 3 THEN ModeEvents3(s, i) ELSE ModeEvents2(s, i)

VectorEvents(s, i) ==
  LET nx == NumX(s.m, s.d) IN
  {X("SetContinuousStates", i, [v |-> ContStates(s.m, s.d)]),
   X("SetContinuousStates", i, [v |-> [k \in 1..nx |-> FAdd(FOfInt(k), FMul(FOfInt(2), ContStates(s.m, s.d)[k]))]]),
   X("GetContinuousStates", i, [n |-> nx]),
   X("GetDerivatives", i, [n |-> nx]), X("GetNominals", i, [n |-> nx]),
   X("GetEventIndicators", i, [n |-> NumZ(s.m)]), Ev("CompletedIntegratorStep", i),
   X("SetTime", i, [t |-> s.time])}
  \cup (IF s.ver = 3 THEN {Ev("GetNumberOfContinuousStates", i), Ev("GetNumberOfEventIndicators", i)} ELSE {})

DerEvents(s, i) ==
  {X("GetDirectionalDerivative", i, [un |-> << 4 >>, kn |-> << 1 >>, v |-> << f1 >>]),
   X("GetOutputDerivatives", i, [vr |-> << 1 >>, ord |-> << 1 >>])}
  \cup (IF s.ver = 3
        THEN {X("GetAdjointDerivative", i, [un |-> << 4 >>, kn |-> << 1 >>, v |-> << f1 >>])}
        ELSE {X("SetInputDerivatives", i, [vr |-> << 1 >>, ord |-> << 1 >>])})

StepEvents(s, i) == {Step(s, i, FMul(StepSize(s.m), f2))}
UpdateEvents(s, i) == {Ev("UpdateDiscreteStates", i)}
\* any of the places for the results may be missing
UpdateSome(s, i) == IF s.ver = 2 THEN {} ELSE {Without("some", X("UpdateDiscreteStates", i, [mis |-> m])) :
                      m \in {<< k >> : k \in 1..6} \cup {<< 1, 2, 3, 4, 5 >>, << 2, 3, 4, 5, 6 >>, << 5, 6 >>}}

StatusEvents(s, i) ==
  IF s.ver = 3 THEN {} ELSE
  {X("GetStatus", i, [T |-> T, sk |-> k]) : T \in {"Status", "Real", "Integer", "Boolean", "String"}, k \in 0..3}
  \cup {Ev("CancelStep", i)}

ClockEvents(s, i) ==
  IF s.ver = 2 THEN {} ELSE
  {X("GetClock", i, [vr |-> << 1005 >>]), X("SetClock", i, [vr |-> << 1001 >>, v |-> << FALSE >>]),
   X("GetIntervalDecimal", i, [vr |-> << 1003 >>])}
\* lists of clocks, with repetitions and other variables among them, and missing arrays
ClockLists(s, i) ==
  IF s.ver = 2 THEN {} ELSE
  LET lists(vr) == {<< >>, << vr, vr >>, << vr, vr, vr >>, << vr, 98 >>, << 98, vr >>, << 2001 >>, << 1001 >>, << 1004 >>} IN
  {X("GetClock", i, [vr |-> l]) : l \in lists(1005)}
  \cup {X("GetIntervalDecimal", i, [vr |-> l]) : l \in lists(1003)}
  \cup {X("SetClock", i, [vr |-> SubSeq(<< 1001, 1002, 1001 >>, 1, Len(v)), v |-> v]) :
          v \in {<< >>, << TRUE >>, << FALSE, FALSE >>, << TRUE, FALSE >>, << FALSE, FALSE, TRUE >>}}
  \cup IF ~HasClocks(s.m) THEN {} ELSE
       {Without(nul, X("GetClock", i, [vr |-> l])) : nul \in {"vr", "val"}, l \in {<< >>, << 1005 >>}}
       \cup {Without(nul, X("GetIntervalDecimal", i, [vr |-> l])) : nul \in {"vr", "val", "qual"}, l \in {<< >>, << 1003 >>}}
       \cup {Without(nul, X("SetClock", i, [vr |-> << 1001 >>, v |-> << TRUE >>])) : nul \in {"vr", "val"}}
PartEvents(s, i) == {X("ActivateModelPartition", i, [vr |-> p, t |-> f0]) : p \in {1001, 1002, 1003}}
PartitionEvents(s, i) ==
  IF s.ver = 2 THEN {} ELSE {X("ActivateModelPartition", i, [vr |-> 1001, t |-> f0])}

LogEvent(i, on, cats) == X("SetDebugLogging", i, [on |-> on, cats |-> cats, n |-> Len(cats)])
LogEvents(s, i) ==
  {LogEvent(i, TRUE, << >>), LogEvent(i, FALSE, << >>)}
LogCats(s, i) ==
  {LogEvent(i, on, cats) : on \in BOOLEAN,
     cats \in {<< >>, << "logStatusError" >>, << "logEvents" >>, << "logEvents", "logStatusError" >>,
               << "logStatusError", "logEvents" >>, << "nope" >>, << "logStatusError", "nope" >>,
               << "nope", "logStatusError" >>, << "logEvents", "nope" >>}}
  \cup {LogEvent(i, on, << name >>) : on \in BOOLEAN,        \* almost the name of a category
           name \in {"logEventsX", "logEvent", "logevents", "xlogEvents", "logEvents ", "logStatusErrors", "logStatusErro",
                     "LogStatusError", "logStatus", " logStatusError", "log", "l", "logEventslogStatusError", ""}}
  \cup {X("SetDebugLogging", i, [on |-> TRUE, cats |-> << >>, n |-> 1, nul |-> "list"])}

Offered(s, i) == IF s.ver = 2 THEN {} ELSE {Ev(f, i) : f \in NotImplemented3}

\* snapshots: slots "p", "q", buffers "m", "n"
SnapOnly(s, i) ==
  {X("GetFMUState", i, [k |-> k]) : k \in {"p", "q"}} \cup {X("SetFMUState", i, [k |-> k]) : k \in {"p", "q"}}
  \cup {X("FreeFMUState", i, [k |-> k]) : k \in {"p", "q"}}
Ser(f, i, k, b, d) == X(f, i, [k |-> k, b |-> b, delta |-> d])
SerOnly(s, i) ==
  {Ser("SerializeFMUState", i, k, "m", 0) : k \in {"p", "q"}}
  \cup (IF w.ser = << >> THEN {} ELSE {Ser("DeserializeFMUState", i, k, "m", 0) : k \in {"p", "q"}})
SerBad(s, i) ==
  {Ser("SerializeFMUState", i, "p", "m", d) : d \in {-1, 1}}
  \cup {Ser("DeserializeFMUState", i, "q", "m", d) : d \in {-1, 1}}
  \cup {X("SerializedFMUStateSize", i, [k |-> "p"])}
SnapOne(s, i) ==
  {X("GetFMUState", i, [k |-> "p"]), X("SetFMUState", i, [k |-> "p"]), X("FreeFMUState", i, [k |-> "p"]),
   X("SerializedFMUStateSize", i, [k |-> "p"]), Ser("SerializeFMUState", i, "p", "m", 0)}
  \cup (IF w.ser = << >> THEN {} ELSE {Ser("DeserializeFMUState", i, "p", "m", 0)})
\* with a slot and a buffer of its own
SnapOwn(s, i) ==
  {X(f, i, [k |-> i]) : f \in {"GetFMUState", "SetFMUState", "FreeFMUState", "SerializedFMUStateSize"}}
  \cup {Ser("SerializeFMUState", i, i, i, d) : d \in {0, 1}}
  \cup (IF i \notin DOMAIN w.ser THEN {} ELSE {Ser("DeserializeFMUState", i, i, i, d) : d \in {0, 1}})

\* communication steps: sizes as multiples of the internal step
GridEvents(s, i) == {Step(s, i, FMul(StepSize(s.m), FLit(h))) : h \in ToSet(Cfg.hs)}
BadSteps(s, i) ==
  LET h == StepSize(s.m) IN
  {X("DoStep", i, [t |-> FAdd(s.ncp, h), h |-> h]), X("DoStep", i, [t |-> FSub(s.ncp, h), h |-> h]),
   X("DoStep", i, [t |-> finf, h |-> h]), X("DoStep", i, [t |-> FNeg(finf), h |-> h]), X("DoStep", i, [t |-> fnan, h |-> h]),
   Step(s, i, f0), Step(s, i, FNeg(h)), Step(s, i, fnan), Step(s, i, FNeg(finf))}
  \cup (IF FLt(s.stop, finf) THEN {Step(s, i, FAdd(FSub(s.stop, s.ncp), h)), Step(s, i, finf)} ELSE {})

\* calls with invalid arguments
BadEvents(s, i) ==
  LET nx == NumX(s.m, s.d) nz == NumZ(s.m)
      T0 == IF "Int32" \in UsedTypes(s) THEN "Int32" ELSE "Float64"
      r0 == Min(Refs(s, T0)) IN
  ByType(Used(s), LAMBDA T : {GetE(i, T, << 99 >>, 1)})
  \o ByType(Used(s), LAMBDA T : {SetE(i, T, << 99 >>, << Dummy(s, T) >>)})
  \o << Without("vr", GetE(i, T0, << r0 >>, 1)), Without("val", GetE(i, T0, << r0 >>, 1)),
        X("SetFMUState", i, [k |-> "none"]), LogEvent(i, TRUE, << "nope" >>),
        X("GetContinuousStates", i, [n |-> nx + 1]), X("GetDerivatives", i, [n |-> nx + 1]),
        X("GetNominals", i, [n |-> nx + 1]), X("GetEventIndicators", i, [n |-> nz + 1]),
        X("SetContinuousStates", i, [v |-> [k \in 1..(nx + 1) |-> f0]]),
        X("CompletedIntegratorStep", i, [nul |-> "enter"]), X("CompletedIntegratorStep", i, [nul |-> "term"]),
        X("GetOutputDerivatives", i, [vr |-> << 1 >>, ord |-> << 2 >>]) >>
  \o (IF s.ver = 3 THEN << GetE(i, "Float64", << 0 >>, 2), GetE(i, "Float64", << 0, 0 >>, 1) >> ELSE << >>)
  \o SetToSeq(BadSteps(s, i))

\* values at and beyond the limits of variables that have some, alone and after a good value
Chars(n) == FoldLeft(LAMBDA a, b : a \o b, "", [k \in 1..n |-> "61"])
\* wrong numbers of values and missing arrays, for every type
LengthEvents(s, i) ==
  LET missing(T) == {"vr", "val"} \cup (IF T = "Binary" THEN {"size"} ELSE {})
      settable(T) == {vr \in Refs(s, T) : Set(s, T, vr, Get(s, T, vr)[2]).ok}
      one(T) == IF settable(T) # {} THEN Min(settable(T)) ELSE Min(Refs(s, T)) IN
  ByType(Used(s), LAMBDA T : {Without(nul, GetE(i, T, << one(T) >>, Size(s, T, one(T)))) : nul \in missing(T)})
  \o ByType(Used(s), LAMBDA T : {Without(nul, SetE(i, T, << one(T) >>, Present(s, T, one(T)))) : nul \in missing(T)})
  \o (IF s.ver = 2 THEN << >>
      ELSE ByType(Used(s), LAMBDA T :
             LET n == Size(s, T, one(T)) IN
             {GetE(i, T, << one(T) >>, k) : k \in {0, n - 1, n + 1} \ {-1}}
             \cup {GetE(i, T, << one(T), one(T) >>, k) : k \in {n, 2 * n - 1, 2 * n + 1} \ {-1}})
           \o ByType(Used(s), LAMBDA T :
             LET n == Size(s, T, one(T)) p == Present(s, T, one(T)) IN
             {SetE(i, T, << one(T) >>, Append(p, Dummy(s, T))), SetE(i, T, << one(T), one(T) >>, p)}
             \cup IF n = 0 THEN {} ELSE {SetE(i, T, << one(T) >>, Tail(p)), SetE(i, T, << one(T) >>, << >>)}))

LimitEvents(s, i) ==
  CASE s.m = "Stair" -> SetToSeq({SetE(i, "Int32", << 1 >>, << n >>) : n \in {9, 10, 11}}
                                    \cup {SetE(i, "Int32", << 1, 1 >>, << 4, 10 >>)})
    [] s.m = "StateSpace" -> SetToSeq({SetE(i, "UInt64", << vr >>, << n >>) : vr \in 1..3, n \in {"0", "5", "6", "100", "4294967297", "9223372036854775808"}}
                                    \cup {SetE(i, "UInt64", << 1, vr >>, << "2", "6" >>) : vr \in 1..3})
    [] s.m = "Feedthrough" ->
         (IF s.ver = 3
          THEN SetToSeq({SetE(i, "Int64", << 33 >>, << n >>) : n \in {"0", "2", "3", "-1", "4294967297"}})
               \o SetToSeq({SetE(i, "Binary", << 31 >>, << Chars(n) >>) : n \in {0, 128, 129}})
          ELSE SetToSeq({SetE(i, "Int32", << 33 >>, << n >>) : n \in {0, 2, 3, -1}}))
         \o SetToSeq({SetE(i, "String", << 29 >>, << Chars(n) >>) : n \in {0, 127, 128}})
    [] OTHER -> << >>

\* the ball around its event condition, and what an importer does in event mode
BallValues == {"1", "1e-12", "0", "-1e-12", "-0.5"}
BallSpeeds == {"-3", "-0.1", "0", "2"}
BallEvents(s, i) ==
  {SetE(i, "Float64", << 1, 3 >>, << FLit(a), FLit(b) >>) : a \in BallValues, b \in BallSpeeds}
  \cup {SetE(i, "Float64", << 6, 1, 3 >>, << FLit("1"), FLit("0"), FLit(b) >>) : b \in {"-0.1", "-0.09999999999999999"}}
TimeValues == {"0", "0.5", "0.99998", "1", "1.000001", "1.1", "2", "3"}
TimeEvents(s, i) == {X("SetTime", i, [t |-> FLit(t)]) : t \in TimeValues}

\* writes of new values, one variable of each type
Other(s, T, vr) ==
  LET v == Get(s, T, vr)[2] IN
  CASE T \in FloatTypes -> [k \in 1..Len(v) |-> FAdd(FMul(v[k], FLit("0.5")), FLit("0.25"))]
    [] T = "Boolean" -> IF s.ver = 2 THEN << IF v[1] THEN 0 ELSE 1 >> ELSE << ~v[1] >>
    [] T \in {"String", "Binary"} -> << IF Len(v[1]) < 8 THEN v[1] \o "6162" ELSE "7a" >>
    [] T \in {"Int64", "UInt64", "UInt32"} -> << IF v[1] = "2" THEN "1" ELSE "2" >>
    [] OTHER -> << IF v[1] = 2 THEN 1 ELSE 2 >>
MutateEvents(s, i) ==
  ByType(Used(s), LAMBDA T :
    LET new(vr) == IF T = "Boolean" /\ s.ver = 2 THEN << ~Get(s, T, vr)[2][1] >> ELSE Other(s, T, vr)
        ok == {vr \in Refs(s, T) : Set(s, T, vr, new(vr)).ok} IN
    IF ok = {} THEN {} ELSE {SetE(i, T, << Min(ok) >>, Other(s, T, Min(ok)))})

\* the file of the Resource FMU
FileEvents == {[f |-> "file", i |-> "-", path |-> << 47, 64, 47 >> \o NameY, c |-> b, T |-> "", nul |-> ""] :
                 b \in {-1, 66, 200}}

\* structural parameters
SizeEvents(s, i) == {SetE(i, "UInt64", << vr >>, << ToString(n) >>) : vr \in 1..3, n \in ToSet(Cfg.sizes)}
                    \cup IF 6 \notin ToSet(Cfg.sizes) THEN {} ELSE
                    {SetE(i, "UInt64", << vr >>, << n >>) : vr \in 1..3, n \in {"4294967298", "18446744073709551615"}}

\* matrices and vectors whose elements all differ
FillEvents(s, i) ==
  {LET n == Size(s, "Float64", vr) IN
     SetE(i, "Float64", << vr >>, [k \in 1..n |-> FMul(FOfInt((IF k % 2 = 0 THEN -1 ELSE 1) * (k + vr)), FLit("0.25"))]) :
     vr \in 4..9}

\* lists of unknowns and knowns
DerRefs(s) == IF s.m = "VanDerPol" THEN {2, 4, 1, 3, 5} ELSE {3, 5, 8, 2, 4, 6}
Lists(S) == {<< >>} \cup {<< a >> : a \in S} \cup {<< a, b >> : a \in S, b \in S}
Seeds == << FLit("1"), FLit("-2.5") >>
DerLists(s, i) ==
  {X("GetDirectionalDerivative", i, [un |-> u, kn |-> k, v |-> SubSeq(Seeds, 1, Len(k))]) :
     u \in Lists(DerRefs(s)), k \in Lists(DerRefs(s))}
  \cup (IF s.ver = 2 THEN {} ELSE
        {X("GetAdjointDerivative", i, [un |-> u, kn |-> k, v |-> SubSeq(Seeds, 1, Len(u))]) :
     u \in Lists(DerRefs(s)), k \in Lists(DerRefs(s))})

\* every variable with every type and number of values
AccessEvents(s, i) ==
  LET refs == UNION {Refs(s, T) : T \in TypeSet(s)} \cup {98}
      missing(T) == {"vr", "val"} \cup (IF T = "Binary" THEN {"size"} ELSE {}) IN
  ByType(AllTypes(s), LAMBDA T : {GetE(i, T, << vr >>, IF s.ver = 3 THEN n ELSE 1) : vr \in refs, n \in 0..2})
  \o ByType(AllTypes(s), LAMBDA T :
       {SetE(i, T, << vr >>, IF s.ver = 3 THEN [k \in 1..n |-> Dummy(s, T)] ELSE << Dummy(s, T) >>) :
          vr \in refs, n \in 0..2})
  \o ByType(AllTypes(s), LAMBDA T :
       {Without(nul, GetE(i, T, << vr >>, Size(s, T, vr))) : vr \in Refs(s, T), nul \in missing(T)})
  \o ByType(AllTypes(s), LAMBDA T :
       {Without(nul, SetE(i, T, << vr >>, Present(s, T, vr))) : vr \in Refs(s, T), nul \in missing(T)})
  \o ByType(AllTypes(s), LAMBDA T : {GetE(i, T, << >>, 0)})
  \o ByType(AllTypes(s), LAMBDA T : {SetE(i, T, << >>, << >>)})

\* activations, and what may be done from inside a callback
Activations(s, i) ==
  IF Len(SelectSeq(path, LAMBDA e : e.f = "ActivateModelPartition")) >= Cfg.acts \/ Len(s.stk) > Cfg.nest THEN {}
  ELSE {X("ActivateModelPartition", i, [vr |-> p, t |-> FLit(t)]) : p \in InClocks, t \in ToSet(Cfg.ts)}
       \cup (IF Cfg.inputs /\ s.d.inp = 0 THEN {SetE(i, "Int32", << 2006 >>, << 7 >>)} ELSE {})

-----------------------------------------------------------------------------
Group(g, s, i) ==
  CASE g = "mode"      -> SetToSeq(ModeEvents(s, i))
    [] g = "read"      -> ReadEvents(s, i)
    [] g = "write"     -> WriteEvents(s, i)
    [] g = "writeall"  -> WriteAll(s, i)
    [] g = "vector"    -> SetToSeq(VectorEvents(s, i))
    [] g = "der"       -> SetToSeq(DerEvents(s, i))
    [] g = "step"      -> SetToSeq(StepEvents(s, i))
    [] g = "grid"      -> SetToSeq(GridEvents(s, i))
    [] g = "badsteps"  -> SetToSeq(BadSteps(s, i))
    [] g = "update"    -> SetToSeq(UpdateEvents(s, i))
    [] g = "updates"   -> SetToSeq(UpdateSome(s, i))
    [] g = "status"    -> SetToSeq(StatusEvents(s, i))
    [] g = "clock"     -> SetToSeq(ClockEvents(s, i))
    [] g = "clocks"    -> SetToSeq(ClockLists(s, i))
    [] g = "partition" -> SetToSeq(PartitionEvents(s, i))
    [] g = "parts"     -> SetToSeq(PartEvents(s, i))
    [] g = "acts"      -> SetToSeq(Activations(s, i))
    [] g = "log"       -> SetToSeq(LogEvents(s, i))
    [] g = "logcats"   -> SetToSeq(LogCats(s, i))
    [] g = "offered"   -> SetToSeq(Offered(s, i))
    [] g = "snap"      -> SetToSeq(SnapOnly(s, i))
    [] g = "ser"       -> SetToSeq(SerOnly(s, i))
    [] g = "serbad"    -> SetToSeq(SerBad(s, i))
    [] g = "snapone"   -> SetToSeq(SnapOne(s, i))
    [] g = "snapown"   -> SetToSeq(SnapOwn(s, i))
    [] g = "limits"    -> LimitEvents(s, i)
    [] g = "lengths"   -> LengthEvents(s, i)
    [] g = "bad"       -> BadEvents(s, i)
    [] g = "ball"      -> SetToSeq(BallEvents(s, i))
    [] g = "time"      -> SetToSeq(TimeEvents(s, i))
    [] g = "mutate"    -> MutateEvents(s, i)
    [] g = "file"      -> SetToSeq(FileEvents)
    [] g = "size"      -> SetToSeq(SizeEvents(s, i))
    [] g = "fill"      -> SetToSeq(FillEvents(s, i))
    [] g = "derlists"  -> SetToSeq(DerLists(s, i))
    [] g = "access"    -> AccessEvents(s, i)
    [] g = "events"    -> SetToSeq({Ev("EnterEventMode", i), Ev("EnterContinuousTimeMode", i)}
                                      \cup IF s.ver = 3 THEN {Ev("EnterStepMode", i)} ELSE {})
    [] g = "reset"     -> SetToSeq({Ev("Reset", i)})
    [] g = "config"    -> IF s.ver = 2 THEN << >>
                          ELSE << Ev("EnterConfigurationMode", i), Ev("ExitConfigurationMode", i) >>
    [] g = "init"      -> SetToSeq({X("EnterInitializationMode", i, NoStop), Ev("ExitInitializationMode", i)})

\* while a partition runs, the FMU decides what happens next; inside a callback
\* the environment may make further calls before it returns
Alphabet(i) ==
  LET s == w.inst[i]
      free == FlattenSeq([k \in 1..Len(Cfg.alpha) |-> Group(Cfg.alpha[k], s, i)]) IN
  IF s.stk = << >> THEN free
  ELSE CASE Top(s).want \in {"lock", "unlock", "clock"} -> << X("cb", i, [k |-> Top(s).want]) >>
         [] Top(s).want = "ret" -> << Ev("ampret", i) >>
         [] OTHER -> << Ev("cbret", i) >>
                     \o (IF "acts" \in ToSet(Cfg.alpha) THEN SetToSeq(Activations(s, i)) ELSE << >>)

\* a call on one instance can be made from inside a callback of another one, and is over before the callback is
Busy == {i \in DOMAIN w.inst : w.inst[i].stk # << >>}
Inner == LET i == path[Len(path)].i IN IF i \in Busy THEN i ELSE CHOOSE j \in Busy : TRUE
Callable == CASE Busy = {} -> DOMAIN w.inst
              [] Top(w.inst[Inner]).want \in {"lock", "unlock", "clock", "ret"} -> {Inner}
              [] OTHER -> {Inner} \cup (DOMAIN w.inst \ Busy)

Events == LET is == SetToSeq(Callable) IN FlattenSeq([k \in 1..Len(is) |-> Alphabet(is[k])])

-----------------------------------------------------------------------------
(* What the properties demand of the specification, on one transition *)

ModeFunctions == {"EnterInitializationMode", "ExitInitializationMode", "EnterEventMode",
  "EnterContinuousTimeMode", "EnterStepMode", "EnterConfigurationMode", "ExitConfigurationMode",
  "Terminate", "Reset", "SetFMUState"}
\* functions whose failure may leave a trace: values set before the offending one,
\* categories named before the unknown one, clocks read before the unknown one, and the
\* counter beyond its bound
Partly == {"Set", "SetDebugLogging", "GetClock", "GetIntervalDecimal", "UpdateDiscreteStates", "DoStep"}
Pieces == {"ActivateModelPartition", "cb", "cbret", "ampret"}
Reads == {"Get", "GetContinuousStates", "GetDerivatives", "GetNominals", "GetEventIndicators",
  "GetNumberOfContinuousStates", "GetNumberOfEventIndicators", "GetDirectionalDerivative",
  "GetAdjointDerivative", "GetOutputDerivatives", "GetStatus", "CompletedIntegratorStep"}

Body3(s) == Len(SelectSeq(s.stk, LAMBDA fr : fr.p = 1003 /\ fr.want \in {"lock", "inlock"}))

Theorem(ev, r) == ev.f = "file" \/
  LET i == ev.i s == w.inst[i] t == r.w.inst[i] IN
  \* C01, C02: only mode functions and errors change the mode, and where a function is accepted is the table's business
  /\ (r.st = OK /\ ev.f \notin ModeFunctions) => t.mode = s.mode
  /\ (r.st = OK /\ ev.f \notin NotImplemented3 \cup {"cb", "cbret", "ampret"}) => s.mode \in Allowed(s.ver, ev.f, ev.T)
  \* C03
  /\ (r.st = Error /\ ev.f \notin Partly \cup Pieces) =>
        LET kept == [s EXCEPT !.dirty = t.dirty, !.d = IF s.m = "Resource" THEN t.d ELSE s.d] IN   \* the file may be read now
        t \in {kept, [kept EXCEPT !.mode = "Terminated"]}
  /\ (r.st = Error /\ ev.f \in {"Set", "UpdateDiscreteStates", "DoStep"}) => t.mode = "Terminated"
  /\ (s.mode = "Terminated" /\ ev.f \notin {"Reset", "SetFMUState"}) => t.mode = "Terminated"
  \* C05, C06
  /\ ev.f = "Reset" => t = ResetInstance(s) /\ r.st = OK
  /\ (ev.f = "SetFMUState" /\ r.st = OK) => Snapshot(t) = w.snap[ev.k] /\ t.log = s.log /\ t.lerr = s.lerr
  /\ \A k \in DOMAIN w.snap : (k \notin {IF "k" \in DOMAIN ev THEN ev.k ELSE ""} \/ ev.f \notin
        {"GetFMUState", "FreeFMUState", "DeserializeFMUState"}) => k \in DOMAIN r.w.snap /\ r.w.snap[k] = w.snap[k]
  \* C07
  /\ (ev.f = "DeserializeFMUState" /\ r.st = OK) => r.w.snap[ev.k] = w.ser[ev.b]
  /\ (ev.f \in {"SerializeFMUState", "DeserializeFMUState"} /\ ev.delta # 0) => r.st = Error /\ r.w.ser = w.ser
  \* C08
  /\ \A j \in DOMAIN w.inst \ {i} : r.w.inst[j] = w.inst[j]
  \* C09, C20
  /\ (ev.f = "DoStep" /\ r.st # Error) =>
        /\ t.n >= s.n /\ FLe(s.time, t.time)
        /\ t.n > s.n => t.time = FAdd(t.start, FMul(FOfInt(t.n), StepSize(t.m)))
        /\ (t.n = s.n) => t.time = s.time
        /\ Len(r.cb) = IF s.iu THEN t.n - s.n ELSE 0
  /\ (ev.f = "DoStep" /\ r.st = Error /\ s.m # "Stair") => t.time = s.time
  \* C16: what is written is never a variable that cannot be written
  /\ (ev.f = "Set" /\ r.st = OK) => t.time = s.time
  \* C23
  /\ ev.f \in Reads /\ s.m # "Resource" /\ r.st = OK => r.w = w
  \* C19
  /\ t.m = "Clocks" => t.d.tot + Body3(t) = t.d.t1 + t.d.t2 + t.d.t3

\* C33: calls on different instances can be exchanged, whatever they are
Same(a, b) == a.st = b.st /\ a.x = b.x /\ a.f = b.f /\ a.lg = b.lg /\ a.cb = b.cb
Commute(ev, r) == \A j \in DOMAIN w.inst \ {ev.i} : LET es == Alphabet(j) IN \A k \in 1..Len(es) :
  \E o \in {Call(w, es[k])} : \E ro \in {Call(r.w, es[k])} : \E or \in {Call(o.w, ev)} :
    ro.w = or.w /\ Same(ro, o) /\ Same(or, r)

-----------------------------------------------------------------------------
Settled == \A i \in DOMAIN w.inst : w.inst[i].stk = << >>

Init == /\ c \in 1..Len(Configs)
        /\ w = FoldLeft(LAMBDA a, e : Call(a, e).w, EmptyWorld, Configs[c].prefix)
        /\ path = << >>

More == IF "acts" \in ToSet(Cfg.alpha) THEN TRUE ELSE Len(path) < Cfg.depth

\* the calls possible here, with what becomes of them; nothing is changed
Show == /\ ~Cfg.leaves /\ Settled
        /\ PrintT("@@" \o ToJson([c |-> c, p |-> path,
              e |-> LET es == Events IN
                    [k \in 1..Len(es) |-> LET r == Call(w, es[k]) IN
                       [ev |-> es[k], st |-> r.st, same |-> r.w = w]]]))
        /\ FALSE
Leaf == /\ Cfg.leaves /\ Settled /\ path # << >> /\ (Events = << >> \/ ~More)
        /\ PrintT("@@" \o ToJson([c |-> c, p |-> path, e |-> << >>]))
        /\ FALSE

Walk == /\ More
        /\ \E es \in {Events} : \E k \in 1..Len(es) : \E ev \in {es[k]} : \E r \in {Call(w, ev)} :
             /\ Assert(Theorem(ev, r), << "theorem", path, ev, r >>)
             /\ Cfg.commute => Assert(Commute(ev, r), << "commute", path, ev, r >>)
             /\ w' = r.w /\ path' = Append(path, ev) /\ c' = c

Next == (More /\ Show) \/ Leaf \/ Walk

Spec == Init /\ [][Next]_<<c, w, path>>

ModesNow == [i \in DOMAIN w.inst |-> w.inst[i].mode]
View == CASE Cfg.view = "mode" -> << c, ModesNow >>
          [] Cfg.view = "last" -> << c, ModesNow, IF path = << >> THEN "" ELSE path[Len(path)].f >>
          [] Cfg.view = "full" -> << c, w >>
          [] Cfg.view = "path" -> << c, path >>
=============================================================================
