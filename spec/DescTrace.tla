----------------------------- MODULE DescTrace -----------------------------
(***************************************************************************)
(* Validation of executions of the FMUs against their model descriptions.  *)
(***************************************************************************)
EXTENDS Description, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
Descs  == JsonDeserialize(IOEnv.DESCRIPTIONS)

VARIABLES tid, l, w

Nobody == [ph |-> "", kind |-> "", fresh |-> FALSE, sz |-> << >>, val |-> << >>, iu |-> FALSE, first |-> FALSE,
           at |-> "", em |-> FALSE]

Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k] \/ FNear(a[k], b[k])
Values(ev) == IF ev.T \in {"Float64", "Float32"} THEN ev.fv ELSE ev.x
\* status promised, or -1; and whether the results are as promised
St(D, ev) ==
  IF ev.f \in {"Instantiate", "about"} THEN OK
  ELSE IF w.ph = "" THEN -1
  ELSE CASE ev.f = "Get" -> GetStatus(D, w, ev)
         [] ev.f = "Set" -> SetStatus(D, w, ev)
         [] ev.f = "GetClock" ->
              LET vs == Typed(D, "Clock", ev.vr[1]) IN
              IF vs = {} THEN Error ELSE IF \A v \in vs : v.causality = "output" THEN OK ELSE -1
         [] ev.f = "GetIntervalDecimal" ->
              LET vs == Typed(D, "Clock", ev.vr[1]) IN
              IF vs = {} THEN Error
              ELSE IF \A v \in vs : v.causality = "input" /\ v.interval \in {"countdown", "changing"} THEN OK ELSE -1
         [] ev.f = "GetNumberOfContinuousStates" -> OK
         [] ev.f = "GetNumberOfEventIndicators" -> OK
         [] ev.f \in {"GetContinuousStates", "GetDerivatives", "GetNominals"} -> IF ev.n = NumX(D, w) THEN OK ELSE Error
         [] ev.f = "GetEventIndicators" -> IF ev.n = NumZ(D, w) THEN OK ELSE Error
         [] ev.f = "SetContinuousStates" -> IF Len(ev.v) = NumX(D, w) THEN OK ELSE Error
         [] ev.f \in {"GetFMUState", "SetFMUState", "FreeFMUState"} -> IF D.caps[w.kind].snap THEN OK ELSE -1
         [] ev.f \in {"SerializedFMUStateSize", "SerializeFMUState", "DeserializeFMUState"} ->
              IF D.caps[w.kind].ser THEN OK ELSE -1
         [] ev.f = "GetDirectionalDerivative" -> IF D.caps[w.kind].dir THEN OK ELSE -1
         [] ev.f = "GetAdjointDerivative" -> IF D.caps[w.kind].adj THEN OK ELSE -1
         [] ev.f = "SetDebugLogging" -> IF Elems(ev.cats) \subseteq Elems(D.cats) THEN OK ELSE Error
         [] ev.f = "DoStep" -> OK
         [] OTHER -> -1

ReadOk(D, ev) ==
  LET v == Var(D, ev.vr[1]) IN
  /\ Len(Values(ev)) = ev.nv
  /\ v.vr \in DOMAIN w.val => Values(ev) = w.val[v.vr]
  /\ w.fresh /\ HasStart(v) => Values(ev) = v.start

slack == FLit("2e-5")
\* from the start: one callback per internal step, on the grid the declared step size gives
StepsOk(D, ev) ==
  ~(w.iu /\ w.first /\ D.iu /\ D.hstep) \/
  /\ \A k \in 1..Len(ev.cb) : FNear(ev.cb[k][2], FAdd(ev.t, FMul(FOfInt(k), D.step)))
  /\ FLe(FAbs(FSub(FMul(FOfInt(Len(ev.cb)), D.step), ev.h)), FMax(slack, FMul(FLit("1e-5"), ev.h)))

ResultsOk(D, ev) ==
  CASE ev.f = "Instantiate" -> InstanceOk(D, ev) = -1 \/ ev.x[1] = (InstanceOk(D, ev) = 1)
    \* the version, and in FMI 2.0 the name of the types used
    [] ev.f = "about" -> ev.x = << D.fmi >> \o (IF D.ver = 2 THEN << "default" >> ELSE << >>)
    [] ev.f = "Get" -> ReadOk(D, ev)
    [] ev.f = "GetNumberOfContinuousStates" -> ev.x = << NumX(D, w) >>
    [] ev.f = "GetNumberOfEventIndicators" -> ev.x = << NumZ(D, w) >>
    [] ev.f = "GetContinuousStates" -> Known(w, States(D)) => Same(ev.fv, Flat(w, States(D)))
    [] ev.f = "GetDerivatives" -> Known(w, DerRefs(D)) => Same(ev.fv, Flat(w, DerRefs(D)))
    [] ev.f = "GetEventIndicators" -> D.ver = 3 /\ Known(w, IndRefs(D)) => Same(ev.fv, Flat(w, IndRefs(D)))
    [] ev.f = "GetNominals" -> Same(ev.fv, NominalsOf(D, w))
    [] ev.f = "DoStep" -> StepsOk(D, ev)
    [] OTHER -> TRUE

Faults(D, ev) ==
  IF ev.f = "description" THEN (IF WellFormed(D) THEN {} ELSE {"description"})
  ELSE LET want == St(D, ev) IN
       IF want = -1 THEN {}
       ELSE IF ev.st # want THEN {"status"}
       ELSE IF want = OK /\ ~ResultsOk(D, ev) THEN {"outputs"}
       ELSE {}

-----------------------------------------------------------------------------
\* what is set can be read
Put(D, ev) == LET v == Var(D, ev.vr[1]) IN
              IF v.causality \in {"parameter", "input"} /\ ~Structural(v) THEN ev.vr[1] :> ev.v ELSE << >>
After(D, ev) ==
  IF ev.f = "description" THEN Nobody
  ELSE IF ev.f = "Instantiate"
  THEN IF ev.x[1] THEN [ph |-> "Instantiated", kind |-> ev.kind, fresh |-> TRUE, sz |-> StartSizes(D), val |-> << >>,
                        iu |-> ev.iu, first |-> FALSE, at |-> "", em |-> ev.em]
       ELSE Nobody
  ELSE IF ev.f = "Reset"
  THEN IF ev.st = OK THEN [w EXCEPT !.ph = "Instantiated", !.fresh = TRUE, !.sz = StartSizes(D), !.val = << >>, !.at = ""] ELSE w
  ELSE IF ev.st # OK THEN [w EXCEPT !.ph = ""]
  ELSE CASE ev.f = "Get" /\ w.ph # "" /\ Var(D, ev.vr[1]).causality # "independent" ->
              [w EXCEPT !.val = (ev.vr[1] :> Values(ev)) @@ @]
         [] ev.f = "Set" /\ w.ph # "" ->
              [w EXCEPT !.val = Put(D, ev) @@ Keep(D, w, ev.vr[1]), !.fresh = FALSE,
                        !.sz = IF ev.vr[1] \in DOMAIN @ THEN [@ EXCEPT ![ev.vr[1]] = IntOf(ev.v[1])] ELSE @]
         [] ev.f = "SetContinuousStates" -> [w EXCEPT !.val = << >>, !.fresh = FALSE]
         [] ev.f = "EnterInitializationMode" -> [w EXCEPT !.ph = "Init", !.val = << >>]
         [] ev.f = "ExitInitializationMode" -> [w EXCEPT !.ph = "Run", !.val = << >>, !.fresh = FALSE, !.first = TRUE,
                        !.at = IF w.kind = "ME" \/ (w.kind = "CS" /\ w.em) THEN "Event" ELSE IF w.kind = "CS" THEN "Step" ELSE ""]
         [] ev.f = "EnterConfigurationMode" -> [w EXCEPT !.ph = "Config"]
         [] ev.f = "ExitConfigurationMode" -> [w EXCEPT !.ph = "Instantiated", !.val = << >>]
         [] ev.f \in {"EnterContinuousTimeMode", "EnterStepMode", "EnterEventMode", "DoStep", "SetFMUState",
                       "UpdateDiscreteStates", "Terminate"} ->
              [w EXCEPT !.val = << >>, !.fresh = FALSE, !.first = FALSE,
                        !.at = CASE ev.f = "EnterContinuousTimeMode" -> "Continuous"
                                 [] ev.f = "EnterStepMode" -> "Step"
                                 [] ev.f = "EnterEventMode" -> "Event"
                                 [] ev.f \in {"SetFMUState", "Terminate"} -> ""
                                 [] OTHER -> @]
         [] OTHER -> w

Init == tid \in 1..Len(Traces) /\ l = 1 /\ w = Nobody

Next ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1 /\ tid' = tid
  /\ \E ev \in {Traces[tid][l]} : \E D \in {Descs[Traces[tid][1].d]} : \E what \in {Faults(D, ev)} :
       IF what # {}
       THEN PrintT(<< "MISMATCH", tid, l, what, ToJson([st |-> IF ev.f = "description" THEN 0 ELSE St(D, ev), val |-> w.val, sz |-> w.sz, phase |-> w.ph]) >>)
            /\ FALSE
       ELSE w' = After(D, ev)

Spec == Init /\ [][Next]_<<tid, l, w>>
Where == << tid, l >>
=============================================================================
