------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded executions.  Each line of a trace is one call    *)
(* with its arguments and everything the caller observed.  The behaviour   *)
(* of the specification is deterministic, so a trace is accepted iff TLC   *)
(* reaches its end; the state space of one run is the set of all prefixes  *)
(* of all traces.                                                          *)
(*                                                                         *)
(* A disagreement is reported for the property under test only if it is    *)
(* about what that property speaks of (Concern).  Otherwise the rest of    *)
(* the trace is followed without the specification: only lines that are    *)
(* required to repeat a reference line of the same trace are still judged. *)
(***************************************************************************)
EXTENDS FMU, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
P      == IOEnv.PROPERTY

VARIABLES tid, l, w, lost

-----------------------------------------------------------------------------
absTol == FLit("1e-12")
NearFor(m, a, b) == IF m = "Feedthrough" THEN a = b ELSE FNear(a, b) \/ FNearAbs(a, b, absTol)
AllNear(m, p, q) == Len(p) = Len(q) /\ \A k \in 1..Len(p) : NearFor(m, p[k], q[k])

ModelOf(ww, ev) == IF ev.f \notin {"Instantiate", "file", "world"} /\ ev.i \in DOMAIN ww.inst THEN ww.inst[ev.i].m ELSE ""

StatusOk(ev, r) == ev.st = r.st
OutputsOk(m, ev, r) ==
  r.st = OK => /\ Len(ev.x) = Len(r.x)
               /\ \A k \in 1..Len(ev.x) : ev.x[k] = r.x[k]
               /\ AllNear(m, ev.fv, r.f)
\* a message names the environment, the status, the category and (FMI 2.0) the instance
MsgOk(ev, msg, cat) == msg[1] = ev.i /\ msg[2] = Error /\ msg[3] = cat /\ msg[4]
LogOk(ev, r) ==
  CASE r.lg = "none" -> Len(ev.logs) = 0
    [] r.lg = "some" -> Len(ev.logs) >= 1 /\ \A k \in 1..Len(ev.logs) : MsgOk(ev, ev.logs[k], "logStatusError")
    [] r.lg = "one"  -> Len(ev.logs) = 1 /\ MsgOk(ev, ev.logs[1], "error")
    [] r.lg = "short" -> Len(ev.logs) <= 1 /\ \A k \in 1..Len(ev.logs) : ev.logs[k][1] = ev.i /\ ev.logs[k][2] = Error
    [] r.lg = "any"  -> \A k \in 1..Len(ev.logs) : MsgOk(ev, ev.logs[k], "logStatusError")
\* << environment, time, flags, read ok, value >>
CbFlags == << FALSE, TRUE, TRUE, FALSE >>
CbOk(m, ev, r) ==
  /\ Len(ev.cb) = Len(r.cb)
  /\ \A k \in 1..Len(ev.cb) :
       /\ ev.cb[k][1] = ev.i
       /\ NearFor(m, ev.cb[k][2], r.cb[k][1])
       /\ ev.cb[k][3] = CbFlags
       /\ ev.cb[k][4] # 1 => ev.cb[k][4] = 0 /\ NearFor(m, ev.cb[k][5], r.cb[k][2])
MemOk(ev) == ev.ov = 0
\* the mode the import library has noted; it has one name for both kinds of steps
ModeOk(ev, r) == ("imode" \in DOMAIN ev /\ ev.imode # "" /\ ev.i \in DOMAIN r.w.inst) =>
  ev.imode = IF r.w.inst[ev.i].mode = "StepComplete" THEN "StepMode" ELSE r.w.inst[ev.i].mode
\* << blocks, bytes, handles >> held after the call: nothing once every instance and every snapshot is
\* released, and no more than at the same point of the previous repetition
Empty(w2) == DOMAIN w2.inst = {} /\ DOMAIN w2.snap = {}
HeldOk(t, ev, r) == "held" \in DOMAIN ev =>
  /\ Empty(r.w) => ev.held = << 0, 0, 0 >>
  /\ ev.tw # 0 => LET was == Traces[t][ev.tw].held IN
       /\ ev.held[1] <= was[1] /\ ev.held[3] <= was[3]
       /\ "imode" \in DOMAIN ev \/ ev.held[2] <= was[2]

\* what other instances have given out before stays as it was
SpoiltOk(ev) == "spoilt" \notin DOMAIN ev

\* what disagrees, in the order of inspection
Faults(t, ww, ev, r) ==
  LET m == ModelOf(ww, ev) IN
  (IF StatusOk(ev, r) THEN {} ELSE {"status"})
  \cup (IF ~StatusOk(ev, r) \/ OutputsOk(m, ev, r) THEN {} ELSE {"outputs"})
  \cup (IF LogOk(ev, r) THEN {} ELSE {"log"})
  \cup (IF CbOk(m, ev, r) THEN {} ELSE {"callback"})
  \cup (IF MemOk(ev) THEN {} ELSE {"memory"})
  \cup (IF ModeOk(ev, r) THEN {} ELSE {"mode"})
  \cup (IF HeldOk(t, ev, r) THEN {} ELSE {"held"})
  \cup (IF SpoiltOk(ev) THEN {} ELSE {"spoilt"})

-----------------------------------------------------------------------------
(* What each property speaks of *)

SameResults(a, b) == /\ a.st = b.st /\ Len(a.x) = Len(b.x) /\ a.fv = b.fv
                     /\ \A k \in 1..Len(a.x) : a.x[k] = b.x[k]
SameCallbacks(a, b) == /\ Len(a.cb) = Len(b.cb)
                       /\ \A k \in 1..Len(a.cb) : Tail(a.cb[k]) = Tail(b.cb[k])
\* for C20 and C21 the reference run has no callback, or another logging setting
SameObs(a, b) == SameResults(a, b) /\ (P \in {"C20", "C21"} \/ SameCallbacks(a, b))

\* relational properties: the line has a reference line in the same trace and differs from it
Differs(t, ev) == ev.tw # 0 /\ ~SameObs(ev, Traces[t][ev.tw])

TimeRead(ev) == ev.f = "Get" /\ ev.T = "Float64" /\ \A k \in 1..Len(ev.vr) : ev.vr[k] = 0
SO == {"status", "outputs"}

Relational == P \in {"C05", "C06", "C07", "C08", "C20", "C21", "C23"}
SOC == {"status", "outputs", "callback"}

Concern(t, ev, what) ==
  IF what = {} THEN FALSE
  ELSE IF "memory" \in what THEN TRUE
  ELSE CASE P \in {"C01", "C02"} -> "status" \in what
         [] P = "C08" /\ "spoilt" \in what -> TRUE
         [] P \in {"C05", "C06", "C07", "C08", "C23"} ->
              what \cap SOC # {} /\ (Differs(t, ev) \/ ev.own)
         [] P = "C09" -> \/ ev.f \in {"DoStep", "GetStatus"} /\ what \cap SO # {}
                         \/ TimeRead(ev) /\ what \cap SO # {}
         [] P = "C20" -> "callback" \in what \/ (what \cap SO # {} /\ Differs(t, ev))
         [] P = "C21" -> \/ "log" \in what
                         \/ ev.f = "SetDebugLogging" /\ "status" \in what
                         \/ what \cap SO # {} /\ Differs(t, ev)
         [] P \in {"C30", "C33", "C35"} -> what # {}
         [] P = "C31" -> "held" \in what
         [] P = "C32" -> ev.own /\ (what \cap {"status", "outputs", "held"} # {} \/ ("log" \in what /\ ev.hit > 0))
         [] OTHER -> what \cap SO # {}

-----------------------------------------------------------------------------
Init == tid \in 1..Len(Traces) /\ l = 1 /\ w = EmptyWorld /\ lost = FALSE

Report(kind, what, exp) == PrintT(<< kind, tid, l, what, ToJson(exp) >>)

Expected(ev, r) ==
  [st |-> r.st, x |-> r.x, f |-> [k \in 1..Len(r.f) |-> FStr(r.f[k])], lg |-> r.lg, ncb |-> Len(r.cb),
   mode |-> IF ModelOf(w, ev) # "" THEN w.inst[ev.i].mode ELSE ""]

Next ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1 /\ tid' = tid
  /\ \E ev \in {Traces[tid][l]} :
       IF lost
       THEN IF Relational /\ Differs(tid, ev)
            THEN Report("MISMATCH", {"reference"}, [line |-> Traces[tid][ev.tw]]) /\ FALSE
            ELSE UNCHANGED << w, lost >>
       ELSE \E r \in {IF "hit" \in DOMAIN ev /\ ev.hit > 0 THEN Short(w, ev) ELSE Call(w, ev)} : \E what \in {Faults(tid, w, ev, r)} :
            IF Concern(tid, ev, what)
            THEN Report("MISMATCH", what, Expected(ev, r)) /\ FALSE
            ELSE IF what \cap SO = {}                \* agreement, or another property's business
            THEN w' = r.w /\ UNCHANGED lost
            ELSE Report("SKIPPED", what, Expected(ev, r)) /\ w' = EmptyWorld /\ lost' = TRUE

Spec == Init /\ [][Next]_<<tid, l, w, lost>>
Where == << tid, l >>
=============================================================================
