----------------------------- MODULE ImportTrace -----------------------------
(***************************************************************************)
(* Validation of recorded executions of the import library.                *)
(***************************************************************************)
EXTENDS Importer, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)
P      == IOEnv.PROPERTY

VARIABLES tid, l, w

\* a failure has at least the severity of an error
StatusOk(ev, r) == IF r.miss THEN ev.st >= Error ELSE ev.st = r.st

Shown(x, a, cbs) ==                     \* what the FMU must see of an argument of an instantiation
  CASE a.n = "logMessage" -> IF x.lm THEN << cbs[1] >> ELSE << "(nil)" >>
    [] OTHER -> Passed(a)
SeenOk(x, ev) ==
  LET a == ev.arrived[1] IN
  /\ a.fn = ev.fn
  /\ Len(a.args) = Len(ev.args)
  /\ IF IsNew(ev.fn)
     THEN /\ \A k \in 1..Len(ev.args) : \/ ev.args[k].n = "functions" /\ a.args[k] # << "(nil)" >>
                                        \/ ev.args[k].n # "functions" /\ a.args[k] = Shown(x, ev.args[k], ev.cbs)
          /\ ev.ver = 2 => Len(ev.cbs) = 5 /\ ev.cbs[5] = x.ptr /\ ev.cbs[1] # "(nil)"
          /\ ev.ver = 3 /\ x.lm => ev.cbs[1] # "(nil)"
     ELSE /\ ev.fn \notin Consts => a.comp = x.comp
          /\ \A k \in 1..Len(ev.args) : a.args[k] = Passed(ev.args[k])
ArrivedOk(x, ev, r) == IF r.pass THEN Len(ev.arrived) = 1 /\ SeenOk(x, ev) ELSE Len(ev.arrived) = 0

OutputsOk(ev, r) == r.pass => IF ev.fn \in Consts THEN ev.texts = << ev.text >>
                              ELSE \A k \in 1..Len(ev.args) : ev.outs[k] # << >> => ev.got[k] = ev.outs[k]

Logged(x, r) == x.lf /\ r.pass
LogStatus(ev, r) == IF ev.fn \in Consts \cup {"FreeInstance"} THEN OK ELSE r.st
LogOk(x, ev, r) ==
  IF Short(w, ev) /\ Len(ev.logs) = 0 THEN TRUE
  ELSE IF Short(w, ev) /\ r.miss THEN FALSE
  ELSE IF Short(w, ev) /\ Logged(x, r) THEN Len(ev.logs) = 1 /\ ev.logs[1][1] = ev.i /\ ev.logs[1][2] = LogStatus(ev, r)
  ELSE IF Logged(x, r)
  THEN /\ Len(ev.logs) = 1
       /\ ev.logs[1][1] = ev.i /\ ev.logs[1][2] = LogStatus(ev, r)
       /\ Starts(ev.logs[1][3], FullName(ev.ver, ev.fn) \o "(")
  ELSE Len(ev.logs) = 0
Outs(ev) == [k \in 1..Len(ev.args) |-> IF ev.args[k].k \in {"out", "one", "info"} THEN ev.got[k] ELSE << >>]
Text(ev) == IF ev.fn \in Consts \cup {"FreeInstance"} THEN FullName(ev.ver, ev.fn) \o "()"
            ELSE CallText(ev.ver, ev.fn, ev.args, Outs(ev), ev.cbs)
TextOk(x, ev, r) == Logged(x, r) /\ ~Short(w, ev) /\ Len(ev.logs) = 1 => ev.logs[1][3] = Text(ev)

MessagesOk(x, ev, r) ==
  IF r.miss /\ Short(w, ev) THEN TRUE
  ELSE IF r.miss THEN x.lm => Len(ev.heard) >= 1 /\ \A k \in 1..Len(ev.heard) : ev.heard[k][1] = ev.i /\ ev.heard[k][2] >= Error
  ELSE IF r.pass /\ ev.fn \notin Consts \cup {"FreeInstance"} THEN ev.heard = Heard(x, ev.i, ev.says)
  ELSE Len(ev.heard) = 0

ModeOk(ev, r) == r.mode \in {"", "?"} \/ ev.mode = r.mode
KindOk(ww, ev, r) == ev.fn \in Consts \/ ww[ev.i].kind = "" \/ ev.kind = KindNo[ww[ev.i].kind]

\* once every instance is released the library holds nothing
HeldOk(ev, r) == ("held" \in DOMAIN ev /\ DOMAIN r.w = {}) => ev.held = << 0, 0, 0 >>

Say(b, name) == IF b THEN {} ELSE {name}
Faults(ev, r) ==
  IF ev.f # "call" THEN Say(StatusOk(ev, r), "status") \cup Say(HeldOk(ev, r), "held")
  ELSE LET x == w[ev.i] IN
       Say(StatusOk(ev, r), "status") \cup Say(ArrivedOk(x, ev, r), "arrival")
       \cup Say(OutputsOk(ev, r), "outputs") \cup Say(LogOk(x, ev, r), "log")
       \cup (IF P \in {"C25", "C32", "C35"} THEN Say(TextOk(x, ev, r), "text") ELSE {})
       \cup Say(MessagesOk(x, ev, r), "messages") \cup Say(ModeOk(ev, r) /\ KindOk(r.w, ev, r), "mode")
       \cup Say(ev.ov = 0, "memory")

Concern(ev, what) ==
  IF "memory" \in what THEN TRUE
  ELSE CASE P = "C24" -> what \cap {"status", "arrival", "outputs", "log", "messages"} # {}
         [] P = "C25" -> "text" \in what
         [] P = "C31" -> "held" \in what
         [] P \in {"C32", "C35"} -> what # {}
         [] P = "C29" -> \/ "mode" \in what
                         \/ ev.f = "call" /\ ev.fn = "ExitConfigurationMode" /\ what \cap {"status", "arrival"} # {}

-----------------------------------------------------------------------------
Init == tid \in 1..Len(Traces) /\ l = 1 /\ w = << >>

Expected(ev, r) ==
  [st |-> r.st, passed |-> r.pass, missing |-> r.miss, mode |-> r.mode,
   text |-> IF P = "C25" /\ ev.f = "call" /\ r.pass THEN Text(ev) ELSE ""]

Next ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1 /\ tid' = tid
  /\ \E ev \in {Traces[tid][l]} : \E r \in {Call(w, ev)} : \E what \in {Faults(ev, r)} :
       IF Concern(ev, what)
       THEN PrintT(<< "MISMATCH", tid, l, what, ToJson(Expected(ev, r)) >>) /\ FALSE
       ELSE w' = r.w

Spec == Init /\ [][Next]_<<tid, l, w>>
Where == << tid, l >>
=============================================================================
