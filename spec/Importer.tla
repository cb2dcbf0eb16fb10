------------------------------ MODULE Importer ------------------------------
(***************************************************************************)
(* The import library: what a caller of its functions observes, given what *)
(* the FMU behind it answers.  All values are texts: integers in decimal,  *)
(* doubles as the 16 hexadecimal digits of their bits, binaries in         *)
(* hexadecimal, pointers as %p prints them.                                *)
(*                                                                         *)
(* An argument is a record [n |-> name, k |-> kind, T |-> type, v |-> texts *)
(* p |-> address], where the kind is one of                                *)
(*   val  passed by value                in    array read by the FMU       *)
(*   ptr  opaque pointer                 out   array written by the FMU    *)
(*   pp   pointer written by the FMU     one   value written by the FMU    *)
(*   info the event info of FMI 2.0                                        *)
(***************************************************************************)
EXTENDS Text, Integers, FiniteSets, TLC

OK == 0
Error == 3
Fatal == 4

-----------------------------------------------------------------------------
(* Modes *)

Consts     == {"GetVersion", "GetTypesPlatform"}
IsNew(fn)  == Starts(fn, "Instantiate")
KindOf(fn, args) ==
  CASE fn = "InstantiateModelExchange"      -> "ME"
    [] fn = "InstantiateCoSimulation"       -> "CS"
    [] fn = "InstantiateScheduledExecution" -> "SE"
    [] OTHER -> IF args[2].v[1] = "0" THEN "ME" ELSE "CS"
KindNo == [ME |-> 0, CS |-> 1, SE |-> 2]

ModeCalls == {"EnterInitializationMode", "ExitInitializationMode", "EnterEventMode", "Terminate", "Reset",
              "EnterConfigurationMode", "ExitConfigurationMode", "EnterContinuousTimeMode", "EnterStepMode"}
ConfigModes == {"Configuration", "Reconfiguration"}

\* the mode a successful call leads to
Running(x, from) ==
  CASE x.kind = "ME" -> "Event"
    [] x.kind = "SE" -> "Clock"
    [] OTHER -> IF from = "Initialization" /\ x.em THEN "Event" ELSE "Step"
ModeAfter(x, fn) ==
  CASE fn = "EnterInitializationMode" -> "Initialization"
    [] fn = "ExitInitializationMode"  -> Running(x, "Initialization")
    [] fn = "EnterEventMode"          -> "Event"
    [] fn = "Terminate"               -> "Terminated"
    [] fn = "Reset"                   -> "Instantiated"
    [] fn = "EnterContinuousTimeMode" -> "Continuous"
    [] fn = "EnterStepMode"           -> "Step"
    [] fn = "EnterConfigurationMode"  -> IF x.mode = "?" THEN "?"
                                         ELSE IF x.mode = "Instantiated" THEN "Configuration" ELSE "Reconfiguration"
    [] fn = "ExitConfigurationMode"   -> IF x.mode = "?" THEN "?"
                                         ELSE IF x.mode = "Configuration" THEN "Instantiated" ELSE Running(x, x.mode)
    [] OTHER                          -> x.mode

\* leaving a configuration mode the instance is not in is refused without asking the FMU
Refused(x, fn)  == fn = "ExitConfigurationMode" /\ x.mode \notin ConfigModes \cup {"?"}
\* after a mode change that failed the mode is not known
Unsettled(x, fn) == fn = "ExitConfigurationMode" /\ x.mode = "?"
Tracked(x, fn, st) == IF Refused(x, fn) THEN x.mode
                      ELSE IF fn \notin ModeCalls THEN x.mode
                      ELSE IF st = OK THEN ModeAfter(x, fn) ELSE "?"

-----------------------------------------------------------------------------
(* Text of a function call *)

\* arrays that are logged by address
ByAddress(ver, fn) ==
  IF ver = 3
  THEN fn \in {"GetNumberOfVariableDependencies", "GetVariableDependencies", "SerializeFMUState", "DeserializeFMUState",
               "GetDirectionalDerivative", "GetAdjointDerivative", "GetIntervalDecimal", "GetIntervalFraction",
               "GetShiftDecimal", "GetShiftFraction", "SetIntervalDecimal", "SetIntervalFraction", "SetShiftDecimal",
               "SetShiftFraction", "GetOutputDerivatives", "InstantiateCoSimulation"}
  ELSE fn \in {"SerializeFMUstate", "DeSerializeFMUstate", "SetRealInputDerivatives", "GetRealOutputDerivatives"}

Address(p) == "0x" \o p
Element(T, t) ==
  CASE T \in {"Float64", "d"} -> NumText(t, 16)
    [] T = "Float32"          -> NumText(t, 7)
    [] T \in {"String", "s"}  -> "\"" \o t \o "\""
    [] T = "Binary"           -> "0x" \o t
    [] OTHER                  -> t
Braces(T, s) == "{" \o Join([k \in 1..Len(s) |-> Element(T, s[k])], ", ") \o "}"

InfoFields == << "newDiscreteStatesNeeded", "terminateSimulation", "nominalsOfContinuousStatesChanged",
                 "valuesOfContinuousStatesChanged", "nextEventTimeDefined", "nextEventTime" >>
CallbackFields == << "logger", "allocateMemory", "freeMemory", "stepFinished", "componentEnvironment" >>
Fields(names, s) == "{" \o Join([k \in 1..Len(names) |-> names[k] \o "=" \o s[k]], ", ") \o "}"

ArgText(ver, fn, a, out, cbs) ==
  CASE a.k = "val"  -> Element(a.T, a.v[1])
    [] a.k = "info" -> Fields(InfoFields, [k \in 1..6 |-> IF k = 6 THEN NumText(out[6], 16) ELSE out[k]])
    [] a.n = "functions"  -> Fields(CallbackFields, [k \in 1..5 |-> Address(cbs[k])])
    [] a.n = "logMessage" -> Address(cbs[1])
    [] a.k \in {"ptr", "pp"} -> Address(a.p)
    [] a.k = "one"  -> IF ByAddress(ver, fn) THEN Address(a.p) ELSE Element(a.T, out[1])
    [] a.k = "in"   -> IF ByAddress(ver, fn) THEN Address(a.p) ELSE Braces(a.T, a.v)
    [] OTHER        -> IF ByAddress(ver, fn) THEN Address(a.p) ELSE Braces(a.T, out)
\* one name differs from that of the parameter
ArgName(ver, fn, n) == IF ver = 3 /\ fn = "SerializeFMUState" /\ n = "FMUState" THEN "FMUstate" ELSE n

FullName(ver, fn) == (IF ver = 3 THEN "fmi3" ELSE "fmi2") \o fn
CallText(ver, fn, args, outs, cbs) ==
  FullName(ver, fn) \o "(" \o
  Join([k \in 1..Len(args) |-> ArgName(ver, fn, args[k].n) \o "=" \o ArgText(ver, fn, args[k], outs[k], cbs)], ", ") \o ")"

-----------------------------------------------------------------------------
(* Calls.  An instance of the library is                                   *)
(*   [ver, name, ptr, lm, lf, file, kind, em, comp, mode]                  *)
(* lm, lf: whether messages of the FMU and calls are logged; file: what was *)
(* loaded; comp: the FMU's own instance.                                   *)

ME2 == {"EnterEventMode", "NewDiscreteStates", "EnterContinuousTimeMode", "CompletedIntegratorStep", "SetTime",
        "SetContinuousStates", "GetDerivatives", "GetEventIndicators", "GetContinuousStates",
        "GetNominalsOfContinuousStates"}
CS2 == {"SetRealInputDerivatives", "GetRealOutputDerivatives", "DoStep", "CancelStep", "GetStatus", "GetRealStatus",
        "GetIntegerStatus", "GetBooleanStatus", "GetStringStatus"}
Needed(ver, kind, fn) == \/ ver = 3
                         \/ fn \notin ME2 \cup CS2
                         \/ fn \in (IF kind = "ME" THEN ME2 ELSE CS2)

\* what the FMU sees of an argument; it writes the others
Passed(a) == IF a.k \in {"val", "in", "ptr", "pp"} THEN a.v ELSE << >>

NewInst(ev) == [ver |-> ev.ver, name |-> ev.name, ptr |-> ev.ptr, lm |-> ev.lm, lf |-> ev.lf, file |-> "?",
                kind |-> "", em |-> FALSE, comp |-> "", mode |-> ""]

With(w, i, x) == [j \in DOMAIN w \cup {i} |-> IF j = i THEN x ELSE w[j]]
Without(w, i) == [j \in DOMAIN w \ {i} |-> w[j]]

Heard(x, i, says) == IF x.lm THEN [k \in 1..Len(says) |-> << i, says[k][1], says[k][2], says[k][3] >>] ELSE << >>

\* pass: the FMU is called; st: the answer; text: the outputs that are a text; miss: a function of the FMU is missing
Result(w, st, pass, miss, mode) == [w |-> w, st |-> st, pass |-> pass, miss |-> miss, mode |-> mode]

EventModeUsed(fn, args) == fn = "InstantiateCoSimulation" /\ args[6].v[1] = "1"

\* The library was refused memory or a handle.  Creation, loading and instantiation may then fail before
\* anything else happens; any other call is passed on all the same, and its text may be missing or cut.
Gave(ev) == CASE ev.f = "call" -> IsNew(ev.fn) /\ Len(ev.arrived) = 0 [] OTHER -> ev.st # OK
Short(w, ev) == ev.f \in {"create", "load", "call"} /\ "hit" \in DOMAIN ev /\ ev.hit > 0
GivenUp(w) == Result(w, Error, FALSE, TRUE, "")

Call(w, ev) ==
  IF Short(w, ev) /\ Gave(ev) THEN GivenUp(w) ELSE
  CASE ev.f = "create" -> Result(With(w, ev.i, NewInst(ev)), OK, FALSE, FALSE, "")
    [] ev.f = "load"   -> Result(With(w, ev.i, [w[ev.i] EXCEPT !.file = ev.file]),
                                 IF ev.file = "missing" THEN Error ELSE OK, FALSE, FALSE, "")
    [] ev.f = "free"   -> Result(Without(w, ev.i), OK, FALSE, FALSE, "")
    [] ev.f = "call"   ->
         LET x == w[ev.i] IN
         CASE IsNew(ev.fn) ->
                LET kind == KindOf(ev.fn, ev.args)
                    miss == x.file # "" /\ Needed(x.ver, kind, x.file)
                    y == [x EXCEPT !.kind = kind, !.em = EventModeUsed(ev.fn, ev.args), !.comp = ev.comp,
                                   !.mode = "Instantiated"]
                IN IF miss THEN Result(w, Error, FALSE, TRUE, "")
                   ELSE IF ev.ret # OK THEN Result(w, Error, TRUE, FALSE, "")
                   ELSE Result(With(w, ev.i, y), OK, TRUE, FALSE, y.mode)
           [] ev.fn \in Consts \cup {"FreeInstance"} -> Result(w, OK, TRUE, FALSE, x.mode)
           [] Unsettled(x, ev.fn) ->                       \* whichever was observed
                IF Len(ev.arrived) = 0 THEN Result(w, Error, FALSE, FALSE, "")
                ELSE Result(w, ev.ret, TRUE, FALSE, "")
           [] Refused(x, ev.fn) -> Result(w, Error, FALSE, FALSE, x.mode)
           [] OTHER -> LET m == Tracked(x, ev.fn, ev.ret)
                       IN Result(With(w, ev.i, [x EXCEPT !.mode = m]), ev.ret, TRUE, FALSE, IF m = "?" THEN "" ELSE m)
=============================================================================
