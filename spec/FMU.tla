-------------------------------- MODULE FMU --------------------------------
(***************************************************************************)
(* Behaviour of one reference FMU instance behind the FMI 2.0 / FMI 3.0    *)
(* functions, and of a world holding several instances and snapshots.      *)
(*                                                                         *)
(* Call(w, ev) gives the successor of world w under the call ev and what   *)
(* the caller observes:                                                    *)
(*   w  the new world                                                      *)
(*   st the returned status                                                *)
(*   x  exact outputs (flags, integers, text), f floating point outputs    *)
(*   lg "none": no message may be delivered, "some": at least one error    *)
(*      message, "any": not determined                                     *)
(*   cb the times at which the intermediate update callback is invoked,    *)
(*      with the value of the observed variable at that moment             *)
(***************************************************************************)
EXTENDS Models, Paths

OK      == 0
Warning == 1
Discard == 2
Error   == 3

-----------------------------------------------------------------------------
(* Which function may be called in which mode *)

Modes3 == {"Instantiated", "ConfigurationMode", "InitializationMode", "EventMode",
           "ContinuousTimeMode", "StepMode", "ClockActivationMode", "ReconfigurationMode",
           "Terminated"}
Modes2 == {"Instantiated", "InitializationMode", "EventMode", "ContinuousTimeMode",
           "StepComplete", "Terminated"}

FloatTypes == {"Float32", "Float64"}

NotImplemented3 == {"GetNumberOfVariableDependencies", "GetVariableDependencies",
  "GetIntervalFraction", "GetShiftDecimal", "GetShiftFraction", "SetIntervalDecimal",
  "SetIntervalFraction", "SetShiftDecimal", "SetShiftFraction", "EvaluateDiscreteStates"}

Allowed3(f, T) ==
  CASE f = "EnterInitializationMode" -> {"Instantiated"}
    [] f = "ExitInitializationMode"  -> {"InitializationMode"}
    [] f = "EnterEventMode"          -> {"ContinuousTimeMode", "StepMode"}
    [] f = "Terminate"               -> {"ContinuousTimeMode", "StepMode", "EventMode",
                                         "ClockActivationMode", "ReconfigurationMode"}
    [] f = "Get"                     -> Modes3
    [] f = "Set"                     -> IF T \in FloatTypes THEN Modes3
                                        ELSE Modes3 \ {"ContinuousTimeMode"}
    [] f \in {"GetDirectionalDerivative", "GetAdjointDerivative"} ->
         {"InitializationMode", "StepMode", "EventMode", "ContinuousTimeMode", "Terminated"}
    [] f = "EnterConfigurationMode"  -> {"Instantiated", "StepMode", "EventMode", "ClockActivationMode"}
    [] f = "ExitConfigurationMode"   -> {"ConfigurationMode", "ReconfigurationMode"}
    [] f = "EnterContinuousTimeMode" -> {"EventMode"}
    [] f \in {"CompletedIntegratorStep", "SetContinuousStates"} -> {"ContinuousTimeMode"}
    [] f = "SetTime"                 -> {"EventMode", "ContinuousTimeMode"}
    [] f \in {"GetDerivatives", "GetEventIndicators", "GetContinuousStates", "GetNominals"} ->
         {"InitializationMode", "EventMode", "ContinuousTimeMode", "Terminated"}
    [] f = "EnterStepMode"           -> {"InitializationMode", "EventMode"}
    [] f = "GetOutputDerivatives"    -> {"StepMode", "Terminated"}
    [] f = "DoStep"                  -> {"StepMode"}
    [] f = "ActivateModelPartition"  -> {"ClockActivationMode"}
    [] OTHER -> Modes3

Allowed2(f, T) ==
  CASE f \in {"SetupExperiment", "EnterInitializationMode"} -> {"Instantiated"}
    [] f = "ExitInitializationMode"  -> {"InitializationMode"}
    [] f = "Terminate"               -> {"EventMode", "ContinuousTimeMode", "StepComplete"}
    [] f \in {"Get", "GetDirectionalDerivative"} -> Modes2 \ {"Instantiated"}
    [] f = "Set"                     -> IF T = "Float64" THEN Modes2 \ {"Terminated"}
                                        ELSE Modes2 \ {"Terminated", "ContinuousTimeMode"}
    [] f = "EnterEventMode"          -> {"EventMode", "ContinuousTimeMode"}
    [] f \in {"UpdateDiscreteStates", "EnterContinuousTimeMode"} -> {"EventMode"}
    [] f \in {"CompletedIntegratorStep", "SetContinuousStates"} -> {"ContinuousTimeMode"}
    [] f = "SetTime"                 -> {"EventMode", "ContinuousTimeMode"}
    [] f \in {"GetEventIndicators", "GetContinuousStates"} ->
         {"InitializationMode", "EventMode", "ContinuousTimeMode", "Terminated"}
    [] f = "GetDerivatives"          -> {"EventMode", "ContinuousTimeMode", "Terminated"}
    [] f = "GetNominals"             -> {"Instantiated", "EventMode", "ContinuousTimeMode", "Terminated"}
    [] f = "SetInputDerivatives"     -> {"Instantiated", "InitializationMode", "StepComplete"}
    [] f = "GetOutputDerivatives"    -> {"StepComplete", "Terminated"}
    [] f = "DoStep"                  -> {"StepComplete"}
    [] f = "CancelStep"              -> {}
    [] f = "GetStatus"               -> {"StepComplete", "Terminated"}
    [] OTHER -> Modes2

Allowed(ver, f, T) == IF ver = 3 THEN Allowed3(f, T) ELSE Allowed2(f, T)

-----------------------------------------------------------------------------
(* An instance.  rs is the resource location given at instantiation.       *)

NewInstance(ver, m, kind, em, er, iu, hasLog, rs, lk) ==
  [ver |-> ver, m |-> m, kind |-> kind, em |-> em, er |-> er, iu |-> iu,
   log |-> hasLog, lerr |-> TRUE, rs |-> rs, lk |-> lk,
   mode |-> "Instantiated", start |-> f0, stop |-> f0, time |-> f0, ncp |-> f0,
   n |-> 0, nx |-> 0, nz |-> 0, prez |-> << >>, ev |-> StartEvent(m), d |-> StartData(ver, m),
   dirty |-> TRUE, stk |-> << >>]

\* everything a reset brings back; the identity of the instance, its callbacks,
\* its logging flags and its co-simulation options stay
ResetInstance(s) ==
  [NewInstance(s.ver, s.m, s.kind, s.em, s.er, s.iu, s.log, s.rs, s.lk) EXCEPT !.lerr = s.lerr]

\* what a snapshot holds
Snapshot(s) ==
  [mode |-> s.mode, start |-> s.start, stop |-> s.stop, time |-> s.time, ncp |-> s.ncp,
   n |-> s.n, nx |-> s.nx, nz |-> s.nz, prez |-> s.prez, ev |-> s.ev, d |-> s.d,
   dirty |-> s.dirty, em |-> s.em, er |-> s.er]

Restore(s, p) ==
  [s EXCEPT !.mode = p.mode, !.start = p.start, !.stop = p.stop, !.time = p.time, !.ncp = p.ncp,
            !.n = p.n, !.nx = p.nx, !.nz = p.nz, !.prez = p.prez, !.ev = p.ev, !.d = p.d,
            !.dirty = p.dirty, !.em = p.em, !.er = p.er]

-----------------------------------------------------------------------------
(* Results *)

Logged(s, st) == IF st = Error /\ s.log /\ s.lerr THEN "some" ELSE "none"
R(s, st, x, f)   == [s |-> s, st |-> st, x |-> x, f |-> f, lg |-> Logged(s, st), cb |-> << >>]
Done(s)          == R(s, OK, << >>, << >>)
Ints(s, x)       == R(s, OK, x, << >>)
Flts(s, f)       == R(s, OK, << >>, f)
\* an error ends the run
Fail(s)          == R([s EXCEPT !.mode = "Terminated"], Error, << >>, << >>)
\* an error that leaves the mode alone
Refuse(s)        == R(s, Error, << >>, << >>)
\* an error of a function that concerns clocks only: no message is promised
FailQuiet(s)     == [Fail(s) EXCEPT !.lg = "any"]

-----------------------------------------------------------------------------
(* Resource: the file behind the resource location.  Locations, paths and  *)
(* URIs are sequences of bytes.                                            *)

NameY == << 121, 46, 116, 120, 116 >>                    \* "y.txt"
\* repeated slashes are one
Squeeze(p) == FoldLeft(LAMBDA a, b : IF b = Slash /\ a # << >> /\ a[Len(a)] = Slash THEN a ELSE Append(a, b),
                       << >>, p)
NoLocation == << -1 >>
ResourceFile(s) ==
  IF s.rs = NoLocation THEN << >>
  ELSE IF s.ver = 3 THEN Squeeze(s.rs \o NameY)
  ELSE IF UriPath(s.rs) = << >> THEN << >>
  ELSE Squeeze(UriPath(s.rs) \o << Slash >> \o NameY)
HasResource(w, s) == ResourceFile(s) \in DOMAIN w.files
\* the first character of the file, as a signed char
ResourceValue(w, s) == LET c == w.files[ResourceFile(s)] IN IF c > 127 THEN c - 256 ELSE c

\* bringing calculated values up to date can fail for the Resource FMU only
CanCalculate(w, s) == s.m = "Resource" => HasResource(w, s)
Calculated(w, s) ==
  IF s.m = "Resource" THEN [s EXCEPT !.d.y = ResourceValue(w, s), !.dirty = FALSE]
  ELSE [s EXCEPT !.dirty = FALSE]

-----------------------------------------------------------------------------
(* Continuous and discrete evolution inside a co-simulation step *)

Configured(s) ==
  LET a == IF NumZ(s.m) > 0 THEN [s EXCEPT !.nz = NumZ(s.m), !.prez = Indicators(s.m, s.d)] ELSE s IN
  IF HasStates(s.m) THEN [a EXCEPT !.nx = NumX(s.m, s.d)] ELSE a

Crosses(p, z) == (FLe(p, f0) /\ FLt(f0, z)) \/ (FLt(f0, p) /\ FLe(z, f0))

\* one step of the internal solver; event tells whether a state or time event occurred
FixedStep(s) ==
  LET h  == StepSize(s.m)
      x  == ContStates(s.m, s.d)
      dx == Deriv(s.m, s.d)
      d1 == IF s.nx > 0 THEN SetCont(s.m, s.d, [k \in 1..Len(x) |-> FAdd(x[k], FMul(h, dx[k]))]) ELSE s.d
      n1 == s.n + 1
      t1 == FAdd(s.start, FMul(FOfInt(n1), h))
      z  == IF s.nz > 0 THEN Indicators(s.m, d1) ELSE << >> IN
  [s  |-> [s EXCEPT !.d = d1, !.n = n1, !.time = t1, !.prez = IF s.nz > 0 THEN z ELSE s.prez,
                    !.dirty = IF s.nx > 0 THEN FALSE ELSE s.dirty],
   event |-> \/ \E k \in 1..Len(z) : Crosses(s.prez[k], z[k])
             \/ s.ev.ned /\ FLe(s.ev.net, t1)]

\* apply the discrete state update to an instance
Updated(s) ==
  LET u == EventUpdate(s.m, s.d, s.ev, s.time) IN
  [ok |-> u.ok, s |-> [s EXCEPT !.d = u.d, !.ev = u.ev]]

\* the variable whose value is recorded from inside the intermediate update callback
Probe(s) ==
  CASE s.m \in {"BouncingBall", "Dahlquist", "VanDerPol"} -> GetF64(s, 1)[2][1]
    [] s.m = "Roberts" -> s.d.y1
    [] s.m = "StateSpace" -> IF s.d.n > 0 THEN s.d.x[1] ELSE f0
    [] OTHER -> s.time

\* the loop over the internal steps up to the communication point `to`
RunTo(s0, to) ==
  LET h == StepSize(s0.m)
      hasEU == HasEventUpdate(s0.m)
      start == [s |-> s0, eh |-> FALSE, reached |-> FALSE, stop |-> FALSE, err |-> FALSE, cb |-> << >>]
      one(a, k) ==
        IF a.stop THEN a ELSE
        LET next == FAdd(a.s.time, h) IN
        IF FLt(to, next) /\ ~IsClose(next, to) THEN [a EXCEPT !.reached = TRUE, !.stop = TRUE] ELSE
        LET pre == IF a.eh THEN Updated(a.s) ELSE [ok |-> TRUE, s |-> a.s] IN
        IF ~pre.ok THEN [a EXCEPT !.s = pre.s, !.err = TRUE, !.stop = TRUE] ELSE
        LET st  == FixedStep(pre.s)
            cb1 == IF a.s.iu THEN Append(a.cb, << st.s.time, Probe(st.s) >>) ELSE a.cb
            hit == hasEU /\ st.event IN
        IF hit /\ a.s.em
        THEN [a EXCEPT !.s = st.s, !.eh = TRUE, !.stop = a.s.er \/ st.s.ev.term, !.cb = cb1]
        ELSE LET post == IF hit THEN Updated(st.s) ELSE [ok |-> TRUE, s |-> st.s]
                 fin  == IF hit /\ post.ok /\ a.s.ver = 3 /\ a.s.nz > 0
                         THEN [post.s EXCEPT !.prez = Indicators(post.s.m, post.s.d)] ELSE post.s IN
             [a EXCEPT !.s = fin, !.eh = FALSE, !.err = ~post.ok, !.cb = cb1,
                       !.stop = ~post.ok \/ (hit /\ a.s.er) \/ fin.ev.term]
      \* in event mode the time can be set; the grid goes on where it was
      grid  == FAdd(s0.start, FMul(FOfInt(s0.n), h))
      bound == FSteps(IF FLt(grid, s0.time) THEN grid ELSE s0.time, to, h) + 1
      steps == IF bound < 1 THEN 1 ELSE bound
      res   == FoldLeft(one, start, [k \in 1..steps |-> k]) IN
  IF res.stop THEN res ELSE Assert(FALSE, <<"step bound too small", s0.time, to, steps>>)

DoStep(s, cur, size) ==
  LET to == FAdd(cur, size) IN
  IF ~IsClose(cur, s.ncp) \/ ~FLt(f0, size) \/ (FLt(s.stop, to) /\ ~IsClose(to, s.stop)) THEN Fail(s)
  ELSE LET r == RunTo(s, to) IN
       IF r.err THEN [Fail(r.s) EXCEPT !.cb = r.cb, !.lg = Logged(r.s, Error)]
       ELSE IF s.ver = 2
       THEN IF r.reached THEN Done([r.s EXCEPT !.ncp = to])
            ELSE R(r.s, Discard, << >>, << >>)
       ELSE LET s1 == [r.s EXCEPT !.ncp = IF r.reached THEN to ELSE r.s.time] IN
            [R(s1, OK, << r.eh, s1.ev.term, s.er /\ ~r.reached >>, << s1.time >>) EXCEPT !.cb = r.cb]

-----------------------------------------------------------------------------
(* Reading and writing variables *)

\* nv: number of value places the caller provides; nul: which argument is missing
GetVars(w, s, T, vrs, nv, nul) ==
  IF Len(vrs) = 0 THEN Done(s)
  ELSE IF nul = "vr" \/ (nul \in {"val", "size"} /\ nv > 0) THEN Fail(s)
  ELSE IF s.ver = 3 /\ s.dirty /\ ~CanCalculate(w, s) THEN Fail(s)
  ELSE IF s.ver = 2 /\ T # "Boolean" /\ s.dirty /\ ~CanCalculate(w, s) THEN Fail(s)
  ELSE LET needFile == s.m = "Resource" /\ T = "Int32" /\ \E k \in 1..Len(vrs) : vrs[k] = 1
           s1 == IF s.m # "Resource" THEN s
                 ELSE IF (s.dirty /\ ~(s.ver = 2 /\ T = "Boolean")) \/ (needFile /\ HasResource(w, s))
                 THEN Calculated(w, s) ELSE s
           got == [k \in 1..Len(vrs) |-> Get(s1, T, vrs[k])]
           bad == \E k \in 1..Len(vrs) : ~got[k][1]
           all == FoldLeft(LAMBDA a, b : a \o b[2], << >>, got) IN
       IF bad \/ (needFile /\ ~HasResource(w, s)) \/ Len(all) # nv THEN Fail(s1)
       ELSE IF T \in FloatTypes THEN Flts(s1, all)
       ELSE IF T = "Boolean" /\ s.ver = 2
            THEN Ints(s1, [k \in 1..Len(all) |-> IF all[k] THEN 1 ELSE 0])
       ELSE Ints(s1, all)

\* values in the order given; nothing after the first refused one is applied
SetVars(s, T, vrs, vals, nul) ==
  IF Len(vrs) = 0 THEN Done(s)
  ELSE IF nul # "" THEN Fail(s)
  ELSE LET vs == IF T = "Boolean" /\ s.ver = 2 THEN [k \in 1..Len(vals) |-> vals[k] # 0] ELSE vals
           one(a, vr) ==
             IF ~a.ok THEN a ELSE
             LET r == Set([s EXCEPT !.d = a.d], T, vr, a.v) IN
             [ok |-> r.ok, d |-> r.d, v |-> SubSeq(a.v, r.n + 1, Len(a.v))]
           res == FoldLeft(one, [ok |-> TRUE, d |-> s.d, v |-> vs], vrs)
           s1  == [s EXCEPT !.d = res.d] IN
       IF res.ok /\ res.v = << >> THEN Done(s1) ELSE Fail(s1)

-----------------------------------------------------------------------------
(* Vector functions of model exchange *)

VecGet(s, n, want, v) == IF n # want THEN Fail(s) ELSE Flts(s, v)
\* a missing array is an error wherever the array is used
VecNull(s, ev) == ev.nul # "" /\ (IF ev.f = "GetEventIndicators" THEN NumZ(s.m) > 0 ELSE HasStates(s.m))

Directional(s, un, kn, seed) ==
  [i \in 1..Len(un) |->
     FoldLeft(LAMBDA a, j : FAdd(a, FMul(Partial(s, un[i], kn[j]), seed[j])), f0, [j \in 1..Len(kn) |-> j])]
Adjoint(s, un, kn, seed) ==
  [i \in 1..Len(kn) |->
     FoldLeft(LAMBDA a, j : FAdd(a, FMul(Partial(s, un[j], kn[i]), seed[j])), f0, [j \in 1..Len(un) |-> j])]

EventInfo(s) ==
  R(s, OK, << s.ev.nds, s.ev.term, s.ev.nom, s.ev.val, s.ev.ned >>,
    IF s.ev.ned THEN << s.ev.net >> ELSE << >>)
\* what remains of it when some of the places for it are missing
Some(r, mis) ==
  LET there == SelectSeq(<< 1, 2, 3, 4, 5, 6 >>, LAMBDA k : \A j \in 1..Len(mis) : mis[j] # k)
      flags == SelectSeq(there, LAMBDA k : k < 6) IN
  [r EXCEPT !.x = [j \in 1..Len(flags) |-> r.x[flags[j]]],
            !.f = IF \A k \in {5, 6} : \E j \in 1..Len(there) : there[j] = k THEN r.f ELSE << >>]

-----------------------------------------------------------------------------
(* Logging switches *)

Categories == {"logEvents", "logStatusError"}
\* the categories before the first bad one take effect
LogFlag(s, on, cats) ==
  LET good == {k \in 1..Len(cats) : \A j \in 1..k : cats[j] \in Categories} IN
  IF \E k \in good : cats[k] = "logStatusError" THEN [s EXCEPT !.lerr = on] ELSE s
SetLogging(s, ev) ==
  IF ev.n = 0 THEN Done([s EXCEPT !.lerr = ev.on])
  ELSE IF ev.nul # "" THEN Fail(s)
  ELSE LET s1 == LogFlag(s, ev.on, ev.cats) IN
       IF \A k \in 1..Len(ev.cats) : ev.cats[k] \in Categories THEN Done(s1) ELSE Fail(s1)

-----------------------------------------------------------------------------
(* Clocks *)

OutClock(d) == ~d.oc /\ d.tot % 5 = 0
InClocks == {1001, 1002, 1003}

GetClocks(s, vrs) ==
  IF ~HasClocks(s.m) THEN (IF vrs = << >> THEN Done(s) ELSE FailQuiet(s))
  ELSE LET one(a, vr) ==
             IF ~a.ok THEN a
             ELSE IF vr = 1005 THEN [a EXCEPT !.v = Append(@, a.oc), !.oc = FALSE]
             ELSE [a EXCEPT !.ok = FALSE]
           r == FoldLeft(one, [ok |-> TRUE, v |-> << >>, oc |-> s.d.oc], vrs)
           s1 == [s EXCEPT !.d.oc = r.oc] IN
       IF r.ok THEN Ints(s1, r.v) ELSE Fail(s1)

GetIntervals(s, vrs) ==
  IF ~HasClocks(s.m) THEN (IF vrs = << >> THEN Done(s) ELSE FailQuiet(s))
  ELSE LET one(a, vr) ==
             IF ~a.ok THEN a
             ELSE IF vr = 1003 THEN [a EXCEPT !.v = Append(@, a.q), !.q = IF a.q = 2 THEN 1 ELSE a.q]
             ELSE [a EXCEPT !.ok = FALSE]
           r == FoldLeft(one, [ok |-> TRUE, v |-> << >>, q |-> s.d.q], vrs)
           s1 == [s EXCEPT !.d.q = r.q] IN
       \* a changed interval is zero: the partition is to be activated at once
       IF r.ok THEN R(s1, OK, r.v, [k \in 1..Len(SelectSeq(r.v, LAMBDA q : q = 2)) |-> f0]) ELSE Fail(s1)

\* Activation of a model partition runs in pieces separated by the callbacks the
\* FMU makes; another partition can be activated from inside a callback.  stk
\* holds the partitions being executed, innermost last; `want` is what the FMU
\* does next: "lock", "unlock", "clock" (callbacks), "ret", or "" while the
\* callback is running.
Top(s) == s.stk[Len(s.stk)]
SetTop(s, fr) == [s EXCEPT !.stk[Len(s.stk)] = fr]
Tick(d) == LET d1 == [d EXCEPT !.tot = @ + 1] IN [d1 EXCEPT !.oc = OutClock(d1)]

\* the protected part of partitions 2 and 3
Body(s, p) ==
  LET d1 == IF p = 1002 THEN [s.d EXCEPT !.t2 = @ + 1, !.res = @ + s.d.inp, !.inp = 0] ELSE s.d IN
  [s EXCEPT !.d = Tick(d1)]
AfterBody(s, p) == IF s.lk THEN SetTop(s, [p |-> p, want |-> "unlock"])
                   ELSE SetTop(s, [p |-> p, want |-> IF s.d.oc THEN "clock" ELSE "ret"])

Activate(s, p, t) ==
  LET s0 == [s EXCEPT !.stk = Append(@, [p |-> p, want |-> ""])] IN
  CASE p = 1001 ->
         LET d1 == [s.d EXCEPT !.t1 = @ + 1, !.q = IF FLe(FLit("4"), t) /\ FLt(t, FLit("5")) THEN 2 ELSE @]
             s1 == [s0 EXCEPT !.d = Tick(d1)] IN
         SetTop(s1, [p |-> p, want |-> IF s1.d.q = 2 \/ s1.d.oc THEN "clock" ELSE "ret"])
    [] p \in {1002, 1003} ->
         LET s1 == IF p = 1003 THEN [s0 EXCEPT !.d.t3 = @ + 1, !.d.out = 1000] ELSE s0 IN
         IF s.lk THEN SetTop(s1, [p |-> p, want |-> "lock"]) ELSE AfterBody(Body(s1, p), p)
    [] OTHER -> SetTop(s0, [p |-> p, want |-> "err"])

\* a callback returns
CbReturn(s) ==
  LET fr == Top(s) IN
  CASE fr.want = "inlock"   -> AfterBody(Body(s, fr.p), fr.p)
    [] fr.want = "inunlock" -> SetTop(s, [p |-> fr.p, want |-> IF s.d.oc THEN "clock" ELSE "ret"])
    [] fr.want = "inclock"  -> SetTop(s, [p |-> fr.p, want |-> "ret"])

-----------------------------------------------------------------------------
(* One call on one instance, the mode being allowed.  The functions that   *)
(* also touch the snapshots of the world are in Call below.                *)

ExitInit(w, s) ==
  IF s.dirty /\ ~CanCalculate(w, s) THEN Fail(s)
  ELSE LET s1 == IF s.dirty THEN Calculated(w, s) ELSE s
           next == IF s.ver = 2 THEN (IF s.kind = "ME" THEN "EventMode" ELSE "StepComplete")
                   ELSE CASE s.kind = "ME" -> "EventMode"
                          [] s.kind = "CS" -> IF s.em THEN "EventMode" ELSE "StepMode"
                          [] s.kind = "SE" -> "ClockActivationMode" IN
       Done(Configured([s1 EXCEPT !.mode = next]))

ExitConfig(s) ==
  LET next == IF s.mode = "ConfigurationMode" THEN "Instantiated"
              ELSE CASE s.kind = "ME" -> "EventMode" [] s.kind = "CS" -> "StepMode"
                     [] s.kind = "SE" -> "ClockActivationMode" IN
  Done(Configured([s EXCEPT !.mode = next]))

CallOne(w, s, ev) ==
  LET f == ev.f IN
  CASE f = "SetDebugLogging" -> SetLogging(s, ev)
    [] f \in {"SetupExperiment"} ->
         Done([s EXCEPT !.start = ev.t, !.time = ev.t, !.ncp = ev.t,
                        !.stop = IF ev.sd THEN ev.stop ELSE finf])
    [] f = "EnterInitializationMode" ->
         IF s.ver = 2 THEN Done([s EXCEPT !.mode = "InitializationMode"])
         ELSE Done([s EXCEPT !.start = ev.t, !.time = ev.t, !.ncp = ev.t,
                             !.stop = IF ev.sd THEN ev.stop ELSE finf, !.mode = "InitializationMode"])
    [] f = "ExitInitializationMode" -> ExitInit(w, s)
    [] f = "EnterEventMode" -> Done([s EXCEPT !.mode = "EventMode"])
    [] f = "EnterContinuousTimeMode" -> Done([s EXCEPT !.mode = "ContinuousTimeMode"])
    [] f = "EnterStepMode" -> Done([s EXCEPT !.mode = "StepMode"])
    [] f = "EnterConfigurationMode" ->
         Done([s EXCEPT !.mode = IF @ = "Instantiated" THEN "ConfigurationMode" ELSE "ReconfigurationMode"])
    [] f = "ExitConfigurationMode" -> ExitConfig(s)
    [] f = "Terminate" -> Done([s EXCEPT !.mode = "Terminated"])
    [] f = "Reset" -> Done(ResetInstance(s))
    [] f = "Get" -> GetVars(w, s, ev.T, ev.vr, ev.nv, ev.nul)
    [] f = "Set" -> SetVars(s, ev.T, ev.vr, ev.v, ev.nul)
    [] f = "SetTime" -> Done([s EXCEPT !.time = ev.t])
    [] f = "CompletedIntegratorStep" -> IF ev.nul # "" THEN Fail(s) ELSE Ints(s, << FALSE, FALSE >>)
    [] f \in {"SetContinuousStates", "GetContinuousStates", "GetDerivatives", "GetNominals",
              "GetEventIndicators"} /\ VecNull(s, ev) -> Fail(s)
    [] f = "SetContinuousStates" ->
         IF Len(ev.v) # NumX(s.m, s.d) THEN Fail(s) ELSE Done([s EXCEPT !.d = SetCont(s.m, s.d, ev.v)])
    [] f = "GetContinuousStates" -> VecGet(s, ev.n, NumX(s.m, s.d), ContStates(s.m, s.d))
    [] f = "GetDerivatives" -> VecGet(s, ev.n, NumX(s.m, s.d), Deriv(s.m, s.d))
    [] f = "GetNominals" -> VecGet(s, ev.n, NumX(s.m, s.d), Nominals(s.m, s.d))
    [] f = "GetEventIndicators" -> VecGet(s, ev.n, NumZ(s.m), Indicators(s.m, s.d))
    [] f = "GetNumberOfContinuousStates" -> Ints(s, << NumX(s.m, s.d) >>)
    [] f = "GetNumberOfEventIndicators" -> Ints(s, << NumZ(s.m) >>)
    [] f = "UpdateDiscreteStates" ->
         LET u == Updated(s) IN
         IF HasEventUpdate(s.m) /\ ~u.ok THEN Fail(u.s)
         ELSE LET s1 == IF HasEventUpdate(s.m) THEN u.s ELSE s IN
              \* every output argument is optional in FMI 3.0
              IF ev.nul = "all" THEN Done(s1) ELSE IF ev.nul = "some" THEN Some(EventInfo(s1), ev.mis) ELSE EventInfo(s1)
    [] f = "GetDirectionalDerivative" ->
         IF Len(ev.un) = 0 \/ (~HasPartials(s.m) /\ Len(ev.kn) = 0)
         THEN Flts(s, [i \in 1..Len(ev.un) |-> f0])
         ELSE IF ~HasPartials(s.m) THEN Fail(s) ELSE Flts(s, Directional(s, ev.un, ev.kn, ev.v))
    [] f = "GetAdjointDerivative" ->
         IF Len(ev.kn) = 0 \/ (~HasPartials(s.m) /\ Len(ev.un) = 0)
         THEN Flts(s, [i \in 1..Len(ev.kn) |-> f0])
         ELSE IF ~HasPartials(s.m) THEN Fail(s) ELSE Flts(s, Adjoint(s, ev.un, ev.kn, ev.v))
    [] f = "GetOutputDerivatives" ->
         IF ~HasOutDer(s.m) THEN (IF s.ver = 3 THEN Refuse(s) ELSE Fail(s))
         ELSE LET got == [k \in 1..Len(ev.vr) |-> OutDer(s, ev.vr[k], ev.ord[k])] IN
              IF \E k \in 1..Len(got) : ~got[k][1] THEN Fail(s)
              ELSE Flts(s, [k \in 1..Len(got) |-> got[k][2][1]])
    [] f = "SetInputDerivatives" -> Fail(s)
    [] f = "DoStep" -> DoStep(s, ev.t, ev.h)
    [] f = "GetStatus" ->
         (CASE ev.T = "Real" /\ ev.sk = 2 -> Flts(s, << s.time >>)
            [] ev.T = "Boolean" /\ ev.sk = 3 -> Ints(s, << IF s.ev.term THEN 1 ELSE 0 >>)
            [] OTHER -> [R(s, Discard, << >>, << >>) EXCEPT !.lg = "any"])
    [] f \in {"GetClock", "SetClock", "GetIntervalDecimal"} /\ ev.nul # "" /\ ev.vr # << >> -> Fail(s)
    [] f = "GetClock" -> GetClocks(s, ev.vr)
    [] f = "SetClock" ->
         IF ~HasClocks(s.m) /\ (\E k \in 1..Len(ev.v) : ev.v[k]) THEN FailQuiet(s) ELSE Done(s)
    [] f = "GetIntervalDecimal" -> GetIntervals(s, ev.vr)
    [] f \in NotImplemented3 -> Refuse(s)

-----------------------------------------------------------------------------
(* The world: instances, snapshot slots, serialized buffers, files *)

EmptyWorld == [inst |-> << >>, snap |-> << >>, ser |-> << >>, files |-> << >>]

Put(fn, k, v) == [x \in DOMAIN fn \cup {k} |-> IF x = k THEN v ELSE fn[x]]
Drop(fn, k)   == [x \in DOMAIN fn \ {k} |-> fn[x]]
Null(w, k)    == k \notin DOMAIN w.snap

W(w, i, r) == [w |-> [w EXCEPT !.inst = Put(@, i, r.s)], st |-> r.st, x |-> r.x, f |-> r.f,
               lg |-> r.lg, cb |-> r.cb]

\* instantiation: x = << TRUE >> if an instance is returned
Instantiate(w, ev) ==
  LET supported == CASE ev.kind = "ME" -> SupportsME(ev.m)
                     [] ev.kind = "SE" -> SupportsSE(ev.m)
                     [] OTHER -> TRUE
      refuseEM == ev.ver = 3 /\ ev.kind = "CS" /\ ev.em /\ ~HasEventUpdate(ev.m)
      badArgs  == ev.name \in {"", "NULL"} \/ ev.tok # Token(ev.m)
      noCb     == ev.ver = 2 /\ ~ev.log
      none(l)  == [w |-> w, st |-> OK, x |-> << FALSE >>, f |-> << >>, lg |-> l, cb |-> << >>] IN
  IF ~supported \/ noCb THEN none("none")
  ELSE IF refuseEM \/ badArgs THEN none(IF ev.log THEN "one" ELSE "none")
  ELSE [w |-> [w EXCEPT !.inst = Put(@, ev.i,
                  NewInstance(ev.ver, ev.m, ev.kind, ev.em, ev.er, ev.iu, ev.log, ev.rs, ev.lk))],
        st |-> OK, x |-> << TRUE >>, f |-> << >>, lg |-> "none", cb |-> << >>]

\* functions on snapshots; ev.k names a snapshot slot, ev.b a buffer
CallState(w, s, ev) ==
  LET f == ev.f i == ev.i IN
  CASE f = "GetFMUState" -> W([w EXCEPT !.snap = Put(@, ev.k, Snapshot(s))], i, Done(s))
    [] f = "SetFMUState" -> IF Null(w, ev.k) THEN W(w, i, Fail(s)) ELSE W(w, i, Done(Restore(s, w.snap[ev.k])))
    [] f = "FreeFMUState" -> W([w EXCEPT !.snap = Drop(@, ev.k)], i, Ints(s, << TRUE >>))
    [] f = "SerializedFMUStateSize" -> W(w, i, Ints(s, << TRUE >>))
    [] f = "SerializeFMUState" ->
         IF Null(w, ev.k) \/ ev.delta # 0 THEN W(w, i, Fail(s))
         ELSE W([w EXCEPT !.ser = Put(@, ev.b, w.snap[ev.k])], i, Done(s))
    [] f = "DeserializeFMUState" ->
         IF ev.delta # 0 \/ ev.b \notin DOMAIN w.ser THEN W(w, i, Fail(s))
         ELSE W([w EXCEPT !.snap = Put(@, ev.k, w.ser[ev.b])], i, Done(s))

StateFunctions == {"GetFMUState", "SetFMUState", "FreeFMUState", "SerializedFMUStateSize",
                   "SerializeFMUState", "DeserializeFMUState"}

\* activation of a partition, as the pieces between callbacks; x tells what the FMU does next
CallClock(w, s, ev) ==
  CASE ev.f = "ActivateModelPartition" ->
         IF s.mode \notin Allowed3(ev.f, "") THEN W(w, ev.i, [Fail(s) EXCEPT !.x = << "refused" >>])
         ELSE LET s1 == Activate(s, ev.vr, ev.t) IN
              IF Top(s1).want = "err" THEN W(w, ev.i, [Fail(s) EXCEPT !.x = << "refused" >>])
              ELSE W(w, ev.i, R(s1, OK, << "begun" >>, << >>))
    [] ev.f = "cb" ->
         IF s.stk # << >> /\ Top(s).want = ev.k
         THEN W(w, ev.i, Done(SetTop(s, [p |-> Top(s).p, want |-> "in" \o ev.k])))
         ELSE W(w, ev.i, R(s, Error, << "unexpected callback", IF s.stk = << >> THEN "" ELSE Top(s).want >>, << >>))
    [] ev.f = "cbret" -> W(w, ev.i, Done(CbReturn(s)))
    [] ev.f = "ampret" ->
         IF s.stk # << >> /\ Top(s).want = "ret"
         THEN W(w, ev.i, Done([s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]))
         ELSE W(w, ev.i, R(s, Error, << "unexpected return", IF s.stk = << >> THEN "" ELSE Top(s).want >>, << >>))

ClockFunctions == {"ActivateModelPartition", "cb", "cbret", "ampret"}

\* functions of the import library that form a text in a buffer; where it would just do either answer is right
Location(w, ev) ==
  LET text == IF ev.f = "uri" THEN UriOf(ev.path) ELSE BinaryPath(ev.path, ev.id, ev.ver)
      fits == IF ev.f = "uri" THEN UriFits(ev.path, ev.size) ELSE Fits(text, ev.size, 0)
      good == fits = "yes" \/ (fits = "either" /\ ev.st = OK)
  IN [w |-> w, st |-> IF good THEN OK ELSE Error, x |-> IF good THEN text ELSE << >>, f |-> << >>, lg |-> "none",
      cb |-> << >>]

Call(w, ev) ==
  CASE ev.f = "Instantiate" -> Instantiate(w, ev)
    [] ev.f = "file" ->
         [w |-> [w EXCEPT !.files = IF ev.c >= 0 THEN Put(@, ev.path, ev.c) ELSE Drop(@, ev.path)],
          st |-> OK, x |-> << >>, f |-> << >>, lg |-> "none", cb |-> << >>]
    [] ev.f \in {"uri", "binpath"} -> Location(w, ev)
    [] ev.f = "world" ->        \* what follows was done elsewhere
         [w |-> EmptyWorld, st |-> OK, x |-> << >>, f |-> << >>, lg |-> "none", cb |-> << >>]
    [] ev.f = "FreeInstance" ->
         [w |-> [w EXCEPT !.inst = Drop(@, ev.i)], st |-> OK, x |-> << >>, f |-> << >>,
          lg |-> "none", cb |-> << >>]
    [] ev.i = "null" ->
         [w |-> w, st |-> Error, x |-> << >>, f |-> << >>, lg |-> "none", cb |-> << >>]
    [] OTHER ->
         LET s == w.inst[ev.i] IN
         IF ev.f \in ClockFunctions THEN CallClock(w, s, ev)
         ELSE IF ev.f \in NotImplemented3 /\ s.ver = 3 THEN W(w, ev.i, Refuse(s))
         ELSE IF s.mode \notin Allowed(s.ver, ev.f, ev.T) THEN W(w, ev.i, Fail(s))
         ELSE IF ev.f \in StateFunctions THEN CallState(w, s, ev)
         ELSE W(w, ev.i, CallOne(w, s, ev))

\* A call during which the FMU was refused memory or a handle: either it can do without (at most a
\* message is lost), or it fails as a whole: there is no instance, or the error ends the run and nothing
\* else changes.  Which of the two it was is seen from the answer.
Short(w, ev) ==
  LET r == Call(w, ev)
      quiet == [r EXCEPT !.lg = CASE @ = "none" -> "none" [] @ = "one" -> "short" [] OTHER -> "any"] IN
  IF ev.f = "Instantiate"
  THEN IF ev.x = r.x THEN quiet
       ELSE [w |-> w, st |-> OK, x |-> << FALSE >>, f |-> << >>, lg |-> "short", cb |-> << >>]
  ELSE IF ev.st = r.st \/ ev.i \notin DOMAIN w.inst THEN quiet
  ELSE [W(w, ev.i, Fail(w.inst[ev.i])) EXCEPT !.lg = "any"]
=============================================================================
