------------------------------- MODULE Usage -------------------------------
(***************************************************************************)
(* The example importers.  A trace holds the calls a program made, what    *)
(* the FMU answered, the rows it wrote to its result file at the point     *)
(* where they were written, and how it ended.                              *)
(*                                                                         *)
(* Every call has to be answered as specified and to be one that the FMU   *)
(* accepts; a row has to hold the time and the values the FMU has at that  *)
(* point; rows follow each other in time, from the start to the stop time  *)
(* or to where the FMU asked for termination; nothing is left over.  A     *)
(* program that integrates advances the states by the derivatives.  One    *)
(* that exists for two versions of FMI writes the same in both.            *)
(***************************************************************************)
EXTENDS Trace

VARIABLE u      \* what is known of the run: model, start, stop, rows, time of the last row and of the
                \* last activation, termination, what has to be done before time advances again,
                \* the derivatives last obtained with states and time, what was reported
vars == << tid, l, w, lost, u >>

printed == FLit("1e-5")
Printed(a, b) == a = b \/ FNearAbs(a, b, FMul(printed, FAbs(b))) \/ FNearAbs(a, b, FLit("1e-11"))

CellOk(T, r, got) ==
  IF T \in FloatTypes
  THEN Len(r.f) = Len(got) /\ \A j \in 1..Len(got) : Printed(got[j], r.f[j])
  ELSE Len(r.x) = Len(got) /\ \A j \in 1..Len(got) : r.x[j] = got[j]

Read(i, col, n) == Call(w, [f |-> "Get", i |-> i, T |-> col.T, vr |-> << col.vr >>, nv |-> n, nul |-> ""])

\* what is wrong with a row in itself
Shape(row) ==
  (IF Len(row.t) = 1 THEN {} ELSE {"no time"})
  \cup (IF row.n = Len(row.cols) THEN {} ELSE {"number of columns"})
  \cup {"unknown column " \o row.cols[c].name : c \in {k \in 1..Len(row.cols) : row.cols[k].T = ""}}
\* the columns that can be judged
Cols(row) == {c \in 1..Len(row.vals) : c <= Len(row.cols) /\ row.cols[c].T # ""}

\* where partitions are activated, time is that of the last activation
Now(i) == IF w.inst[i].kind = "SE" THEN u.act ELSE Read(i, [T |-> "Float64", vr |-> 0], 1).f[1]

\* the same program for the other version of FMI has written the same, as far as there are such variables
SameCell(T, S, x, y) ==
  CASE T = "Boolean" \/ T # S -> TRUE                          \* written in another way
    [] T \in FloatTypes -> Len(x) = Len(y) /\ \A j \in 1..Len(x) : Printed(x[j], y[j])
    [] OTHER -> Len(x) = Len(y) /\ \A j \in 1..Len(x) : x[j] = y[j]
Unlike(a, b) ==
  (IF a.t = b.t THEN {} ELSE {"time differs between versions"})
  \cup {a.cols[c].name \o " differs between versions" : c \in
         {k \in Cols(a) : \E d \in Cols(b) : a.cols[k].name = b.cols[d].name
                                           /\ ~SameCell(a.cols[k].T, b.cols[d].T, a.vals[k], b.vals[d])}}

\* a row written between calls
RowFaults(row) ==
  IF row.i \notin DOMAIN w.inst THEN {"nothing to show"}
  ELSE Shape(row)
       \cup (IF Len(row.t) # 1 THEN {}
             ELSE (IF Printed(row.t[1], Now(row.i)) THEN {} ELSE {"time"})
                  \cup (IF u.n = 0 \/ FLe(u.t, row.t[1]) THEN {} ELSE {"order"}))
       \cup {"value of " \o row.cols[c].name : c \in
              {k \in Cols(row) : LET r == Read(row.i, row.cols[k], Len(row.vals[k])) IN
                                 r.st # OK \/ ~CellOk(row.cols[k].T, r, row.vals[k])}}
       \cup (IF row.tw # 0 THEN Unlike(row, Traces[tid][row.tw]) ELSE {})

\* rows written from inside a step: one for every intermediate update, with what was read there
InsideOk(ev, r) ==
  "rows" \in DOMAIN ev =>
    /\ Len(ev.rows) = Len(r.cb)
    /\ \A k \in 1..Len(ev.rows) :
         /\ Shape(ev.rows[k]) = {} /\ Len(ev.rows[k].vals) = ev.rows[k].n
         /\ Printed(ev.rows[k].t[1], r.cb[k][1])
         /\ \E q \in {ev.reads[k]} : \A c \in 1..ev.rows[k].n :
              \E j \in 1..Len(q.vr) : q.vr[j] = ev.rows[k].cols[c].vr /\ Printed(ev.rows[k].vals[c][1], q.fv[j])
         /\ \E q \in {ev.reads[k]} : Printed(q.fv[1], r.cb[k][2])

\* FMI 2.0 reports the end of a simulation by discarding a step
Accepted(ev, r) == r.st = OK \/ (ev.f = "DoStep" /\ r.st = Discard)

\* where a program simulates by integrating itself, the states it sets are those the FMU had when it asked for the derivatives,
\* advanced by these over the time that has passed
Time(i) == Read(i, [T |-> "Float64", vr |-> 0], 1).f[1]
States(i, n) == Call(w, [f |-> "GetContinuousStates", i |-> i, n |-> n, nul |-> ""]).f
AdvancedOk(ev, r) ==
  (ev.f = "SetContinuousStates" /\ r.st = OK /\ u.n > 0) =>
    /\ Len(ev.v) = Len(u.dx)
    /\ \A k \in 1..Len(ev.v) : Printed(ev.v[k], FAdd(u.x[k], FMul(FSub(Time(ev.i), u.dt), u.dx[k])))

\* what has to be done after time was advanced and before it is advanced again
Due(i) == LET s == w.inst[i] IN
  (IF NumX(s.m, s.d) > 0 THEN {"states not advanced"} ELSE {})
  \cup (IF NumZ(s.m) > 0 THEN {"event indicators not examined"} ELSE {})

CallFaults(ev, r) ==
  (IF Accepted(ev, r) THEN {} ELSE {ev.f \o " refused"})
  \cup (IF AdvancedOk(ev, r) THEN {} ELSE {"states advanced wrongly"})
  \cup (IF ev.f = "SetTime" THEN u.due ELSE {})
  \cup (IF InsideOk(ev, r) THEN {} ELSE {"rows of intermediate updates"})

EndFaults(ev) ==
  (IF ev.st = 0 THEN {} ELSE {"exit code"})
  \* one of them shows where the FMU asked for termination, the other does not
  \cup (IF ev.less = 0 \/ (ev.less \in {-1, 1} /\ u.term) THEN {} ELSE {"number of rows differs between versions"})
  \cup (IF DOMAIN w.inst = {} /\ DOMAIN w.snap = {} THEN {} ELSE {"left over"})
  \cup (IF ev.nothing \/ u.m # "" THEN {} ELSE {"no instance"})
  \cup (IF ev.until => /\ u.n > 1 /\ Printed(u.first, u.start)
                       /\ u.term \/ FLe(FSub(u.stop, FMul(FLit("10.001"), StepSize(u.m))), u.t)
        THEN {} ELSE {"end"})

Known(ev, w2) ==
  LET a == IF ev.f = "Instantiate" THEN [u EXCEPT !.m = ev.m]
           ELSE IF ev.f = "ActivateModelPartition" THEN [u EXCEPT !.act = ev.t]
           ELSE IF ev.f \in {"EnterInitializationMode", "SetupExperiment"} /\ "sd" \in DOMAIN ev
           THEN [u EXCEPT !.start = ev.t, !.stop = IF ev.sd THEN ev.stop ELSE ev.t]
           ELSE IF ev.f = "SetTime" THEN [u EXCEPT !.due = IF ev.st = OK THEN Due(ev.i) ELSE {}]
           ELSE IF ev.f = "SetContinuousStates" THEN [u EXCEPT !.due = @ \ {"states not advanced"}]
           ELSE IF ev.f = "GetEventIndicators" THEN [u EXCEPT !.due = @ \ {"event indicators not examined"}]
           ELSE IF ev.f = "GetDerivatives" /\ ev.st = OK
           THEN [u EXCEPT !.dx = ev.fv, !.dt = Time(ev.i),
                          !.x = States(ev.i, Len(ev.fv))] ELSE u
      b == IF "rows" \in DOMAIN ev /\ Len(ev.rows) > 0
           THEN [a EXCEPT !.n = @ + Len(ev.rows), !.t = ev.rows[Len(ev.rows)].t[1],
                          !.first = IF a.n = 0 THEN a.start ELSE @]
           ELSE a IN
  [b EXCEPT !.term = @ \/ \E i \in DOMAIN w2.inst : w2.inst[i].ev.term]

Fresh == [m |-> "", start |-> f0, stop |-> f0, n |-> 0, first |-> f0, t |-> f0, term |-> FALSE, act |-> f0, due |-> {}, dx |-> << >>, dt |-> f0, x |-> << >>, seen |-> {}]
UInit == Init /\ u = Fresh

\* what a program does wrong is reported once, and the run is followed further; an answer of the FMU that
\* is not the specified one ends it
Note(what) == \A x \in what \ u.seen : Report("USAGE", {x}, [rows |-> u.n, last |-> FStr(u.t), stop |-> FStr(u.stop)])

UNext ==
  /\ l <= Len(Traces[tid])
  /\ l' = l + 1 /\ tid' = tid /\ lost' = lost
  /\ \E ev \in {Traces[tid][l]} :
       CASE ev.f = "row" ->
              \E what \in {RowFaults(ev)} :
                /\ Note(what) /\ w' = w
                /\ u' = [u EXCEPT !.n = @ + 1, !.t = IF Len(ev.t) = 1 THEN ev.t[1] ELSE @, !.seen = @ \cup what,
                                  !.first = IF u.n = 0 /\ Len(ev.t) = 1 THEN ev.t[1] ELSE @]
         [] ev.f = "world" -> w' = EmptyWorld /\ u' = Fresh
         [] ev.f = "end" -> Note(EndFaults(ev)) /\ UNCHANGED << w, u >>
         [] OTHER ->
              \E r \in {Call(w, ev)} : \E what \in {Faults(tid, w, ev, r) \ {"log"}} :
                IF what # {} THEN Report("MISMATCH", what, Expected(ev, r)) /\ FALSE
                ELSE \E more \in {CallFaults(ev, r)} :
                       Note(more) /\ w' = r.w /\ u' = [Known(ev, r.w) EXCEPT !.seen = @ \cup more]

USpec == UInit /\ [][UNext]_vars
=============================================================================
