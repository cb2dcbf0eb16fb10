----------------------------- MODULE Reference -----------------------------
(***************************************************************************)
(* The reference results shipped with the FMUs.  For every model that has  *)
(* a file of results, the default experiment of its model description is   *)
(* carried out in the specification, row by row: a step from the time of   *)
(* one row to the time of the next, and a read of every column.            *)
(*                                                                         *)
(* The file has to have a column for every output of the model and for     *)
(* nothing else, start at the start time, keep the declared interval, end  *)
(* at the stop time or where the model asks for termination, and contain   *)
(* what is read.  Everything that is not so is printed.                    *)
(***************************************************************************)
EXTENDS FMU, Json, IOUtils, FiniteSets

Refs == JsonDeserialize(IOEnv.REFERENCES)

VARIABLES d, k, w, over

D == Refs[d]
Elements(s) == {s[j] : j \in 1..Len(s)}

\* what the variables and time of a model are printed with
tol == FLit("1e-12")
Agree(a, b) == a = b \/ FNear(a, b) \/ FNearAbs(a, b, tol)
CellOk(T, r, want) ==
  IF T \in FloatTypes
  THEN Len(r.f) = Len(want) /\ \A j \in 1..Len(want) : Agree(r.f[j], want[j])
  ELSE Len(r.x) = Len(want) /\ \A j \in 1..Len(want) : r.x[j] = want[j]

\* the calls of one row, and what is wrong with it
Row(ww, row) ==
  LET one(a, ev) ==
        LET r == Call(a.w, ev) IN
        [w |-> r.w,
         bad |-> a.bad \cup
           (IF ev.f = "Get" /\ (r.st # OK \/ ~CellOk(ev.T, r, row.vals[ev.col])) THEN {D.cols[ev.col]}
            ELSE IF r.st = OK \/ (ev.f = "DoStep" /\ r.st = Discard) THEN {} ELSE {ev.f})] IN
  FoldLeft(one, [w |-> ww, bad |-> {}], row.evs)

ShapeOk ==
  /\ IF D.ver = 3 THEN Elements(D.cols) = Elements(D.outs) ELSE Elements(D.outs) \subseteq Elements(D.cols)
  /\ Cardinality(Elements(D.cols)) = Len(D.cols)
  /\ Len(D.rows) >= 2
  /\ \A j \in 2..Len(D.rows) : FLt(D.rows[j - 1].t, D.rows[j].t)
  /\ Agree(D.rows[1].t, D.start)
  /\ D.hstep => \A j \in 1..Len(D.rows) : Agree(D.rows[j].t, FAdd(D.start, FMul(FOfInt(j - 1), D.step)))

Terminates(ww) == ww.inst["a"].ev.term
\* where the file ends
EndOk(ww) == Agree(D.rows[Len(D.rows)].t, D.stop) \/ Terminates(ww)

Say(what) == PrintT("@@" \o ToJson([d |-> d, k |-> k, what |-> what]))

Init == d \in 1..Len(Refs) /\ k = 0 /\ w = EmptyWorld /\ over = FALSE

Next ==
  /\ ~over /\ d' = d /\ k' = k + 1
  /\ IF k = 0 /\ ~ShapeOk
     THEN Say("columns or times") /\ over' = TRUE /\ w' = w
     ELSE IF k < Len(D.rows)
     THEN \E r \in {Row(w, D.rows[k + 1])} :
            /\ w' = r.w
            /\ IF r.bad = {} THEN over' = FALSE ELSE over' = TRUE /\ Say(ToString(r.bad))
     ELSE /\ over' = TRUE /\ w' = w
          /\ EndOk(w) \/ Say("end")

Spec == Init /\ [][Next]_<<d, k, w, over>>
Where == << d, k >>
=============================================================================
