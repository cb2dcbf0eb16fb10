---------------------------- MODULE Description ----------------------------
(***************************************************************************)
(* What a model description promises.  A description D is the content of   *)
(* the XML file; what is specified here is its meaning: which calls the    *)
(* FMU must accept, which it must refuse, and which values must agree.     *)
(* The state of an instance is only what that meaning depends on:          *)
(*   ph    phase ("" if nothing is promised any more, after a refusal)     *)
(*   at    mode after the initialization ("" if it is not known)           *)
(*   em    whether events are handled by the importer                      *)
(*   kind  interface type                                                  *)
(*   fresh nothing was set since creation or reset                         *)
(*   sz    value of every structural parameter, by reference               *)
(*   val   values of the variables read, as long as they are promised not  *)
(*         to have changed                                                 *)
(*   t     communication point                                             *)
(***************************************************************************)
EXTENDS IEEE, Integers, Sequences, FiniteSets, SequencesExt, TLC

OK == 0
Error == 3

Elems(s) == {s[k] : k \in 1..Len(s)}
Vars(D) == Elems(D.vars)
Refs(D) == {v.vr : v \in Vars(D)}
Var(D, vr) == CHOOSE v \in Vars(D) : v.vr = vr

Structural(v) == v.causality = "structuralParameter"
\* given values: not calculated by the model
Given(v) == \/ v.causality \in {"input", "parameter", "structuralParameter"}
            \/ v.initial \in {"exact", "approx"}
            \/ v.variability = "constant"
Calculated(v) == ~Given(v) /\ v.causality # "independent"
\* variables that can be set before the simulation
SetFirst(v) == /\ v.variability # "constant"
               /\ \/ v.causality \in {"input", "parameter"}
                  \/ v.initial \in {"exact", "approx"}
HasStart(v) == v.hs /\ (v.causality \in {"input", "parameter", "structuralParameter"}
                        \/ v.initial = "exact" \/ v.variability = "constant")

\* the sizes of the structural parameters of a new instance
StartSizes(D) == [vr \in {v.vr : v \in {u \in Vars(D) : Structural(u) /\ u.T = "UInt64"}} |-> IntOf(Var(D, vr).start[1])]
RECURSIVE Product(_, _)
Product(dims, sz) ==
  IF dims = << >> THEN 1
  ELSE (IF dims[1].ref THEN sz[dims[1].n] ELSE dims[1].n) * Product(Tail(dims), sz)
Size(v, sz) == Product(v.dims, sz)

-----------------------------------------------------------------------------
(* the structure is consistent in itself *)

Unknowns(D) == Elems(D.outputs) \cup Elems(D.ders) \cup Elems(D.init) \cup Elems(D.ind)
WellFormed(D) ==
  /\ D.fmi = (IF D.ver = 2 THEN "2.0" ELSE "3.0")
  /\ \A k \in 1..Len(D.ids) : D.ids[k] = D.m
  /\ D.kinds # << >>
  /\ \A j, k \in 1..Len(D.vars) : j # k => D.vars[j].vr # D.vars[k].vr /\ D.vars[j].name # D.vars[k].name
  /\ \E v \in Vars(D) : v.causality = "independent" /\ v.T = "Float64"
  /\ \A v \in Vars(D) :
       /\ v.causality \in {"input", "parameter", "structuralParameter"} /\ v.T # "Clock" => v.hs
       /\ v.initial = "exact" => v.hs
       /\ \A k \in 1..Len(v.dims) : v.dims[k].ref => /\ v.dims[k].n \in Refs(D)
                                                      /\ Structural(Var(D, v.dims[k].n))
       /\ v.hs => Len(v.start) = Size(v, StartSizes(D))
       /\ v.der # -1 => v.der \in Refs(D) /\ Var(D, v.der).T = v.T
  /\ \A u \in Unknowns(D) : u.vr \in Refs(D) /\ Elems(u.deps) \subseteq Refs(D)
  \* every output is listed, and only outputs; the derivatives belong to variables
  /\ {u.vr : u \in Elems(D.outputs)} = {v.vr : v \in {u \in Vars(D) : u.causality = "output"}}
  /\ \A u \in Elems(D.ders) : Var(D, u.vr).der # -1

States(D) == [k \in 1..Len(D.ders) |-> Var(D, D.ders[k].vr).der]
StateVars(D) == Elems(States(D))

-----------------------------------------------------------------------------
(* what an unknown may depend on, directly or through other unknowns *)

Listed(D, ph) == IF ph \in {"Instantiated", "Init"} THEN Elems(D.init)
                 ELSE Elems(D.outputs) \cup Elems(D.ders) \cup Elems(D.ind)
RECURSIVE May(_, _, _, _, _)
May(D, ph, u, k, seen) ==
  IF u = k THEN TRUE
  ELSE LET es == {e \in Listed(D, ph) : e.vr = u /\ e.hd} IN
       IF es # {}
       THEN \E e \in es : \E j \in Elems(e.deps) : j = k \/ (j \notin seen /\ May(D, ph, j, k, seen \cup {u}))
       ELSE Calculated(Var(D, u))
MayDepend(D, ph, u, k) == May(D, ph, u, k, {})
\* what is known of the values after k was set
Keep(D, w, k) ==
  IF Structural(Var(D, k)) THEN << >>
  ELSE IF w.ph = "Run" /\ Var(D, k).causality # "input" /\ k \notin StateVars(D)
  THEN [u \in {u \in DOMAIN w.val : u # k /\ Given(Var(D, u))} |-> w.val[u]]
  ELSE [u \in {u \in DOMAIN w.val : Var(D, u).causality # "independent" /\ ~MayDepend(D, w.ph, u, k)} |-> w.val[u]]

-----------------------------------------------------------------------------
(* judgements: << status promised (-1: none), values promised or "any" >> *)

Typed(D, T, vr) == {v \in Vars(D) : v.vr = vr /\ v.T = T}

InstanceOk(D, ev) ==            \* 1 created, 0 refused, -1 no promise
  IF ev.tok # D.token THEN 0
  ELSE IF ev.kind \in Elems(D.kinds) THEN (IF ev.em /\ ~D.em THEN 0 ELSE 1)
  ELSE IF D.ver = 3 /\ ev.kind # "CS" THEN 0 ELSE -1

GetStatus(D, w, ev) ==
  LET vs == Typed(D, ev.T, ev.vr[1]) IN
  IF vs = {} THEN Error
  ELSE IF \A v \in vs : ev.nv = Size(v, w.sz) THEN OK ELSE Error

Small(v, text) == IF v.T \in {"UInt32", "Int64", "UInt64"} THEN IntOf(text) ELSE text

\* inputs and tunable parameters can be set at events; between steps too, if there are no events to wait for
Smooth(v) == v.T \in {"Float64", "Float32"} /\ v.variability = "continuous"
SetLater(w, v) ==
  CASE v.causality = "input" -> w.at = "Event" \/ (w.at = "Step" /\ ~w.em) \/ (w.at \in {"Step", "Continuous"} /\ Smooth(v))
    [] v.causality = "parameter" -> v.variability = "tunable" /\ (w.at = "Event" \/ (w.at = "Step" /\ ~w.em))
    [] OTHER -> FALSE

SetStatus(D, w, ev) ==
  LET vs == Typed(D, ev.T, ev.vr[1]) IN
  IF vs = {} THEN Error
  ELSE LET v == Var(D, ev.vr[1]) IN
       IF Structural(v)
       THEN IF w.ph # "Config" THEN -1
            ELSE IF v.bounded /\ ~(Small(v, ev.v[1]) \in v.min..v.max) THEN Error ELSE OK
       ELSE IF w.ph \in {"Instantiated", "Init"} THEN (IF SetFirst(v) THEN OK ELSE Error)
       ELSE IF SetLater(w, v) THEN OK
       ELSE -1

Flat(w, refs) == FlattenSeq([k \in 1..Len(refs) |-> w.val[refs[k]]])
RECURSIVE Total(_, _, _)
Total(D, w, refs) == IF refs = << >> THEN 0 ELSE Size(Var(D, refs[1]), w.sz) + Total(D, w, Tail(refs))
DerRefs(D) == [k \in 1..Len(D.ders) |-> D.ders[k].vr]
IndRefs(D) == [k \in 1..Len(D.ind) |-> D.ind[k].vr]
NumX(D, w) == Total(D, w, DerRefs(D))
NumZ(D, w) == IF D.ver = 2 THEN D.nz ELSE Total(D, w, IndRefs(D))
Known(w, refs) == \A k \in 1..Len(refs) : refs[k] \in DOMAIN w.val
NominalsOf(D, w) ==
  FlattenSeq([k \in 1..Len(D.ders) |-> LET v == Var(D, States(D)[k]) IN [j \in 1..Size(v, w.sz) |-> v.nominal]])
=============================================================================
