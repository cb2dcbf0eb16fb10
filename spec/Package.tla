------------------------------- MODULE Package -------------------------------
(***************************************************************************)
(* What a packaged FMU consists of.  A package is a set of file names; the *)
(* descriptions inside name further files, and all of them have to be      *)
(* there, as they are in the project.                                      *)
(***************************************************************************)
EXTENDS Sequences, Naturals, FiniteSets, TLC, Json, IOUtils

Packages == JsonDeserialize(IOEnv.PACKAGES)
VARIABLE p

Elements(s) == {s[k] : k \in 1..Len(s)}

Missing(x) ==
  LET files == Elements(x.files) IN
  ({"modelDescription.xml", x.lib} \cup Elements(x.sources) \cup Elements(x.resources) \cup Elements(x.related)) \ files
\* the names under which the description announces the FMU, and the ones under which it is built
NamesOk(x) == Elements(x.ids) = {x.m} /\ Elements(x.builds) = {x.m}
Unoffered(x) == Elements(x.functions) \ Elements(x.symbols)

Say(x, what) == PrintT("@@" \o ToJson([m |-> x.m, ver |-> x.ver, what |-> what]))

Judged(x) ==
  /\ Missing(x) = {} \/ Say(x, "missing: " \o ToString(Missing(x)))
  /\ x.altered = << >> \/ Say(x, "altered: " \o ToString(x.altered))
  /\ NamesOk(x) \/ Say(x, "model identifier")
  /\ Unoffered(x) = {} \/ Say(x, "not offered: " \o ToString(Unoffered(x)))
  /\ x.sources # << >> \/ Say(x, "no sources")

Init == p = 0
Next == p < Len(Packages) /\ p' = p + 1 /\ Judged(Packages[p + 1])
Spec == Init /\ [][Next]_p
=============================================================================
