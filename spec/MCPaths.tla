------------------------------- MODULE MCPaths -------------------------------
(***************************************************************************)
(* Every path of up to MaxLen bytes: its URI has legal characters only and  *)
(* denotes the path again.                                                 *)
(***************************************************************************)
EXTENDS Paths

CONSTANT MaxLen
VARIABLE p

Init == p = << >>
Next == Len(p) < MaxLen /\ \E b \in 1..255 : p' = Append(p, b)
Spec == Init /\ [][Next]_p

Abs == << Slash >> \o p
Sound == LET u == UriOf(Abs) IN
  /\ UriPath(u) = Abs
  /\ \A k \in 1..Len(u) : u[k] \in Legal \cup {Percent}
  /\ \A k \in 1..Len(u) : u[k] = Percent => k + 2 <= Len(u) /\ Hex(u[k + 1]) >= 0 /\ Hex(u[k + 2]) >= 0
=============================================================================
