------------------------------ MODULE LogBuffer ------------------------------
(***************************************************************************)
(* A text that is put together piece by piece in a buffer that grows.      *)
(* Pieces are appended at the position of the terminator; a piece that     *)
(* does not fit with its separator makes the buffer grow, and is written   *)
(* again.  The text is complete whatever the lengths of the pieces are,    *)
(* and no byte outside the buffer is written.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Start,       \* size of a new buffer
          MaxPiece,    \* longest piece
          MaxPieces,   \* most pieces of a text
          MaxTexts     \* texts written one after the other into the same buffer

VARIABLES size, pos, text, want, texts, touched

vars == << size, pos, text, want, texts, touched >>

RECURSIVE Grown(_, _)
Grown(s, need) == IF s > need THEN s ELSE Grown(2 * s, need)

Init == /\ size = Start /\ pos = 0 /\ text = << >> /\ want = << >> /\ texts = 0 /\ touched = 0

\* a piece: n characters, numbered so that a lost or doubled one is seen
Piece(n, from) == [k \in 1..n |-> from + k]

Append1(n) ==
  LET need == pos + n
      s == IF n < size - pos THEN size ELSE Grown(size, need)
  IN /\ size' = s
     /\ pos' = need
     /\ text' = text \o Piece(n, Len(want))
     /\ want' = want \o Piece(n, Len(want))
     /\ touched' = IF need > touched THEN need ELSE touched   \* index of the terminator

Write == /\ Len(want) < MaxPieces * MaxPiece
         /\ \E n \in 0..MaxPiece : Append1(n)
         /\ UNCHANGED texts
Clear == /\ texts < MaxTexts
         /\ pos' = 0 /\ text' = << >> /\ want' = << >> /\ texts' = texts + 1
         /\ UNCHANGED << size, touched >>
Next == Write \/ Clear
Spec == Init /\ [][Next]_vars

Complete == text = want /\ pos = Len(text)
Inside   == touched < size
=============================================================================
