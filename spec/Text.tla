-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Texts.  The operators are evaluated in Java (spec/java/verif/Text.java); *)
(* the definitions say what they mean.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* text of a double, given as the 16 hexadecimal digits of its bits, with so many
\* significant digits at most: the conversion %.<digits>g of C
NumText(bits, digits) == CHOOSE t \in STRING : TRUE

\* the texts one after the other, separated
RECURSIVE Join(_, _)
Join(s, sep) == IF Len(s) = 0 THEN ""
                ELSE IF Len(s) = 1 THEN s[1]
                ELSE s[1] \o sep \o Join(Tail(s), sep)

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
=============================================================================
