-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Paths, file URIs and locations of platform binaries, as sequences of    *)
(* bytes.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Slash     == 47
Backslash == 92
Percent   == 37

\* value of a hexadecimal digit, or -1; digit of a value
Hex(b)   == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] b \in 97..102 -> b - 87 [] OTHER -> -1
Digit(n) == IF n < 10 THEN 48 + n ELSE 55 + n

RECURSIVE Decode(_)
Decode(u) ==
  IF u = << >> THEN << >>
  ELSE IF u[1] = Percent /\ Len(u) >= 3 /\ Hex(u[2]) >= 0 /\ Hex(u[3]) >= 0
       THEN << Hex(u[2]) * 16 + Hex(u[3]) >> \o Decode(SubSeq(u, 4, Len(u)))
       ELSE << u[1] >> \o Decode(Tail(u))

SchemeA == << 102, 105, 108, 101, 58, 47, 47, 47 >>      \* "file:///"
SchemeB == << 102, 105, 108, 101, 58, 47 >>              \* "file:/"
Prefix(p, u) == Len(u) >= Len(p) /\ SubSeq(u, 1, Len(p)) = p
\* the path an FMI 2.0 resource URI denotes, or << >>
UriPath(u) ==
  IF Prefix(SchemeA, u) THEN << Slash >> \o Decode(SubSeq(u, 9, Len(u)))
  ELSE IF Prefix(SchemeB, u) THEN << Slash >> \o Decode(SubSeq(u, 7, Len(u)))
  ELSE << >>

\* unreserved and reserved characters of RFC 3986: letters, digits, -._~ and :/?#[]@!$&'()*+,;=
Legal == (65..90) \cup (97..122) \cup (48..57)
         \cup {45, 46, 95, 126, 58, 47, 63, 35, 91, 93, 64, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}
EncodeByte(b) == IF b \in Legal THEN << b >> ELSE << Percent, Digit(b \div 16), Digit(b % 16) >>
Encode(p)     == FoldLeft(LAMBDA a, b : a \o EncodeByte(b), << >>, p)
UriOf(p)      == SubSeq(SchemeA, 1, 7) \o Encode(p)

\* a text that must fit a buffer of so many bytes with its terminator: "no", "yes", or "either" where
\* the buffer would just do
Fits(text, size, slack) == IF size < Len(text) + 1 THEN "no"
                           ELSE IF size < Len(text) + 1 + slack THEN "either" ELSE "yes"
UriFits(p, size) == Fits(UriOf(p), size, 3)

Binaries == << 98, 105, 110, 97, 114, 105, 101, 115 >>                            \* "binaries"
Platform(ver) == IF ver < 3 THEN << 108, 105, 110, 117, 120, 54, 52 >>            \* "linux64"
                 ELSE << 120, 56, 54, 95, 54, 52, 45, 108, 105, 110, 117, 120 >>  \* "x86_64-linux"
DotSo == << 46, 115, 111 >>                                                       \* ".so"
BinaryPath(dir, id, ver) ==
  dir \o (IF dir # << >> /\ Last(dir) \notin {Slash, Backslash} THEN << Slash >> ELSE << >>)
  \o Binaries \o << Slash >> \o Platform(ver) \o << Slash >> \o id \o DotSo
=============================================================================
