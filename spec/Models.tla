------------------------------ MODULE Models ------------------------------
(***************************************************************************)
(* The models inside the reference FMUs: start values, equations, event    *)
(* conditions, which variable can be read and set with which type, and in  *)
(* which modes.  Everything is a function of the data record `d` of an     *)
(* instance; calculated variables are never stored, so by construction a   *)
(* read is a function of the writes before it.                             *)
(*                                                                         *)
(* Values: Float32/Float64 are pairs (module IEEE); Int8, UInt8, Int16,    *)
(* UInt16, Int32 are integers; UInt32, Int64, UInt64 are decimal strings;  *)
(* Boolean is BOOLEAN; String and Binary are strings of hex digits.        *)
(***************************************************************************)
EXTENDS IEEE, Integers, Sequences, FiniteSets, SequencesExt, TLC

Models3 == {"BouncingBall", "Clocks", "Dahlquist", "Feedthrough", "Resource",
            "Roberts", "Stair", "StateSpace", "VanDerPol"}
Models2 == {"BouncingBall", "Dahlquist", "Feedthrough", "Resource", "Stair", "VanDerPol"}

Types == {"Float32", "Float64", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32",
          "Int64", "UInt64", "Boolean", "String", "Binary"}

Token(m) ==
  CASE m = "BouncingBall" -> "{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF1}"
    [] m = "Dahlquist"    -> "{221063D2-EF4A-45FE-B954-B5BFEEA9A59B}"
    [] m = "Stair"        -> "{BD403596-3166-4232-ABC2-132BDF73E644}"
    [] m = "VanDerPol"    -> "{BD403596-3166-4232-ABC2-132BDF73E644}"
    [] m = "Roberts"      -> "{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF2}"
    [] m = "StateSpace"   -> "{D773325B-AB94-4630-BF85-643EB24FCB78}"
    [] m = "Resource"     -> "{7b9c2114-2ce5-4076-a138-2cbc69e069e5}"
    [] m = "Clocks"       -> "{C5F142BA-B849-42DA-B4A1-4745BFF3BE28}"
    [] m = "Feedthrough"  -> "{37B954F1-CC86-4D8F-B97F-C7C36F6670D2}"

-----------------------------------------------------------------------------
(* numeric constants; zero-arity, so TLC evaluates each once *)
f0      == FLit("0")
f1      == FLit("1")
f2      == FLit("2")
fm2     == FLit("-2")
finf    == FLit("inf")
fnan    == FLit("nan")
fEps    == FLit("1e-5")
hBB     == FLit("1e-3")
hDq     == FLit("0.1")
hSt     == FLit("0.2")
hVP     == FLit("1e-2")
hRo     == FLit("1e-6")
dblMin  == FLit("2.2250738585072014E-308")
vMin    == FLit("0.1")
evEps   == FLit("1e-10")
nEvEps  == FLit("-1e-10")
gEarth  == FLit("-9.81")
e07     == FLit("0.7")
c004    == FLit("0.04")
cm004   == FLit("-0.04")
c1e4    == FLit("1e4")
cm1e4   == FLit("-1e4")
c3e7    == FLit("3e7")
c6e7    == FLit("6e7")
c1em4   == FLit("1e-4")
c1em2   == FLit("1e-2")

\* the closeness used for communication points, stop time and time events
IsClose(a, b) ==
  LET diff == FAbs(FSub(a, b)) IN
  IF finf \in {FAbs(a), FAbs(b)} THEN a = b ELSE
  FLe(diff, fEps) \/ FLe(diff, FMul(fEps, FMax(FAbs(a), FAbs(b))))

-----------------------------------------------------------------------------
(* static facts *)

StepSize(m) ==
  CASE m = "BouncingBall" -> hBB
    [] m = "Dahlquist"    -> hDq
    [] m = "Feedthrough"  -> hDq
    [] m = "Stair"        -> hSt
    [] m = "VanDerPol"    -> hVP
    [] m = "Roberts"      -> hRo
    [] m = "StateSpace"   -> hBB
    [] m = "Resource"     -> f1
    [] m = "Clocks"       -> f1

HasEventUpdate(m) == m \in {"BouncingBall", "Stair", "StateSpace", "Clocks", "Feedthrough"}
HasPartials(m)    == m \in {"VanDerPol", "Roberts"}
HasOutDer(m)      == m = "BouncingBall"
HasClocks(m)      == m = "Clocks"
SupportsME(m)     == m # "Clocks"
SupportsSE(m)     == m = "Clocks"

NumZ(m) == CASE m = "BouncingBall" -> 1 [] m = "Roberts" -> 2 [] OTHER -> 0
HasStates(m) == m \in {"BouncingBall", "Dahlquist", "VanDerPol", "Roberts", "StateSpace"}
NumX(m, d) ==
  CASE m \in {"BouncingBall", "VanDerPol", "Roberts"} -> 2
    [] m = "Dahlquist" -> 1
    [] m = "StateSpace" -> d.n
    [] OTHER -> 0

-----------------------------------------------------------------------------
(* Feedthrough: inputs are stored, outputs are the inputs *)

FtEnumType(ver) == IF ver = 3 THEN "Int64" ELSE "Int32"
FtIn == {1, 3, 5, 6, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 33}
FtOut == {2, 4, 8, 10, 12, 14, 16, 18, 20, 22, 24, 26, 28, 30, 32, 34}
FtType(ver, vr) ==
  CASE vr \in 1..4   -> "Float32"
    [] vr \in 5..10  -> "Float64"
    [] vr \in 11..12 -> "Int8"
    [] vr \in 13..14 -> "UInt8"
    [] vr \in 15..16 -> "Int16"
    [] vr \in 17..18 -> "UInt16"
    [] vr \in 19..20 -> "Int32"
    [] vr \in 21..22 -> "UInt32"
    [] vr \in 23..24 -> "Int64"
    [] vr \in 25..26 -> "UInt64"
    [] vr \in 27..28 -> "Boolean"
    [] vr \in 29..30 -> "String"
    [] vr \in 31..32 -> "Binary"
    [] vr \in 33..34 -> FtEnumType(ver)
FtSource(vr) == IF vr \in FtIn THEN vr ELSE vr - 1
FtStart(ver, vr) ==
  CASE vr \in {1, 3, 5, 6, 7, 9} -> f0
    [] vr \in {11, 13, 15, 17, 19} -> 0
    [] vr \in {21, 23, 25} -> "0"
    [] vr = 27 -> FALSE
    [] vr = 29 -> "536574206d6521"
    [] vr = 31 -> "666f6f"
    [] vr = 33 -> IF ver = 3 THEN "1" ELSE 1
\* which inputs of model exchange can be set only at certain times
FtRestrict(vr) == CASE vr = 5 -> "fixed" [] vr \in {3, 6, 9} -> "discrete" [] OTHER -> "free"

-----------------------------------------------------------------------------
(* StateSpace helpers: 5x5 storage, sizes n (states), m (inputs), r (outputs) *)

SSMax == 5
SSIdent == [i \in 1..SSMax |-> [j \in 1..SSMax |-> IF i = j THEN f1 ELSE f0]]
RECURSIVE Dot(_, _, _, _, _)
\* acc + sum over j in k..n of row[j]*v[j]
Dot(acc, row, v, k, n) == IF k > n THEN acc ELSE Dot(FAdd(acc, FMul(row[k], v[k])), row, v, k + 1, n)
SSder(d) == [i \in 1..d.n |-> Dot(Dot(f0, d.A[i], d.x, 1, d.n), d.B[i], d.u, 1, d.m)]
SSout(d) == [i \in 1..d.r |-> Dot(Dot(f0, d.C[i], d.x, 1, d.n), d.D[i], d.u, 1, d.m)]
Flat(M, rows, cols) == [k \in 1..(rows * cols) |-> M[((k - 1) \div cols) + 1][((k - 1) % cols) + 1]]
Fill(M, rows, cols, v) ==
  [i \in 1..SSMax |-> [j \in 1..SSMax |->
     IF i <= rows /\ j <= cols THEN v[(i - 1) * cols + j] ELSE M[i][j]]]
FillV(V, n, v) == [i \in 1..SSMax |-> IF i <= n THEN v[i] ELSE V[i]]

-----------------------------------------------------------------------------
(* Roberts: without DAE mode the third component is given by the conservation law *)

RoY3(d) == IF d.dae THEN d.y3 ELSE FSub(FSub(f1, d.y1), d.y2)
RoDer(d) ==
  LET y3 == RoY3(d)
      p  == FMul(FMul(c1e4, d.y2), y3) IN
  << FAdd(FMul(cm004, d.y1), p),
     FSub(FSub(FMul(c004, d.y1), p), FMul(FMul(c3e7, d.y2), d.y2)) >>
RoInd(d) == << FSub(d.y1, c1em4), FSub(RoY3(d), c1em2) >>

-----------------------------------------------------------------------------
NoEvent == [nds |-> FALSE, term |-> FALSE, nom |-> FALSE, val |-> FALSE, ned |-> FALSE, net |-> f0]

StartEvent(m) == IF m = "Stair" THEN [NoEvent EXCEPT !.ned = TRUE, !.net = f1] ELSE NoEvent

StartData(ver, m) ==
  CASE m = "BouncingBall" -> [h |-> f1, v |-> f0, g |-> gEarth, e |-> e07]
    [] m = "Dahlquist"    -> [x |-> f1, k |-> f1]
    [] m = "Stair"        -> [c |-> 1]
    [] m = "VanDerPol"    -> [x0 |-> f2, x1 |-> f0, mu |-> f1]
    [] m = "Resource"     -> [y |-> 0]
    [] m = "Roberts"      -> [dae |-> FALSE, y1 |-> f1, y2 |-> f0, y3 |-> f0]
    [] m = "StateSpace"   -> [m |-> 3, n |-> 3, r |-> 3, A |-> SSIdent, B |-> SSIdent,
                              C |-> SSIdent, D |-> SSIdent, x0 |-> [i \in 1..SSMax |-> f0],
                              u |-> [i \in 1..SSMax |-> FOfInt(i)], x |-> [i \in 1..SSMax |-> f0]]
    [] m = "Clocks"       -> [q |-> 0, oc |-> FALSE, t1 |-> 0, t2 |-> 0, t3 |-> 0, tot |-> 0,
                              res |-> 0, inp |-> 0, out |-> 0]
    [] m = "Feedthrough"  -> [v |-> [vr \in FtIn |-> FtStart(ver, vr)]]

(* continuous part *)
ContStates(m, d) ==
  CASE m = "BouncingBall" -> << d.h, d.v >>
    [] m = "Dahlquist"    -> << d.x >>
    [] m = "VanDerPol"    -> << d.x0, d.x1 >>
    [] m = "Roberts"      -> << d.y1, d.y2 >>
    [] m = "StateSpace"   -> SubSeq(d.x, 1, d.n)
    [] OTHER -> << >>

SetCont(m, d, x) ==
  CASE m = "BouncingBall" -> [d EXCEPT !.h = x[1], !.v = x[2]]
    [] m = "Dahlquist"    -> [d EXCEPT !.x = x[1]]
    [] m = "VanDerPol"    -> [d EXCEPT !.x0 = x[1], !.x1 = x[2]]
    [] m = "Roberts"      -> [d EXCEPT !.y1 = x[1], !.y2 = x[2]]
    [] m = "StateSpace"   -> [d EXCEPT !.x = FillV(@, d.n, x)]
    [] OTHER -> d

VPder1(d) == FSub(FMul(d.mu, FMul(FSub(f1, FMul(d.x0, d.x0)), d.x1)), d.x0)

Deriv(m, d) ==
  CASE m = "BouncingBall" -> << d.v, d.g >>
    [] m = "Dahlquist"    -> << FMul(FNeg(d.k), d.x) >>
    [] m = "VanDerPol"    -> << d.x1, VPder1(d) >>
    [] m = "Roberts"      -> RoDer(d)
    [] m = "StateSpace"   -> SSder(d)
    [] OTHER -> << >>

Nominals(m, d) ==
  CASE m = "Roberts" -> << c1em4, c1em2 >>
    [] OTHER -> [i \in 1..NumX(m, d) |-> f1]

Indicators(m, d) ==
  CASE m = "BouncingBall" ->
         << IF FLt(nEvEps, d.h) /\ FLe(d.h, f0) /\ FLt(f0, d.v) THEN nEvEps ELSE d.h >>
    [] m = "Roberts" -> RoInd(d)
    [] OTHER -> << >>

-----------------------------------------------------------------------------
(* discrete state update: new data, new event information, success *)

Quiet(ev) == [ev EXCEPT !.val = FALSE, !.nom = FALSE, !.term = FALSE, !.ned = FALSE]

EventUpdate(m, d, ev, time) ==
  CASE m = "BouncingBall" ->
         IF FLe(d.h, f0) /\ FLt(d.v, f0)
         THEN LET v1 == FMul(FNeg(d.v), d.e) IN
              [ok |-> TRUE,
               d  |-> IF FLt(v1, vMin) THEN [d EXCEPT !.h = dblMin, !.v = f0, !.g = f0]
                                       ELSE [d EXCEPT !.h = dblMin, !.v = v1],
               ev |-> [Quiet(ev) EXCEPT !.val = TRUE]]
         ELSE [ok |-> TRUE, d |-> d, ev |-> Quiet(ev)]
    [] m = "Stair" ->
         LET hit == ev.ned /\ IsClose(time, ev.net)
             c1  == IF hit THEN d.c + 1 ELSE d.c
             n1  == IF hit THEN FAdd(ev.net, f1) ELSE ev.net IN
         IF c1 > 10
         THEN [ok |-> FALSE, d |-> [d EXCEPT !.c = c1], ev |-> [ev EXCEPT !.net = n1]]
         ELSE [ok |-> TRUE, d |-> [d EXCEPT !.c = c1],
               ev |-> [ev EXCEPT !.val = FALSE, !.nom = FALSE, !.term = (c1 >= 10),
                                 !.ned = TRUE, !.net = n1]]
    [] m \in {"StateSpace", "Feedthrough"} -> [ok |-> TRUE, d |-> d, ev |-> Quiet(ev)]
    [] OTHER -> [ok |-> TRUE, d |-> d, ev |-> ev]

-----------------------------------------------------------------------------
(* reading a variable: << TRUE, values >> or << FALSE, << >> >> *)

Yes(v) == << TRUE, v >>
No     == << FALSE, << >> >>

GetF64(s, vr) ==
  LET d == s.d m == s.m IN
  IF vr = 0 THEN Yes(<< s.time >>) ELSE
  CASE m = "BouncingBall" ->
         (CASE vr = 1 -> Yes(<< d.h >>)
            [] vr \in {2, 3} -> Yes(<< d.v >>)
            [] vr \in {4, 5} -> Yes(<< d.g >>)
            [] vr = 6 -> Yes(<< d.e >>)
            [] vr = 7 -> Yes(<< vMin >>)
            [] OTHER -> No)
    [] m = "Dahlquist" ->
         (CASE vr = 1 -> Yes(<< d.x >>)
            [] vr = 2 -> Yes(Deriv(m, d))
            [] vr = 3 -> Yes(<< d.k >>)
            [] OTHER -> No)
    [] m = "VanDerPol" ->
         (CASE vr = 1 -> Yes(<< d.x0 >>)
            [] vr = 2 -> Yes(<< d.x1 >>)
            [] vr = 3 -> Yes(<< d.x1 >>)
            [] vr = 4 -> Yes(<< VPder1(d) >>)
            [] vr = 5 -> Yes(<< d.mu >>)
            [] OTHER -> No)
    [] m = "Roberts" ->
         (CASE vr = 2 -> Yes(<< d.y1 >>)
            [] vr = 3 -> Yes(<< RoDer(d)[1] >>)
            [] vr = 4 -> Yes(<< d.y2 >>)
            [] vr = 5 -> Yes(<< RoDer(d)[2] >>)
            [] vr = 6 -> Yes(<< RoY3(d) >>)
            [] vr = 7 -> Yes(<< c1em2 >>)
            [] vr = 8 -> Yes(<< FSub(FAdd(FAdd(d.y1, d.y2), RoY3(d)), f1) >>)
            [] vr = 9 -> Yes(<< RoInd(d)[1] >>)
            [] vr = 10 -> Yes(<< RoInd(d)[2] >>)
            [] OTHER -> No)
    [] m = "StateSpace" ->
         (CASE vr = 4 -> Yes(Flat(d.A, d.n, d.n))
            [] vr = 5 -> Yes(Flat(d.B, d.n, d.m))
            [] vr = 6 -> Yes(Flat(d.C, d.r, d.n))
            [] vr = 7 -> Yes(Flat(d.D, d.r, d.m))
            [] vr = 8 -> Yes(SubSeq(d.x0, 1, d.n))
            [] vr = 9 -> Yes(SubSeq(d.u, 1, d.m))
            [] vr = 10 -> Yes(SSout(d))
            [] vr = 11 -> Yes(SubSeq(d.x, 1, d.n))
            [] vr = 12 -> Yes(SSder(d))
            [] OTHER -> No)
    [] m = "Feedthrough" ->
         IF vr \in 5..10 THEN Yes(<< d.v[FtSource(vr)] >>) ELSE No
    [] OTHER -> No

GetI32(s, vr) ==
  LET d == s.d m == s.m IN
  CASE m = "Stair" -> IF vr = 1 THEN Yes(<< d.c >>) ELSE No
    [] m = "Resource" -> IF vr = 1 THEN Yes(<< d.y >>) ELSE No
    [] m = "Clocks" ->
         (CASE vr = 2001 -> Yes(<< d.t1 >>)
            [] vr = 2002 -> Yes(<< d.t2 >>)
            [] vr = 2003 -> Yes(<< d.t3 >>)
            [] vr = 2004 -> Yes(<< d.tot >>)
            [] vr = 2005 -> Yes(<< d.res >>)
            [] vr = 2006 -> Yes(<< d.inp >>)
            [] vr = 2007 -> Yes(<< d.out >>)
            [] OTHER -> No)
    [] OTHER -> No

\* the number as UInt64 text
U64(n) == ToString(n)

Get(s, T, vr) ==
  IF s.m = "Feedthrough" /\ vr \in 1..34
  THEN IF FtType(s.ver, vr) = T THEN Yes(<< s.d.v[FtSource(vr)] >>) ELSE No
  ELSE CASE T = "Float64" -> GetF64(s, vr)
         [] T = "Int32"   -> GetI32(s, vr)
         [] T = "Boolean" -> IF s.m = "Roberts" /\ vr = 1 THEN Yes(<< s.d.dae >>) ELSE No
         [] T = "UInt64"  ->
              IF s.m # "StateSpace" THEN No ELSE
              (CASE vr = 1 -> Yes(<< U64(s.d.m) >>)
                 [] vr = 2 -> Yes(<< U64(s.d.n) >>)
                 [] vr = 3 -> Yes(<< U64(s.d.r) >>)
                 [] OTHER -> No)
         [] OTHER -> No

-----------------------------------------------------------------------------
(* setting a variable from the values v still available:                   *)
(*   [ok, d, n] with n the number of values consumed                       *)

SetOk(d, n)  == [ok |-> TRUE, d |-> d, n |-> n]
SetNo(d)     == [ok |-> FALSE, d |-> d, n |-> 0]

BeforeRun   == {"Instantiated", "InitializationMode"}
AtEvents    == BeforeRun \cup {"EventMode"}
StateModes  == AtEvents \cup {"ContinuousTimeMode"}

SetF64(s, vr, v) ==
  LET d == s.d m == s.m
      one == Len(v) >= 1
      me  == s.kind = "ME" IN
  CASE m = "BouncingBall" ->
         (CASE vr = 1 /\ one /\ s.mode \in StateModes -> SetOk([d EXCEPT !.h = v[1]], 1)
            [] vr = 3 /\ one /\ s.mode \in StateModes -> SetOk([d EXCEPT !.v = v[1]], 1)
            [] vr = 5 /\ one /\ (me => s.mode \in BeforeRun) -> SetOk([d EXCEPT !.g = v[1]], 1)
            [] vr = 6 /\ one /\ (me => s.mode \in AtEvents) -> SetOk([d EXCEPT !.e = v[1]], 1)
            [] OTHER -> SetNo(d))
    [] m = "Dahlquist" ->
         (CASE vr = 1 /\ one -> SetOk([d EXCEPT !.x = v[1]], 1)
            [] vr = 3 /\ one /\ (me => s.mode \in BeforeRun) -> SetOk([d EXCEPT !.k = v[1]], 1)
            [] OTHER -> SetNo(d))
    [] m = "VanDerPol" ->
         (CASE vr = 1 /\ one -> SetOk([d EXCEPT !.x0 = v[1]], 1)
            [] vr = 3 /\ one -> SetOk([d EXCEPT !.x1 = v[1]], 1)
            [] vr = 5 /\ one /\ (me => s.mode \in AtEvents) -> SetOk([d EXCEPT !.mu = v[1]], 1)
            [] OTHER -> SetNo(d))
    [] m = "Roberts" ->
         (CASE vr = 2 /\ one -> SetOk([d EXCEPT !.y1 = v[1]], 1)
            [] vr = 4 /\ one -> SetOk([d EXCEPT !.y2 = v[1]], 1)
            [] vr = 6 /\ one -> SetOk([d EXCEPT !.y3 = v[1]], 1)
            [] OTHER -> SetNo(d))
    [] m = "StateSpace" ->
         LET sz == CASE vr = 4 -> d.n * d.n [] vr = 5 -> d.n * d.m [] vr = 6 -> d.r * d.n
                     [] vr = 7 -> d.r * d.m [] vr \in {8, 11} -> d.n [] vr = 9 -> d.m [] OTHER -> 0 IN
         IF vr \notin {4, 5, 6, 7, 8, 9, 11} \/ Len(v) < sz THEN SetNo(d) ELSE
         (CASE vr = 4 -> SetOk([d EXCEPT !.A = Fill(@, d.n, d.n, v)], sz)
            [] vr = 5 -> SetOk([d EXCEPT !.B = Fill(@, d.n, d.m, v)], sz)
            [] vr = 6 -> SetOk([d EXCEPT !.C = Fill(@, d.r, d.n, v)], sz)
            [] vr = 7 -> SetOk([d EXCEPT !.D = Fill(@, d.r, d.m, v)], sz)
            \* before the end of initialization the initial state is the state
            [] vr = 8 -> SetOk(IF s.mode \in BeforeRun \cup {"ConfigurationMode"}
                               THEN [d EXCEPT !.x0 = FillV(@, d.n, v), !.x = FillV(@, d.n, v)]
                               ELSE [d EXCEPT !.x0 = FillV(@, d.n, v)], sz)
            [] vr = 9 -> SetOk([d EXCEPT !.u = FillV(@, d.m, v)], sz)
            [] vr = 11 -> IF s.mode \in {"ContinuousTimeMode", "EventMode"}
                          THEN SetOk([d EXCEPT !.x = FillV(@, d.n, v)], sz) ELSE SetNo(d))
    [] OTHER -> SetNo(d)

SetFt(s, T, vr, v) ==
  LET d == s.d IN
  IF vr \notin FtIn \/ Len(v) < 1 THEN SetNo(d)
  ELSE IF FtType(s.ver, vr) # T THEN SetNo(d)
  ELSE LET r  == FtRestrict(vr)
           ok == CASE r = "fixed"    -> (s.kind = "ME" => s.mode \in BeforeRun)
                   [] r = "discrete" -> (s.kind = "ME" => s.mode \in AtEvents)
                   [] vr = 29 -> Len(v[1]) <= 2 * 127
                   [] vr = 31 -> Len(v[1]) <= 2 * 128
                   [] vr = 33 -> IF s.ver = 3 THEN v[1] \in {"1", "2"} ELSE v[1] \in {1, 2}
                   [] OTHER -> TRUE IN
       IF ok THEN SetOk([d EXCEPT !.v[vr] = v[1]], 1) ELSE SetNo(d)

Set(s, T, vr, v) ==
  LET d == s.d m == s.m IN
  CASE m = "Feedthrough" -> SetFt(s, T, vr, v)
    [] T = "Float64" -> SetF64(s, vr, v)
    [] T = "Int32" /\ m = "Stair" ->
         IF vr = 1 /\ s.mode \in BeforeRun /\ Len(v) >= 1
         THEN IF v[1] >= 10 THEN SetNo(d) ELSE SetOk([d EXCEPT !.c = v[1]], 1)
         ELSE SetNo(d)
    [] T = "Int32" /\ m = "Clocks" ->
         IF vr = 2006 /\ Len(v) >= 1 THEN SetOk([d EXCEPT !.inp = v[1]], 1) ELSE SetNo(d)
    [] T = "Boolean" /\ m = "Roberts" ->
         IF vr = 1 /\ Len(v) >= 1
         THEN SetOk([d EXCEPT !.y3 = RoY3(d), !.dae = v[1]], 1) ELSE SetNo(d)
    [] T = "UInt64" /\ m = "StateSpace" ->
         IF s.mode \notin {"ConfigurationMode", "ReconfigurationMode"} \/ Len(v) < 1 THEN SetNo(d)
         ELSE IF IntOf(v[1]) > SSMax THEN SetNo(d)
         ELSE (CASE vr = 1 -> SetOk([d EXCEPT !.m = IntOf(v[1])], 1)
                 [] vr = 2 -> SetOk([d EXCEPT !.n = IntOf(v[1])], 1)
                 [] vr = 3 -> SetOk([d EXCEPT !.r = IntOf(v[1])], 1)
                 [] OTHER -> SetNo(d))
    [] OTHER -> SetNo(d)

-----------------------------------------------------------------------------
(* derivatives of outputs and partial derivatives *)

OutDer(s, vr, order) ==
  IF order # 1 THEN No
  ELSE CASE vr = 1 -> Yes(<< s.d.v >>) [] vr = 3 -> Yes(<< s.d.g >>) [] OTHER -> No

Partial(s, u, k) ==
  LET d == s.d IN
  IF s.m = "VanDerPol" THEN
    CASE u = 2 /\ k = 3 -> f1
      [] u = 4 /\ k = 1 -> FSub(FMul(FMul(FMul(fm2, d.x0), d.x1), d.mu), f1)
      [] u = 4 /\ k = 3 -> FMul(d.mu, FSub(f1, FMul(d.x0, d.x0)))
      [] u = 4 /\ k = 5 /\ s.mode = "InitializationMode" -> FMul(FSub(f1, FMul(d.x0, d.x0)), d.x1)
      [] OTHER -> f0
  ELSE
    CASE u = 3 /\ k = 2 -> cm004
      [] u = 3 /\ k = 4 -> FMul(c1e4, RoY3(d))
      [] u = 3 /\ k = 6 -> FMul(c1e4, d.y2)
      [] u = 5 /\ k = 2 -> c004
      [] u = 5 /\ k = 4 -> FSub(FMul(cm1e4, RoY3(d)), FMul(c6e7, d.y2))
      [] u = 5 /\ k = 6 -> FMul(cm1e4, d.y2)
      [] u = 8 /\ k \in {2, 4, 6} -> f1
      [] OTHER -> f0
=============================================================================
