------------------------------- MODULE GenVal -------------------------------
(***************************************************************************)
(* Every history of at most Depth labelled samples from a small set of     *)
(* points, with what each kind has to report after each of them.  TLC      *)
(* enumerates the histories and prints one line per history; the driver    *)
(* (harness/replay.py) steps real objects through all of them, one sample  *)
(* at a time and in batches, under several namings of the clusters.        *)
(*                                                                         *)
(* Labels are numbers in order of first appearance: other namings are      *)
(* equivalent in the specification, and the driver renames.                *)
(***************************************************************************)
EXTENDS Expect, Json, IOUtils
CONSTANTS Points, Depth, MaxK     \* Points: sequence of integer vectors
VARIABLES h                       \* sequence of <<index into Points, label>>

RX(i) == TLCEval([a \in 1 .. Len(Points[i]) |-> RInt(Points[i][a])])

RECURSIVE ObjOf(_, _)
ObjOf(hh, i) ==
    IF i = 0 THEN Fresh
    ELSE TLCEval(Step(ObjOf(hh, i - 1),
                      [nd |-> 1, X |-> <<RX(hh[i][1])>>, L |-> <<hh[i][2]>>], TRUE))

Used == {h[i][2] : i \in DOMAIN h}
(* the kinds the property at hand speaks about *)
Watch == CASE IOEnv.CVI_PROP = "C02" -> {"CH"}
           [] IOEnv.CVI_PROP = "C03" -> {"WB", "XB"}
           [] IOEnv.CVI_PROP = "C04" -> {"DB"}
           [] IOEnv.CVI_PROP = "C05" -> {"GD43", "GD53"}
           [] IOEnv.CVI_PROP = "C06" -> {"cSIL"}
           [] IOEnv.CVI_PROP = "C07" -> {"PS"}
           [] IOEnv.CVI_PROP = "C08" -> {"rCIP"}
           [] OTHER -> Kinds

Init == h = << >>
Next == /\ Len(h) < Depth
        /\ \E i \in DOMAIN Points, l \in 1 .. MaxK :
              /\ l <= Cardinality(Used) + 1
              /\ h' = Append(h, <<i, l>>)
Spec == Init /\ [][Next]_h

Line ==
    LET o == ObjOf(h, Len(h))
        g == TLCEval(IF Len(o.st.n) > 1 THEN Geo(o.st) ELSE << >>)
    IN  [h |-> h,
         ex |-> [k \in Watch |->
                   LET e == TLCEval(Expect(k, o.st, g)) IN <<e.t, RDec(e.r), RDec(e.tol)>>]]
(* a state constraint that is always true and prints *)
Emit == h # << >> => PrintT("@" \o ToJson(Line))
(* what the driver needs to know about the scope *)
Header == PrintT("#" \o ToJson([points |-> Points, depth |-> Depth]))
ASSUME Header
P1  == << <<0>>, <<1>>, <<3>> >>
P2  == << <<0, 0>>, <<1, 0>>, <<0, 2>> >>
P2n == << <<0, 0>>, <<-1, 2>>, <<4, 1>>, <<1, 1>> >>
P3  == << <<0, 0, 0>>, <<1, 0, 2>>, <<-1, 1, 0>> >>
=============================================================================
