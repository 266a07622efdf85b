------------------------------- MODULE MC_Rec -------------------------------
(***************************************************************************)
(* Refinement: the recurrences of CVIRec against CVI, for every history of *)
(* at most Depth samples with coordinates and labels from the constants.   *)
(*                                                                         *)
(* The state has no history variable: histories that lead to the same      *)
(* quantities are merged, and the number of distinct states shows how      *)
(* many are (order independence, C10).                                     *)
(***************************************************************************)
EXTENDS CVIRec
CONSTANTS Points, Depth, MaxK
VARIABLES o,       \* abstract object, module CVI
          rec,     \* maintained quantities
          pts      \* the samples of each cluster, as a bag (sorted), for the batch formulas
vars == <<o, rec, pts>>

Pts1 == {<<0>>, <<1>>, <<3>>}
Pts1w == {<<-2>>, <<0>>, <<1>>, <<5>>}
Pts2 == {<<0, 0>>, <<1, 0>>, <<0, 2>>}
Pts2w == {<<0, 0>>, <<1, 0>>, <<1, 2>>, <<-1, 1>>}

RX(p) == TLCEval([a \in 1 .. Len(p) |-> RInt(p[a])])

(* bags of integer vectors as functions point -> multiplicity *)
BagAdd(b, p) == IF p \in DOMAIN b THEN [b EXCEPT ![p] = @ + 1] ELSE (p :> 1) @@ b

RECURSIVE Rep(_, _)
Rep(x, m) == IF m = 0 THEN << >> ELSE Append(Rep(x, m - 1), x)
RECURSIVE BagSeq(_, _)
BagSeq(b, S) == IF S = {} THEN << >>
                ELSE LET p == CHOOSE q \in S : TRUE IN Rep(RX(p), b[p]) \o BagSeq(b, S \ {p})
Clusters == TLCEval([i \in 1 .. Len(pts) |-> BagSeq(pts[i], DOMAIN pts[i])])

Init == o = Fresh /\ rec = RecEmpty /\ pts = << >>
(* labels are 1, 2, ... in order of first appearance; names do not matter here (MC_Life) *)
Sample(p, l) ==
    /\ rec.N < Depth
    /\ l <= Len(rec.n) + 1
    /\ o' = TLCEval(Step(o, [nd |-> 1, X |-> <<RX(p)>>, L |-> <<l>>], TRUE))
    /\ rec' = TLCEval(Inc(rec, l, RX(p)))
    /\ pts' = IF l > Len(pts) THEN Append(pts, (p :> 1)) ELSE [pts EXCEPT ![l] = BagAdd(@, p)]
Next == \E p \in Points, l \in 1 .. MaxK : Sample(p, l)
Spec == Init /\ [][Next]_vars

K0 == Len(rec.n)
(***************************************************************************)
(* The maintained quantities mean what they should.                        *)
(***************************************************************************)
Quantities ==
    rec.N > 0 =>
    /\ rec.N = NTot(o.st) /\ rec.n = o.st.n
    /\ \A i \in 1 .. K0 :
          /\ rec.v[i] = Centroid(o.st, i)
          /\ rec.cp[i] = Compact(o.st, i)
          /\ \A a \in 1 .. o.st.d : RIsZero(rec.g[i][a])      \* deviations sum to zero
          /\ rec.r[i] = o.st.t[i] /\ rec.w[i] = o.st.s[i]
          /\ rec.c[i] = Cov(o.st, i, Zero)
          /\ \A j \in 1 .. K0 : i # j =>
                /\ rec.D[i][j] = CentDist(o.st, i, j) /\ rec.D[j][i] = rec.D[i][j]
                /\ rec.E[i][j] = RMul(RAdd(Compact(o.st, i), Compact(o.st, j)),
                                      RQ(1, o.st.n[i] + o.st.n[j]))
          /\ \A j \in 1 .. K0 : rec.S[i][j] =
                RAdd(RMul(Compact(o.st, i), RQ(1, o.st.n[i])), CentDist(o.st, i, j))
    /\ rec.mu = VScale(RQ(1, rec.N), VSumTo(o.st.s, K0))

Rational == {"CH", "WB", "XB", "DB", "GD53", "cSIL"}
(* C02 - C07: evaluation from the maintained quantities is the definition *)
Evaluation ==
    K0 >= 2 =>
    LET g == TLCEval(Geo(o.st)) IN
    /\ \A kind \in Rational : RecEval(kind, rec) = Value(kind, o.st, g)
    /\ RecEval("GD43", rec) = GD43Sq(g)
    /\ RecBeta(rec) = PSBeta(g)
    /\ \A i \in 1 .. K0 : RecNear(rec, i) = PSNear(g, i)

(* C01: the batch formulas on the same samples give the same quantities *)
BatchAgrees ==
    K0 >= 2 =>
    LET b == TLCEval(BatchRec(Clusters)) IN
    /\ b = rec
    /\ \A kind \in Rational \cup {"GD43"} : RecEval(kind, b) = RecEval(kind, rec)

(* C19 on the specification *)
Ranges ==
    K0 >= 2 =>
    /\ \A kind \in Rational \cup {"GD43"} :
          LET r == RecEval(kind, rec) IN
          r.t = "num" => IF kind = "cSIL" THEN RLe(RAbs(r.r), RInt(1)) ELSE RSgn(r.r) >= 0
    /\ RSgn(RecBeta(rec)) >= 0

(* C21: where an index is a division by zero *)
Degenerate ==
    K0 >= 2 =>
    /\ (\A i \in 1 .. K0 : rec.n[i] = 1) =>
          \A kind \in {"CH", "GD43", "GD53"} : RecEval(kind, rec).t = "undef"
    /\ (\A i, j \in 1 .. K0 : RIsZero(rec.D[i][j])) =>
          \A kind \in {"DB", "XB", "WB"} : RecEval(kind, rec).t = "undef"
    /\ RIsZero(RecBeta(rec)) <=> (\A i, j \in 1 .. K0 : RIsZero(rec.D[i][j]))
=============================================================================
