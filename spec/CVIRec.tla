------------------------------- MODULE CVIRec -------------------------------
(***************************************************************************)
(* What the implementation keeps and how it updates it: the incremental    *)
(* recurrences (one step per accepted sample) and the batch formulas.      *)
(* MC_Rec checks that these refine CVI: after every history the maintained *)
(* quantities are the functions of the abstract partition state they are   *)
(* meant to be, and evaluating an index from them gives the definition of  *)
(* module Indices.                                                         *)
(*                                                                         *)
(*    n, v     cluster sizes and means                                     *)
(*    cp, g    compactness and the deviation vector of the recurrence      *)
(*    mu, N    overall mean and number of samples                          *)
(*    D        squared distances of means (XB, DB, GD43, PS)               *)
(*    E        GD53's pairwise separations                                 *)
(*    r, w     cSIL: sums of squared norms, vector sums                    *)
(*    S        cSIL: S[i][j] mean squared distance of cluster i's samples  *)
(*             to the mean of cluster j                                    *)
(*    c        rCIP: covariance without its regularisation term            *)
(***************************************************************************)
EXTENDS CVI

RecEmpty == [N |-> 0, n |-> << >>, v |-> << >>, cp |-> << >>, g |-> << >>, mu |-> << >>,
             D |-> << >>, E |-> << >>, r |-> << >>, w |-> << >>, S |-> << >>, c |-> << >>]

Zero  == RInt(0)
VZero(d) == [a \in 1 .. d |-> Zero]
MZero(d) == [a \in 1 .. d |-> VZero(d)]
MScale(q, A) == [a \in 1 .. Len(A) |-> VScale(q, A[a])]
Inner(u, w) == RDot(u, w)

(* a square matrix gains a row and a column / has one replaced *)
Grow(M, row, col) ==          \* row[j] for j in 1..k+1: entry (k+1, j); col[j]: entry (j, k+1)
    LET k == Len(M) IN
    [i \in 1 .. k + 1 |-> [j \in 1 .. k + 1 |->
        IF i = k + 1 THEN row[j] ELSE IF j = k + 1 THEN col[i] ELSE M[i][j]]]
Replace(M, i, row, col) ==
    [a \in 1 .. Len(M) |-> [b \in 1 .. Len(M) |->
        IF a = i THEN row[b] ELSE IF b = i THEN col[a] ELSE M[a][b]]]

NewMean(m, n, x) == VAdd(VScale(RSub(RInt(1), RQ(1, n)), m), VScale(RQ(1, n), x))

RecMu(rec, x) == IF rec.N = 0 THEN x ELSE NewMean(rec.mu, rec.N + 1, x)

(* the first sample of a new cluster *)
IncNew(rec, x) ==
    LET k == Len(rec.n)
        d == Len(x)
        x2 == Inner(x, x)
        dcol == [j \in 1 .. k + 1 |-> IF j = k + 1 THEN Zero ELSE Dist2(x, rec.v[j])]
        ecol == [j \in 1 .. k + 1 |-> IF j = k + 1 THEN Zero
                    ELSE RMul(rec.cp[j], RQ(1, 1 + rec.n[j]))]
        (* this cluster's sample to the mean of j *)
        srow == [j \in 1 .. k + 1 |-> IF j = k + 1 THEN Zero
                    ELSE RSub(RAdd(x2, Inner(rec.v[j], rec.v[j])),
                              RMul(RInt(2), Inner(x, rec.v[j])))]
        (* the samples of j to this cluster's mean *)
        scol == [j \in 1 .. k + 1 |-> IF j = k + 1 THEN Zero
                    ELSE RMul(RQ(1, rec.n[j]),
                         RSub(RAdd(rec.r[j], RMul(RInt(rec.n[j]), x2)),
                              RMul(RInt(2), Inner(rec.w[j], x))))]
    IN  [N  |-> rec.N + 1,
         n  |-> Append(rec.n, 1),
         v  |-> Append(rec.v, x),
         cp |-> Append(rec.cp, Zero),
         g  |-> Append(rec.g, VZero(d)),
         mu |-> RecMu(rec, x),
         D  |-> Grow(rec.D, dcol, dcol),
         E  |-> Grow(rec.E, ecol, ecol),
         r  |-> Append(rec.r, x2),
         w  |-> Append(rec.w, x),
         S  |-> Grow(rec.S, srow, scol),
         c  |-> Append(rec.c, MZero(d))]

(* a further sample of cluster i *)
IncOld(rec, i, x) ==
    LET k   == Len(rec.n)
        n0  == rec.n[i]
        n1  == n0 + 1
        v1  == NewMean(rec.v[i], n1, x)
        dv  == VSub(rec.v[i], v1)
        dx  == VSub(x, v1)
        cp1 == RAdd(RAdd(rec.cp[i], Inner(dx, dx)),
                    RAdd(RMul(RInt(n0), Inner(dv, dv)), RMul(RInt(2), Inner(dv, rec.g[i]))))
        g1  == VAdd(VAdd(rec.g[i], dx), VScale(RInt(n0), dv))
        dcol == [j \in 1 .. k |-> IF j = i THEN Zero ELSE Dist2(v1, rec.v[j])]
        ecol == [j \in 1 .. k |-> IF j = i THEN Zero
                    ELSE RMul(RAdd(cp1, rec.cp[j]), RQ(1, n1 + rec.n[j]))]
        (* samples of i, the new one included, to a point p *)
        to(p) == RMul(RQ(1, n1),
                 RAdd(RAdd(rec.r[i], Dist2(x, p)),
                      RSub(RMul(RInt(n0), Inner(p, p)), RMul(RInt(2), Inner(rec.w[i], p)))))
        srow == [j \in 1 .. k |-> IF j = i THEN to(v1) ELSE to(rec.v[j])]
        scol == [j \in 1 .. k |-> IF j = i THEN to(v1)
                    ELSE RMul(RQ(1, rec.n[j]),
                         RSub(RAdd(rec.r[j], RMul(RInt(rec.n[j]), Inner(v1, v1))),
                              RMul(RInt(2), Inner(rec.w[j], v1))))]
        (* the deviation from the mean before the update *)
        dx0 == VSub(x, rec.v[i])
    IN  [N  |-> rec.N + 1,
         n  |-> [rec.n EXCEPT ![i] = n1],
         v  |-> [rec.v EXCEPT ![i] = v1],
         cp |-> [rec.cp EXCEPT ![i] = cp1],
         g  |-> [rec.g EXCEPT ![i] = g1],
         mu |-> RecMu(rec, x),
         D  |-> Replace(rec.D, i, dcol, dcol),
         E  |-> Replace(rec.E, i, ecol, ecol),
         r  |-> [rec.r EXCEPT ![i] = RAdd(@, Inner(x, x))],
         w  |-> [rec.w EXCEPT ![i] = VAdd(@, x)],
         S  |-> Replace(rec.S, i, srow, scol),
         c  |-> [rec.c EXCEPT ![i] = MAdd(MScale(RQ(n1 - 2, n1 - 1), @),
                                          MScale(RQ(1, n1), Outer(dx0)))]]

Inc(rec, i, x) == IF i > Len(rec.n) THEN IncNew(rec, x) ELSE IncOld(rec, i, x)

(***************************************************************************)
(* Batch: the same quantities from the samples of each cluster.            *)
(* P[i] is the sequence of samples of cluster i.                           *)
(***************************************************************************)
RECURSIVE VSumSeq(_, _)
VSumSeq(s, i) == IF i = 1 THEN s[1] ELSE VAdd(VSumSeq(s, i - 1), s[i])
MeanOf(s) == VScale(RQ(1, Len(s)), VSumSeq(s, Len(s)))
SumDev(s, m) == RSum([q \in 1 .. Len(s) |-> Dist2(s[q], m)])
RECURSIVE MSumTo(_, _, _)
MSumTo(s, m, q) ==
    IF q = 0 THEN MZero(Len(m))
    ELSE MAdd(MSumTo(s, m, q - 1), Outer(VSub(s[q], m)))

RECURSIVE Flatten(_, _)
Flatten(P, i) == IF i = 0 THEN << >> ELSE Flatten(P, i - 1) \o P[i]

BatchRec(P) ==
    LET k   == Len(P)
        all == Flatten(P, k)
        v   == TLCEval([i \in 1 .. k |-> MeanOf(P[i])])
        cp  == TLCEval([i \in 1 .. k |-> SumDev(P[i], v[i])])
    IN  [N  |-> Len(all),
         n  |-> [i \in 1 .. k |-> Len(P[i])],
         v  |-> v,
         cp |-> cp,
         g  |-> [i \in 1 .. k |-> VZero(Len(v[1]))],
         mu |-> MeanOf(all),
         D  |-> [i \in 1 .. k |-> [j \in 1 .. k |-> IF i = j THEN Zero ELSE Dist2(v[i], v[j])]],
         E  |-> [i \in 1 .. k |-> [j \in 1 .. k |-> IF i = j THEN Zero
                    ELSE RMul(RAdd(cp[i], cp[j]), RQ(1, Len(P[i]) + Len(P[j])))]],
         r  |-> [i \in 1 .. k |-> RSum([q \in 1 .. Len(P[i]) |-> Norm2(P[i][q])])],
         w  |-> [i \in 1 .. k |-> VSumSeq(P[i], Len(P[i]))],
         S  |-> [i \in 1 .. k |-> [j \in 1 .. k |-> RMul(RQ(1, Len(P[i])), SumDev(P[i], v[j]))]],
         c  |-> [i \in 1 .. k |-> IF Len(P[i]) = 1 THEN MZero(Len(v[1]))
                    ELSE MScale(RQ(1, Len(P[i]) - 1), MSumTo(P[i], v[i], Len(P[i])))]]

(***************************************************************************)
(* Evaluation from the maintained quantities, k >= 2.  As in Indices, GD43 *)
(* is squared and PS and rCIP are left as the arguments of exp and of the  *)
(* Gaussian, so that no irrational number is needed.                       *)
(***************************************************************************)
RecSep(rec, i) == RMul(RInt(rec.n[i]), Dist2(rec.v[i], rec.mu))
RecW(rec) == RSum(rec.cp)
RecB(rec) == RSum([i \in 1 .. Len(rec.n) |-> RecSep(rec, i)])
RecMinD(rec) == LET f(i, j) == rec.D[i][j] IN MinPairs(Len(rec.n), f)
RecIntra(rec) == RMul(RInt(2), RMaxS([i \in 1 .. Len(rec.n) |-> RMul(rec.cp[i], RQ(1, rec.n[i]))]))
RecSilB(rec, i) == LET k == Len(rec.n) IN
                   RMinS([m \in 1 .. k - 1 |-> rec.S[Others(k, i)[m]][i]])

RecEval(kind, rec) ==
    LET k == Len(rec.n) IN
    CASE kind = "CH" -> IF RIsZero(RecW(rec)) THEN Undef
            ELSE Num(RMul(RDiv(RecB(rec), RecW(rec)), RQ(rec.N - k, k - 1)))
      [] kind = "WB" -> IF RIsZero(RecB(rec)) THEN Undef
            ELSE Num(RMul(RInt(k), RDiv(RecW(rec), RecB(rec))))
      [] kind = "XB" -> IF RIsZero(RecMinD(rec)) THEN Undef
            ELSE Num(RDiv(RecW(rec), RMul(RInt(rec.N), RecMinD(rec))))
      [] kind = "DB" -> IF RIsZero(RecMinD(rec)) THEN Undef
            ELSE Num(RMul(RQ(1, k), RSum([i \in 1 .. k |-> RMaxS([m \in 1 .. k - 1 |->
                    LET j == Others(k, i)[m] IN
                    RDiv(RAdd(RMul(rec.cp[i], RQ(1, rec.n[i])), RMul(rec.cp[j], RQ(1, rec.n[j]))),
                         rec.D[i][j])])])))
      [] kind = "GD43" -> IF RIsZero(RecIntra(rec)) THEN Undef
            ELSE Num(RDiv(RecMinD(rec), RMul(RecIntra(rec), RecIntra(rec))))
      [] kind = "GD53" -> IF RIsZero(RecIntra(rec)) THEN Undef
            ELSE LET f(i, j) == rec.E[i][j] IN Num(RDiv(MinPairs(k, f), RecIntra(rec)))
      [] kind = "cSIL" ->
            IF \E i \in 1 .. k : RIsZero(RMax(rec.S[i][i], RecSilB(rec, i))) THEN Undef
            ELSE Num(RMul(RQ(1, k), RSum([i \in 1 .. k |->
                    RDiv(RSub(RecSilB(rec, i), rec.S[i][i]), RMax(rec.S[i][i], RecSilB(rec, i)))])))

(* PS: average squared distance of the means to their average *)
RecBeta(rec) ==
    LET k == Len(rec.n)
        b == VScale(RQ(1, k), VSumSeq(rec.v, k))
    IN  RMul(RQ(1, k), RSum([i \in 1 .. k |-> Dist2(rec.v[i], b)]))
RecNear(rec, i) == LET k == Len(rec.n) IN RMinS([m \in 1 .. k - 1 |-> rec.D[i][Others(k, i)[m]]])
=============================================================================
