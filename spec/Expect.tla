------------------------------ MODULE Expect ------------------------------
(***************************************************************************)
(* What an object of the library is expected to report, with the error     *)
(* bound within which a floating-point implementation has to meet it.      *)
(* Used where the specification meets the code: Trace (recorded histories) *)
(* and GenVal, GenLife (histories made by TLC).                            *)
(***************************************************************************)
EXTENDS CVI

(***************************************************************************)
(* Rounding.                                                               *)
(*                                                                         *)
(* Cluster means are known up to C times the size of the coordinates, so a *)
(* sum of squared differences Q, taken between numbers whose own squares   *)
(* sum up to S, is known up to Err(Q, S).  An index A / B is then known    *)
(* up to Err(A)/B + A/B * Err(B)/B; no number is claimed where S exceeds B *)
(* by more than 10^13 (kappa).  C grows with the length of the history.    *)
(* In double precision the rounding unit is 2.2e-16; C leaves a factor of  *)
(* a thousand for other orders of summation.                               *)
(*                                                                         *)
(* cSIL works with sums of squares of the raw coordinates: its error grows *)
(* with kappa itself, and nothing is claimed beyond kappa = 10^7.          *)
(***************************************************************************)
P10(e) == RPow10(RInt(e))
REL == -9
Limit == P10(13)
(* mean square of all samples; largest mean square of a cluster *)
MeanSq(st) == RRnd(RMul(RQ(1, NTot(st)), RSum(st.t)))
MaxSq(st)  == RRnd(RMaxS([i \in 1 .. Len(st.n) |-> RMul(RQ(1, st.n[i]), st.t[i])]))
C(g) == RAdd(P10(-12), RMul(P10(-15), RInt(g.N)))

Err(g, Q, S) == RRnd(RAdd(RMul(P10(REL), Q),
                     RAdd(RMul(C(g), RSqrt(RMul(Q, S))), RMul(RMul(C(g), C(g)), S))))
(* f * A / B with squares sums SA, SB behind A, B *)
Quot(g, f, A, SA, B, SB) ==
    [ok  |-> RLe(SB, RMul(Limit, B)),
     tol |-> RMul(f, RAdd(RDiv(Err(g, A, SA), B),
                          RMul(RDiv(A, B), RDiv(Err(g, B, SB), B))))]

CIPTol(st, terms) ==
    LET T  == TLCEval(MaxSq(st))
        d  == st.d
        (* (mean eigenvalue)^d / det; the condition number is at most 4 times that *)
        sk(x)  == RDiv(RPowN(RMul(RQ(1, d), x.tr), d), x.det)
        lam(x) == RMul(x.det, IF d = 1 THEN RInt(1)     \* <= smallest eigenvalue
                              ELSE RPowN(RDiv(RInt(d - 1), x.tr), d - 1))
        e(x) == RRnd(RMul(x.f, RMul(RAdd(RInt(1), x.quad),
                  RAdd(P10(REL),
                  RAdd(RMul(P10(-12), sk(x)),
                       RMul(P10(-13), RSqrt(RDiv(T, lam(x)))))))))
        (* nearly singular, or the determinant is beyond the floating-point range *)
        bad(x) == RLt(P10(11), sk(x)) \/ RLt(P10(280), x.det)
    IN  [ok |-> \A r \in 1 .. Len(terms) : \A i \in 1 .. r : ~bad(terms[r][i]),
         tol |-> RAdd(SumTerms(terms, e), P10(-200))]

Tol(kind, st, g, v) ==
    LET T  == TLCEval(MeanSq(st))
        TN == RMul(T, RInt(g.N))
        M  == TLCEval(MaxSq(st))
        M2 == RMul(RInt(2), M)
    IN
    CASE kind = "CH" -> Quot(g, RQ(g.N - g.k, g.k - 1), g.bgss, TN, g.wgss, TN)
      [] kind = "WB" -> Quot(g, RInt(g.k), g.wgss, TN, g.bgss, TN)
      [] kind = "XB" -> Quot(g, RInt(1), RRnd(RMul(RQ(1, g.N), g.wgss)), T, g.mind, M2)
      [] kind = "DB" ->
           (* the same index over the errors of the scatters, and the error of the distances *)
           LET e == TLCEval([i \in 1 .. g.k |-> Err(g, g.msd[i], M)])
               w == DB([g EXCEPT !.msd = e])
           IN  [ok  |-> RLe(M2, RMul(Limit, g.mind)),
                tol |-> RAdd(w.r, RMul(v, RDiv(Err(g, g.mind, M2), g.mind)))]
      [] kind = "GD43" ->
           LET a == GDIntra(g)
           IN  [ok  |-> RLe(M2, RMul(Limit, a)),
                tol |-> RAdd(RDiv(RMul(C(g), RSqrt(M2)), a),
                             RMul(v, RAdd(P10(REL), RDiv(Err(g, a, M2), a))))]
      [] kind = "GD53" ->
           LET f(i, j) == GD53Sep(g, i, j)
           IN  Quot(g, RInt(1), MinPairs(g.k, f), M, GDIntra(g), M2)
      [] kind = "PS" ->
           LET b == PSBeta(g)
           IN  [ok  |-> RLe(M2, RMul(Limit, b)),
                tol |-> RMul(RInt(g.k), RAdd(P10(REL), RMul(RInt(2), RDiv(Err(g, b, M2), b))))]
      [] kind = "cSIL" ->
           LET kap == RDiv(M, RMinS([i \in 1 .. g.k |-> RMax(g.msd[i], SilB(g, i))]))
           IN  [ok |-> RLe(kap, P10(7)), tol |-> RAdd(P10(REL), RMul(P10(-12), kap))]

(***************************************************************************)
(* What the specification expects a kind to report in a partition state:   *)
(* t = "zero" (one cluster), "num" (with tolerance), "undef", or "illcond" *)
(***************************************************************************)
Expect(kind, st, g) ==
    IF Len(st.n) < 2 THEN [t |-> "zero", r |-> RInt(0), tol |-> RInt(0)]
    ELSE IF kind = "rCIP" THEN
         LET T == TLCEval(CIPTerms(st, g))
             w == CIPTol(st, T)
         IN  [t |-> IF w.ok THEN "num" ELSE "illcond", r |-> CIPSum(T), tol |-> w.tol]
    ELSE LET v == TLCEval(Value(kind, st, g)) IN
         IF v.t = "undef" THEN [t |-> "undef", r |-> RInt(0), tol |-> RInt(0)]
         ELSE LET w == TLCEval(Tol(kind, st, g, v.r)) IN
              [t |-> IF w.ok THEN "num" ELSE "illcond", r |-> v.r, tol |-> w.tol]
=============================================================================
