------------------------------ MODULE Indices ------------------------------
(***************************************************************************)
(* The nine cluster validity indices as functions of an abstract partition *)
(* state.  Nothing here mentions how an implementation maintains anything: *)
(* these are the published definitions.                                    *)
(*                                                                         *)
(* A partition state is a record                                           *)
(*    d  : feature dimension                                               *)
(*    n  : <<n_1, ..., n_k>>    number of samples of each cluster          *)
(*    s  : <<s_1, ..., s_k>>    vector sum of the samples of each cluster  *)
(*    t  : <<t_1, ..., t_k>>    sum of squared norms of the samples        *)
(*    q  : <<q_1, ..., q_k>>    sum of outer products (rows), used by rCIP *)
(* (clusters in order of first appearance).  MC_Rec (BatchAgrees) checks,   *)
(* for all small data sets, that the expressions below equal the sums over *)
(* the samples themselves.                                                 *)
(***************************************************************************)
EXTENDS Rat, TLC

Kinds == {"CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB"}

(* sequences over the pairs i < j: row j - 1 lists i = 1 .. j - 1 *)
MinPairs(k, f(_, _)) ==
    RMinS([r \in 1 .. k - 1 |-> RMinS([i \in 1 .. r |-> f(i, r + 1)])])
SumPairs(k, f(_, _)) ==
    RSum([r \in 1 .. k - 1 |-> RSum([i \in 1 .. r |-> f(i, r + 1)])])

Others(k, i) == [m \in 1 .. k - 1 |-> IF m < i THEN m ELSE m + 1]

K(st)      == Len(st.n)
RECURSIVE ISum(_, _)
ISum(s, i) == IF i = 0 THEN 0 ELSE s[i] + ISum(s, i - 1)
NTot(st)   == ISum(st.n, Len(st.n))
IMax(s)    == CHOOSE m \in {s[i] : i \in 1 .. Len(s)} : \A i \in 1 .. Len(s) : s[i] <= m

Norm2(u)   == RDot(u, u)
Dist2(u, w) == Norm2(VSub(u, w))

(***************************************************************************)
(* Derived geometry: centroids, compactness, overall mean, squared         *)
(* centroid distances, all from the sums: with n, s, t as above            *)
(*    |v_i - v_j|^2   = |n_j s_i - n_i s_j|^2 / (n_i n_j)^2                *)
(*    |v_i - mu|^2    = |N s_i - n_i S|^2 / (n_i N)^2,  S the sum of all   *)
(*    sum_x |x - v|^2 = t - |s|^2 / n                                      *)
(* RRnd (the identity in pure TLA+) shortens numbers to 256 significant    *)
(* bits; it maps zero, and only zero, to zero.                             *)
(***************************************************************************)
Centroid(st, i) == VScale(RQ(1, st.n[i]), st.s[i])
Compact(st, i)  == RSub(st.t[i], RMul(RQ(1, st.n[i]), Norm2(st.s[i])))
SqInv(i)        == RMul(RQ(1, i), RQ(1, i))
CentDist(st, i, j) ==
    RMul(RMul(SqInv(st.n[i]), SqInv(st.n[j])),
         Norm2(VSub(VScale(RInt(st.n[j]), st.s[i]), VScale(RInt(st.n[i]), st.s[j]))))

RECURSIVE VSumTo(_, _)
VSumTo(seq, i) == IF i = 1 THEN seq[1] ELSE VAdd(VSumTo(seq, i - 1), seq[i])

Geo(st) ==
    LET k  == K(st)
        N  == NTot(st)
        S  == TLCEval(VSumTo(st.s, k))
        v  == TLCEval([i \in 1 .. k |-> Centroid(st, i)])
        cp == TLCEval([i \in 1 .. k |-> RRnd(Compact(st, i))])
        H  == TLCEval([r \in 1 .. k - 1 |->            \* H[r][i] for i < r + 1
                  TLCEval([i \in 1 .. r |-> RRnd(CentDist(st, i, r + 1))])])
        D  == TLCEval([i \in 1 .. k |-> TLCEval([j \in 1 .. k |->
                  IF i = j THEN RInt(0) ELSE IF i < j THEN H[j - 1][i] ELSE H[i - 1][j]])])
        sep(i) == RRnd(RMul(RMul(RQ(1, st.n[i]), SqInv(N)),
                       Norm2(VSub(VScale(RInt(N), st.s[i]), VScale(RInt(st.n[i]), S)))))
    IN  [k |-> k, N |-> N, d |-> st.d, n |-> st.n, v |-> v, cp |-> cp,
         D |-> D,                                   \* squared distances
         mind |-> IF k < 2 THEN RInt(0)             \* smallest of them
                  ELSE RMinS([r \in 1 .. k - 1 |-> RMinS(H[r])]),
         sumd |-> IF k < 2 THEN RInt(0)             \* sum over unordered pairs
                  ELSE RSum([r \in 1 .. k - 1 |-> RSum(H[r])]),
         msd |-> TLCEval([i \in 1 .. k |-> RRnd(RMul(cp[i], RQ(1, st.n[i])))]),
         wgss |-> RSum(cp),
         bgss |-> RSum([i \in 1 .. k |-> sep(i)])]

(***************************************************************************)
(* Results: a number, or undefined because a divisor is zero.              *)
(***************************************************************************)
Num(r) == [t |-> "num", r |-> r]
Undef  == [t |-> "undef", r |-> RInt(0)]

CH(g) == IF RIsZero(g.wgss) THEN Undef
         ELSE Num(RMul(RDiv(g.bgss, g.wgss), RQ(g.N - g.k, g.k - 1)))

WB(g) == IF RIsZero(g.bgss) THEN Undef
         ELSE Num(RMul(RInt(g.k), RDiv(g.wgss, g.bgss)))

XB(g) == IF RIsZero(g.mind) THEN Undef
         ELSE Num(RDiv(g.wgss, RMul(RInt(g.N), g.mind)))

DB(g) == IF RIsZero(g.mind) THEN Undef
         ELSE Num(RMul(RQ(1, g.k), RSum([i \in 1 .. g.k |->
                RMaxS([m \in 1 .. g.k - 1 |->
                    LET j == Others(g.k, i)[m]
                    IN  RRnd(RDiv(RAdd(g.msd[i], g.msd[j]), g.D[i][j]))])])))

GDIntra(g) == RMul(RInt(2), RMaxS(g.msd))
(* square of GD43, so that the small models need no square roots *)
GD43Sq(g) == LET a == GDIntra(g) IN
         IF RIsZero(a) THEN Undef ELSE Num(RDiv(g.mind, RMul(a, a)))
GD43(g) == LET a == GDIntra(g) IN
         IF RIsZero(a) THEN Undef ELSE Num(RDiv(RSqrt(g.mind), a))

GD53Sep(g, i, j) == RRnd(RMul(RAdd(g.cp[i], g.cp[j]), RQ(1, g.n[i] + g.n[j])))
GD53(g) == LET a == GDIntra(g)
               f(i, j) == GD53Sep(g, i, j)
         IN  IF RIsZero(a) THEN Undef ELSE Num(RDiv(MinPairs(g.k, f), a))

(* mean squared distance of the samples of cluster j to the centroid of i *)
MeanTo(g, j, i) == RAdd(g.msd[j], g.D[i][j])
SilB(g, i) == RMinS([m \in 1 .. g.k - 1 |-> MeanTo(g, Others(g.k, i)[m], i)])
cSIL(g) == IF \E i \in 1 .. g.k : RIsZero(RMax(g.msd[i], SilB(g, i))) THEN Undef
         ELSE Num(RMul(RQ(1, g.k), RSum([i \in 1 .. g.k |->
                LET a == g.msd[i]
                    b == SilB(g, i)
                IN  RRnd(RDiv(RSub(b, a), RMax(a, b)))])))

(* mean squared distance of the means to their unweighted average: equals   *)
(* the sum over pairs of squared distances divided by k^2                  *)
PSBeta(g) == RMul(RQ(1, g.k * g.k), g.sumd)
PSNear(g, i) == RMinS([m \in 1 .. g.k - 1 |-> g.D[i][Others(g.k, i)[m]]])
PS(g) == LET beta == PSBeta(g)
             nmax == IMax(g.n)
         IN  IF RIsZero(beta) THEN Undef
             ELSE Num(RSum([i \in 1 .. g.k |->
                    RSub(RQ(g.n[i], nmax), RExp(RNeg(RDiv(PSNear(g, i), beta))))]))

(***************************************************************************)
(* rCIP.  Covariances carry 10^(-12/d) on the diagonal; the Gaussian       *)
(* density needs determinant and quadratic form of a symmetric positive    *)
(* definite matrix, both defined by eliminating the first coordinate       *)
(* (Schur complement).                                                     *)
(***************************************************************************)
Delta(d) == RPow10(RQ(-12, d))
Cov(st, i, delta) ==
    TLCEval([a \in 1 .. st.d |-> TLCEval([b \in 1 .. st.d |->
        RAdd(IF st.n[i] = 1 THEN RInt(0)
             ELSE RRnd(RMul(RQ(1, st.n[i] - 1),
                       RSub(st.q[i][a][b],
                            RMul(RQ(1, st.n[i]), RMul(st.s[i][a], st.s[i][b]))))),
             IF a = b THEN delta ELSE RInt(0))])])
MAdd(A, B) == TLCEval([a \in 1 .. Len(A) |-> VAdd(A[a], B[a])])
Trace(A)   == RSum([a \in 1 .. Len(A) |-> A[a][a]])

Schur(A) == LET c == TLCEval(RInv(A[1][1])) IN
    TLCEval([a \in 1 .. Len(A) - 1 |->
        VRnd(VSub(Tail(A[a + 1]), VScale(RRnd(RMul(c, A[a + 1][1])), Tail(A[1]))))])
RECURSIVE DetQuad(_, _)
(* [det |-> det A, quad |-> m' A^-1 m] *)
DetQuad(A, m) ==
    LET c  == TLCEval(RInv(A[1][1]))
        h  == RMul(c, RMul(m[1], m[1]))
    IN  IF Len(A) = 1 THEN [det |-> A[1][1], quad |-> h]
        ELSE LET r == DetQuad(Schur(A),
                              VRnd(VSub(Tail(m), VScale(RMul(c, m[1]), Tail(A[1])))))
             IN  [det |-> RRnd(RMul(A[1][1], r.det)), quad |-> RRnd(RAdd(h, r.quad))]

RECURSIVE RPowN(_, _)
RPowN(a, e) == IF e = 0 THEN RInt(1) ELSE RMul(a, RPowN(a, e - 1))
(* per pair of clusters: density, determinant, quadratic form, trace *)
CIPTerms(st, g) ==
    LET delta == TLCEval(Delta(st.d))
        C     == TLCEval([i \in 1 .. g.k |-> Cov(st, i, delta)])
        tp    == TLCEval(RRnd(RPowN(RMul(RInt(2), RPi), st.d)))
    IN  TLCEval([r \in 1 .. g.k - 1 |-> TLCEval([i \in 1 .. r |->
            LET j  == r + 1
                S  == TLCEval(MAdd(C[i], C[j]))
                dq == TLCEval(DetQuad(S, VSub(g.v[i], g.v[j])))
            IN  [f |-> RRnd(RMul(RInv(RSqrt(RMul(tp, dq.det))),
                                 RExp(RMul(RQ(-1, 2), dq.quad)))),
                 det |-> dq.det, quad |-> dq.quad, tr |-> Trace(S)]])])
SumTerms(T, f(_)) == RSum([r \in 1 .. Len(T) |-> RSum([i \in 1 .. r |-> f(T[r][i])])])
CIPSum(T) == LET F(x) == x.f IN RRnd(SumTerms(T, F))
rCIP(st, g) == Num(CIPSum(CIPTerms(st, g)))

Value(kind, st, g) ==
    CASE kind = "CH"   -> CH(g)
      [] kind = "WB"   -> WB(g)
      [] kind = "XB"   -> XB(g)
      [] kind = "DB"   -> DB(g)
      [] kind = "GD43" -> GD43(g)
      [] kind = "GD53" -> GD53(g)
      [] kind = "cSIL" -> cSIL(g)
      [] kind = "PS"   -> PS(g)
      [] kind = "rCIP" -> rCIP(st, g)

(* The criterion value of a state: zero below two clusters. *)
Criterion(kind, st) ==
    IF Len(st.n) < 2 THEN Num(RInt(0)) ELSE Value(kind, st, Geo(st))

(***************************************************************************)
(* Building partition states.                                              *)
(***************************************************************************)
Outer(x) == TLCEval([a \in 1 .. Len(x) |-> VScale(x[a], x)])
EmptySt(d) == [d |-> d, n |-> << >>, s |-> << >>, t |-> << >>, q |-> << >>]
(* sample x joins cluster i; i = K(st) + 1 starts a new cluster.  withq: keep q *)
Put(st, i, x, withq) ==
    IF i > Len(st.n)
    THEN [d |-> st.d, n |-> Append(st.n, 1), s |-> Append(st.s, x),
          t |-> Append(st.t, Norm2(x)),
          q |-> IF withq THEN Append(st.q, Outer(x)) ELSE << >>]
    ELSE [d |-> st.d, n |-> [st.n EXCEPT ![i] = @ + 1],
          s |-> [st.s EXCEPT ![i] = VAdd(@, x)],
          t |-> [st.t EXCEPT ![i] = RAdd(@, Norm2(x))],
          q |-> IF withq THEN [st.q EXCEPT ![i] = MAdd(@, Outer(x))] ELSE << >>]
=============================================================================
