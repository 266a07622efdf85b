------------------------------- MODULE MC_Sym -------------------------------
(***************************************************************************)
(* Symmetries of the index definitions (C09, C10, C11), for every labelled *)
(* data set of at most Depth samples from Points: the criterion values do  *)
(* not change when clusters are renumbered, when the samples are taken in  *)
(* another order, when space is shifted, reflected or its axes permuted,   *)
(* and they scale as stated when it is stretched.                          *)
(*                                                                         *)
(* The values compared are exact; GD43 is squared, PS is taken as the bag  *)
(* of its arguments (relative size, exponent), and rCIP as the bag of      *)
(* (determinant, quadratic form) with a regularisation of 1/7 (the same    *)
(* algebra as with the real, irrational constant).                         *)
(***************************************************************************)
EXTENDS CVI
CONSTANTS Points, Depth, MaxK
VARIABLE h                   \* sequence of <<point, label>>

P1 == {<<0>>, <<1>>, <<3>>}
P2 == {<<0, 0>>, <<1, 0>>, <<-1, 2>>}

Init == h = << >>
Used(hh) == {hh[i][2] : i \in DOMAIN hh}
Next == /\ Len(h) < Depth
        /\ \E p \in Points, l \in 1 .. MaxK :
             l <= Cardinality(Used(h)) + 1 /\ h' = Append(h, <<p, l>>)
Spec == Init /\ [][Next]_h

RX(p) == TLCEval([a \in 1 .. Len(p) |-> RInt(p[a])])
RECURSIVE ObjOf(_, _)
ObjOf(hh, i) == IF i = 0 THEN Fresh
    ELSE TLCEval(Step(ObjOf(hh, i - 1),
                      [nd |-> 1, X |-> <<RX(hh[i][1])>>, L |-> <<hh[i][2]>>], TRUE))

Bag(f(_), S) == LET D == {f(x) : x \in S} IN [e \in D |-> Cardinality({x \in S : f(x) = e})]

Figures(st) ==
    LET g == TLCEval(Geo(st))
        k == g.k
        beta == PSBeta(g)
        ps(i) == <<RQ(g.n[i], IMax(g.n)), IF RIsZero(beta) THEN "undef" ELSE RDiv(PSNear(g, i), beta)>>
        C  == TLCEval([i \in 1 .. k |-> Cov(st, i, RQ(1, 7))])
        cip(p) == LET r == DetQuad(MAdd(C[p[1]], C[p[2]]), VSub(g.v[p[1]], g.v[p[2]]))
                  IN  <<r.det, r.quad>>
    IN  [CH |-> CH(g), WB |-> WB(g), XB |-> XB(g), DB |-> DB(g), GD53 |-> GD53(g), cSIL |-> cSIL(g),
         GD43Sq |-> GD43Sq(g),
         PS |-> Bag(ps, 1 .. k),
         rCIP |-> Bag(cip, {p \in (1 .. k) \X (1 .. k) : p[1] < p[2]})]

St(hh) == TLCEval(ObjOf(hh, Len(hh)).st)
Map(hh, f(_)) == [i \in DOMAIN hh |-> <<f(hh[i][1]), hh[i][2]>>]

Two == Cardinality(Used(h)) >= 2
Now == TLCEval(Figures(St(h)))

(* C10: adjacent transpositions generate all orders; induction over Depth does the rest *)
OrderFree ==
    Two => LET now == Now IN
    \A i \in 1 .. Len(h) - 1 :
        Figures(St([h EXCEPT ![i] = h[i + 1], ![i + 1] = h[i]])) = now
(* C09: renaming permutes the internal numbers; reversing names is enough together with OrderFree *)
NameFree ==
    Two => LET now == Now
               k == Cardinality(Used(h)) IN
    Figures(St([i \in DOMAIN h |-> <<h[i][1], k + 1 - h[i][2]>>])) = now
(* C11 *)
Shift(p)   == [a \in 1 .. Len(p) |-> p[a] + 2 * a + 1]
Mirror(p)  == [p EXCEPT ![1] = -@]
Rotate(p)  == [a \in 1 .. Len(p) |-> p[IF a = Len(p) THEN 1 ELSE a + 1]]
Stretch(p) == [a \in 1 .. Len(p) |-> 2 * p[a]]
Rigid ==
    Two => LET now == Now IN
    /\ Figures(St(Map(h, Shift))) = now
    /\ Figures(St(Map(h, Mirror))) = now
    /\ Figures(St(Map(h, Rotate))) = now
Scaling ==
    Two => LET now == Now
               big == TLCEval(Figures(St(Map(h, Stretch)))) IN
    /\ \A f \in {"CH", "WB", "XB", "DB", "GD53", "cSIL", "PS"} : big[f] = now[f]
    /\ big.GD43Sq.t = now.GD43Sq.t
    /\ RMul(RInt(4), big.GD43Sq.r) = now.GD43Sq.r
(* C22: the whole stream once more; a feature that never changes *)
Again == h \o h
Pad(p) == Append(p, 5)
Replicas ==
    Two => LET now == Now
               two == TLCEval(Figures(St(Again)))
               n == Len(h)
               k == Cardinality(Used(h)) IN
    /\ \A f \in {"WB", "XB", "DB", "GD53", "cSIL", "PS", "GD43Sq"} : two[f] = now[f]
    /\ two.CH.t = now.CH.t
    /\ now.CH.t = "num" => two.CH.r = RMul(now.CH.r, RQ(2 * n - k, n - k))
    /\ now.CH.t = "num" => Mapped("rep", "CH", ObjOf(h, n), now.CH.r, RInt(2)) = two.CH.r
Padding ==
    Two => LET now == Now
               pad == TLCEval(Figures(St(Map(h, Pad)))) IN
    \A f \in {"CH", "WB", "XB", "DB", "GD53", "cSIL", "PS", "GD43Sq"} : pad[f] = now[f]
(* the comparison used for recorded traces agrees with these *)
Recognised ==
    Two => LET o == ObjOf(h, Len(h))
               m == ObjOf(Map(h, Mirror), Len(h))
               b == ObjOf(Map(h, Stretch), Len(h)) IN
    /\ SameUpToNames(o, o) /\ Congruent(o, m, RInt(1)) /\ Congruent(o, b, RInt(2))
    /\ Repeated(o, ObjOf(Again, 2 * Len(h)), RInt(2))
    /\ Congruent(o, ObjOf(Map(h, Pad), Len(h)), RInt(1))
=============================================================================
