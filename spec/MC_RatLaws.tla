----------------------------- MODULE MC_RatLaws -----------------------------
(***************************************************************************)
(* What module Rat has to satisfy.  TLC checks this model twice: with the  *)
(* definitions in Rat.tla (MC_RatLaws_p.cfg) and with the BigInteger       *)
(* override (MC_RatLaws_o.cfg).  Field ties every operation to integer     *)
(* arithmetic on numerators and denominators, so both implementations      *)
(* agree wherever both are checked; Functions states what the              *)
(* transcendental functions, which only the override has, must satisfy.    *)
(***************************************************************************)
EXTENDS Rat, TLC
CONSTANTS Nums, Dens
NumsP == {-7, -3, -1, 0, 1, 2, 4, 6, 9, 12, 100, 255}
DensP == {1, 2, 3, 4, 6, 9, 25, 101}
NumsO == {-7, -3, -1, 0, 1, 2, 4, 6, 9, 50}
DensO == {1, 2, 3, 4, 6, 9}
VARIABLES q           \* <<a, b, c, d>>: the rationals a/b and c/d
Init == q \in Nums \X Dens \X Nums \X Dens
Next == UNCHANGED q
Spec == Init /\ [][Next]_q

Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Ab(n) == IF n < 0 THEN -n ELSE n

Field ==
    LET a == q[1]  b == q[2]  c == q[3]  d == q[4]
        x == RQ(a, b)
        y == RQ(c, d)
        s == Sg(a * d - c * b)            \* b, d > 0
    IN
    /\ (x = y) <=> (a * d = c * b)                      \* equal values, equal representation
    /\ REq(x, y) <=> (x = y)
    /\ RQ(-a, b) = RNeg(x) /\ RQ(a, -b) = RNeg(x)
    /\ RQ(a, 1) = RInt(a)
    /\ RAdd(x, y) = RQ(a * d + c * b, b * d)
    /\ RSub(x, y) = RQ(a * d - c * b, b * d)
    /\ RMul(x, y) = RQ(a * c, b * d)
    /\ c # 0 => /\ RInv(y) = RQ(d * Sg(c), Ab(c))
                /\ RDiv(x, y) = RQ(a * d * Sg(c), b * Ab(c))
    /\ RSgn(x) = Sg(a) /\ RIsZero(x) = (a = 0)
    /\ RLt(x, y) = (s < 0) /\ RLe(x, y) = (s <= 0)
    /\ RAbs(x) = RQ(Ab(a), b)
    /\ RMax(x, y) = (IF s < 0 THEN y ELSE x) /\ RMin(x, y) = (IF s > 0 THEN y ELSE x)
    /\ RSum(<<x, y, x>>) = RAdd(x, RAdd(y, x)) /\ RSum(<< >>) = RInt(0)
    /\ RMaxS(<<x, y, x>>) = RMax(x, y) /\ RMinS(<<y, x, y>>) = RMin(x, y)
    /\ RDot(<<x, y>>, <<y, y>>) = RAdd(RMul(x, y), RMul(y, y))
    /\ VAdd(<<x, y>>, <<y, y>>) = <<RAdd(x, y), RAdd(y, y)>>
    /\ VSub(<<x, y>>, <<y, y>>) = <<RSub(x, y), RInt(0)>>
    /\ VScale(x, <<y, x>>) = <<RMul(x, y), RMul(x, x)>>
    /\ RRnd(RInt(a)) = RInt(a) /\ RIsZero(RRnd(x)) = (a = 0)
    /\ VRnd(<<x, RInt(c)>>) = <<RRnd(x), RInt(c)>>

(***************************************************************************)
(* Override only.  Tiny is 2^-160.                                         *)
(***************************************************************************)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN RInt(1) ELSE RMul(x, Pow(x, n - 1))
Tiny == RInv(Pow(RInt(2), 160))
Near(x, y) == RLe(RAbs(RSub(x, y)), RMul(Tiny, RAbs(y)))     \* relative
(* Machin: pi = 16 atan(1/5) - 4 atan(1/239) *)
RECURSIVE Atan(_, _, _)
Atan(x, i, n) == IF i > n THEN RInt(0)
    ELSE RAdd(RMul(RQ(IF i % 2 = 0 THEN 1 ELSE -1, 2 * i + 1), Pow(x, 2 * i + 1)), Atan(x, i + 1, n))
Machin == RSub(RMul(RInt(16), Atan(RQ(1, 5), 0, 40)), RMul(RInt(4), Atan(RQ(1, 239), 0, 12)))
(* the series of exp, for -1 <= x <= 1 *)
RECURSIVE Series(_, _, _, _)
Series(x, i, n, term) == IF i > n THEN RInt(0)
    ELSE RAdd(term, Series(x, i + 1, n, RMul(term, RMul(x, RQ(1, i + 1)))))

Functions ==
    LET a == q[1]  b == q[2]
        x == RQ(a, b)
        y == RQ(q[3], q[4])
        big == RMul(Pow(RInt(10), 30), x)
    IN
    /\ a >= 0 => /\ Near(Pow(RSqrt(x), 2), x) /\ RSgn(RSqrt(x)) >= 0
                 /\ Near(Pow(RSqrt(big), 2), big)
                 /\ RSqrt(RInt(a * a)) = RInt(a)       \* exact on integer squares
    /\ Ab(a) <= b => Near(RExp(x), Series(x, 0, 45, RInt(1)))
    /\ Near(RMul(RExp(x), RExp(y)), RExp(RAdd(x, y)))
    /\ RSgn(RExp(x)) = 1 /\ RExp(RInt(0)) = RInt(1)
    /\ Near(Pow(RPow10(RQ(a, b)), b), IF a >= 0 THEN Pow(RInt(10), a) ELSE RInv(Pow(RInt(10), -a)))
    /\ RParse(RStr(x)) = x /\ RParse(RStr(big)) = big
    /\ RLe(RAbs(RSub(RRnd(x), x)), RMul(RInv(Pow(RInt(2), 250)), RAbs(x)))
    /\ LET r == RRnd(RMul(RInv(Pow(RInt(3), 400)), x))
           w == RMul(RInv(Pow(RInt(3), 400)), x)
       IN  RLe(RAbs(RSub(r, w)), RMul(RInv(Pow(RInt(2), 250)), RAbs(w)))
Pi == Near(RPi, Machin)
=============================================================================
