-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic, used by every other module of this           *)
(* specification.  Rationals are an abstract data type: clients only use   *)
(* the operators below and never look at the representation.               *)
(*                                                                         *)
(* The definitions in this file are pure TLA+ and represent a rational as  *)
(* a reduced pair <<num, den>>, den > 0.  They are what TLC evaluates in   *)
(* the small-scope models, where TLC's 32-bit integers suffice (TLC        *)
(* stops with an error on overflow, it never wraps silently).              *)
(*                                                                         *)
(* For trace validation, where sums run over thousands of samples, the     *)
(* harness puts java/Rat.class on TLC's class path: TLC then replaces each *)
(* operator by the BigInteger implementation of the same name.  The model  *)
(* MC_RatLaws ties both implementations to the same integer arithmetic.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)
LOCAL AbsI(a) == IF a < 0 THEN -a ELSE a
LOCAL Norm(n, d) ==
    LET g == RGcd(AbsI(n), AbsI(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN  <<s * (n \div g), s * (d \div g)>>

(* Constructors *)
RInt(n)   == <<n, 1>>                    \* the integer n
RQ(n, d)  == Norm(n, d)                  \* n / d, d # 0

(* Field operations *)
RAdd(a, b) == LET g == RGcd(a[2], b[2])   \* keep intermediate products small
              IN  Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g),
                       a[2] * (b[2] \div g))
RNeg(a)    == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == RGcd(AbsI(a[1]), b[2])
                  h == RGcd(AbsI(b[1]), a[2])
              IN  Norm((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g))
RInv(a)    == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))

(* Order *)
RSgn(a)    == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RLt(a, b)  == RSgn(RSub(a, b)) < 0
RLe(a, b)  == RSgn(RSub(a, b)) <= 0
REq(a, b)  == a = b
RAbs(a)    == IF a[1] < 0 THEN RNeg(a) ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RIsZero(a) == a[1] = 0

(* Folds over finite sequences of rationals *)
RECURSIVE RFoldSeq(_, _, _, _)
RFoldSeq(op(_, _), s, i, acc) ==
    IF i > Len(s) THEN acc ELSE RFoldSeq(op, s, i + 1, op(acc, s[i]))
RSum(s)    == RFoldSeq(RAdd, s, 1, RInt(0))
RMaxS(s)   == RFoldSeq(RMax, s, 2, s[1])         \* s # << >>
RMinS(s)   == RFoldSeq(RMin, s, 2, s[1])         \* s # << >>
RDot(u, v) == RSum([i \in 1 .. Len(u) |-> RMul(u[i], v[i])])
VAdd(u, v) == [i \in 1 .. Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v) == [i \in 1 .. Len(u) |-> RSub(u[i], v[i])]
VScale(c, u) == [i \in 1 .. Len(u) |-> RMul(c, u[i])]

(* Rounding to 256 significant bits: the identity here, used only to keep   *)
(* numbers short under the override.  Maps zero, and only zero, to zero.   *)
RRnd(a) == a
VRnd(u) == [i \in 1 .. Len(u) |-> RRnd(u[i])]

(***************************************************************************)
(* Text.  RParse reads "n" or "n/d" in decimal (arbitrary size under the   *)
(* override); RStr writes the reduced form "n/d".  Pure TLA+ cannot take   *)
(* strings apart, so RParse exists under the override only.                *)
(***************************************************************************)
RParse(str) == CHOOSE r \in {<<0, 1>>} : FALSE
RStr(a)     == <<a[1], a[2]>>
RDec(a)     == RStr(a)       \* under the override: 25 significant decimal digits

(***************************************************************************)
(* Transcendental functions, correct to better than 2^-160 (relative for   *)
(* REx and RSqrt of non-zero results).  Available under the override only; *)
(* what they have to satisfy is stated, and checked by TLC, in MC_RatLaws. *)
(***************************************************************************)
RSqrt(a) == CHOOSE r \in {<<0, 1>>} : RMul(r, r) = a
RExp(a)  == CHOOSE r \in {<<1, 1>>} : a = <<0, 1>>
RPi      == CHOOSE r \in {<<0, 1>>} : FALSE
(* 10 to the power n/d, as in rCIP's regularisation constant *)
RPow10(a) == CHOOSE r \in {<<1, 1>>} : a = <<0, 1>>
=============================================================================
