-------------------------------- MODULE CVI --------------------------------
(***************************************************************************)
(* The cvi library as a state machine over its public interface.           *)
(*                                                                         *)
(* An index object is one of the nine kinds of Indices.  Its only          *)
(* operation is get_cvi(data, label); a call is abstracted to a record     *)
(*    nd : number of dimensions of the data array                          *)
(*    X  : the rows of the data (one row if nd = 1; << >> unless nd is 1   *)
(*         or 2)                                                           *)
(*    L  : the labels (one if nd = 1)                                      *)
(* The library is sequential, so the linearization point of a call is its  *)
(* return, and one call is one step.  All nine kinds have the same state   *)
(* space and differ only in the criterion value, a function of the state.  *)
(***************************************************************************)
EXTENDS Indices, FiniteSets
LOCAL INSTANCE SequencesExt

(***************************************************************************)
(* Object states.                                                          *)
(*    mode : "fresh" (nothing processed), "inc" or "batch"                 *)
(*    labs : the labels met so far, in order of first appearance; the      *)
(*           position of a label is its internal cluster number            *)
(*    st   : the partition state (see Indices)                             *)
(***************************************************************************)
Fresh == [mode |-> "fresh", labs |-> << >>, st |-> EmptySt(0)]

Pos(labs, l) == CHOOSE i \in 1 .. Len(labs) + 1 :
                    IF i = Len(labs) + 1 THEN \A j \in 1 .. Len(labs) : labs[j] # l
                                         ELSE labs[i] = l

(* one labelled sample joins the partition *)
Absorb(o, x, l, mode, withq) ==
    LET i == Pos(o.labs, l)
        b == IF o.mode = "fresh" THEN EmptySt(Len(x)) ELSE o.st
    IN  [mode |-> mode,
         labs |-> IF i > Len(o.labs) THEN Append(o.labs, l) ELSE o.labs,
         st   |-> Put(b, i, x, withq)]

(* the rows of a batch, one after the other *)
AbsorbAll(o, X, L, mode, withq) ==
    FoldLeft(LAMBDA p, i : TLCEval(Absorb(p, X[i], L[i], mode, withq)),
             o, [i \in 1 .. Len(X) |-> i])

(***************************************************************************)
(* Which calls are accepted (C13).                                         *)
(***************************************************************************)
Distinct(L) == Cardinality({L[i] : i \in 1 .. Len(L)})

AcceptsSample(o, c) ==
    /\ c.nd = 1
    /\ o.mode # "batch"
    /\ o.mode = "inc" => Len(c.X[1]) = o.st.d

AcceptsBatch(o, c) ==
    /\ c.nd = 2
    /\ o.mode = "fresh"
    /\ Len(c.L) = Len(c.X)
    /\ Distinct(c.L) >= 2

Accepts(o, c) == AcceptsSample(o, c) \/ AcceptsBatch(o, c)

(* the effect of an accepted call *)
Effect(o, c, withq) ==
    IF c.nd = 1 THEN Absorb(o, c.X[1], c.L[1], "inc", withq)
                ELSE AbsorbAll(o, c.X, c.L, "batch", withq)

(* C13, C14: a refused call is answered by ValueError and changes nothing *)
Step(o, c, withq)  == IF Accepts(o, c) THEN Effect(o, c, withq) ELSE o
Outcome(o, c)      == IF Accepts(o, c) THEN "ok" ELSE "ValueError"

(***************************************************************************)
(* What an object reports: the criterion value of its partition.           *)
(***************************************************************************)
Reports(kind, o) == Criterion(kind, o.st)

(***************************************************************************)
(* Equality of abstract states up to the names of clusters and the order   *)
(* of their first appearance: equal bags of cluster statistics (C01, C09,  *)
(* C10, C15, C18).                                                         *)
(***************************************************************************)
Card(o, i) == <<o.st.n[i], o.st.s[i], o.st.t[i]>>
BagOf(f(_), k) == LET S == {f(i) : i \in 1 .. k} IN
                  [e \in S |-> Cardinality({i \in 1 .. k : f(i) = e})]
SameUpToNames(o, p) ==
    LET f(i) == Card(o, i)
        h(i) == Card(p, i)
    IN  /\ o.st.d = p.st.d
        /\ BagOf(f, K(o.st)) = BagOf(h, K(p.st))

(* ... and up to rigid motions of feature space and a scale f (C11): equal bags *)
(* of sizes with compactness, and of squared centroid distances               *)
Congruent(o, p, f) ==
    LET f2 == RMul(f, f)
        k  == K(o.st)
        a(i) == <<o.st.n[i], RMul(f2, Compact(o.st, i))>>
        b(i) == <<p.st.n[i], Compact(p.st, i)>>
        da == {RMul(f2, CentDist(o.st, i, j)) : i, j \in 1 .. k}
        db == {CentDist(p.st, i, j) : i, j \in 1 .. K(p.st)}
    IN  k = K(p.st) /\ BagOf(a, k) = BagOf(b, k) /\ da = db

(* every sample of o occurs m times as often in p (C22): sizes and compactness *)
(* are multiplied, the means stay                                             *)
Repeated(o, p, m) ==
    LET k  == K(o.st)
        a(i) == <<RMul(m, RInt(o.st.n[i])), RMul(m, Compact(o.st, i))>>
        b(i) == <<RInt(p.st.n[i]), Compact(p.st, i)>>
        da == {CentDist(o.st, i, j) : i, j \in 1 .. k}
        db == {CentDist(p.st, i, j) : i, j \in 1 .. K(p.st)}
    IN  k = K(p.st) /\ BagOf(a, k) = BagOf(b, k) /\ da = db

(* what the value x of an object o becomes under a relation with factor f *)
Mapped(rel, kind, o, x, f) ==
    CASE rel = "scale" /\ kind = "GD43" -> RDiv(x, f)
      [] rel = "rep" /\ kind = "CH" /\ NTot(o.st) > K(o.st) ->
            RMul(x, RDiv(RSub(RMul(f, RInt(NTot(o.st))), RInt(K(o.st))), RInt(NTot(o.st) - K(o.st))))
      [] OTHER -> x
=============================================================================
