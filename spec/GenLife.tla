------------------------------ MODULE GenLife ------------------------------
(***************************************************************************)
(* Every sequence of Depth steps of the program of module Life, with the   *)
(* outcome of each call and what the objects report after it.  A step is   *)
(*   <<"call", o, c>>  pass an array holding Contents[c] to object o       *)
(*   <<"copy", o, p>>, <<"new", o>>                                        *)
(* The caller's arrays are overwritten between any two steps (the driver   *)
(* does it), which no expectation depends on.                              *)
(***************************************************************************)
EXTENDS Expect, Json, IOUtils
CONSTANTS Objs, Depth, Shape
VARIABLES h

V(p) == TLCEval([a \in 1 .. Len(p) |-> RInt(p[a])])
(* as in MC_Life, in a form that can be printed *)
Table == <<
    [nd |-> 1, X |-> << <<0, 1>> >>, L |-> <<5>>],
    [nd |-> 1, X |-> << <<2, 1>> >>, L |-> <<-3>>],
    [nd |-> 1, X |-> << <<1, 4>> >>, L |-> <<5>>],
    [nd |-> 1, X |-> << <<2>> >>, L |-> <<5>>],
    [nd |-> 1, X |-> << <<1, 2, 3>> >>, L |-> <<-3>>],
    [nd |-> 2, X |-> << <<0, 1>>, <<2, 2>>, <<1, 5>>, <<3, 3>> >>, L |-> <<5, -3, 5, -3>>],
    [nd |-> 2, X |-> << <<0>>, <<4>>, <<1>> >>, L |-> <<7, 0, 7>>],
    [nd |-> 2, X |-> << <<0, 1>>, <<2, 2>>, <<1, 5>> >>, L |-> <<5, 5, 5>>],
    [nd |-> 2, X |-> << <<0, 1>>, <<2, 2>>, <<1, 5>> >>, L |-> <<5, -3>>],
    [nd |-> 2, X |-> << <<0, 1>>, <<2, 2>> >>, L |-> <<5, -3, 5>>],
    [nd |-> 0, X |-> << >>, L |-> <<5>>],
    [nd |-> 3, X |-> << >>, L |-> <<5, -3>>] >>
Rec(c) == [nd |-> c.nd, X |-> TLCEval([i \in 1 .. Len(c.X) |-> V(c.X[i])]), L |-> c.L]

Contents(s) == IF s = "all" THEN DOMAIN Table ELSE {1, 2, 4, 6, 8, 9}
Steps == {<<"call", o, c>> : o \in Objs, c \in Contents(Shape)}
         \cup (IF Cardinality(Objs) > 1
               THEN {<<"copy", op[1], op[2]>> : op \in {q \in Objs \X Objs : q[1] # q[2]}}
               ELSE {})
Watch == Kinds
Init == h = << >>
Next == Len(h) < Depth /\ \E s \in Steps : h' = Append(h, s)
Spec == Init /\ [][Next]_h

RECURSIVE ObjsAt(_)
ObjsAt(i) ==
    IF i = 0 THEN [o \in Objs |-> Fresh]
    ELSE LET b == TLCEval(ObjsAt(i - 1))
             s == h[i]
         IN  CASE s[1] = "call" -> [b EXCEPT ![s[2]] = TLCEval(Step(@, Rec(Table[s[3]]), TRUE))]
               [] s[1] = "copy" -> [b EXCEPT ![s[3]] = b[s[2]]]
               [] OTHER -> b
Line ==
    LET b == TLCEval(ObjsAt(Len(h) - 1))
        e == TLCEval(ObjsAt(Len(h)))
        s == h[Len(h)]
        w == IF s[1] = "call" THEN s[2] ELSE s[3]
        st == e[w].st
        g == TLCEval(IF Len(st.n) > 1 THEN Geo(st) ELSE << >>)
    IN  [h |-> h, out |-> IF s[1] = "call" THEN Outcome(b[w], Rec(Table[s[3]])) ELSE "-",
         o |-> w,
         ex |-> [k \in Watch |->
                   IF Len(st.n) = 0 THEN <<"zero", "0", "0">> ELSE
                   LET x == TLCEval(Expect(k, st, g)) IN <<x.t, RDec(x.r), RDec(x.tol)>>]]
Emit == h # << >> => PrintT("@" \o ToJson(Line))
ASSUME PrintT("#" \o ToJson([table |-> Table, objs |-> Objs, depth |-> Depth]))
=============================================================================
