------------------------------ MODULE MC_Life ------------------------------
EXTENDS Life
CONSTANT MaxN

V(p) == TLCEval([a \in 1 .. Len(p) |-> RInt(p[a])])
One(p, l) == [nd |-> 1, X |-> <<V(p)>>, L |-> <<l>>]
Bat(ps, ls) == [nd |-> 2, X |-> [i \in 1 .. Len(ps) |-> V(ps[i])], L |-> ls]
Odd(n) == [nd |-> n, X |-> << >>, L |-> <<5>>]

(* samples, samples of another length, batches good and bad, other ranks *)
Table == << One(<<0, 1>>, 5), One(<<2, 1>>, -3), One(<<1, 4>>, 5),
            One(<<2>>, 5), One(<<1, 2, 3>>, -3),
            Bat(<< <<0, 1>>, <<2, 2>>, <<1, 5>>, <<3, 3>> >>, <<5, -3, 5, -3>>),
            Bat(<< <<0>>, <<4>>, <<1>> >>, <<7, 0, 7>>),
            Bat(<< <<0, 1>>, <<2, 2>>, <<1, 5>> >>, <<5, 5, 5>>),
            Bat(<< <<0, 1>>, <<2, 2>>, <<1, 5>> >>, <<5, -3>>),
            Bat(<< <<0, 1>>, <<2, 2>> >>, <<5, -3, 5>>),
            Odd(0), Odd(3) >>
Small == \A o \in Objs : obj[o].mode = "inc" => NTot(obj[o].st) <= MaxN
=============================================================================
