-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* A program that uses the library: several index objects, the caller's    *)
(* arrays, and the interleaving of calls, refused calls, overwritten       *)
(* arrays and copies.                                                      *)
(*                                                                         *)
(* Contents is a table of what the caller can put into an array (data and  *)
(* label together): records as in CVI.  An array is passed by reference,   *)
(* so a call reads what the array holds at that moment.                    *)
(***************************************************************************)
EXTENDS CVI
CONSTANTS Objs, Arrays, Contents      \* Contents: sequence of call records

VARIABLES obj,      \* Objs -> object state
          arr,      \* Arrays -> index into Contents, what the caller's array holds
          out       \* outcome of the last step
lvars == <<obj, arr, out>>

LInit == /\ obj = [o \in Objs |-> Fresh]
         /\ arr = [a \in Arrays |-> 1]
         /\ out = "-"

(* the caller writes into one of its arrays, at any time *)
Fill(a, c) == /\ arr[a] # c
              /\ arr' = [arr EXCEPT ![a] = c]
              /\ UNCHANGED obj
              /\ out' = "-"

Call(o, a) == /\ obj' = [obj EXCEPT ![o] = TLCEval(Step(@, Contents[arr[a]], FALSE))]
              /\ out' = Outcome(obj[o], Contents[arr[a]])
              /\ UNCHANGED arr

(* a deep copy, or pickle and unpickle *)
Copy(o, p) == /\ o # p
              /\ obj' = [obj EXCEPT ![p] = obj[o]]
              /\ UNCHANGED arr
              /\ out' = "-"

(* an object is dropped and made anew *)
New(o) == /\ obj[o].mode # "fresh"
          /\ obj' = [obj EXCEPT ![o] = Fresh]
          /\ UNCHANGED arr
          /\ out' = "-"

LNext == \/ \E a \in Arrays, c \in DOMAIN Contents : Fill(a, c)
         \/ \E o \in Objs, a \in Arrays : Call(o, a)
         \/ \E o, p \in Objs : Copy(o, p)
         \/ \E o \in Objs : New(o)
LSpec == LInit /\ [][LNext]_lvars

(***************************************************************************)
(* Properties.                                                             *)
(***************************************************************************)
TypeOK ==
    \A o \in Objs : LET s == obj[o] IN
    /\ s.mode \in {"fresh", "inc", "batch"}
    /\ s.mode = "fresh" <=> s.labs = << >>
    /\ Len(s.labs) = Len(s.st.n)
    /\ \A i, j \in 1 .. Len(s.labs) : i # j => s.labs[i] # s.labs[j]   \* C09: a bijection
    /\ \A i \in 1 .. Len(s.st.n) : s.st.n[i] >= 1 /\ Len(s.st.s[i]) = s.st.d
    /\ s.mode = "batch" => Len(s.labs) >= 2

(* C14 *)
RefusedNoEffect == [][out' = "ValueError" => obj' = obj]_lvars
(* C15: at most one object changes in a step *)
Isolation == [][\A o, p \in Objs : o # p => obj'[o] = obj[o] \/ obj'[p] = obj[p]]_lvars
(* C16: the caller's writes reach no object, calls change no array *)
BufferFree == [][/\ arr' # arr => obj' = obj
                 /\ obj' # obj => arr' = arr]_lvars
(* C13, operationally: a used object never accepts a batch, a batch object nothing *)
Admission ==
    [][\A o \in Objs, a \in Arrays :
        LET c == Contents[arr[a]] IN
        (Call(o, a) /\ out' = "ok") =>
            /\ c.nd = 2 => obj[o].mode = "fresh" /\ obj'[o].mode = "batch"
            /\ c.nd = 1 => obj[o].mode # "batch" /\ obj'[o].mode = "inc"
            /\ c.nd \in {1, 2}]_lvars
(* whatever the object has seen stays seen: labels keep their numbers, counts only grow *)
Grows(s, t) ==
    /\ Len(s.labs) <= Len(t.labs)
    /\ \A i \in 1 .. Len(s.labs) : t.labs[i] = s.labs[i] /\ t.st.n[i] >= s.st.n[i]
    /\ s.mode # "fresh" => t.st.d = s.st.d /\ t.mode = s.mode
Monotone == [][\A o \in Objs : (\E a \in Arrays : Call(o, a)) => Grows(obj[o], obj'[o])]_lvars
=============================================================================
