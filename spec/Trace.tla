------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real code against CVI.           *)
(*                                                                         *)
(* A trace is a sequence of events (one JSON object per line).  An object  *)
(* name in a trace stands for a family of index objects, one per observed  *)
(* kind, that all received the same calls; ev.obs[kind] is what that kind  *)
(* showed: out (ok or exception name), val (returned value), attr (the     *)
(* criterion_value attribute after the call).  Numbers are decimal         *)
(* fractions in strings, exact images of the floats.                       *)
(*                                                                         *)
(* Verdicts are total: every event is consumed; each clause that does not  *)
(* hold is reported by name, and validation goes on.                       *)
(***************************************************************************)
EXTENDS Expect, Json, IOUtils

TraceFile == IOEnv.CVI_TRACE
Events    == ndJsonDeserialize(TraceFile)

VARIABLES l,      \* next event
          obj,    \* name -> object state of CVI plus the last observations
          cnt     \* how often each clause was really evaluated
vars == <<l, obj, cnt>>

Range(f) == {f[x] : x \in DOMAIN f}

(***************************************************************************)
(* Numbers of the trace.                                                   *)
(***************************************************************************)
Special == {"nan", "inf", "-inf", "none"}
Finite(v) == v \notin Special
Vec(x)  == TLCEval([i \in 1 .. Len(x) |-> RParse(x[i])])
Rows(X) == TLCEval([i \in 1 .. Len(X) |-> Vec(X[i])])

Close(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)
InRange(kind, k, x) ==
    LET eps == P10(-6) IN
    CASE kind = "cSIL" -> RLe(RAbs(x), RAdd(RInt(1), eps))
      [] kind = "PS"   -> RLe(RAbs(x), RAdd(RInt(k), eps))
      [] OTHER         -> RLe(RNeg(eps), x)

(***************************************************************************)
(* Clauses of a call.  F(c, kind, e, g): clause c failed for kind; e is    *)
(* what was expected, g what was got.                                      *)
(***************************************************************************)
F(c, kind, e, g) == [c |-> c, kind |-> kind, e |-> e, g |-> g]
When(b, f) == IF b THEN {f} ELSE {}
Short(x) == RStr(x)

(* ob: observation of one kind; pre, post: spec states; prev: attr before;  *)
(* ex: expectation in post; exact: kinds whose float arithmetic is exact    *)
CallClauses(kind, ob, post, want, ex, exact, prev) ==
    LET okk == ob.out = "ok" /\ Finite(ob.val)
        got == ob.out \o " " \o ob.val
    IN
    IF want # "ok" THEN
        When(ob.out # want, F("admit", kind, want, ob.out))
        \cup When(ob.attr # prev, F("noeffect", kind, prev, ob.attr))
    ELSE IF ob.out # "ok" THEN
        (* beyond the stated numeric scope numpy may give up on a matrix *)
        {F(IF ex.t = "illcond" THEN "illraised" ELSE "raised", kind, ex.t, ob.out)}
    ELSE
        When(ob.val = "none", F("real", kind, "a real number", ob.vt))
        \cup When(ob.attr # ob.val, F("attr", kind, ob.val, ob.attr))
        \cup (CASE ex.t = "zero" ->
                 When(~okk \/ ~RIsZero(RParse(ob.val)), F("zero", kind, "0", got))
            [] ex.t = "num" /\ ~okk ->
                 {F(c, kind, Short(ex.r), got) : c \in {"value", "gross", "range"}}
            [] ex.t = "num" /\ okk ->
                 LET x == TLCEval(RParse(ob.val)) IN
                 When(~Close(x, ex.r, ex.tol), F("value", kind, Short(ex.r), ob.val))
                 \cup When(~Close(x, ex.r, RAdd(ex.tol, RMul(P10(-6), RAbs(ex.r)))),
                           F("gross", kind, Short(ex.r), ob.val))
                 \cup When(~InRange(kind, Len(post.st.n), x), F("range", kind, "in range", ob.val))
            [] ex.t = "undef" ->
                 When(kind \in Range(exact) /\ okk, F("undef", kind, "not finite", ob.val))
            [] OTHER -> {})

Skip == [t |-> "skip", r |-> RInt(0), tol |-> RInt(0)]

(***************************************************************************)
(* Event handlers: each yields [obj, fails, n] with n the evaluation count *)
(***************************************************************************)
KindsOf(ev) == DOMAIN ev.obs

DoNew(ev) ==
    [obj |-> (ev.o :> [s |-> Fresh, withq |-> ev.withq, at |-> ev.attr, ex |-> [k \in DOMAIN ev.attr |-> Skip],
                        xk |-> {}]) @@ obj,
     fails |-> UNION {When(ev.attr[k] # "0/1", F("attr", k, "0", ev.attr[k])) : k \in DOMAIN ev.attr},
     kinds |-> << >>]

DoCall(ev) ==
    LET o    == obj[ev.o]
        c    == [nd |-> ev.nd, X |-> Rows(ev.X), L |-> ev.L]
        want == Outcome(o.s, c)
        post == TLCEval(Step(o.s, c, o.withq))
        g    == TLCEval(IF ev.chk /\ want = "ok" /\ Len(post.st.n) > 1 THEN Geo(post.st) ELSE << >>)
        ex   == TLCEval([k \in KindsOf(ev) |->
                   IF want # "ok" THEN o.ex[k]
                   ELSE IF ev.chk \/ Len(post.st.n) < 2 THEN TLCEval(Expect(k, post.st, g))
                   ELSE Skip])
    IN  [obj |-> [obj EXCEPT ![ev.o] =
                    [s |-> post, withq |-> o.withq, at |-> [k \in KindsOf(ev) |-> ev.obs[k].attr], ex |-> ex,
                     xk |-> Range(ev.exact)]],
         fails |-> UNION {CallClauses(k, ev.obs[k], post, want, ex[k], ev.exact, o.at[k])
                          : k \in KindsOf(ev)}
                   \cup When(~ev.argok, F("arg", "-", "arguments unchanged", "changed")),
         kinds |-> [k \in KindsOf(ev) |-> ex[k].t]]

(* the caller overwrote arrays it had passed earlier, or time just passed *)
DoPoke(ev) ==
    LET o == obj[ev.o] IN
    [obj |-> obj,
     fails |-> UNION {When(ev.attr[k] # o.at[k], F("poke", k, o.at[k], ev.attr[k])) : k \in DOMAIN ev.attr},
     kinds |-> << >>]

DoCopy(ev) ==
    [obj |-> (ev.o :> [obj[ev.from] EXCEPT !.at = ev.attr]) @@ obj,
     fails |-> UNION {When(ev.attr[k] # obj[ev.from].at[k], F("copy", k, obj[ev.from].at[k], ev.attr[k])) : k \in DOMAIN ev.attr},
     kinds |-> << >>]

(* two families whose abstract states the specification identifies *)
(* the expectation for a kind: the one computed at its last call, if it was *)
ExOf(o, k) ==
    IF o.ex[k].t # "skip" THEN o.ex[k]
    ELSE TLCEval(Expect(k, o.s.st, IF Len(o.s.st.n) > 1 THEN TLCEval(Geo(o.s.st)) ELSE << >>))
DoCmp(ev) ==
    LET a  == obj[ev.a]
        b  == obj[ev.b]
        f  == RParse(ev.f)
        ok == TLCEval(CASE ev.rel = "ident" -> a.s = b.s
                        [] ev.rel = "same"  -> SameUpToNames(a.s, b.s)
                        [] ev.rel = "rep"   -> Repeated(a.s, b.s, f)
                        [] OTHER            -> Congruent(a.s, b.s, f))
        ks == {k \in DOMAIN a.at \cap DOMAIN b.at : ~(ev.rel \in {"scale", "rep", "pad"} /\ k = "rCIP")}
        same(k) ==
          LET x == a.at[k]
              y == b.at[k]
          IN  IF ev.rel = "ident" /\ x = y THEN {} ELSE
              LET e == ExOf(a, k)
                  h == ExOf(b, k)
              IN
              IF e.t # h.t THEN {}                 \* one of them ill-conditioned
              ELSE IF e.t = "zero" THEN When(x # y, F(ev.rel, k, x, y))
              ELSE IF e.t = "num" THEN
                     IF ~Finite(x) \/ ~Finite(y) THEN When(x # y, F(ev.rel, k, x, y))
                     ELSE When(~Close(Mapped(ev.rel, k, a.s, RParse(x), f), RParse(y),
                                      RAdd(Mapped(ev.rel, k, a.s, e.tol, f), h.tol)),
                               F(ev.rel, k, x, y))
              ELSE IF e.t = "undef" /\ ev.rel = "ident" /\ k \in a.xk \cap b.xk
                   THEN When(Finite(x) # Finite(y), F(ev.rel, k, x, y))
              ELSE {}
    IN  [obj |-> obj,
         fails |-> IF ok THEN UNION {same(k) : k \in ks}
                   ELSE {F("GENERR", "-", "specification identifies the states", ev.a \o " " \o ev.b)},
         kinds |-> [k \in ks |-> ev.rel]]

(* the session is over: forget its objects *)
DoEnd(ev) == [obj |-> << >>, fails |-> {}, kinds |-> << >>]

Handle(ev) ==
    CASE ev.op = "new"  -> DoNew(ev)
      [] ev.op = "call" -> DoCall(ev)
      [] ev.op = "poke" -> DoPoke(ev)
      [] ev.op = "copy" -> DoCopy(ev)
      [] ev.op = "cmp"  -> DoCmp(ev)
      [] ev.op = "end"  -> DoEnd(ev)

Bump(c, ks) ==
    LET keys == Range(ks) IN
    [x \in DOMAIN c \cup keys |->
        (IF x \in DOMAIN c THEN c[x] ELSE 0) + Cardinality({k \in DOMAIN ks : ks[k] = x})]

TraceInit == l = 1 /\ obj = << >> /\ cnt = << >>
TraceNext ==
    /\ l <= Len(Events)
    /\ LET ev == Events[l]
           r  == TLCEval(Handle(ev))
       IN  /\ obj' = r.obj
           /\ cnt' = Bump(cnt, r.kinds)
           /\ \A f \in r.fails : PrintT(<<"FAIL", l, ev.sid, ev.o, f.c, f.kind, f.e, f.g>>)
           /\ l = Len(Events) => PrintT(<<"COUNT", cnt'>>)
    /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == l
(* every line was consumed *)
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Events)
=============================================================================
