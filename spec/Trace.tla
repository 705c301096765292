------------------------------- MODULE Trace -------------------------------
(* Validates recorded executions against the specification.

   The trace is a list of events (calls with everything observed of them).  cs is
   the set of states the system can be in, given what was observed so far; each
   event takes it to the states reachable by an issue-free outcome.  If there is
   none, the event contradicts the specification: it is reported with the issues of
   the outcomes that contradict it least, and checking goes on from there, so that
   one run reports everything that a history shows.                              *)
EXTENDS KSys, Json, IOUtils

Tr == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, cs, nbad
vars == <<k, cs, nbad>>

Least(outs) ==
    LET w(o) == Cardinality(o.i)
        m == CHOOSE o \in outs : \A p \in outs : w(o) <= w(p)
    IN  {o \in outs : w(o) = w(m)}

(* a call during which storage failed: it may fail, and then changed nothing *)
Tag(S, t) == [S EXCEPT !.slots = [x \in DOMAIN @ |-> [@[x] EXCEPT !.haz = @ \cup {t}]]]
Fault(S, ev) ==
    LET e == Put(ev.inner, "may", TRUE)
        outs == Do(S, e)
    IN  {Out(Tag(o.s, "C21"), {I(x.t \cup {"C21"}, x.r) : x \in o.i}) : o \in outs}
        \cup (IF e.rv # "OK" THEN {Out(Tag(S, "C21"), {})} ELSE {})

(* the process died during a call *)
(* what a one-time password advances *)
RECURSIVE Ahead(_, _)
Ahead(c, n) == IF n = 0 \/ CtrMax(c) THEN {} ELSE {CtrInc(c)} \cup Ahead(CtrInc(c), n - 1)
HotpHalf(S, ev) ==
    IF ev.c \notin {"op", "fin"} \/ ~HasSess(S, ev) \/ G(ev, "k", "") \notin DOMAIN Ops(S, ev) THEN {}
    ELSE LET op == Ops(S, ev)[ev.k] IN
         IF op.m # "CKM_HOTP" \/ CurCtr(S, ev, op.kn) = "x" THEN {}
         ELSE {SetCtr(S, ev, op.kn, c) : c \in Ahead(CurCtr(S, ev, op.kn), IF ev.k = "sign" THEN 1 ELSE 5)}
Outs(S, ev, rv) == IF ev.c \in {"op", "fin"} THEN {} ELSE {o.s : o \in {x \in Do(S, Put(ev, "rv", rv)) : x.i = {}}}
Crash(S, ev) ==
    LET after == Outs(S, ev.inner, "OK") \cup Outs(S, ev.inner, "ERR") \cup HotpHalf(S, ev.inner)
    IN  {Out(Tag(Gone(s, "C20"), "C19"), {}) : s \in {S} \cup after}

(* calls made concurrently: some order consistent with real time explains them *)
Minimal(evs, rem) == {e \in rem : \A f \in rem : f = e \/ ~(evs[f].res < evs[e].inv)}
RECURSIVE Lin(_, _, _)
Lin(evs, front, n) ==
    IF n = 0 THEN {x[1] : x \in front}
    ELSE Lin(evs, UNION {UNION {{<<s, x[2] \ {e}>> : s \in Legal(x[1], evs[e])} : e \in Minimal(evs, x[2])} : x \in front}, n - 1)
RECURSIVE InOrder(_, _, _)
InOrder(S, evs, j) ==
    IF j > Len(evs) THEN Out(S, {})
    ELSE LET o == CHOOSE x \in Least(Do(S, evs[j])) : TRUE
             r == InOrder(o.s, evs, j + 1)
         IN  Out(r.s, o.i \cup r.i)
Par(C, evs) ==
    LET done == Lin(evs, {<<s, DOMAIN evs>> : s \in C}, Len(evs))
    IN  IF done # {} THEN {Out(s, {}) : s \in done}
        ELSE LET r == InOrder(CHOOSE s \in C : TRUE, evs, 1)
             IN  {Out(r.s, {I({"C25"}, "no sequential order of the concurrent calls explains their results")}
                           \cup {I(x.t \cup {"C25"}, x.r) : x \in r.i})}

All(ev) ==
    CASE ev.c = "par" -> Par(cs, ev.evs)
      [] ev.c = "fault" -> UNION {Fault(s, ev) : s \in cs}
      [] ev.c = "crash" -> UNION {Crash(s, ev) : s \in cs}
      (* what is seen after concurrent calls decides whether they had a sequential order *)
      [] "pp" \in DOMAIN ev -> {Out(o.s, {I(x.t \cup {"C25"}, x.r) : x \in o.i}) : o \in UNION {Do(s, ev) : s \in cs}}
      [] OTHER -> UNION {Do(s, ev) : s \in cs}

Init == k = 1 /\ cs = {Init0} /\ nbad = 0
Next ==
    /\ k <= Len(Tr)
    /\ LET ev == Tr[k]
           outs == All(ev)
           good == {o \in outs : o.i = {}}
           best == IF good # {} THEN good ELSE Least(outs)
           bad == IF good # {} THEN {} ELSE (CHOOSE o \in best : TRUE).i
       IN  /\ (bad # {} => PrintT("BAD " \o ToJson([k |-> k, c |-> ev.c, i |-> bad])))
           /\ cs' = (IF good # {} \/ Cardinality(best) <= 8 THEN {o.s : o \in best} ELSE {(CHOOSE o \in best : TRUE).s})
           /\ nbad' = nbad + (IF bad = {} THEN 0 ELSE 1)
           /\ k' = k + 1
           /\ (k = Len(Tr) => PrintT("END " \o ToJson([n |-> k, cand |-> Cardinality(cs')])))
Spec == Init /\ [][Next]_vars
=============================================================================
