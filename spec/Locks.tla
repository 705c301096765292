------------------------------- MODULE Locks -------------------------------
(* The locks of the library and the ways its calls take them.

   Each program is what one call was seen to do between two points at which it held
   no lock: a sequence of acquisitions (for reading "r" or writing "w") and releases
   ("u") of locks, each with the locks held before it.  Threads run any of the
   programs; TLC explores every choice of programs and every interleaving.

   A lock is shared by readers or held by one writer.  A writer that waits keeps new
   readers out, as the standard library's locks may; so a thread that reads a lock
   twice can wait for itself.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

File == JsonDeserialize(IOEnv.PROGS)
Progs == File.progs                  \* sequence of programs
Threads == 1 .. File.threads
VARIABLES prog, pc, waits
vars == <<prog, pc, waits>>

Op(t) == Progs[prog[t]][pc[t]]
Done(t) == pc[t] > Len(Progs[prog[t]])
Holds(t) == IF Done(t) THEN {} ELSE {Op(t).h[i] : i \in DOMAIN Op(t).h}
Writer(l) == "w" \o l
Reader(l) == "r" \o l
Free(t, l, m) ==
    /\ \A u \in Threads : Writer(l) \notin Holds(u)
    /\ m = "w" => \A u \in Threads : Reader(l) \notin Holds(u)
    /\ m = "r" => \A u \in Threads \ {t} : ~(waits[u] /\ Op(u).l = l)

Step(t) ==
    /\ ~Done(t)
    /\ prog' = prog
    /\ LET o == Op(t) IN
       IF o.a = "u" \/ Free(t, o.l, o.a)
       THEN pc' = [pc EXCEPT ![t] = @ + 1] /\ waits' = [waits EXCEPT ![t] = FALSE]
       ELSE o.a = "w" /\ ~waits[t] /\ waits' = [waits EXCEPT ![t] = TRUE] /\ pc' = pc

Init == /\ prog \in {f \in [Threads -> DOMAIN Progs] : \A t \in Threads : t + 1 \in Threads => f[t] <= f[t + 1]}
        /\ pc = [t \in Threads |-> 1] /\ waits = [t \in Threads |-> FALSE]
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Stuck == (\E t \in Threads : ~Done(t)) /\ ~(\E t \in Threads : ~Done(t) /\ (Op(t).a = "u" \/ Free(t, Op(t).l, Op(t).a) \/ (Op(t).a = "w" /\ ~waits[t])))
(* every call returns *)
NoDeadlock == Stuck => PrintT("DEADLOCK " \o ToJson([t \in Threads |-> [p |-> prog[t], at |-> pc[t]]])) /\ FALSE
(* no two threads are inside the same lock unless all of them read *)
Exclusive == \A t, u \in Threads : t # u => \A h \in Holds(t) : ~(SubSeq(h, 1, 1) = "w" /\ {h, Reader(SubSeq(h, 2, Len(h)))} \cap Holds(u) # {})
=============================================================================
