-------------------------------- MODULE KSys --------------------------------
(* All events. *)
EXTENDS KOps

DoSess(S, ev) ==
    CASE ev.c = "close" -> Close(S, ev) [] ev.c = "sinfo" -> SInfo(S, ev)
      [] ev.c = "login" -> IF ev.user = "ctx" THEN CtxLogin(S, ev) ELSE Login(S, ev)
      [] ev.c = "logout" -> Logout(S, ev) [] ev.c = "initpin" -> InitPin(S, ev) [] ev.c = "setpin" -> SetPin(S, ev)
      [] ev.c = "create" -> Create(S, ev) [] ev.c = "copy" -> Copy(S, ev) [] ev.c = "set" -> SetAttrs(S, ev)
      [] ev.c = "destroy" -> Destroy(S, ev) [] ev.c = "size" -> Size(S, ev) [] ev.c = "read" -> ReadAll(S, ev)
      [] ev.c = "get" -> GetAttrs(S, ev) [] ev.c = "search" -> Search(S, ev) [] ev.c = "snap" -> Snap(S, ev)
      [] ev.c = "findinit" -> FindInit(S, ev) [] ev.c = "find" -> Find(S, ev) [] ev.c = "findfinal" -> FindFinal(S, ev)
      [] ev.c = "opinit" -> OpInit(S, ev)
      [] ev.c = "upd" /\ ev.k \in {"digenc", "decdig", "signenc", "decver"} -> Dual(S, ev)
      [] ev.c = "upd" /\ ev.k = "digkey" -> DigKey(S, ev)
      [] ev.c = "fin" /\ ev.k \in {"menc", "mdec"} -> IF ev.k \in DOMAIN Ops(S, ev) THEN Call(ev, {}, FALSE, {"C14"}, EndOp(S, ev, ev.k), {}, S) ELSE NoOp(S, ev, ev.k)
      [] ev.c \in {"op", "upd", "fin"} -> Step(S, ev)
      [] ev.c = "msg" -> Msg(S, ev) [] ev.c = "scancel" -> SCancel(S, ev)
      [] ev.c = "genkey" -> GenKey(S, ev) [] ev.c = "genpair" -> GenPair(S, ev)
      [] ev.c = "wrap" -> Wrap(S, ev) [] ev.c = "unwrap" -> Unwrap(S, ev) [] ev.c = "derive" -> Derive(S, ev)
      [] ev.c = "random" -> Random(S, ev)
      [] ev.c = "save" -> Call(ev, {}, TRUE, {}, S, {}, S)
      [] ev.c = "restore" -> Call(ev, {R({"C14"}, "no saved state was produced")}, TRUE, {}, S, {}, S)

DoLib(S, ev) ==
    CASE ev.c = "open" -> Open(S, ev) [] ev.c = "closeall" -> CloseAll(S, ev) [] ev.c = "inittoken" -> InitToken(S, ev)
      [] ev.c = "tinfo" -> TInfo(S, ev) [] ev.c = "slots" -> DoSlots(S, ev) [] ev.c = "mechs" -> Mechs(S, ev) [] ev.c = "minfo" -> MInfo(S, ev)

(* stored protected values that were altered behind the library's back: using them may fail,
   but whatever is got from them is what was stored by the library                         *)
Taint(S, ev) ==
    PutSlot(S, ev.slot, [S.slots[ev.slot] EXCEPT !.objs = [n \in DOMAIN @ |-> IF n \in SeqSet(ev.n) THEN Put(@[n], "bad", TRUE) ELSE @[n]],
                                                 !.haz = @ \cup {"C23"}])
Tainted(S, ev) ==
    HasSess(S, ev) /\ \E f \in {"o", "src", "ko", "wk"} \cap DOMAIN ev : Tgt(S, ev, ev[f]) # "" /\ G(Obj(S, ev, ev[f]), "bad", FALSE)
(* a login on an altered PIN record: only the true PIN of that user may be accepted *)
Forged(S, ev) ==
    LET sl == S.slots[ev.slot] IN
    {Out(S, If(ev.rv = "OK" /\ ev.pin # (IF ev.user = "so" THEN sl.so ELSE sl.user), {I({"C23", "C04"}, "wrong PIN accepted by an altered record")}))}

(* objects of which a signed attribute was altered, read by their user: they may be unreadable *)
ForgedObj(S, ev) ==
    LET sl == S.slots[ev.slot]
        got == {n \in SeqSet(ev.n) \cap DOMAIN sl.objs : G(sl.objs[n].a, "CKA_LABEL", n) \in DOMAIN ev.objs}
        seen(n) == ev.objs[G(sl.objs[n].a, "CKA_LABEL", n)] IN
    {Out(S, UNION {IF "rv" \in DOMAIN seen(n) THEN {} ELSE Observe(sl.objs[n].a, seen(n), {"C32"}).i : n \in got})}

Do0(S, ev) ==
    CASE ev.c = "reset" -> {Out([Init0 EXCEPT !.fresh = S.fresh], {})}
      [] ev.c = "kat" -> {Out([S EXCEPT !.memo = Put(@, ev.key, ev.val)], {})}
      [] ev.c = "note" -> {Out(S, {})}
      [] ev.c = "tag" -> {Out([S EXCEPT !.slots = [x \in DOMAIN @ |-> [@[x] EXCEPT !.haz = @ \cup SeqSet(ev.tags)]]], {})}
      [] ev.c = "forget" -> {Out([S EXCEPT !.oh = Emp], {})}
      [] ev.c = "init" -> LibInit(S, ev)
      [] ev.c = "fini" -> Finalize(S, ev)
      [] ev.c = "restart" -> {Out(Gone(S, "C19"), {})}
      [] ev.c = "scan" -> {Out(S, {I({"C23"}, "found in clear in the database: " \o x) : x \in SeqSet(ev.found)})}
      [] ev.c = "tamper" -> {Out(Taint(S, ev), {})}
      [] ev.c = "forged" -> Forged(S, ev)
      [] ev.c = "forgedobj" -> ForgedObj(S, ev)
      [] ev.c = "issue" -> {Out(S, {I(SeqSet(ev.tags), ev.why)})}
      [] OTHER ->
          IF ev.c = "probe" THEN {Out(S, If(~S.up, {I({"C33"}, "works although the library is not initialised: " \o f) : f \in SeqSet(ev.okfns) \ {"C_GetInfo"}}))}
          ELSE IF ~S.up THEN Call(ev, {R({"C33"}, "library not initialised")}, FALSE, {}, S, {}, S)
          ELSE IF ev.c \in NoSess THEN
               IF ev.c # "slots" /\ ev.slot \notin DOMAIN S.slots THEN Call(ev, {R({"C01", "C28"}, "no such slot")}, FALSE, {}, S, {}, S)
               ELSE DoLib(S, ev)
          ELSE IF ~HasSess(S, ev) THEN Call(ev, {R({"C01"}, "session handle not valid")}, FALSE, {}, S, {}, S)
          ELSE DoSess(S, ev)

(* Calls on one slot must not touch the others.  hot: the slots on which all is not yet
   seen to be as it was, after a call on another slot that changed that one.           *)
SlotOf(S, ev) == IF HasSess(S, ev) THEN SlotId(S, ev) ELSE G(ev, "slot", "")
Heats == {"closeall", "close", "login", "logout", "inittoken", "initpin", "setpin", "destroy"}
Heat(S, ev, o) ==
    LET id == SlotOf(S, ev)
        i == IF id \in S.hot THEN {I(x.t \cup {"C28"}, x.r) : x \in o.i} ELSE o.i
        hot == IF ev.c = "snap" /\ ev.rv = "OK" THEN S.hot \ {id}
               ELSE IF ev.c \in Heats /\ ev.rv = "OK" THEN S.hot \cup (DOMAIN S.slots \ {id})
               ELSE S.hot
    IN  Out([o.s EXCEPT !.hot = hot], i)
(* what the format of NSS databases has no place for: it may be refused, but not be dropped *)
Unheld(S, ev) ==
    \/ ev.c \in {"create", "copy", "set", "genkey", "genpair", "unwrap", "derive"} /\
       \E f \in {"t", "t2"} \cap DOMAIN ev : "CKA_ALLOWED_MECHANISMS" \in DOMAIN ev[f] \/ G(ev[f], "CKA_CLASS", "") \in {"CKO_DATA", "CKO_OTP_KEY"}
    \/ ev.c = "copy" /\ HasSess(S, ev) /\ Tgt(S, ev, ev.src) # "" /\ ("CKA_ALLOWED_MECHANISMS" \in DOMAIN Obj(S, ev, ev.src).a \/ Class(Obj(S, ev, ev.src).a) \in {"CKO_DATA", "CKO_OTP_KEY"})
(* the list of allowed mechanisms of a stored key is dropped: a known limitation of the backend *)
Unlisted(ev, id, o) ==
    LET ns == {n \in {G(ev, "o", ""), G(ev, "o2", "")} \cap DOMAIN o.s.slots[id].objs :
                 LET ob == o.s.slots[id].objs[n] IN ob.sess = "" /\ "CKA_ALLOWED_MECHANISMS" \in DOMAIN ob.a}
        lost == {x \in o.i : Len(x.r) >= 30 /\ SubSeq(x.r, 1, 30) = "CKA_ALLOWED_MECHANISMS missing"} IN
    IF ev.rv # "OK" \/ lost = {} THEN o
    ELSE Out(PutSlot(o.s, id, [o.s.slots[id] EXCEPT !.objs = [n \in DOMAIN @ |-> IF n \in ns THEN [@[n] EXCEPT !.a = Without(@, {"CKA_ALLOWED_MECHANISMS"})] ELSE @[n]]]),
             (o.i \ lost) \cup {I({"C12"}, "NSS database: the list of allowed mechanisms of a stored key is dropped")})
Do(S, ev) ==
    LET on == SlotOf(S, ev)
        out00 == Do0(S, IF on \in DOMAIN S.slots /\ S.slots[on].nss /\ Unheld(S, ev) THEN Put(ev, "may", TRUE) ELSE ev)
        (* tokens in an NSS database *)
        out0 == IF on \in DOMAIN S.slots /\ S.slots[on].nss
                THEN {LET x == Unlisted(ev, on, o) IN Out(x.s, {I(y.t \cup {"C32"}, y.r) : y \in x.i}) : o \in out00} ELSE out00
        outs == IF Tainted(S, ev) THEN {Out(o.s, {I(x.t \cup {"C23"}, x.r) : x \in o.i}) : o \in out0} ELSE out0 IN
    IF Cardinality(DOMAIN S.slots) < 2 \/ ev.c \in {"reset", "init", "fini", "tamper", "forged", "forgedobj", "restart", "par", "crash", "fault"} THEN outs
    ELSE {Heat(S, ev, o) : o \in outs}

(* the issue-free outcomes *)
Legal(S, ev) == {o.s : o \in {x \in Do(S, ev) : x.i = {}}}
=============================================================================
