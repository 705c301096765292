------------------------------- MODULE KCore -------------------------------
(* The token as a state machine.

   Do(S, ev) maps a state and an event - a call together with everything the
   caller can observe of it - to the set of possible outcomes
        [s |-> next state, i |-> set of issues].
   An outcome without issues is a legal step of the system.  An issue names the
   properties that the observation breaks in that state.  The same operator is
   the transition relation of the closed models (MC_*.tla), where the
   environment offers calls and only issue-free outcomes are taken, and of the
   trace specification (Trace.tla), where the observations come from the code. *)
EXTENDS KMech

Out(s, i) == [s |-> s, i |-> i]
R(t, r) == [t |-> t, r |-> r]
AsIssues(rs, pre) == {I(x.t, pre \o x.r) : x \in rs}

(* The common shape of a call: `rs` are the reasons for which it has to be refused.
   may: the specification leaves it open whether the call is accepted.            *)
Call(ev, rs, may, untags, Sok, okis, Sbad) ==
    IF ev.rv = "OK" THEN {Out(Sok, okis \cup AsIssues(rs, "accepted although: "))}
    ELSE IF rs = {} /\ ~may /\ ~G(ev, "may", FALSE)
         THEN {Out(Sbad, {I(untags, "refused without cause: " \o ev.rv)})}
         ELSE {Out(Sbad, {})}

(* ------------------------------------------------------------------ state -- *)
NewSlot == [init |-> FALSE, so |-> "", user |-> "", soT |-> 10, userT |-> 10, login |-> "none", label |-> "",
            serial |-> "", objs |-> Emp, hn |-> Emp, haz |-> {}, nss |-> FALSE]
Init0 == [up |-> FALSE, slots |-> Emp, sess |-> Emp, oh |-> Emp, usedS |-> {}, memo |-> Emp, matval |-> Emp,
          fresh |-> Emp, uids |-> Emp, cfg |-> Emp, hot |-> {}]
Cfg0 == [dedup |-> "none", kind |-> "sqlite", denied |-> {}, allowed |-> {}]

HasSess(S, ev) == G(ev, "s", "") \in DOMAIN S.sess
SlotId(S, ev) == S.sess[ev.s].slot
Sl(S, ev) == S.slots[SlotId(S, ev)]
PutSlot(S, id, sl) == [S EXCEPT !.slots = Put(@, id, sl)]
Rw(S, ev) == S.sess[ev.s].rw

SessOf(S, id) == {x \in DOMAIN S.sess : S.sess[x].slot = id}
StateName(rw, login) ==
    IF login = "so" THEN "RW_SO"
    ELSE (IF rw THEN "RW_" ELSE "RO_") \o (IF login = "user" THEN "USER" ELSE "PUBLIC")

(* -------------------------------------------------------------- object life -- *)
KeepObjs(sl, P(_)) == [sl EXCEPT !.objs = [n \in {x \in DOMAIN sl.objs : P(sl.objs[x])} |-> sl.objs[n]]]
LogoutSlot(sl) ==
    [KeepObjs(sl, LAMBDA ob : ob.sess = "" \/ ~IsPriv(ob.a)) EXCEPT !.login = "none"]
Loosen(ops) == [k \in DOMAIN ops |-> IF k = "search" THEN ops[k] ELSE [ops[k] EXCEPT !.loose = TRUE]]
LoosenSess(S, id) == [S EXCEPT !.sess = [x \in DOMAIN @ |-> IF @[x].slot = id THEN [@[x] EXCEPT !.ops = Loosen(@)] ELSE @[x]]]
DoLogout(S, id) == LoosenSess(PutSlot(S, id, LogoutSlot(S.slots[id])), id)
DropSess(S, xs, id) ==
    LET sl1 == KeepObjs(S.slots[id], LAMBDA ob : ob.sess = "" \/ ob.sess \notin xs)
        left == {x \in DOMAIN S.sess \ xs : S.sess[x].slot = id}
        sl2 == IF left = {} THEN LogoutSlot(sl1) ELSE sl1
    IN  [PutSlot(S, id, sl2) EXCEPT !.sess = Without(@, xs)]
(* what is left when the library or the process goes away *)
Persist(sl) == [KeepObjs(sl, LAMBDA ob : ob.sess = "") EXCEPT !.login = "none", !.hn = Emp,
                   !.objs = [n \in DOMAIN @ |-> [@[n] EXCEPT !.h = ""]]]
Gone(S, tag) ==
    [S EXCEPT !.up = FALSE, !.sess = Emp, !.oh = Emp, !.usedS = {},
              !.slots = [id \in DOMAIN @ |-> [Persist(@[id]) EXCEPT !.haz = @ \cup {tag}]]]
Haz(S, id, tag) == PutSlot(S, id, [S.slots[id] EXCEPT !.haz = @ \cup {tag}])

(* the object a name denotes for a session, "" if none *)
TgtH(S, id, h) ==
    LET sl == S.slots[id]
        n == G(sl.hn, h, "")
    IN IF n \in DOMAIN sl.objs THEN n ELSE ""
Tgt(S, ev, name) == IF name \in DOMAIN S.oh THEN TgtH(S, SlotId(S, ev), S.oh[name]) ELSE ""
Hidden(sl, ob) == ob.sess = "" /\ IsPriv(ob.a) /\ sl.login = "none"
(* visibility the specification leaves open *)
Vague(sl, ob) == \/ ob.sess = "" /\ IsPriv(ob.a) /\ sl.login = "so"
                 \/ ob.sess # "" /\ IsPriv(ob.a) /\ sl.login # "user"
(* an encrypted token object can be unreadable while its key is locked away *)
Locked(sl, ob) == ob.sess = "" /\ ((sl.login # "user" /\ Class(ob.a) \in SecClasses) \/ G(ob, "bad", FALSE))
(* reasons to refuse the use of an object, given as a name *)
ObjReasons(S, ev, name) ==
    LET n == Tgt(S, ev, name) IN
    IF n = "" THEN {R({"C07"}, name \o " is not a valid handle")}
    ELSE IF Hidden(Sl(S, ev), Sl(S, ev).objs[n]) THEN {R({"C05"}, name \o " is private and nobody is logged in")}
    ELSE {}
(* a handle that was never issued in this slot for an object made by a caller (it belongs to
   another slot): it may happen to be that of a profile or mechanism object of the token *)
Stranger(S, ev, name) == name \in DOMAIN S.oh /\ S.oh[name] \notin DOMAIN Sl(S, ev).hn
OwnClass == {"CKO_PROFILE", "CKO_MECHANISM", "?"}
Obj(S, ev, name) == Sl(S, ev).objs[Tgt(S, ev, name)]
VagueObj(S, ev, name) == Tgt(S, ev, name) # "" /\ Vague(Sl(S, ev), Obj(S, ev, name))

(* ------------------------------------------------------------ new objects -- *)
(* enter object n with attributes a (already reconciled with what was observed) *)
AddObj(S, id, name, h, a, owner, mat) ==
    LET sl == S.slots[id]
        ob == [a |-> a, h |-> h, sess |-> owner, mat |-> mat]
    IN  [PutSlot(S, id, [sl EXCEPT !.objs = Put(@, name, ob), !.hn = IF h = "" THEN @ ELSE Put(@, h, name)])
            EXCEPT !.oh = IF h = "" THEN @ ELSE Put(@, name, h)]
(* a handle handed out: never one that was seen before *)
NewHandleIssues(S, id, h) ==
    If(h # "" /\ h \in DOMAIN S.slots[id].hn, {I({"C07"}, "handle " \o h \o " was already given to " \o S.slots[id].hn[h])})
NewUid(S, a, name) ==
    LET u == G(a, "CKA_UNIQUE_ID", "") IN
    [s |-> IF u = "" THEN S ELSE [S EXCEPT !.uids = Put(@, u, name)],
     i |-> If(u # "" /\ u \in DOMAIN S.uids /\ S.uids[u] # name, {I({"C11"}, "unique id of " \o S.uids[u] \o " given to " \o name)})]
(* the values of key material seen in clear: one material has one value *)
MatVal(S, a, mat, tags) ==
    LET v == IF "CKA_VALUE" \in Secrets(a) /\ "CKA_VALUE" \in DOMAIN a /\ a.CKA_VALUE # "!SENSITIVE" THEN a.CKA_VALUE ELSE "" IN
    IF mat = "" \/ v = "" THEN [s |-> S, i |-> {}]
    ELSE IF mat \in DOMAIN S.matval
         THEN [s |-> S, i |-> If(S.matval[mat] # v, {I(tags, "key value " \o v \o " should be " \o S.matval[mat])})]
         ELSE [s |-> [S EXCEPT !.matval = Put(@, mat, v)],
               i |-> If(BLen(v) >= 8 /\ SubSeq(mat, 1, 2) = "g:",
                        {I({"C34"}, "two generated keys have the value " \o v) :
                              m \in {x \in DOMAIN S.matval : S.matval[x] = v /\ SubSeq(x, 1, 2) = "g:"}})]

(* A new object: expected attributes a, observed attributes ev[ka], handle ev[kh]. *)
Born(S, ev, id, name, kh, ka, a, mat, tags) ==
    LET h == G(ev, kh, "")
        ob == IF ka \in DOMAIN ev THEN Observe(a, ev[ka], tags) ELSE [a |-> a, i |-> {}]
        owner == IF IsTok(a) THEN "" ELSE ev.s
        m0 == MatVal(S, ob.a, mat, tags \cup {"C18"})
        (* the secret is known to us even if it cannot be read *)
        a1 == IF mat \in DOMAIN m0.s.matval /\ "CKA_VALUE" \in Secrets(ob.a)
              THEN Put(ob.a, "CKA_VALUE", m0.s.matval[mat]) ELSE ob.a
        u == NewUid(m0.s, a1, name)
    IN  [s |-> AddObj(u.s, id, name, h, a1, owner, mat),
         i |-> ob.i \cup m0.i \cup u.i \cup NewHandleIssues(S, id, h)]

TokGate(S, ev, tok) ==
    IF ~tok THEN {}
    ELSE If(~Rw(S, ev), {R({"C06"}, "token object in a read-only session")})
         \cup If(Sl(S, ev).login = "none", {R({"C06"}, "token object while nobody is logged in")})

(* ---- C_CreateObject ---------------------------------------------------------- *)
AesLens == {16, 24, 32}
(* attribute values a template must not have on creation *)
ValueReasons(c, kt, t) ==
    If(kt = "CKK_AES" /\ "CKA_VALUE" \in DOMAIN t /\ BLen(t.CKA_VALUE) \notin AesLens, {R({"C26"}, "AES key of wrong length")})
    \cup If(\E n \in DOMAIN t : t[n] = "!bad", {R({"C26"}, "malformed attribute value")})
TemplateReasons(c, kt, t, td, tags) ==
    If(td = "differ", {R(tags, "attribute given twice with different values")})
    \cup {R(tags, "unknown attribute " \o n) : n \in DOMAIN t \ Names(c, kt)}
    \cup {R({"C11", "C10"}, "token assigned attribute " \o n) : n \in DOMAIN t \cap Assigned(c)}
    \cup If(G(t, "CKA_TRUSTED", "F") = "T", {R({"C11"}, "TRUSTED given")})
    \cup ValueReasons(c, kt, t)

MatOfNew(t) == IF Class(t) \in SecClasses /\ "CKA_VALUE" \in DOMAIN t THEN "v:" \o t.CKA_VALUE
               ELSE IF Class(t) \in KeyClasses /\ "CKA_MODULUS" \in DOMAIN t THEN "rsa:" \o t.CKA_MODULUS
               ELSE IF Class(t) = "CKO_PUBLIC_KEY" /\ "CKA_EC_POINT" \in DOMAIN t THEN "ec:" \o t.CKA_EC_POINT
               ELSE ""
(* what a trust object says of a certificate needs to be tied to it *)
TrustNames == {"CKA_TRUST_SERVER_AUTH", "CKA_TRUST_CLIENT_AUTH", "CKA_TRUST_CODE_SIGNING", "CKA_TRUST_EMAIL_PROTECTION"}
Trusting(t) == \E n \in TrustNames : G(t, n, "0") \notin {"0", "3"}
TrustReasons(t) ==
    If(Trusting(t) /\ (G(t, "CKA_HASH_OF_CERTIFICATE", "x") = "x" \/ "CKA_NAME_HASH_ALGORITHM" \notin DOMAIN t),
       {R({"C26"}, "trust in a certificate without its hash")})
CreatedAttrs(t) ==
    LET c == Class(t)
        a == Over(t, Defaults(c))
    IN  IF c = "CKO_SECRET_KEY" /\ "CKA_VALUE" \in DOMAIN t THEN Put(a, "CKA_VALUE_LEN", ToString(BLen(t.CKA_VALUE)))
        ELSE IF c = "CKO_TRUST" /\ ~Trusting(t) THEN Over(a, [CKA_NAME_HASH_ALGORITHM |-> "544"]) ELSE a

(* which existing token object does a new one duplicate under the configured policy? *)
Covered(pol, c) ==
    CASE pol = "none" -> {}
      [] pol = "TrustOnly" -> {"CKO_TRUST"}
      [] pol = "TrustAndCertificates" -> {"CKO_TRUST", "CKO_CERTIFICATE"}
      [] OTHER -> {"CKO_TRUST", "CKO_CERTIFICATE", "CKO_PUBLIC_KEY", "CKO_PRIVATE_KEY", "CKO_SECRET_KEY"}
DupKey(a) ==
    IF Class(a) \in {"CKO_TRUST", "CKO_CERTIFICATE"}
    THEN IF G(a, "CKA_ISSUER", "x") # "x" /\ G(a, "CKA_SERIAL_NUMBER", "x") # "x"
         THEN Class(a) \o "|" \o a.CKA_ISSUER \o "|" \o a.CKA_SERIAL_NUMBER ELSE ""
    ELSE IF Class(a) \in {"CKO_PUBLIC_KEY", "CKO_PRIVATE_KEY", "CKO_SECRET_KEY"} /\ "CKA_ID" \in DOMAIN a
         THEN Class(a) \o "|" \o KType(a) \o "|" \o a.CKA_ID ELSE ""
DupsOf(sl, t, a) ==
    LET k == DupKey(t) IN
    IF k = "" THEN {} ELSE {n \in DOMAIN sl.objs : sl.objs[n].sess = "" /\ DupKey(sl.objs[n].a) = k /\ ~Hidden(sl, sl.objs[n])}

NssClasses == {"CKO_PRIVATE_KEY", "CKO_SECRET_KEY", "CKO_PUBLIC_KEY", "CKO_CERTIFICATE", "CKO_TRUST"}
NssSecrets == {"CKA_VALUE", "CKA_PRIVATE_EXPONENT", "CKA_PRIME_1", "CKA_PRIME_2", "CKA_EXPONENT_1", "CKA_EXPONENT_2", "CKA_COEFFICIENT", "CKA_SEED"}
Create(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
        t == ev.t
        c == G(t, "CKA_CLASS", "?")
        kt == KType(t)
        tok == IsTok(t)
        a == CreatedAttrs(t)
        dups == IF tok THEN DupsOf(sl, t, a) ELSE {}
        pol == S.cfg[id].dedup
        merge == dups # {} /\ c \in Covered(pol, c)
        missing == Required(c, kt) \ DOMAIN t
        rs == (IF Names(c, kt) = {} THEN {R({"C26"}, "unknown class " \o c)}
               ELSE TemplateReasons(c, kt, t, G(ev, "td", "no"), {"C26"})
                    \cup {R({"C26"}, "missing " \o n) : n \in missing})
              \cup TokGate(S, ev, tok)
              \cup If(c = "CKO_TRUST", TrustReasons(t))
              \cup If(pol = "none" /\ c = "CKO_TRUST" /\ dups # {}, {R({"C29"}, "duplicate trust object")})
        may == \/ sl.login = "so"
               \/ "CKA_VALUE_LEN" \in DOMAIN t
               \/ G(ev, "td", "no") # "no"
               \/ "CKA_URL" \in DOMAIN t
               \/ c = "CKO_OTP_KEY" /\ BLen(G(t, "CKA_OTP_COUNTER", "x0000000000000000")) # 8
               \/ Cardinality(dups) > 1
               \/ dups # {} /\ S.cfg[id].kind = "nssdb"
               \/ sl.nss /\ tok /\ c \notin NssClasses
               \/ merge /\ (\E n \in dups : G(sl.objs[n].a, "CKA_MODIFIABLE", "T") # "T")
    IN  IF merge /\ ev.rv = "OK" /\ rs = {}
        THEN LET n == CHOOSE x \in dups : TRUE
                 old == sl.objs[n]
                 h == G(ev, "h", "")
                 (* everything the new object says, also by default; an empty date is written as 0000-00-00 *)
                 seen == G(ev, "attrs", Emp)
                 full == Over([x \in {y \in {"CKA_START_DATE", "CKA_END_DATE"} : G(a, y, "?") = "x" /\ G(seen, y, "x") = "x3030303030303030"} |-> seen[x]], a)
                 ob == Observe([Over(full, old.a) EXCEPT !.CKA_UNIQUE_ID = old.a.CKA_UNIQUE_ID], seen, {"C29"})
                 S1 == PutSlot(S, id, [sl EXCEPT !.objs[n] = [@ EXCEPT !.a = ob.a, !.h = h, !.mat = IF MatOfNew(t) = "" THEN @ ELSE MatOfNew(t)],
                                                 !.hn = Put(@, h, n)])
             IN {Out([S1 EXCEPT !.oh = Put(@, ev.o, h)],
                     ob.i \cup If(old.h # "" /\ old.h # h, {I({"C29"}, "duplicate got a new handle")})
                          \cup If(old.h = "" /\ h \in DOMAIN sl.hn, {I({"C07", "C29"}, "handle reused")}))}
        ELSE LET b == Born(S, ev, id, ev.o, "h", "attrs", a, MatOfNew(t), {"C26"})
             IN Call(ev, rs, may, {"C26"} \cup If(pol # "none", {"C29"}), b.s, b.i, S)

(* ---- C_CopyObject ------------------------------------------------------------- *)
CopiedAttrs(a, t) ==
    LET n == Over(t, Without(a, {"CKA_UNIQUE_ID"}))
        n1 == IF "CKA_ALWAYS_SENSITIVE" \in DOMAIN a
              THEN Put(n, "CKA_ALWAYS_SENSITIVE", B(Sens(n) = "T" /\ a.CKA_ALWAYS_SENSITIVE = "T")) ELSE n
    IN  IF "CKA_NEVER_EXTRACTABLE" \in DOMAIN a
        THEN Put(n1, "CKA_NEVER_EXTRACTABLE", B(Extr(n1) = "F" /\ a.CKA_NEVER_EXTRACTABLE = "T")) ELSE n1
Copy(S, ev) ==
    LET id == SlotId(S, ev)
        src == Tgt(S, ev, ev.src)
        hidden == ObjReasons(S, ev, ev.src)
    IN  IF src = "" THEN Call(ev, hidden, FALSE, {"C26"}, S, {}, S)
        ELSE LET a == Obj(S, ev, ev.src).a
                 a2 == CopiedAttrs(a, ev.t)
                 rs == hidden
                       \cup If(G(a, "CKA_COPYABLE", "T") = "F", {R({"C10"}, "source is not copyable")})
                       \cup UNION {{R(x[1], n \o ": " \o x[2]) : x \in ChangeReasons(a, n, ev.t[n], TRUE)} : n \in DOMAIN ev.t}
                       \cup If(G(ev, "td", "no") = "differ", {R({"C26"}, "attribute given twice")})
                       \cup If(\E n \in DOMAIN ev.t : ev.t[n] = "!bad", {R({"C26"}, "malformed attribute value")})
                       \cup TokGate(S, ev, IsTok(a2))
                 may == \/ Sl(S, ev).login = "so" \/ VagueObj(S, ev, ev.src) \/ G(ev, "td", "no") # "no"
                        \/ Locked(Sl(S, ev), Obj(S, ev, ev.src))
                        \/ \E n \in DOMAIN ev.t : MayDecline(a, n, ev.t[n], TRUE)
                        \/ IsPriv(a) /\ ~IsPriv(a2)
                        \/ DupsOf(Sl(S, ev), a2, a2) # {}
                 b == Born(S, ev, id, ev.o, "h", "attrs", a2, Obj(S, ev, ev.src).mat, {"C26"})
             IN Call(ev, rs, may, {"C26"}, b.s, b.i, S)

(* ---- C_SetAttributeValue -------------------------------------------------------- *)
SetAttrs(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
        n0 == Tgt(S, ev, ev.o)
        hidden == ObjReasons(S, ev, ev.o)
    IN  IF n0 = "" THEN Call(ev, hidden, FALSE, {"C26"}, S, {}, S)
        ELSE LET o == sl.objs[n0]
                 a == o.a
                 rs == hidden
                       \cup If(G(a, "CKA_MODIFIABLE", "T") = "F", {R({"C10"}, "object is not modifiable")})
                       \cup UNION {{R(x[1], n \o ": " \o x[2]) : x \in ChangeReasons(a, n, ev.t[n], FALSE)} : n \in DOMAIN ev.t}
                       \cup If(o.sess = "" /\ ~Rw(S, ev), {R({"C06"}, "token object in a read-only session")})
                       \cup If(o.sess = "" /\ sl.login = "none", {R({"C06"}, "token object while nobody is logged in")})
                       \cup If(\E n \in DOMAIN ev.t : ev.t[n] = "!bad", {R({"C26"}, "malformed attribute value")})
                 may == \/ sl.login = "so" \/ VagueObj(S, ev, ev.o) \/ G(ev, "td", "no") # "no" \/ Locked(sl, o) \/ DOMAIN ev.t = {}
                        \/ \E n \in DOMAIN ev.t : MayDecline(a, n, ev.t[n], FALSE)
                 na == IF ev.rv = "OK" THEN Over(ev.t, a) ELSE a
                 seen == "attrs" \in DOMAIN ev /\ "rv" \notin DOMAIN ev.attrs /\ hidden = {} /\ ~VagueObj(S, ev, ev.o)
                 ob == IF seen THEN Observe(na, ev.attrs, {"C26", "C27"}) ELSE [a |-> na, i |-> {}]
                 S1 == PutSlot(S, id, [sl EXCEPT !.objs[n0] = [@ EXCEPT !.a = ob.a]])
             IN {Out(x.s, x.i \cup ob.i) : x \in Call(ev, rs, may, {"C26"}, S1, {}, S1)}

(* ---- C_DestroyObject -------------------------------------------------------------- *)
RmObj(S, id, n) == PutSlot(S, id, [S.slots[id] EXCEPT !.objs = Without(@, {n})])
Destroy(S, ev) ==
    LET n0 == Tgt(S, ev, ev.o)
        hidden == ObjReasons(S, ev, ev.o)
    IN  IF n0 = "" THEN Call(ev, hidden, FALSE, {"C26"}, S, {}, S)
        ELSE LET o == Sl(S, ev).objs[n0]
                 rs == hidden
                       \cup If(G(o.a, "CKA_DESTROYABLE", "T") = "F", {R({"C10"}, "object is not destroyable")})
                       \cup If(o.sess = "" /\ ~Rw(S, ev), {R({"C06"}, "token object in a read-only session")})
                 may == VagueObj(S, ev, ev.o) \/ Sl(S, ev).login = "so" \/ Locked(Sl(S, ev), o)
             IN Call(ev, rs, may, {"C26", "C07"}, RmObj(S, SlotId(S, ev), n0), {}, S)


(* ---- C_GetObjectSize, C_GetAttributeValue -------------------------------------------- *)
Size(S, ev) == IF Stranger(S, ev, ev.o) THEN {Out(S, {})} ELSE Call(ev, ObjReasons(S, ev, ev.o), Tgt(S, ev, ev.o) # "" /\ (VagueObj(S, ev, ev.o) \/ Locked(Sl(S, ev), Obj(S, ev, ev.o))), {"C27"}, S, {}, S)

ReadAll(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
        n0 == Tgt(S, ev, ev.o)
    IN  IF Stranger(S, ev, ev.o) THEN
             {Out(S, If(ev.rv = "OK" /\ G(ev.attrs, "CKA_CLASS", "?") \notin OwnClass, {I({"C07", "C28"}, "object of another slot read")}))}
        ELSE IF n0 = "" \/ ev.rv # "OK" THEN
             Call(ev, ObjReasons(S, ev, ev.o), n0 # "" /\ (VagueObj(S, ev, ev.o) \/ Locked(sl, sl.objs[n0])), {"C27"}, S, {}, S)
        ELSE LET o == sl.objs[n0]
                 ob == Observe(o.a, ev.attrs, {"C27", "C26"} \cup sl.haz)
                 m == MatVal(S, ob.a, o.mat, {"C17", "C18", "C27"})
                 S1 == PutSlot(m.s, id, [sl EXCEPT !.objs[n0] = [@ EXCEPT !.a = ob.a]])
             IN  Call(ev, ObjReasons(S, ev, ev.o), FALSE, {}, S1, ob.i \cup m.i, S)

(* one position of an attribute request *)
AttrLen(n, v) == IF n = "CKA_LABEL" \/ n = "CKA_APPLICATION" THEN Len(v)
                 ELSE IF v \in {"T", "F"} THEN 1
                 ELSE IF SubSeq(v, 1, 1) = "x" THEN BLen(v) ELSE 8
PosIssues(o, x) ==
    LET n == x.a
        a == o.a
        sens == n \in Secrets(a) /\ Protected(a)
        has == n \in DOMAIN a /\ n # "CKA_ALLOWED_MECHANISMS"
    IN  (IF sens THEN
            If(x.len # -1, {I({"C09", "C27"}, "length of sensitive " \o n)})
            \cup If("v" \in DOMAIN x, {I({"C09"}, "value of sensitive " \o n \o " returned")})
            \cup If(x.touched, {I({"C09"}, "buffer for sensitive " \o n \o " was written to")})
         ELSE IF n \notin Names(Class(a), KType(a)) THEN
            If(x.len # -1, {I({"C27"}, "length for " \o n \o " which the object cannot have")})
         ELSE IF ~has THEN {}
         ELSE IF x.null THEN
            If(x.len # AttrLen(n, a[n]), {I({"C27"}, "length of " \o n \o " is " \o ToString(x.len))})
         ELSE IF x.cap >= AttrLen(n, a[n]) THEN
            If(G(x, "v", "?") # a[n], {I({"C27"} \cup AttrTag(a, n), "value of " \o n \o " is " \o G(x, "v", "missing") \o " not " \o a[n])})
         ELSE If(x.len # -1, {I({"C27"}, "too small buffer for " \o n \o " but length " \o ToString(x.len))}))
        \cup If(x.canary # "ok", {I({"C15", "C27"}, "write beyond the buffer for " \o n)})
PosOk(o, x) ==
    LET n == x.a IN
    /\ n \in DOMAIN o.a /\ n \in Names(Class(o.a), KType(o.a))
    /\ ~(n \in Secrets(o.a) /\ Protected(o.a))
    /\ x.null \/ x.cap >= AttrLen(n, o.a[n])
(* may be absent or present as far as we know *)
PosVague(o, x) == x.a = "CKA_ALLOWED_MECHANISMS"
                  \/ (x.a \notin DOMAIN o.a /\ x.a \in Names(Class(o.a), KType(o.a)))
GetRvs(o, out) ==
    LET bad == {k \in DOMAIN out : ~PosOk(o, out[k])}
    IN  IF bad = {} THEN {"OK"}
        ELSE UNION {LET x == out[k] n == x.a IN
               IF n \in Secrets(o.a) /\ Protected(o.a) THEN {"ATTRIBUTE_SENSITIVE"}
               ELSE IF n \notin Names(Class(o.a), KType(o.a)) \/ n \notin DOMAIN o.a THEN {"ATTRIBUTE_TYPE_INVALID"}
               ELSE {"BUFFER_TOO_SMALL"} : k \in bad}
             \cup If(\A k \in bad : PosVague(o, out[k]), {"OK"})
GetAttrs(S, ev) ==
    LET sl == Sl(S, ev)
        n0 == Tgt(S, ev, ev.o)
    IN  IF Stranger(S, ev, ev.o) THEN
             {Out(S, {I({"C07", "C28"}, "object of another slot read") :
                        k \in {j \in DOMAIN G(ev, "out", <<>>) : "v" \in DOMAIN ev.out[j] /\ ev.out[j].touched /\
                               (\/ ev.out[j].a = "CKA_CLASS" /\ ev.out[j].v \notin OwnClass
                                \/ ev.out[j].a \in {"CKA_VALUE", "CKA_MODULUS", "CKA_KEY_TYPE", "CKA_APPLICATION", "CKA_EC_POINT"})}})}
        ELSE IF n0 = "" \/ Hidden(sl, sl.objs[n0]) THEN
             {Out(S, If(ev.rv \in {"OK", "ATTRIBUTE_SENSITIVE", "ATTRIBUTE_TYPE_INVALID", "BUFFER_TOO_SMALL"},
                        AsIssues(ObjReasons(S, ev, ev.o), "accepted although: ")))}
        ELSE LET o == sl.objs[n0]
                 vague == Vague(sl, o) \/ Locked(sl, o)
                 known == ev.rv \in {"OK", "ATTRIBUTE_SENSITIVE", "ATTRIBUTE_TYPE_INVALID", "BUFFER_TOO_SMALL"}
             IN  IF known /\ "out" \in DOMAIN ev
                 THEN {Out(S, UNION {PosIssues(o, ev.out[k]) : k \in DOMAIN ev.out}
                              \cup If(ev.rv \notin GetRvs(o, ev.out) /\ ~(\E k \in DOMAIN ev.out : PosVague(o, ev.out[k])),
                                      {I({"C27"}, "attribute read returned " \o ev.rv)}))}
                 ELSE {Out(S, If(~vague /\ "out" \in DOMAIN ev, {I({"C27"}, "attribute read refused: " \o ev.rv)}))}

(* ---- searching ------------------------------------------------------------------------- *)
(* "yes": must be found, "no": must not be found, "may" *)
MatchAttr(sl, o, n, v) ==
    LET a == o.a IN
    IF n \in Secrets(a) THEN IF Protected(a) THEN "no"
                             ELSE IF n \notin DOMAIN a THEN "may"
                             ELSE IF o.sess = "" THEN (IF a[n] = v THEN "may" ELSE "no")
                             ELSE IF a[n] = v THEN "yes" ELSE "no"
    ELSE IF n \in {"CKA_START_DATE", "CKA_END_DATE"} /\ (v = "x" \/ G(a, n, "x") = "x") THEN "may"
    ELSE IF n \in DOMAIN a THEN (IF a[n] = v THEN "yes" ELSE "no")
    ELSE IF n \in Learnable(a) THEN "may" ELSE "no"
Match(sl, o, t) ==
    LET rs == {MatchAttr(sl, o, n, t[n]) : n \in DOMAIN t} IN
    IF Hidden(sl, o) \/ "no" \in rs THEN "no"
    ELSE IF "may" \in rs \/ Vague(sl, o) THEN "may" ELSE "yes"
SecretMatch(o, t) == \E n \in DOMAIN t : n \in Secrets(o.a) /\ Protected(o.a)
Must(sl, t) == {n \in DOMAIN sl.objs : Match(sl, sl.objs[n], t) = "yes"}
May(sl, t) == {n \in DOMAIN sl.objs : Match(sl, sl.objs[n], t) # "no"}
Labels(sl, ns) == {G(sl.objs[n].a, "CKA_LABEL", n) : n \in ns}
ByLabel(sl, l) == {n \in DOMAIN sl.objs : G(sl.objs[n].a, "CKA_LABEL", n) = l}
WrongTags(sl, l, t) ==
    LET ns == ByLabel(sl, l) IN
    IF ns = {} THEN {"C07", "C08"} \cup sl.haz
    ELSE LET o == sl.objs[CHOOSE n \in ns : TRUE] IN
         IF Hidden(sl, o) THEN {"C05"} ELSE IF SecretMatch(o, t) THEN {"C08", "C09"} ELSE {"C08"}
(* handles seen for labels: the same as before, never those of other objects *)
SeeHandles(S, id, oh) ==
    LET sl == S.slots[id]
        uniq == {l \in DOMAIN oh : Cardinality(ByLabel(sl, l)) = 1}
        nm(l) == CHOOSE n \in ByLabel(sl, l) : TRUE
        new == {l \in uniq : sl.objs[nm(l)].h = ""}
        old == uniq \ new
        upd == [n \in {nm(l) : l \in new} |-> oh[CHOOSE l \in new : nm(l) = n]]
        rev == [h \in {oh[l] : l \in new} |-> nm(CHOOSE l \in new : oh[l] = h)]
        sl1 == [sl EXCEPT !.objs = [n \in DOMAIN @ |-> IF n \in DOMAIN upd THEN [@[n] EXCEPT !.h = upd[n]] ELSE @[n]],
                          !.hn = Over(rev, @)]
        is == {I({"C07"}, l \o " got a second handle") : l \in {x \in old : sl.objs[nm(x)].h # oh[x]}}
              \cup {I({"C07"}, "handle of " \o sl.hn[oh[l]] \o " now denotes " \o l) :
                       l \in {x \in new : oh[x] \in DOMAIN sl.hn /\ sl.hn[oh[x]] # nm(x)}}
              \cup If(Cardinality({oh[l] : l \in uniq}) # Cardinality(uniq), {I({"C07"}, "two objects share a handle")})
    IN  [s |-> PutSlot(S, id, sl1), i |-> is]
Searching(S, ev) == "search" \in DOMAIN S.sess[ev.s].ops
Search(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
    IN  IF Searching(S, ev) THEN Call(ev, {R({"C14"}, "a search is active")}, FALSE, {}, S, {}, S)
        ELSE IF ev.rv # "OK" THEN Call(ev, {}, (\E n \in DOMAIN ev.t : ev.t[n] = "!bad") \/ (sl.nss /\ NssSecrets \cap DOMAIN ev.t # {}), {"C08"}, S, {}, S)
        ELSE LET got == SeqSet(ev.names)
                 must == Labels(sl, Must(sl, ev.t))
                 may == Labels(sl, May(sl, ev.t))
                 h == SeeHandles(S, id, ev.oh)
             IN {Out(h.s, h.i
                    \cup {I({"C08"} \cup sl.haz \cup If(sl.login = "user" /\ Cardinality(ByLabel(sl, l)) = 1
                              /\ IsPriv(sl.objs[CHOOSE n \in ByLabel(sl, l) : TRUE].a), {"C05"}), "search missed " \o l) : l \in must \ got}
                    \cup {I(WrongTags(sl, l, ev.t), "search returned " \o l) : l \in got \ may}
                    \cup If(Len(ev.names) # Cardinality(got), {I({"C08"}, "object returned twice")}))}

(* a complete look at a slot through one session: which objects there are, all attributes *)
Snap(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
    IN  IF Searching(S, ev) THEN Call(ev, {R({"C14"}, "a search is active")}, FALSE, {}, S, {}, S)
        ELSE IF ev.rv # "OK" THEN Call(ev, {}, FALSE, {"C08"} \cup sl.haz, S, {}, S)
        ELSE LET tags == {"C26"} \cup sl.haz
                 got == DOMAIN ev.objs
                 must == Labels(sl, {n \in Must(sl, Emp) : ~Locked(sl, sl.objs[n])})
                 may == Labels(sl, May(sl, Emp))
                 nolabel == {n \in DOMAIN sl.objs : Locked(sl, sl.objs[n])} # {}
                 h == SeeHandles(S, id, ev.oh)
                 s1 == h.s.slots[id]
                 seen == {n \in DOMAIN sl.objs : \E l \in got : ByLabel(sl, l) = {n}}
                 lab(n) == G(sl.objs[n].a, "CKA_LABEL", n)
                 ob == [n \in seen |-> IF "rv" \in DOMAIN ev.objs[lab(n)]
                                       THEN [a |-> sl.objs[n].a, i |-> If(~Locked(sl, sl.objs[n]) /\ ~Vague(sl, sl.objs[n]),
                                               {I(tags \cup {"C27"}, "attributes of " \o lab(n) \o " cannot be read: " \o ev.objs[lab(n)].rv)})]
                                       ELSE LET x == Observe(sl.objs[n].a, ev.objs[lab(n)], tags)
                                            IN  [a |-> x.a, i |-> {I(y.t, lab(n) \o ": " \o y.r) : y \in x.i}]]
                 lost == {n \in DOMAIN sl.objs : n \notin seen /\ lab(n) \in must}
                 s2 == [s1 EXCEPT !.objs = [n \in DOMAIN @ \ lost |-> IF n \in seen THEN [@[n] EXCEPT !.a = ob[n].a] ELSE @[n]],
                                  !.haz = {}]
                 S2 == PutSlot(h.s, id, s2)
                 S3 == IF G(ev, "bind", FALSE) THEN [S2 EXCEPT !.oh = Over(ev.oh, @)] ELSE S2
             IN {Out(S3, h.i \cup UNION {ob[n].i : n \in seen}
                    \cup {I(tags \cup {"C07"}, lab(n) \o " is gone") : n \in lost}
                    \cup {I(IF ByLabel(sl, l) = {} THEN tags \cup {"C07"} ELSE WrongTags(sl, l, Emp), "there is an object " \o l) : l \in got \ may}
                    \cup {I(tags \cup {"C08"}, "object returned twice: " \o d) :
                            d \in {x \in SeqSet(ev.dups) : Cardinality(ByLabel(sl, x)) <= 1 /\ ~(nolabel /\ SubSeq(x, 1, 10) = "unlabelled")}})}

FindInit(S, ev) ==
    LET sl == Sl(S, ev)
        act == "search" \in DOMAIN S.sess[ev.s].ops
        op == [must |-> {sl.objs[n].h : n \in Must(sl, ev.t)}, may |-> {sl.objs[n].h : n \in May(sl, ev.t)}, got |-> {}, more |-> TRUE]
    IN  Call(ev, If(act, {R({"C14"}, "search already active")}), sl.nss /\ NssSecrets \cap DOMAIN ev.t # {}, {"C08", "C14"},
             [S EXCEPT !.sess[ev.s].ops = Put(@, "search", op)], {}, S)
(* the search results stay those of the time of FindInit, except that objects may vanish *)
Find(S, ev) ==
    LET act == "search" \in DOMAIN S.sess[ev.s].ops IN
    IF ~act THEN Call(ev, {R({"C14"}, "no search active")}, FALSE, {}, S, {}, S)
    ELSE LET op == S.sess[ev.s].ops["search"]
             got == SeqSet(G(ev, "hs", <<>>))
             id == SlotId(S, ev)
             alive == {h \in op.must : TgtH(S, id, h) # ""}
             full == Len(G(ev, "hs", <<>>)) < ev.n
             builtin == {h \in got : h \notin DOMAIN S.slots[id].hn}
             known == got \ builtin
             op2 == [op EXCEPT !.got = @ \cup known, !.more = ~full]
         IN Call(ev, {}, FALSE, {"C08", "C14"}, [S EXCEPT !.sess[ev.s].ops = Put(@, "search", op2)],
                 {I({"C08"}, "search returned handle " \o h \o " twice") : h \in known \cap op.got}
                 \cup If(Len(G(ev, "hs", <<>>)) # Cardinality(got), {I({"C08"}, "handle twice in one piece")})
                 \cup {I({"C08"}, "search returned " \o S.slots[id].hn[h]) : h \in known \ op.may}
                 \cup If(Len(G(ev, "hs", <<>>)) > ev.n, {I({"C08", "C15"}, "more results than room")})
                 \cup If(full /\ op.more, {I({"C08"}, "search missed " \o S.slots[id].hn[h]) : h \in {x \in alive \ {""} : x \notin op2.got}}), S)
FindFinal(S, ev) ==
    LET act == "search" \in DOMAIN S.sess[ev.s].ops IN
    Call(ev, If(~act, {R({"C14"}, "no search active")}), FALSE, {"C08", "C14"},
         [S EXCEPT !.sess[ev.s].ops = Without(@, {"search"})], {}, S)

(* ------------------------------------------------------ sessions and logins -- *)
Open(S, ev) ==
    LET id == ev.slot
        sl == S.slots[id]
        rs == If(id \notin DOMAIN S.slots, {R({"C01", "C28"}, "no such slot")})
              \cup If(G(ev, "noserial", FALSE), {R({"C01"}, "serial flag missing")})
              \cup If(id \in DOMAIN S.slots /\ ~ev.rw /\ S.slots[id].login = "so", {R({"C01"}, "read-only session while the SO is logged in")})
        h == G(ev, "h", "")
    IN  Call(ev, rs, FALSE, {"C01"},
             [S EXCEPT !.sess = Put(@, ev.s, [slot |-> id, rw |-> ev.rw, ops |-> Emp]), !.usedS = IF h = "" THEN @ ELSE @ \cup {h}],
             If(h # "" /\ h \in S.usedS, {I({"C01"}, "session handle issued twice")}) \cup If(h = "0", {I({"C01"}, "session handle 0")}), S)
Close(S, ev) == Call(ev, {}, FALSE, {"C01"}, DropSess(S, {ev.s}, SlotId(S, ev)), {}, S)
CloseAll(S, ev) == Call(ev, If(ev.slot \notin DOMAIN S.slots, {R({"C01"}, "no such slot")}), FALSE, {"C01"},
                        DropSess(S, SessOf(S, ev.slot), ev.slot), {}, S)
SInfo(S, ev) ==
    LET x == S.sess[ev.s]
        want == StateName(x.rw, Sl(S, ev).login) IN
    Call(ev, {}, FALSE, {"C01"}, S,
         If(G(ev, "state", want) # want, {I({"C01", "C02"}, "session state " \o ev.state \o " should be " \o want)})
         \cup If(G(ev, "slotid", x.slot) # x.slot, {I({"C01", "C28"}, "session reports another slot")})
         \cup If(G(ev, "rwf", x.rw) # x.rw, {I({"C01"}, "read/write flag wrong")}), S)
PinFlags(init, tries, p) ==
    IF ~init THEN {}
    ELSE CASE tries = 0 -> {p \o "LOCKED"} [] tries = 1 -> {p \o "FINAL_TRY"} [] tries \in {2, 3} -> {p \o "COUNT_LOW"} [] OTHER -> {}
TInfo(S, ev) ==
    LET sl == S.slots[ev.slot]
        fl == SeqSet(ev.flags)
        strict(pre) == {f \in fl : f \in {pre \o "LOCKED", pre \o "FINAL_TRY", pre \o "COUNT_LOW"}}
        n == SessOf(S, ev.slot)
    IN  IF ev.rv # "OK" THEN {Out(S, {I({"C22"}, "token info refused")})}
        ELSE {Out([S EXCEPT !.slots[ev.slot].serial = ev.serial],
                If(("TOKEN_INITIALIZED" \in fl) # sl.init, {I({"C22"} \cup sl.haz, "TOKEN_INITIALIZED wrong")})
                \cup If(("USER_PIN_INITIALIZED" \in fl) # (sl.user # ""), {I({"C22", "C04"} \cup sl.haz, "USER_PIN_INITIALIZED wrong")})
                \cup If(sl.init /\ strict("USER_PIN_") # PinFlags(sl.user # "", sl.userT, "USER_PIN_"),
                        {I({"C03"} \cup (sl.haz \ {"C26"}), "user PIN flags are " \o ToString(strict("USER_PIN_")) \o " with " \o ToString(sl.userT) \o " tries left")})
                \cup If(sl.init /\ strict("SO_PIN_") # PinFlags(TRUE, sl.soT, "SO_PIN_"),
                        {I({"C03"} \cup (sl.haz \ {"C26"}), "SO PIN flags are " \o ToString(strict("SO_PIN_")) \o " with " \o ToString(sl.soT) \o " tries left")})
                \cup If(sl.init /\ ~sl.nss /\ ev.label # sl.label, {I({"C22"} \cup sl.haz, "label is " \o ev.label)})
                \cup If(sl.init /\ sl.serial # "" /\ sl.serial # ev.serial, {I({"C22", "C26"} \cup sl.haz, "serial number changed")}))}

(* presenting a PIN: [ok, sl]; the attempt counters are those of the model *)
(* A token in an NSS database has no SO PIN: the SO can be anyone while there is no user PIN
   and nobody afterwards.  Attempts are not counted.                                       *)
TryPin(sl, who, pin) ==
    LET cur == IF who = "so" THEN sl.so ELSE sl.user
        left == IF who = "so" THEN sl.soT ELSE sl.userT
        setT(n) == IF who = "so" THEN [sl EXCEPT !.soT = n] ELSE [sl EXCEPT !.userT = n]
    IN  IF sl.nss THEN [ok |-> IF who = "so" THEN sl.user = "" ELSE pin = cur, why |-> "wrong PIN", sl |-> sl]
        ELSE IF left = 0 THEN [ok |-> FALSE, why |-> "locked", sl |-> sl]
        ELSE IF pin = cur THEN [ok |-> TRUE, why |-> "", sl |-> setT(10)]
        ELSE [ok |-> FALSE, why |-> "wrong PIN", sl |-> setT(left - 1)]
PinRv(x) == IF x.why = "locked" THEN {"PIN_LOCKED"} ELSE {"PIN_INCORRECT", "PIN_LOCKED"}

Login(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
        who == ev.user
        ro == {x \in SessOf(S, id) : ~S.sess[x].rw}
        pre == IF who \notin {"so", "user"} THEN {R({"C02"}, "no such user")}
               ELSE If(sl.login # "none", {R({"C02"}, "somebody is logged in already")})
                    \cup If(who = "so" /\ ro # {}, {R({"C01", "C02"}, "read-only sessions are open")})
                    \cup If(who = "user" /\ sl.user = "", {R({"C02", "C04"}, "the user has no PIN")})
        try == TryPin(sl, who, ev.pin)
    IN  IF pre # {} THEN Call(ev, pre, FALSE, {}, PutSlot(S, id, [sl EXCEPT !.login = IF who \in {"so", "user"} THEN who ELSE @]), {}, S)
        ELSE IF try.ok THEN Call(ev, {}, FALSE, {"C02", "C03", "C04"} \cup (sl.haz \ {"C26"}), PutSlot(S, id, [try.sl EXCEPT !.login = who]), {}, PutSlot(S, id, try.sl))
        ELSE {Out(IF ev.rv = "OK" THEN PutSlot(S, id, [try.sl EXCEPT !.login = who]) ELSE PutSlot(S, id, try.sl),
                  IF ev.rv = "OK" THEN {I({"C02"} \cup (IF try.why = "locked" THEN {"C03"} ELSE {"C04"}) \cup (sl.haz \ {"C26"}), "login accepted: " \o try.why)}
                  ELSE If(try.why = "locked" /\ ev.rv # "PIN_LOCKED" /\ ev.rv # "ERR", {I({"C03"}, "locked PIN reported as " \o ev.rv)})
                       \cup If(try.why # "locked" /\ ev.rv \notin {"PIN_INCORRECT", "PIN_LOCKED", "ERR"} /\ ~(sl.nss /\ who = "so"), {I({"C02", "C03"}, "wrong PIN reported as " \o ev.rv)})
                       \cup If(ev.rv = "PIN_LOCKED" /\ (IF who = "so" THEN try.sl.soT ELSE try.sl.userT) > 0, {I({"C03"} \cup (sl.haz \ {"C26"}), "PIN locked too early")}))}
(* context specific login: authorises the operations of this session that wait for it *)
CtxLogin(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
        ops == S.sess[ev.s].ops
        waiting == {k \in DOMAIN ops : k # "search" /\ ops[k].req}
        loose == {k \in DOMAIN ops : k # "search" /\ ops[k].loose}
        rs == If(waiting = {}, {R({"C13", "C14"}, "no operation waits for a context login")})
              \cup If(sl.login = "none", {R({"C13", "C02"}, "nobody is logged in")})
        try == TryPin(sl, sl.login, ev.pin)
        ok(s) == [PutSlot(s, id, try.sl) EXCEPT !.sess[ev.s].ops = [k \in DOMAIN @ |-> IF k \in waiting THEN [@[k] EXCEPT !.req = FALSE] ELSE @[k]]]
    IN  IF rs # {} THEN Call(ev, rs, FALSE, {}, S, {}, S)
        ELSE IF try.ok THEN Call(ev, {}, loose # {}, {"C13"}, ok(S), {}, S)
        ELSE IF ev.rv = "OK" THEN {Out(ok(S), {I({"C13"} \cup If(try.why = "locked", {"C03"}), "context login accepted: " \o try.why)})}
        ELSE LET S1 == PutSlot(S, id, try.sl) IN
             {Out(S1, {})} \cup (IF ev.rv = "PIN_LOCKED" \/ try.sl.userT = 0 THEN {Out(DoLogout(S1, id), {})} ELSE {})
Logout(S, ev) ==
    LET id == SlotId(S, ev) IN
    Call(ev, If(Sl(S, ev).login = "none", {R({"C02"}, "nobody is logged in")}), FALSE, {"C02"}, DoLogout(S, id), {}, S)

InitPin(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
        rs == If(sl.login # "so", {R({"C04"}, "the SO is not logged in")})
    IN  Call(ev, rs, ev.pin = "", {"C04"}, PutSlot(S, id, [sl EXCEPT !.user = ev.pin, !.userT = 10, !.haz = @ \cup {"C04"}]), {}, S)
SetPin(S, ev) ==
    LET id == SlotId(S, ev)
        sl == Sl(S, ev)
        who == IF sl.login = "so" THEN "so" ELSE "user"
        pre == If(~Rw(S, ev), {R({"C04"}, "read-only session")})
               \cup If(ev.old = "" \/ ev.new = "", {R({"C04"}, "empty PIN")})
               \cup If(who = "user" /\ sl.user = "", {R({"C04"}, "the user has no PIN")})
        try == TryPin(sl, who, ev.old)
        upd(x) == LET y == [x EXCEPT !.haz = @ \cup {"C04"}] IN IF who = "so" THEN [y EXCEPT !.so = ev.new] ELSE [y EXCEPT !.user = ev.new]
        (* without a login the call logs in and out again; private session objects end with that *)
        tmp(S1) == IF sl.login = "none" THEN {S1, PutSlot(S1, id, LogoutSlot(S1.slots[id]))} ELSE {S1}
    IN  IF pre # {} THEN Call(ev, pre, FALSE, {}, PutSlot(S, id, upd(sl)), {}, S)
        ELSE IF sl.nss /\ who = "so" THEN Call(ev, {R({"C04"}, "there is no SO PIN")}, FALSE, {}, S, {}, S)
        ELSE IF try.ok THEN UNION {Call(ev, {}, FALSE, {"C04", "C03"}, x, {}, PutSlot(S, id, try.sl)) : x \in tmp(PutSlot(S, id, upd(try.sl)))}
        ELSE {Out(x, IF ev.rv = "OK" THEN {I({"C04"} \cup If(try.why = "locked", {"C03"}), "PIN changed: " \o try.why)}
                     ELSE If(ev.rv = "PIN_LOCKED" /\ (IF who = "so" THEN try.sl.soT ELSE try.sl.userT) > 0, {I({"C03"}, "PIN locked too early")}))
              : x \in tmp(PutSlot(S, id, IF ev.rv = "OK" THEN upd(try.sl) ELSE try.sl))}

InitToken(S, ev) ==
    LET id == ev.slot
        sl == S.slots[id]
        pre == If(SessOf(S, id) # {}, {R({"C22"}, "sessions are open")}) \cup If(ev.pin = "", {R({"C22"}, "empty PIN")})
        try == IF sl.init THEN TryPin(sl, "so", ev.pin) ELSE [ok |-> TRUE, why |-> "", sl |-> sl]
        fresh == [NewSlot EXCEPT !.init = TRUE, !.so = ev.pin, !.label = ev.label, !.haz = {"C22"}, !.hn = sl.hn, !.nss = sl.nss]
        S1 == PutSlot(S, id, fresh)
        ok == S1
    IN  IF pre # {} THEN Call(ev, pre, FALSE, {}, ok, {}, S)
        ELSE IF try.ok THEN Call(ev, {}, FALSE, {"C22"} \cup sl.haz, ok, {}, PutSlot(S, id, try.sl))
        ELSE {Out(IF ev.rv = "OK" THEN ok ELSE PutSlot(S, id, try.sl),
                  If(ev.rv = "OK", {I({"C22", "C03"}, "token re-initialised: " \o try.why)})
                  \cup If(ev.rv = "PIN_LOCKED" /\ try.sl.soT > 0, {I({"C03"}, "SO PIN locked too early")}))}

(* ------------------------------------------------------- library lifecycle -- *)
LibInit(S, ev) ==
    LET good == ~G(ev, "bad", FALSE)
        rs == If(S.up, {R({"C33"}, "already initialised")}) \cup If(~good, {R({"C33"}, "bad configuration")})
        S1 == [S EXCEPT !.up = TRUE,
                        !.slots = [id \in DOMAIN @ \cup SeqSet(ev.slots) |-> IF id \in DOMAIN @ THEN @[id] ELSE [NewSlot EXCEPT !.nss = "cfg" \in DOMAIN ev /\ ev.cfg[id].kind = "nssdb"]],
                        !.cfg = [id \in SeqSet(ev.slots) |->
                                    IF "cfg" \in DOMAIN ev THEN [k \in DOMAIN Cfg0 |-> IF k \in {"denied", "allowed"} THEN SeqSet(ev.cfg[id][k]) ELSE ev.cfg[id][k]]
                                    ELSE IF id \in DOMAIN @ THEN @[id] ELSE Cfg0]]
    IN  Call(ev, rs, FALSE, {"C33"}, S1, {}, S)
Finalize(S, ev) == Call(ev, If(~S.up, {R({"C33"}, "not initialised")}), FALSE, {"C33"}, Gone(S, "C19"), {}, S)

DoSlots(S, ev) ==
    Call(ev, {}, FALSE, {"C33"}, S, If("ids" \in DOMAIN ev /\ SeqSet(ev.ids) # DOMAIN S.slots, {I({"C28", "C33"}, "slot list wrong")}), S)

(* ---------------------------------------------------- what needs no session -- *)
NoSess == {"init", "fini", "open", "closeall", "inittoken", "tinfo", "slots", "mechs", "minfo"}
=============================================================================
