-------------------------------- MODULE KOps --------------------------------
(* Cryptographic operations and key management, as uninterpreted functions with
   the laws that matter: results depend only on key, mechanism, parameters and
   input; decryption inverts encryption; what was never produced is not accepted. *)
EXTENDS KCore

Restricted(S, ev) == IF S.cfg[SlotId(S, ev)].denied # {} \/ S.cfg[SlotId(S, ev)].allowed # {} THEN {"C30"} ELSE {}
Den(S, id, m) == IF S.cfg[id].allowed # {} THEN m \notin S.cfg[id].allowed ELSE m \in S.cfg[id].denied
MechReasons(S, ev, use) ==
    If(Den(S, SlotId(S, ev), ev.m), {R({"C30"}, ev.m \o " is excluded on this slot")})
    \cup If(~Supports(ev.m, use), {R({"C30", "C12"}, ev.m \o " does not support " \o use)})
UseReasons(S, ev, use, name) ==
    LET a == Obj(S, ev, name).a
        gone == ObjReasons(S, ev, name)
    IN  IF gone # {} THEN gone
        ELSE If(G(a, UsageAttr(use), "F") # "T" /\ ev.m # "CKM_PUB_KEY_FROM_PRIV_KEY"
                     /\ ~(ev.m \in {"CKM_HKDF_DERIVE", "CKM_HKDF_DATA"} /\ Class(a) = "CKO_DATA"), {R({"C12"} \cup If(use = "wrap", {"C17"}), UsageAttr(use) \o " is false")})
             \cup If(~Allowed(a, ev.m), {R({"C12"} \cup If(use = "wrap", {"C17"}), ev.m \o " is not in the key's list")})
             \cup If(Fits(ev.m, use, a) = "no", {R({"C12"} \cup If(use = "wrap", {"C17"}), "key does not fit " \o ev.m)})
UseVague(S, ev, use, name) ==
    /\ Tgt(S, ev, name) # ""
    /\ \/ VagueObj(S, ev, name) \/ Locked(Sl(S, ev), Obj(S, ev, name))
       \/ Fits(ev.m, use, Obj(S, ev, name).a) = "may"

(* ------------------------------------------------------------ starting -- *)
OpOf(ev, mat, a, req) == [m |-> ev.m, p |-> ev.mp, key |-> mat, kn |-> G(ev, "o", ""), req |-> req, st |-> "new",
                    data |-> "x", out |-> "x", prom |-> <<>>, loose |-> FALSE, sig |-> G(ev, "sig", ""),
                    ctr |-> G(a, "CKA_OTP_COUNTER", "x"), upd |-> FALSE, ivs |-> {}]
Ops(S, ev) == S.sess[ev.s].ops
PutOp(S, ev, k, op) == [S EXCEPT !.sess[ev.s].ops = Put(@, k, op)]
EndOp(S, ev, k) == [S EXCEPT !.sess[ev.s].ops = Without(@, {k})]
(* a public key and its private key have the same material *)
Twin(S, mat) == G(S.memo, "pub|" \o mat, mat)
OpInit(S, ev) ==
    LET k == ev.k
        active == k \in DOMAIN Ops(S, ev)
    IN  IF G(ev, "cancel", FALSE) THEN Call(ev, {}, FALSE, {"C14"}, EndOp(S, ev, k), {}, S)
        ELSE LET rs == If(active, {R({"C14"}, k \o " already active")}) \cup MechReasons(S, ev, k)
                       \cup If(NeedsKey(k), UseReasons(S, ev, k, ev.o))
                 may == \/ NeedsKey(k) /\ UseVague(S, ev, k, ev.o)
                        \/ ev.m = "CKM_AES_CCM" /\ G(ev, "dlen", 1) <= 0
                        \/ k \in {"versig", "menc", "mdec"}
                 kobj == IF NeedsKey(k) /\ Tgt(S, ev, ev.o) # "" THEN Obj(S, ev, ev.o) ELSE [mat |-> "", a |-> Emp]
                 req == NeedsKey(k) /\ k \in {"sign", "dec"} /\ G(kobj.a, "CKA_ALWAYS_AUTHENTICATE", "F") = "T"
             IN  Call(ev, rs, may, {"C16", "C14", "C12"} \cup Restricted(S, ev), PutOp(S, ev, k, OpOf(ev, Twin(S, kobj.mat), kobj.a, req)), {}, S)

(* ------------------------------------------------------------- results -- *)
Key(k, op, data) == k \o "|" \o op.m \o "|" \o op.p \o "|" \o op.key \o "|" \o data
Learn(S, key, v) == IF key \in DOMAIN S.memo THEN S ELSE [S EXCEPT !.memo = Put(@, key, v)]
Differs(S, key, v, tags, what) ==
    If(key \in DOMAIN S.memo /\ S.memo[key] # v, {I(tags, what \o " differs: " \o v \o " not " \o S.memo[key])})

(* AES-CTR, CBC ... are length preserving; what a complete operation yields *)
EncDone(S, op, data, res) ==
    LET ke == Key("enc", op, data)
        kd == Key("dec", op, res)
        det == ~Randomised("enc", op.m)
        S1 == IF det THEN Learn(S, ke, res) ELSE S
    IN  [s |-> Learn(S1, kd, data),
         i |-> (IF det THEN Differs(S, ke, res, {"C16"}, "ciphertext") ELSE
                If(ke \in DOMAIN S.memo /\ BLen(res) >= 16 /\ S.memo[ke] = res, {I({"C34"}, "randomised ciphertext repeats")}))
               \cup If(kd \in DOMAIN S.memo /\ S.memo[kd] # data, {I({"C16"}, "two plaintexts have the same ciphertext")})]
Padded(m) == m \in {"CKM_AES_CBC_PAD", "CKM_RSA_PKCS"}
DecDone(S, op, data, res) ==
    LET kd == Key("dec", op, data) IN
    [s |-> Learn(S, kd, res),
     i |-> Differs(S, kd, res, {"C16"}, "decrypted data")
           \cup If(kd \notin DOMAIN S.memo /\ Authenticated(op.m), {I({"C16"}, "ciphertext accepted that was never produced")})]
SignDone(S, op, data, res) ==
    LET ks == Key("sig", op, data)
        kv == Key("ok", op, data) \o "|" \o res
        det == ~Randomised("sign", op.m)
        S1 == IF det THEN Learn(S, ks, res) ELSE S
    IN  [s |-> Learn(S1, kv, "1"),
         i |-> IF det THEN Differs(S, ks, res, {"C16"}, "signature") ELSE {}]
DigDone(S, op, data, res) ==
    LET k == Key("dig", op, data) IN
    [s |-> Learn(S, k, res), i |-> Differs(S, k, res, {"C16"}, "digest")]
Done(S, k, op, data, res) ==
    CASE k = "enc" -> EncDone(S, op, data, res) [] k = "dec" -> DecDone(S, op, data, res)
      [] k = "sign" -> SignDone(S, op, data, res) [] k = "dig" -> DigDone(S, op, data, res)
(* is a signature right?  "yes", "no" or "?" *)
SigRight(S, op, data, sig) ==
    LET ks == Key("sig", op, data) IN
    IF Key("ok", op, data) \o "|" \o sig \in DOMAIN S.memo THEN "yes"
    ELSE IF ks \in DOMAIN S.memo THEN (IF S.memo[ks] = sig THEN "yes" ELSE "no")
    ELSE IF Mac(op.m) \/ (op.m = "CKM_ECDSA" /\ BLen(data) > 32) THEN "?" ELSE "no"   \* raw ECDSA truncates its input

(* HOTP *)
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexVal(d) == CHOOSE k \in 1 .. 16 : HexDigits[k] = d
RECURSIVE HexInc(_)
HexInc(x) ==
    IF x = "" THEN "" ELSE
    LET n == Len(x) d == HexVal(SubSeq(x, n, n)) IN
    IF d < 16 THEN SubSeq(x, 1, n - 1) \o HexDigits[d + 1] ELSE HexInc(SubSeq(x, 1, n - 1)) \o "0"
CtrInc(c) == "x" \o HexInc(SubSeq(c, 2, Len(c)))
CtrMax(c) == \A k \in 2 .. Len(c) : SubSeq(c, k, k) = "f"
Otp(S, op, c) == G(S.memo, "otp|" \o op.key \o "|" \o c, "?")
RECURSIVE Window(_, _, _, _)
Window(S, op, c, n) == IF n = 0 THEN <<>> ELSE <<c>> \o (IF CtrMax(c) THEN <<>> ELSE Window(S, op, CtrInc(c), n - 1))
SetCtr(S, ev, name, c) ==
    LET n == Tgt(S, ev, name) IN
    IF n = "" THEN S ELSE PutSlot(S, SlotId(S, ev), [Sl(S, ev) EXCEPT !.objs[n].a = Put(@, "CKA_OTP_COUNTER", c)])
CurCtr(S, ev, name) == IF Tgt(S, ev, name) = "" THEN "x" ELSE G(Obj(S, ev, name).a, "CKA_OTP_COUNTER", "x")
HotpSign(S, ev, op) ==
    LET S1 == EndOp(S, ev, "sign")
        c == CurCtr(S, ev, op.kn)
        want == Otp(S, op, c)
        frozen == c = "x" \/ G(Obj(S, ev, op.kn).a, "CKA_MODIFIABLE", "T") = "F" \/ Hidden(Sl(S, ev), Obj(S, ev, op.kn))
                  \/ Sl(S, ev).login = "none"
    IN  IF ev.rv = "OK"
        THEN IF c = "x" THEN {Out(S1, If(op.ctr # "x", {I({"C31", "C07"}, "one-time password from a key that is gone")}))}
             ELSE {Out(SetCtr(S1, ev, op.kn, CtrInc(c)),
                       If(CtrMax(c), {I({"C31"}, "counter exhausted")})
                       \cup If(want # "?" /\ ev.dout # want, {I({"C31"}, "one-time password " \o ev.dout \o " should be " \o want)}))}
        ELSE {Out(S1, If(~frozen /\ ~CtrMax(c) /\ op.ctr = c /\ ~op.loose /\ ~G(ev, "may", FALSE), {I({"C31", "C16"}, "refused: " \o ev.rv)}))}
             \cup {Out(S, {I({"C31", "C16"}, "refused: " \o ev.rv) : x \in If(~frozen /\ ~CtrMax(c) /\ op.ctr = c /\ ~op.loose /\ ~G(ev, "may", FALSE), {1})})}
HotpVerify(S, ev, op) ==
    LET S1 == EndOp(S, ev, "ver")
        c == CurCtr(S, ev, op.kn)
        win == IF c = "x" THEN <<>> ELSE Window(S, op, c, 5)
        hit == {k \in DOMAIN win : Otp(S, op, win[k]) = ev.sig}
        first == CHOOSE k \in hit : \A j \in hit : k <= j
        known == \A k \in DOMAIN win : Otp(S, op, win[k]) # "?"
        frozen == c = "x" \/ G(Obj(S, ev, op.kn).a, "CKA_MODIFIABLE", "T") = "F" \/ Hidden(Sl(S, ev), Obj(S, ev, op.kn))
                  \/ Sl(S, ev).login = "none"
    IN  IF ev.rv = "OK"
        THEN IF hit = {} /\ ~known THEN    \* one of those whose value is not known here
                  {Out(SetCtr(S1, ev, op.kn, CtrInc(win[j])), {}) : j \in {x \in DOMAIN win : Otp(S, op, win[x]) = "?"}}
             ELSE IF hit = {} THEN {Out(S1, If(known, {I({"C31"}, "one-time password outside the window accepted")}))}
             ELSE {Out(SetCtr(S1, ev, op.kn, CtrInc(win[first])), {})}
        ELSE {Out(x, If(hit # {} /\ ~frozen /\ ~CtrMax(win[first]) /\ op.ctr = c /\ ~op.loose, {I({"C31", "C16"}, "password within the window refused: " \o ev.rv)})) : x \in {S1, S}}

(* ------------------------------------------------------- the buffer protocol -- *)
(* prom: <<call, input length, promised output length>> *)
BufIssues(ev, op, actual) ==
    LET cap == ev.cap
        promised == op.prom # <<>> /\ op.prom[1] = ev.c /\ op.prom[2] = BLen(G(ev, "din", "x"))
    IN  If(ev.canary # "ok", {I({"C15"}, "write beyond the buffer")})
        \cup (IF ev.rv = "OK" /\ ~ev.null THEN
                 If(ev.len > cap, {I({"C15"}, "reported length " \o ToString(ev.len) \o " exceeds the buffer")})
                 \cup If(promised /\ ev.len > op.prom[3], {I({"C15"}, "more output than promised")})
              ELSE IF ev.rv = "BUFFER_TOO_SMALL" THEN
                 If(ev.null, {I({"C15"}, "length query answered with too small")})
                 \cup If(~ev.null /\ ev.len <= cap, {I({"C15"}, "too small, but needed length " \o ToString(ev.len) \o " is not above " \o ToString(cap))})
                 \cup If(promised /\ cap >= op.prom[3], {I({"C15"}, "promised length does not suffice")})
              ELSE {})
Promise(ev, op) == IF ev.rv \in {"OK", "BUFFER_TOO_SMALL"} THEN [op EXCEPT !.prom = <<ev.c, BLen(G(ev, "din", "x")), ev.len>>] ELSE op

(* ------------------------------------------------------------- steps -- *)
HasOut(c, k) == k \in {"enc", "dec"} \/ (k \in {"sign", "dig"} /\ c # "upd")
IsVer(k) == k \in {"ver", "versig"}
NoOp(S, ev, k) == Call(ev, {R({"C14"}, "no " \o k \o " operation")}, FALSE, {}, S, {}, S)

(* which failures are expected: wrong input, bad signature etc. *)
ShouldWork(S, k, op, data) ==
    CASE k = "dig" -> TRUE
      [] k = "enc" -> op.m \in {"CKM_AES_GCM", "CKM_AES_CTR", "CKM_AES_CBC_PAD", "CKM_AES_OFB", "CKM_AES_CFB8", "CKM_AES_CFB128"}
                      \/ (op.m \in {"CKM_AES_ECB", "CKM_AES_CBC"} /\ BLen(data) % 16 = 0)
      [] k = "dec" -> Key("dec", op, data) \in DOMAIN S.memo
      [] k = "sign" -> Mac(op.m) \/ op.m \in RSASigDet \ {"CKM_RSA_PKCS", "CKM_RSA_X_509"} \/ op.m \in (RSAPss \ {"CKM_RSA_PKCS_PSS"})
                       \/ (op.m \in ECDSAs \ {"CKM_ECDSA"}) \/ (op.m = "CKM_ECDSA" /\ BLen(data) = 32) \/ (op.m = "CKM_RSA_PKCS" /\ BLen(data) <= 100)
      [] OTHER -> FALSE
NoMultipart == {"CKM_RSA_PKCS", "CKM_RSA_X_509", "CKM_RSA_PKCS_OAEP", "CKM_RSA_PKCS_PSS", "CKM_ECDSA", "CKM_HOTP"}

Step(S, ev) ==
    LET k == ev.k c == ev.c
        ops == Ops(S, ev)
    IN  IF k \notin DOMAIN ops THEN NoOp(S, ev, k)
        ELSE LET op == ops[k]
                 din == G(ev, "din", "x")
                 data == IF c = "fin" THEN op.data ELSE BCat(op.data, din)
                 rs == If(op.req, {R({"C13"}, "context login required")})
                       \cup If(c = "op" /\ op.st = "upd", {R({"C14"}, "one-shot call after an update")})
                 ends == c # "upd"
                 out == HasOut(c, k)
                 fail == {EndOp(S, ev, k), PutOp(S, ev, k, op)}
                 hard == \/ rs # {} \/ op.loose \/ G(ev, "may", FALSE)
                         \/ (c = "fin" /\ op.st = "new" /\ op.m # "CKM_HOTP")   \* finishing what was never fed
             IN  IF out /\ (ev.null \/ ev.rv = "BUFFER_TOO_SMALL") THEN
                     (* nothing but a length comes back *)
                     IF ev.rv \in {"OK", "BUFFER_TOO_SMALL"}
                     THEN {Out(PutOp(S, ev, k, Promise(ev, op)),
                               (IF ev.rv = "BUFFER_TOO_SMALL" \/ rs = If(c = "op" /\ op.st = "upd", rs) THEN {} ELSE AsIssues(rs, "length query accepted although: ")) \cup BufIssues(ev, op, 0))}
                     ELSE {Out(x, If(~hard /\ ShouldWork(S, k, op, data) /\ ~(op.m \in NoMultipart /\ c # "op"), {I({"C15", "C14"}, "length query refused: " \o ev.rv)})) : x \in fail}
                 ELSE IF k = "sign" /\ op.m = "CKM_HOTP" /\ rs = {} /\ c \in {"op", "fin"} /\ BLen(data) = 0
                     THEN {Out(x.s, x.i \cup BufIssues(ev, op, 0)) : x \in HotpSign(S, ev, op)}
                 ELSE IF k = "ver" /\ op.m = "CKM_HOTP" /\ rs = {} /\ c \in {"op", "fin"} /\ BLen(data) = 0
                     THEN HotpVerify(S, ev, op)
                 ELSE IF ev.rv = "OK" THEN
                     IF IsVer(k) /\ ends THEN
                         LET sig == IF k = "versig" THEN op.sig ELSE ev.sig
                             r == SigRight(S, op, data, sig) IN
                         {Out(Learn(EndOp(S, ev, k), Key("ok", op, data) \o "|" \o sig, "1"),
                              AsIssues(rs, "accepted although: ")
                              \cup If(r = "no", {I({"C16"}, "signature accepted that is not right")}))}
                     ELSE IF ~ends THEN
                         {Out(PutOp(S, ev, k, [op EXCEPT !.data = data, !.st = "upd", !.prom = <<>>,
                                                         !.out = IF out THEN BCat(@, ev.dout) ELSE @]),
                              AsIssues(rs, "accepted although: ") \cup If(out, BufIssues(ev, op, 0)))}
                     ELSE LET res == IF out THEN BCat(op.out, ev.dout) ELSE ""
                              d == Done(EndOp(S, ev, k), k, op, data, res)
                          IN {Out(d.s, d.i \cup AsIssues(rs, "accepted although: ") \cup BufIssues(ev, op, 0))}
                 ELSE LET bad ==
                            IF hard \/ ev.rv = "ERR" THEN {}
                            ELSE IF IsVer(k) /\ ends THEN
                                 LET sig == IF k = "versig" THEN op.sig ELSE ev.sig IN
                                 If(SigRight(S, op, data, sig) = "yes", {I({"C16"}, "right signature refused: " \o ev.rv)})
                            ELSE IF ends /\ ShouldWork(S, k, op, data) /\ ~(op.m \in NoMultipart /\ c = "fin")
                                 THEN {I({"C16"}, k \o " with " \o op.m \o " failed: " \o ev.rv)}
                            ELSE IF ~ends /\ k \in {"dig", "sign", "ver", "enc"} /\ op.m \notin NoMultipart
                                    /\ (k # "enc" \/ op.m \in {"CKM_AES_GCM", "CKM_AES_CTR", "CKM_AES_CBC_PAD", "CKM_AES_ECB", "CKM_AES_CBC"})
                                 THEN {I({"C16", "C14"}, k \o " update with " \o op.m \o " failed: " \o ev.rv)}
                            ELSE {}
                      IN {Out(x, bad \cup If(out, BufIssues(ev, op, 0))) : x \in fail}

(* two operations fed at once *)
Dual(S, ev) ==
    LET pr == CASE ev.k = "digenc" -> <<"dig", "enc">> [] ev.k = "decdig" -> <<"dec", "dig">>
                [] ev.k = "signenc" -> <<"sign", "enc">> [] ev.k = "decver" -> <<"dec", "ver">>
        ops == Ops(S, ev)
        have == pr[1] \in DOMAIN ops /\ pr[2] \in DOMAIN ops
        ciph == IF ev.k \in {"digenc", "signenc"} THEN "enc" ELSE "dec"
        other == IF pr[1] = ciph THEN pr[2] ELSE pr[1]
    IN  IF ~have THEN Call(ev, {R({"C14"}, "operation missing for " \o ev.k)}, FALSE, {}, S, {}, S)
        ELSE LET co == ops[ciph] oo == ops[other]
                 rs == If(co.req \/ oo.req, {R({"C13"}, "context login required")})
                 fed == IF ciph = "enc" THEN ev.din ELSE G(ev, "dout", "x")
             IN IF ev.null \/ ev.rv = "BUFFER_TOO_SMALL" THEN
                    {Out(PutOp(S, ev, ciph, [Promise(ev, co) EXCEPT !.prom = <<"upd", BLen(ev.din), ev.len>>]), BufIssues(ev, co, 0))}
                ELSE IF ev.rv = "OK" THEN
                    {Out(PutOp(PutOp(S, ev, ciph, [co EXCEPT !.data = BCat(@, ev.din), !.out = BCat(@, ev.dout), !.st = "upd", !.prom = <<>>]),
                               ev, other, [oo EXCEPT !.data = BCat(@, fed), !.st = "upd"]),
                         AsIssues(rs, "accepted although: ") \cup BufIssues(ev, co, 0))}
                ELSE LET x == {S, EndOp(S, ev, ciph)} IN
                     UNION {{Out(y, {}), Out(EndOp(y, ev, other), {})} : y \in x}
DigKey(S, ev) ==
    IF "dig" \notin DOMAIN Ops(S, ev) THEN NoOp(S, ev, "dig")
    ELSE LET op == Ops(S, ev)["dig"]
             rs == ObjReasons(S, ev, ev.o)
             v == IF rs = {} THEN G(S.matval, Obj(S, ev, ev.o).mat, "?") ELSE "x"
             v2 == IF v = "?" /\ rs = {} /\ SubSeq(Obj(S, ev, ev.o).mat, 1, 2) = "v:" THEN SubSeq(Obj(S, ev, ev.o).mat, 3, Len(Obj(S, ev, ev.o).mat)) ELSE v
         IN IF ev.rv = "OK" THEN {Out(PutOp(S, ev, "dig", [op EXCEPT !.data = IF v2 = "?" THEN @ \o "<" \o Obj(S, ev, ev.o).mat \o ">" ELSE BCat(@, v2), !.st = "upd"]),
                                      AsIssues(rs, "accepted although: "))}
            ELSE {Out(x, {}) : x \in {S, EndOp(S, ev, "dig")}}

SCancel(S, ev) ==
    LET ks == SeqSet(ev.ks) IN
    Call(ev, {}, TRUE, {"C14"}, [S EXCEPT !.sess[ev.s].ops = Without(@, ks)], {}, S)

(* message-based AES-GCM *)
Msg(S, ev) ==
    IF ev.k \notin DOMAIN Ops(S, ev) THEN NoOp(S, ev, ev.k)
    ELSE LET op == Ops(S, ev)[ev.k]
             dec == ev.k = "mdec"
             iv == IF dec THEN ev.iv ELSE G(ev, "ivout", ev.iv)
             base(d) == "msg|" \o op.key \o "|" \o iv \o "|" \o ev.aad \o "|" \o d
             gen == ~dec /\ ev.gen # "CKG_NO_GENERATE"
             fixed == IF gen /\ ev.fixed > 0 /\ ev.fixed % 4 = 0 THEN ev.fixed \div 4 ELSE 0
             x == BufIssues(ev, op, 0)
             vague == op.loose \/ G(ev, "may", FALSE) \/ (gen /\ ev.gen = "CKG_GENERATE_RANDOM" /\ ev.fixed > 0)
         IN IF ev.null \/ ev.rv = "BUFFER_TOO_SMALL" THEN
                {Out(S, x)}
            ELSE IF ev.rv # "OK" THEN
                {Out(S, If(dec /\ base(ev.din \o "|" \o ev.tag) \in DOMAIN S.memo /\ ~op.loose, {I({"C16"}, "message refused: " \o ev.rv)})
                        \cup If(~dec /\ ~vague, {I({"C16"}, "message encryption failed: " \o ev.rv)})),
                 Out(EndOp(S, ev, ev.k), If(~vague /\ ~dec, {I({"C16"}, "message encryption failed: " \o ev.rv)}))}
            ELSE IF dec THEN
                LET key == base(ev.din \o "|" \o ev.tag) IN
                {Out(S, x \cup If(key \notin DOMAIN S.memo, {I({"C16"}, "message accepted that was never produced")})
                          \cup Differs(S, key, ev.dout, {"C16"}, "message"))}
            ELSE LET kd == base(ev.dout \o "|" \o ev.tagout) IN
                {Out([PutOp(S, ev, ev.k, [op EXCEPT !.ivs = @ \cup {iv}]) EXCEPT !.memo = Put(@, kd, ev.din)],
                     x \cup If(gen /\ iv \in op.ivs, {I({"C34"}, "generated nonce " \o iv \o " repeats")})
                       \cup If(fixed > 0 /\ SubSeq(iv, 2, 1 + fixed) # SubSeq(ev.iv, 2, 1 + fixed), {I({"C34"}, "fixed part of the nonce changed")})
                       \cup If(~gen /\ iv # ev.iv, {I({"C34"}, "given nonce not used")}))}

(* -------------------------------------------------------- key management -- *)
MechDefaults(m) ==
    CASE m \in {"CKM_AES_KEY_GEN"} -> [CKA_CLASS |-> "CKO_SECRET_KEY", CKA_KEY_TYPE |-> "CKK_AES"]
      [] m = "CKM_HOTP_KEY_GEN" -> [CKA_CLASS |-> "CKO_OTP_KEY", CKA_KEY_TYPE |-> "CKK_HOTP"]
      [] m = "CKM_HKDF_KEY_GEN" -> [CKA_CLASS |-> "CKO_SECRET_KEY", CKA_KEY_TYPE |-> "CKK_HKDF"]
      [] m \in {"CKM_GENERIC_SECRET_KEY_GEN", "CKM_PKCS5_PBKD2"} -> [CKA_CLASS |-> "CKO_SECRET_KEY", CKA_KEY_TYPE |-> "CKK_GENERIC_SECRET"]
      [] OTHER -> Emp
GenReasons(S, ev, c, kt, t, td, m) ==
    TemplateReasons(c, kt, t, td, {"C18", "C26"})
    \cup {R({"C18", "C10"}, "value given for a key to be made: " \o n) : n \in DOMAIN t \cap (SecretNames(c, kt) \cup (IF c = "CKO_PUBLIC_KEY" THEN {"CKA_EC_POINT", "CKA_MODULUS"} ELSE {}))}
    \cup TokGate(S, ev, IsTok(t))
    \cup If(Den(S, SlotId(S, ev), m), {R({"C30"}, m \o " is excluded on this slot")})
Generated(t, c, m) ==
    LET a == Over(t, Over(MechDefaults(m), Defaults(c)))
        b == [a EXCEPT !.CKA_LOCAL = "T", !.CKA_KEY_GEN_MECHANISM = m]
    IN  IF c = "CKO_PUBLIC_KEY" THEN b
        ELSE Over([CKA_ALWAYS_SENSITIVE |-> b.CKA_SENSITIVE, CKA_NEVER_EXTRACTABLE |-> B(b.CKA_EXTRACTABLE = "F")], b)
GenKey(S, ev) ==
    LET d == MechDefaults(ev.m)
        t == ev.t
        c == G(t, "CKA_CLASS", G(d, "CKA_CLASS", "?"))
        kt == G(t, "CKA_KEY_TYPE", G(d, "CKA_KEY_TYPE", "?"))
        rs == IF ~Supports(ev.m, "gen") THEN MechReasons(S, ev, "gen")
              ELSE GenReasons(S, ev, c, kt, t, G(ev, "td", "no"), ev.m)
                   \cup If(c # d.CKA_CLASS, {R({"C18"}, "class does not fit")})
                   \cup If(ev.m = "CKM_AES_KEY_GEN" /\ kt # "CKK_AES", {R({"C18"}, "type does not fit")})
                   \cup If(ev.m = "CKM_AES_KEY_GEN" /\ G(t, "CKA_VALUE_LEN", "?") \notin {"16", "24", "32"}, {R({"C18"}, "AES key length")})
        may == Sl(S, ev).login = "so" \/ G(ev, "td", "no") # "no" \/ (kt # d.CKA_KEY_TYPE) \/ "CKA_VALUE_LEN" \notin DOMAIN t
               \/ (ev.m = "CKM_PKCS5_PBKD2" /\ ~({"CKA_CLASS", "CKA_KEY_TYPE"} \subseteq DOMAIN t))
               \/ (ev.m \in {"CKM_HKDF_KEY_GEN", "CKM_HOTP_KEY_GEN"} /\ "CKA_VALUE_LEN" \in DOMAIN t)
               \/ DOMAIN t \cap {"CKA_CHECK_VALUE"} # {}
               (* needs its pseudo-random function to be available *)
               \/ (ev.m = "CKM_PKCS5_PBKD2" /\ \E p \in Hmacs : Den(S, SlotId(S, ev), p))
        mat == IF ev.m = "CKM_PKCS5_PBKD2" THEN "d:" \o ev.m \o ":" \o ev.mp \o ":" \o G(t, "CKA_VALUE_LEN", "?") ELSE "g:" \o ev.o
        a == Generated(t, c, ev.m)
        a1 == IF c = "CKO_OTP_KEY" /\ "CKA_VALUE_LEN" \notin DOMAIN t THEN Without(a, {"CKA_VALUE_LEN"}) ELSE a
        b == Born(S, ev, SlotId(S, ev), ev.o, "h", "attrs", a1, mat, {"C18"})
    IN  IF ev.rv = "OK" /\ rs # {} THEN {Out(S, AsIssues(rs, "accepted although: "))}
        ELSE Call(ev, rs, may, {"C18", "C06"} \cup Restricted(S, ev), b.s, b.i, S)

PairType(m) == CASE m = "CKM_RSA_PKCS_KEY_PAIR_GEN" -> "CKK_RSA" [] m = "CKM_EC_KEY_PAIR_GEN" -> "CKK_EC"
                 [] m = "CKM_EC_MONTGOMERY_KEY_PAIR_GEN" -> "CKK_EC_MONTGOMERY" [] OTHER -> "CKK_DH"
GenPair(S, ev) ==
    LET kt == IF Supports(ev.m, "genpair") THEN PairType(ev.m) ELSE "?"
        d1 == [CKA_CLASS |-> "CKO_PUBLIC_KEY", CKA_KEY_TYPE |-> kt]
        d2 == [CKA_CLASS |-> "CKO_PRIVATE_KEY", CKA_KEY_TYPE |-> kt]
        need == CASE kt = "CKK_RSA" -> {"CKA_MODULUS_BITS"} [] kt = "CKK_DH" -> {"CKA_PRIME", "CKA_BASE"} [] OTHER -> {"CKA_EC_PARAMS"}
        rs == IF kt = "?" THEN MechReasons(S, ev, "genpair")
              ELSE GenReasons(S, ev, "CKO_PUBLIC_KEY", kt, ev.t, G(ev, "td", "no"), ev.m)
                   \cup GenReasons(S, ev, "CKO_PRIVATE_KEY", kt, ev.t2, G(ev, "td2", "no"), ev.m)
                   \cup If(~(need \subseteq DOMAIN ev.t), {R({"C18"}, "parameters missing")})
                   \cup If(G(ev.t, "CKA_CLASS", "CKO_PUBLIC_KEY") # "CKO_PUBLIC_KEY" \/ G(ev.t2, "CKA_CLASS", "CKO_PRIVATE_KEY") # "CKO_PRIVATE_KEY",
                           {R({"C18"}, "class does not fit")})
                   \cup If(G(ev.t, "CKA_KEY_TYPE", kt) # kt \/ G(ev.t2, "CKA_KEY_TYPE", kt) # kt, {R({"C18"}, "type does not fit")})
        (* the parameters belong in the template of the public key *)
        may == Sl(S, ev).login = "so" \/ G(ev, "td", "no") # "no" \/ G(ev, "td2", "no") # "no"
               \/ DOMAIN ev.t2 \cap {"CKA_EC_PARAMS", "CKA_PRIME", "CKA_BASE", "CKA_MODULUS_BITS", "CKA_PUBLIC_EXPONENT"} # {}
        mat == "g:" \o ev.o2
        par == [n \in DOMAIN ev.t \cap {"CKA_EC_PARAMS", "CKA_PRIME", "CKA_BASE"} |-> ev.t[n]]
        a1 == Over(d1, Generated(ev.t, "CKO_PUBLIC_KEY", ev.m))
        a2 == Over(d2, Over(par, Generated(ev.t2, "CKO_PRIVATE_KEY", ev.m)))
        b1 == Born(S, ev, SlotId(S, ev), ev.o, "h", "attrs", a1, mat, {"C18"})
        b2 == Born(b1.s, ev, SlotId(S, ev), ev.o2, "h2", "attrs2", a2, mat, {"C18"})
        pubv(st) == LET a == st.slots[SlotId(S, ev)].objs[ev.o].a IN G(a, "CKA_MODULUS", G(a, "CKA_EC_POINT", G(a, "CKA_VALUE", "")))
        pv == pubv(b2.s)
        prob == IF pv = "" THEN {} ELSE If("pk|" \o pv \in DOMAIN S.fresh, {I({"C34"}, "key pair generated twice")})
        S2 == IF pv = "" THEN b2.s ELSE [b2.s EXCEPT !.fresh = Put(@, "pk|" \o pv, ev.o)]
        one(h, o) == h \in DOMAIN ev
    IN  IF ev.rv = "OK" /\ rs # {} THEN {Out(S, AsIssues(rs, "accepted although: "))}
        ELSE IF ev.rv = "OK" THEN {Out(S2, b1.i \cup b2.i \cup prob)}
        ELSE Call(ev, rs, may, {"C18", "C06"}, S, {}, S)

WrapKey(mat, m, p) == m \o "|" \o p \o "|" \o mat
(* does the wrapped form contain the value? *)
Contains(h, n) == \E k \in 1 .. (Len(h) - Len(n) + 1) : SubSeq(h, k, k + Len(n) - 1) = n
Wrap(S, ev) ==
    LET gk == ObjReasons(S, ev, ev.ko)
        gw == UseReasons(S, ev, "wrap", ev.wk)
        have == Tgt(S, ev, ev.ko) # "" /\ Tgt(S, ev, ev.wk) # ""
        k == Obj(S, ev, ev.ko) w == Obj(S, ev, ev.wk)
        rs == gk \cup gw \cup MechReasons(S, ev, "wrap")
              \cup If(have, If(Class(k.a) \notin SecClasses, {R({"C17"}, "not a secret or private key")})
                            \cup If(Class(k.a) \in SecClasses /\ Extr(k.a) # "T", {R({"C17"}, "key is not extractable")})
                            \cup If(G(k.a, "CKA_WRAP_WITH_TRUSTED", "F") = "T" /\ G(w.a, "CKA_TRUSTED", "F") # "T",
                                    {R({"C17"}, "wrapping key is not trusted")}))
        bits == have /\ ev.m \in {"CKM_AES_CBC", "CKM_AES_ECB", "CKM_AES_CTS", "CKM_RSA_X_509", "CKM_AES_KEY_WRAP", "CKM_AES_CTR", "CKM_RSA_PKCS", "CKM_RSA_PKCS_OAEP"}
        may == have /\ (UseVague(S, ev, "wrap", ev.wk) \/ VagueObj(S, ev, ev.ko) \/ Locked(Sl(S, ev), k) \/ bits \/ Class(k.a) = "CKO_OTP_KEY" \/ KType(k.a) = "CKK_DH"
                         \/ (ev.m = "CKM_AES_CCM" /\ ~(Class(k.a) = "CKO_SECRET_KEY" /\ G(S.matval, k.mat, "?") # "?" /\ BLen(S.matval[k.mat]) = G(ev, "dlen", 0))))
        ku == "unw|" \o WrapKey(w.mat, ev.m, ev.mp) \o "|" \o G(ev, "dout", "x")
        kw == "wr|" \o WrapKey(w.mat, ev.m, ev.mp) \o "|" \o k.mat
        val == G(S.matval, k.mat, G(k.a, "CKA_VALUE", "?"))
    IN  IF ev.rv = "OK" /\ rs # {} THEN {Out(S, AsIssues(rs, "accepted although: "))}
        ELSE IF ev.null \/ ev.rv = "BUFFER_TOO_SMALL" THEN
             {Out(S, If(ev.rv = "BUFFER_TOO_SMALL" /\ ~ev.null /\ ev.len <= ev.cap, {I({"C15"}, "too small, but no larger length reported")})
                     \cup If(ev.canary # "ok", {I({"C15"}, "write beyond the buffer")})
                     \cup If(ev.null /\ ev.rv # "OK" /\ rs = {} /\ ~may /\ ~G(ev, "may", FALSE), {I({"C15"}, "length query refused: " \o ev.rv)})
                     \cup If(ev.rv = "BUFFER_TOO_SMALL" /\ rs = {} /\ kw \in DOMAIN S.memo /\ BLen(S.memo[kw]) < ev.cap - 32, {I({"C15"}, "large enough buffer refused")}))}
        ELSE IF ev.rv = "OK" THEN
             {Out([S EXCEPT !.memo = Put(Put(Put(@, ku, k.mat), kw, ev.dout), "cls|" \o ku, Class(k.a))],
                  If(ev.canary # "ok" \/ ev.len > ev.cap, {I({"C15"}, "write beyond the buffer")})
                  \cup If(BLen(val) >= 8 /\ Contains(ev.dout, SubSeq(val, 2, Len(val))), {I({"C17", "C09"}, "wrapped key contains the value in clear")})
                  \cup If(ku \in DOMAIN S.memo /\ S.memo[ku] # k.mat /\ k.mat # "" /\ G(S.memo, "cls|" \o ku, "") = Class(k.a) /\ ~(val # "?" /\ val = G(S.matval, S.memo[ku], "!")),
                          {I({"C17"}, "two keys have the same wrapped form")}))}
        ELSE Call(ev, rs, may, {"C17"}, S, {}, S)

UnwrapReasons(S, ev) ==
    LET c == G(ev.t, "CKA_CLASS", "?") kt == KType(ev.t) IN
    UseReasons(S, ev, "unwrap", ev.wk) \cup MechReasons(S, ev, "unwrap")
    \cup TemplateReasons(c, kt, ev.t, G(ev, "td", "no"), {"C18", "C26"})
    \cup {R({"C18"}, "value given for a key to be unwrapped") : n \in DOMAIN ev.t \cap SecretNames(c, kt)}
    \cup TokGate(S, ev, IsTok(ev.t))
Unwrap(S, ev) ==
    LET c == G(ev.t, "CKA_CLASS", "?") kt == KType(ev.t)
        rs == UnwrapReasons(S, ev)
        have == Tgt(S, ev, ev.wk) # ""
        wmat == IF have THEN Obj(S, ev, ev.wk).mat ELSE ""
        ku == "unw|" \o WrapKey(wmat, ev.m, ev.mp) \o "|" \o ev.din
        known == ku \in DOMAIN S.memo
        kval == IF known THEN G(S.matval, S.memo[ku], "?") ELSE "?"
        vl == G(ev.t, "CKA_VALUE_LEN", "")
        (* zero padding and a length in the template make another key of it *)
        asis == known /\ G(S.memo, "cls|" \o ku, "?") = c
        whole == asis /\
                 \/ c # "CKO_SECRET_KEY"
                 \/ kval # "?" /\ (IF vl # "" THEN vl = ToString(BLen(kval)) ELSE ev.m \notin {"CKM_AES_ECB", "CKM_AES_CBC"} \/ BLen(kval) % 16 = 0)
                 \/ kval = "?" /\ vl = "" /\ ev.m \notin {"CKM_AES_ECB", "CKM_AES_CBC"}
        mat == IF known THEN (IF whole THEN S.memo[ku] ELSE "u:" \o ku \o ":" \o c \o ":" \o vl) ELSE "u:" \o ku
        samekind == known /\ (\E sid \in DOMAIN S.slots : \E n \in DOMAIN S.slots[sid].objs :
                        S.slots[sid].objs[n].mat = mat /\ Class(S.slots[sid].objs[n].a) = c /\ KType(S.slots[sid].objs[n].a) = kt)
        may == ~samekind \/ G(ev, "td", "no") # "no" \/ Sl(S, ev).login = "so" \/ DOMAIN ev.t \cap {"CKA_VALUE_LEN", "CKA_MODULUS", "CKA_PUBLIC_EXPONENT", "CKA_EC_PARAMS", "CKA_EC_POINT"} # {}
               \/ (have /\ UseVague(S, ev, "unwrap", ev.wk)) \/ ev.m \in {"CKM_AES_CTR", "CKM_RSA_X_509", "CKM_AES_CBC", "CKM_AES_ECB", "CKM_AES_CTS"}
        a == Over(ev.t, Defaults(c))
        val == G(S.matval, mat, "")
        b == Born(S, ev, SlotId(S, ev), ev.o, "h", "attrs", a, mat, {"C18", "C17"})
    IN  IF ev.rv = "OK" /\ rs # {} THEN {Out(S, AsIssues(rs, "accepted although: "))}
        ELSE IF ev.rv = "OK" /\ ~known /\ Authenticated(ev.m) THEN {Out(b.s, b.i \cup {I({"C17"}, "key unwrapped from data that was never wrapped")})}
        ELSE Call(ev, rs, may, {"C17"}, b.s, b.i, S)

DeriveReasons(S, ev) ==
    LET c == G(ev.t, "CKA_CLASS", IF ev.m = "CKM_HKDF_DATA" THEN "CKO_DATA" ELSE "CKO_SECRET_KEY") kt == G(ev.t, "CKA_KEY_TYPE", "CKK_GENERIC_SECRET") IN
    UseReasons(S, ev, "derive", ev.ko) \cup MechReasons(S, ev, "derive")
    \cup TemplateReasons(c, kt, IF c = "CKO_DATA" THEN Without(ev.t, {"CKA_VALUE_LEN"}) ELSE ev.t, G(ev, "td", "no"), {"C18", "C26"})
    \cup {R({"C18"}, "value given for a key to be derived") : n \in DOMAIN ev.t \cap SecretNames(c, kt)}
    \cup TokGate(S, ev, IsTok(ev.t))
    \cup If("k2" \in DOMAIN ev, ObjReasons(S, ev, ev.k2))
ValueCarrying == SimpleKdf
Derive(S, ev) ==
    LET have == Tgt(S, ev, ev.ko) # "" /\ ("k2" \notin DOMAIN ev \/ Tgt(S, ev, ev.k2) # "")
        base == Obj(S, ev, ev.ko)
        c == G(ev.t, "CKA_CLASS", IF ev.m = "CKM_PUB_KEY_FROM_PRIV_KEY" THEN "CKO_PUBLIC_KEY" ELSE IF ev.m = "CKM_HKDF_DATA" THEN "CKO_DATA" ELSE "CKO_SECRET_KEY")
        kt == G(ev.t, "CKA_KEY_TYPE", IF have /\ c = "CKO_PUBLIC_KEY" THEN KType(base.a) ELSE "CKK_GENERIC_SECRET")
        rs == DeriveReasons(S, ev)
        more == IF "k2" \in DOMAIN ev THEN {Obj(S, ev, ev.k2)} ELSE {}
        bases == {base} \cup more
        (* what the template does not say: a derived public key takes it from the private key,
           a concatenation of keys need not follow the defaults *)
        open == IF ev.m = "CKM_PUB_KEY_FROM_PRIV_KEY" THEN (DOMAIN Defaults(c) \cup DOMAIN base.a) \ SecretNames("CKO_PRIVATE_KEY", KType(base.a))
                ELSE IF ev.m = "CKM_CONCATENATE_BASE_AND_KEY" THEN {"CKA_SENSITIVE", "CKA_EXTRACTABLE"}
                ELSE IF c = "CKO_DATA" THEN {"CKA_VALUE"}
                ELSE {}
        obs == G(ev, "attrs", Emp)
        a0 == Over(IF c = "CKO_DATA" THEN Without(ev.t, {"CKA_VALUE_LEN"}) ELSE ev.t, Over(IF c = "CKO_DATA" THEN [CKA_CLASS |-> c] ELSE [CKA_CLASS |-> c, CKA_KEY_TYPE |-> kt],
                   IF "attrs" \in DOMAIN ev THEN Over([n \in open \cap DOMAIN obs |-> obs[n]], Without(Defaults(c), open)) ELSE Defaults(c)))
        prot == ev.m \in ValueCarrying
        sens == IF prot /\ (\E x \in bases : Sens(x.a) # "F") THEN "T" ELSE G(a0, "CKA_SENSITIVE", "?")
        extr == IF prot /\ (\E x \in bases : Extr(x.a) # "T") THEN "F" ELSE G(a0, "CKA_EXTRACTABLE", "?")
        hist == [CKA_SENSITIVE |-> sens, CKA_EXTRACTABLE |-> extr,
                 CKA_ALWAYS_SENSITIVE |-> B(sens = "T" /\ \A x \in bases : G(x.a, "CKA_ALWAYS_SENSITIVE", "F") = "T"),
                 CKA_NEVER_EXTRACTABLE |-> B(extr = "F" /\ \A x \in bases : G(x.a, "CKA_NEVER_EXTRACTABLE", "F") = "T")]
        a == IF c = "CKO_SECRET_KEY" THEN Over(hist, a0) ELSE a0
        m2 == IF "k2" \in DOMAIN ev THEN Obj(S, ev, ev.k2).mat ELSE ""
        mat == IF ev.m = "CKM_PUB_KEY_FROM_PRIV_KEY" THEN Twin(S, base.mat)
               ELSE "d:" \o ev.m \o ":" \o ev.mp \o ":" \o m2 \o ":" \o G(ev.t, "CKA_VALUE_LEN", "?") \o ":" \o base.mat
        (* what it must be, from the independent oracle: a statement about the named keys *)
        want == G(S.memo, "der|" \o ev.m \o "|" \o ev.mp \o "|" \o G(ev.t, "CKA_VALUE_LEN", "?") \o "|@" \o ev.ko \o "|@" \o G(ev, "k2", ""), "?")
        S1 == IF want # "?" /\ mat \notin DOMAIN S.matval THEN [S EXCEPT !.matval = Put(@, mat, want)] ELSE S
        b1 == Born(S1, ev, SlotId(S, ev), ev.o, "h", "attrs", a, mat, {"C18"})
        (* data objects carry a derived value too *)
        prob == If(want # "?" /\ ev.rv = "OK" /\ "attrs" \in DOMAIN ev /\ c = "CKO_DATA" /\ G(ev.attrs, "CKA_VALUE", want) # want,
                   {I({"C18"}, "derived data should be " \o want)})
    IN  IF ~have \/ (ev.rv = "OK" /\ rs # {}) THEN Call(ev, rs, FALSE, {}, S, {}, S)
        ELSE Call(ev, rs, Sl(S, ev).login = "so" \/ G(ev, "td", "no") # "no" \/ UseVague(S, ev, "derive", ev.ko) \/ "CKA_VALUE_LEN" \notin DOMAIN ev.t, {"C18"}, b1.s, b1.i \cup prob, S)

Random(S, ev) ==
    Call(ev, {}, FALSE, {"C34"}, IF ev.rv = "OK" THEN [S EXCEPT !.fresh = Put(@, "rnd|" \o ev.data, "1")] ELSE S,
         IF ev.rv = "OK" /\ BLen(ev.data) >= 8 /\ "rnd|" \o ev.data \in DOMAIN S.fresh THEN {I({"C34"}, "random output repeats")} ELSE {}, S)

(* --------------------------------------------------------- mechanism lists -- *)
AllMechs(S) == {x \in DOMAIN S.fresh : SubSeq(x, 1, 5) = "mech|"}
Mechs(S, ev) ==
    LET got == SeqSet(ev.list)
        base == SeqSet(ev.full)     \* the same slot's list without restrictions, recorded at setup
        want == {m \in base : ~Den(S, ev.slot, m)}
    IN  IF ev.rv # "OK" THEN {Out(S, {I({"C30"}, "mechanism list refused")})}
        ELSE {Out(S, {I({"C30"}, "excluded mechanism listed: " \o m) : m \in {x \in got : Den(S, ev.slot, x)}}
                     \cup {I({"C30"}, "mechanism missing: " \o m) : m \in want \ got}
                     \cup {I({"C30"}, "unexpected mechanism: " \o m) : m \in got \ base}
                     \cup If(ev.nnull # Len(ev.list), {I({"C30", "C15"}, "number of mechanisms wrong: " \o ToString(ev.nnull))})
                     \cup If("small" \in DOMAIN ev /\ ev.small # <<"BUFFER_TOO_SMALL", Len(ev.list)>>,
                             {I({"C15"}, "mechanism list in a buffer that is too small: " \o ToString(ev.small))}))}
MInfo(S, ev) ==
    LET m == ev.m known == Uses(m) # {} IN
    IF Den(S, ev.slot, m) THEN Call(ev, {R({"C30"}, m \o " is excluded on this slot")}, FALSE, {}, S, {}, S)
    ELSE IF ~known THEN {Out(S, {})}
    ELSE Call(ev, {}, FALSE, {"C30"}, S,
              IF "minfo" \in DOMAIN ev THEN If(FlagUses(ev.minfo[3]) # Uses(m), {I({"C30"}, m \o " declares " \o ToString(FlagUses(ev.minfo[3])))}) ELSE {}, S)
=============================================================================
