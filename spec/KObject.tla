------------------------------ MODULE KObject ------------------------------
(* Objects and their attributes.  An attribute map is a record from attribute
   names to strings ("T"/"F", numbers in decimal or symbolic, bytes "x<hex>").
   An object is [a |-> true attribute values, h |-> handle, sess |-> creating
   session ("" for token objects), mat |-> identity of the key material ("" if
   none), since |-> properties at stake since it was last observed].            *)
EXTENDS KBase

SecClasses == {"CKO_SECRET_KEY", "CKO_PRIVATE_KEY", "CKO_OTP_KEY"}
KeyClasses == SecClasses \cup {"CKO_PUBLIC_KEY"}

Class(a) == G(a, "CKA_CLASS", "?")
KType(a) == G(a, "CKA_KEY_TYPE", "?")
IsTok(a) == G(a, "CKA_TOKEN", "F") = "T"
IsPriv(a) == G(a, "CKA_PRIVATE", "F") = "T"
Sens(a) == G(a, "CKA_SENSITIVE", "T")
Extr(a) == G(a, "CKA_EXTRACTABLE", "F")
B(x) == IF x THEN "T" ELSE "F"

(* ---- which attributes hold the secret ------------------------------------ *)
RSAPrivSecrets == {"CKA_PRIVATE_EXPONENT", "CKA_PRIME_1", "CKA_PRIME_2", "CKA_EXPONENT_1",
                   "CKA_EXPONENT_2", "CKA_COEFFICIENT"}
SecretNames(c, kt) ==
    CASE c \in {"CKO_SECRET_KEY", "CKO_OTP_KEY"} -> {"CKA_VALUE"}
      [] c = "CKO_PRIVATE_KEY" /\ kt = "CKK_RSA" -> RSAPrivSecrets
      [] c = "CKO_PRIVATE_KEY" -> {"CKA_VALUE"}
      [] OTHER -> {}
Secrets(a) == SecretNames(Class(a), KType(a))
Protected(a) == Class(a) \in SecClasses /\ (Sens(a) # "F" \/ Extr(a) # "T")

(* ---- attributes known per class ------------------------------------------- *)
StorageNames == {"CKA_CLASS", "CKA_UNIQUE_ID", "CKA_TOKEN", "CKA_PRIVATE", "CKA_MODIFIABLE",
                 "CKA_LABEL", "CKA_COPYABLE", "CKA_DESTROYABLE"}
KeyNames == StorageNames \cup {"CKA_KEY_TYPE", "CKA_ID", "CKA_START_DATE", "CKA_END_DATE", "CKA_DERIVE",
                 "CKA_LOCAL", "CKA_KEY_GEN_MECHANISM", "CKA_ALLOWED_MECHANISMS"}
SecretKeyNames == KeyNames \cup {"CKA_SENSITIVE", "CKA_ENCRYPT", "CKA_DECRYPT", "CKA_SIGN", "CKA_VERIFY",
                 "CKA_WRAP", "CKA_UNWRAP", "CKA_EXTRACTABLE", "CKA_ALWAYS_SENSITIVE", "CKA_NEVER_EXTRACTABLE",
                 "CKA_CHECK_VALUE", "CKA_WRAP_WITH_TRUSTED", "CKA_TRUSTED", "CKA_WRAP_TEMPLATE",
                 "CKA_UNWRAP_TEMPLATE", "CKA_DERIVE_TEMPLATE", "CKA_VALUE", "CKA_VALUE_LEN"}
PrivNames == KeyNames \cup {"CKA_SUBJECT", "CKA_SENSITIVE", "CKA_DECRYPT", "CKA_SIGN", "CKA_SIGN_RECOVER",
                 "CKA_UNWRAP", "CKA_EXTRACTABLE", "CKA_ALWAYS_SENSITIVE", "CKA_NEVER_EXTRACTABLE",
                 "CKA_WRAP_WITH_TRUSTED", "CKA_UNWRAP_TEMPLATE", "CKA_ALWAYS_AUTHENTICATE", "CKA_PUBLIC_KEY_INFO",
                 "CKA_DERIVE_TEMPLATE", "CKA_DECAPSULATE"}
PubNames == KeyNames \cup {"CKA_SUBJECT", "CKA_ENCRYPT", "CKA_VERIFY", "CKA_VERIFY_RECOVER", "CKA_WRAP",
                 "CKA_TRUSTED", "CKA_WRAP_TEMPLATE", "CKA_PUBLIC_KEY_INFO", "CKA_ENCAPSULATE"}
TypeNames(c, kt) ==
    CASE c = "CKO_PUBLIC_KEY" /\ kt = "CKK_RSA" -> {"CKA_MODULUS", "CKA_MODULUS_BITS", "CKA_PUBLIC_EXPONENT"}
      [] c = "CKO_PRIVATE_KEY" /\ kt = "CKK_RSA" -> {"CKA_MODULUS", "CKA_PUBLIC_EXPONENT"} \cup RSAPrivSecrets
      [] c = "CKO_PUBLIC_KEY" /\ kt = "CKK_DH" -> {"CKA_PRIME", "CKA_BASE", "CKA_VALUE"}
      [] c = "CKO_PRIVATE_KEY" /\ kt = "CKK_DH" -> {"CKA_PRIME", "CKA_BASE", "CKA_VALUE", "CKA_VALUE_BITS"}
      [] c = "CKO_PUBLIC_KEY" -> {"CKA_EC_PARAMS", "CKA_EC_POINT"}
      [] c = "CKO_PRIVATE_KEY" -> {"CKA_EC_PARAMS", "CKA_VALUE"}
      [] c = "CKO_OTP_KEY" -> {"CKA_OTP_COUNTER", "CKA_OTP_LENGTH", "CKA_OTP_FORMAT", "CKA_OTP_COUNTER_REQUIREMENT"}
      [] OTHER -> {}
Names(c, kt) ==
    CASE c = "CKO_DATA" -> StorageNames \cup {"CKA_APPLICATION", "CKA_OBJECT_ID", "CKA_VALUE"}
      [] c = "CKO_CERTIFICATE" -> StorageNames \cup {"CKA_CERTIFICATE_TYPE", "CKA_TRUSTED", "CKA_CERTIFICATE_CATEGORY",
                 "CKA_CHECK_VALUE", "CKA_START_DATE", "CKA_END_DATE", "CKA_PUBLIC_KEY_INFO", "CKA_SUBJECT", "CKA_ID",
                 "CKA_ISSUER", "CKA_SERIAL_NUMBER", "CKA_VALUE", "CKA_URL"}
      [] c = "CKO_TRUST" -> StorageNames \cup {"CKA_ISSUER", "CKA_SERIAL_NUMBER", "CKA_HASH_OF_CERTIFICATE",
                 "CKA_NAME_HASH_ALGORITHM", "CKA_TRUST_SERVER_AUTH", "CKA_TRUST_CLIENT_AUTH", "CKA_TRUST_CODE_SIGNING",
                 "CKA_TRUST_EMAIL_PROTECTION"}
      [] c \in {"CKO_SECRET_KEY", "CKO_OTP_KEY"} -> SecretKeyNames \cup TypeNames(c, kt)
      [] c = "CKO_PRIVATE_KEY" -> PrivNames \cup TypeNames(c, kt)
      [] c = "CKO_PUBLIC_KEY" -> PubNames \cup TypeNames(c, kt)
      [] OTHER -> {}

(* ---- documented defaults ---------------------------------------------------- *)
F(names) == [n \in names |-> "F"]
StorageDef(priv) == [CKA_TOKEN |-> "F", CKA_PRIVATE |-> priv, CKA_MODIFIABLE |-> "T", CKA_COPYABLE |-> "T",
                     CKA_DESTROYABLE |-> "T"]
KeyDef == [CKA_START_DATE |-> "x", CKA_END_DATE |-> "x", CKA_DERIVE |-> "F", CKA_LOCAL |-> "F",
           CKA_KEY_GEN_MECHANISM |-> "UNAVAIL"]
SecretDef == Over([CKA_SENSITIVE |-> "T", CKA_ALWAYS_SENSITIVE |-> "F", CKA_NEVER_EXTRACTABLE |-> "F"],
             F({"CKA_ENCRYPT", "CKA_DECRYPT", "CKA_SIGN", "CKA_VERIFY", "CKA_WRAP", "CKA_UNWRAP", "CKA_EXTRACTABLE",
                "CKA_WRAP_WITH_TRUSTED", "CKA_TRUSTED"}))
Defaults(c) ==
    CASE c = "CKO_DATA" -> Over([CKA_APPLICATION |-> "", CKA_VALUE |-> "x"], StorageDef("F"))
      [] c = "CKO_CERTIFICATE" -> Over([CKA_TRUSTED |-> "F", CKA_CERTIFICATE_CATEGORY |-> "0", CKA_START_DATE |-> "x",
             CKA_END_DATE |-> "x", CKA_ID |-> "x", CKA_ISSUER |-> "x", CKA_SERIAL_NUMBER |-> "x"], StorageDef("F"))
      [] c = "CKO_TRUST" -> Over([CKA_TRUST_SERVER_AUTH |-> "0", CKA_TRUST_CLIENT_AUTH |-> "0", CKA_TRUST_CODE_SIGNING |-> "0",
             CKA_TRUST_EMAIL_PROTECTION |-> "0"], StorageDef("F"))
      [] c = "CKO_SECRET_KEY" -> Over(SecretDef, Over(KeyDef, StorageDef("T")))
      [] c = "CKO_OTP_KEY" -> Over([CKA_SIGN |-> "T", CKA_VERIFY |-> "T", CKA_OTP_LENGTH |-> "6",
             CKA_OTP_COUNTER |-> "x0000000000000000", CKA_ALLOWED_MECHANISMS |-> "CKM_HOTP"],
             Over(SecretDef, Over(KeyDef, StorageDef("T"))))
      [] c = "CKO_PRIVATE_KEY" -> Over([CKA_SUBJECT |-> "x", CKA_SENSITIVE |-> "T"],
             Over(F({"CKA_DECRYPT", "CKA_SIGN", "CKA_SIGN_RECOVER", "CKA_UNWRAP", "CKA_EXTRACTABLE",
                "CKA_WRAP_WITH_TRUSTED", "CKA_ALWAYS_AUTHENTICATE", "CKA_ALWAYS_SENSITIVE", "CKA_NEVER_EXTRACTABLE"}),
             Over(KeyDef, StorageDef("T"))))
      [] c = "CKO_PUBLIC_KEY" -> Over([CKA_SUBJECT |-> "x"],
             Over(F({"CKA_ENCRYPT", "CKA_VERIFY", "CKA_VERIFY_RECOVER", "CKA_WRAP", "CKA_TRUSTED"}),
             Over(KeyDef, StorageDef("F"))))
      [] OTHER -> Emp

Required(c, kt) == (IF c \in KeyClasses THEN {"CKA_KEY_TYPE"} ELSE {}) \cup
    CASE c = "CKO_CERTIFICATE" -> {"CKA_CERTIFICATE_TYPE", "CKA_SUBJECT", "CKA_VALUE"}
      [] c = "CKO_TRUST" -> {"CKA_ISSUER", "CKA_SERIAL_NUMBER"}
      [] c \in {"CKO_SECRET_KEY", "CKO_OTP_KEY"} -> {"CKA_KEY_TYPE", "CKA_VALUE"}
      [] c = "CKO_PRIVATE_KEY" /\ kt = "CKK_RSA" -> {"CKA_MODULUS", "CKA_PUBLIC_EXPONENT", "CKA_PRIVATE_EXPONENT"}
      [] c = "CKO_PUBLIC_KEY" /\ kt = "CKK_RSA" -> {"CKA_MODULUS", "CKA_PUBLIC_EXPONENT"}
      [] c = "CKO_PRIVATE_KEY" /\ kt = "CKK_DH" -> {"CKA_PRIME", "CKA_BASE", "CKA_VALUE"}
      [] c = "CKO_PUBLIC_KEY" /\ kt = "CKK_DH" -> {"CKA_PRIME", "CKA_BASE", "CKA_VALUE"}
      [] c = "CKO_PRIVATE_KEY" -> {"CKA_EC_PARAMS", "CKA_VALUE"}
      [] c = "CKO_PUBLIC_KEY" -> {"CKA_EC_PARAMS", "CKA_EC_POINT"}
      [] OTHER -> {}

(* ---- rules of change ---------------------------------------------------------- *)
(* assigned by the token, never by callers *)
Assigned(c) == {"CKA_UNIQUE_ID", "CKA_LOCAL", "CKA_KEY_GEN_MECHANISM", "CKA_ALWAYS_SENSITIVE", "CKA_NEVER_EXTRACTABLE"}
               \cup (IF c \in KeyClasses THEN {"CKA_TRUSTED"} ELSE {})
OnlyTrue == {"CKA_SENSITIVE", "CKA_WRAP_WITH_TRUSTED"}
OnlyFalse == {"CKA_EXTRACTABLE", "CKA_COPYABLE"}
(* what an object is *)
Defining(a) == {"CKA_CLASS", "CKA_KEY_TYPE", "CKA_CERTIFICATE_TYPE"} \cup Secrets(a)
(* fixed unless the object is being copied *)
CopyOnly == {"CKA_TOKEN", "CKA_PRIVATE", "CKA_MODIFIABLE"}
Material(a) == IF Class(a) \in {"CKO_PUBLIC_KEY", "CKO_PRIVATE_KEY"} THEN TypeNames(Class(a), KType(a)) ELSE {}

ProvenanceNames == {"CKA_LOCAL", "CKA_KEY_GEN_MECHANISM", "CKA_ALWAYS_SENSITIVE", "CKA_NEVER_EXTRACTABLE",
                    "CKA_TRUSTED", "CKA_UNIQUE_ID"}
ProtectionNames == {"CKA_SENSITIVE", "CKA_EXTRACTABLE", "CKA_COPYABLE", "CKA_WRAP_WITH_TRUSTED", "CKA_MODIFIABLE",
                    "CKA_DESTROYABLE"}
UsageNames == {"CKA_ENCRYPT", "CKA_DECRYPT", "CKA_SIGN", "CKA_VERIFY", "CKA_WRAP", "CKA_UNWRAP", "CKA_DERIVE",
               "CKA_ALLOWED_MECHANISMS"}
(* which property a wrong value of an attribute touches on its own account *)
AttrTag(a, n) ==
    IF n \in ProvenanceNames THEN {"C11"}
    ELSE IF n \in ProtectionNames THEN {"C10"}
    ELSE IF n \in Secrets(a) THEN {"C09"}
    ELSE IF n \in UsageNames THEN {"C12"}
    ELSE {}

(* tags and text for giving attribute n the value v on an existing object;
   copying = through a copy's template                                          *)
ChangeReasons(a, n, v, copying) ==
    LET cur == G(a, n, "")
        same == n \in DOMAIN a /\ cur = v
    IN  (IF n \notin Names(Class(a), KType(a)) THEN {<<{"C26"}, "no such attribute">>}
         ELSE IF n \in Assigned(Class(a)) /\ ~(copying /\ same) THEN {<<{"C11", "C10"}, "token assigned attribute">>}
         ELSE IF n = "CKA_TRUSTED" /\ v = "T" /\ ~same THEN {<<{"C11"}, "TRUSTED set">>}
         ELSE IF n \in Defining(a) /\ ~same THEN {<<{"C10"}, "defining attribute">>}
         ELSE IF n \in Material(a) /\ ~same THEN {<<{"C10"}, "key material attribute">>}
         ELSE IF n \in CopyOnly /\ ~copying /\ ~same THEN {<<{"C10"}, "changeable only by copying">>}
         ELSE IF n \in OnlyTrue /\ v = "F" /\ cur = "T" THEN {<<{"C10"}, "one-way attribute">>}
         ELSE IF n \in OnlyFalse /\ v = "T" /\ cur # "T" THEN {<<{"C10"}, "one-way attribute">>}
         ELSE {})
(* changes an implementation may decline although nothing forbids them *)
MayDecline(a, n, v, copying) ==
    \/ n \in Assigned(Class(a)) \cup Defining(a) \cup Material(a)
    \/ (~copying /\ n \in CopyOnly)
    \/ n \in OnlyTrue \cup OnlyFalse /\ (copying \/ G(a, n, "?") = v \/ n \notin DOMAIN a)
    \/ n \in {"CKA_OTP_COUNTER", "CKA_OTP_LENGTH", "CKA_OTP_FORMAT", "CKA_TRUSTED", "CKA_CHECK_VALUE"}
    \/ n = "CKA_VALUE_LEN"

(* ---- what a reader sees --------------------------------------------------------- *)
View(a) == [n \in DOMAIN a |-> IF n \in Secrets(a) /\ Protected(a) THEN "!SENSITIVE" ELSE a[n]]

(* attributes whose first value only the token knows *)
Learnable(a) == {"CKA_UNIQUE_ID", "CKA_PUBLIC_KEY_INFO"}
                \cup (IF Class(a) \in SecClasses \cup {"CKO_PUBLIC_KEY"}
                      THEN {"CKA_VALUE_LEN"} \cup TypeNames(Class(a), KType(a)) \cup Secrets(a) ELSE {})
                \cup (IF Class(a) = "CKO_PUBLIC_KEY" THEN {"CKA_MODULUS_BITS"} ELSE {})

(* compare what was read (obs) with the object; tags say what is at stake.  A value that
   could not be known before becomes known.  Result: [a, i].                       *)
Observe(a, obs, tags) ==
    LET v == View(a)
        known == DOMAIN obs \cap DOMAIN v
        new == DOMAIN obs \ DOMAIN v
        learn == {n \in new : n \in Learnable(a) /\ obs[n] # "!SENSITIVE"}
        odd == {n \in new : n \notin Learnable(a)}
        leak == {n \in new : n \in Secrets(a) /\ Protected(a) /\ obs[n] # "!SENSITIVE"}
        shut == {n \in new : n \in Secrets(a) /\ ~Protected(a) /\ obs[n] = "!SENSITIVE"}
        gone == {n \in DOMAIN v : n \notin DOMAIN obs /\ n # "CKA_CHECK_VALUE"}
        bad == {n \in known : obs[n] # v[n]}
    IN  [a |-> [n \in DOMAIN a \cup learn |-> IF n \in DOMAIN a THEN a[n] ELSE obs[n]],
         i |-> UNION {
            {I(tags \cup AttrTag(a, n), n \o " is " \o obs[n] \o " should be " \o v[n]) : n \in bad},
            {I(tags \cup {"C09"}, n \o " revealed: " \o obs[n]) :
                 n \in leak \cup {m \in bad : v[m] = "!SENSITIVE"}},
            {I({"C09", "C27"}, n \o " withheld") : n \in shut},
            {I(tags \cup AttrTag(a, n), n \o " unexpected: " \o obs[n]) : n \in odd},
            {I(tags \cup AttrTag(a, n), n \o " missing, should be " \o v[n]) : n \in gone} }]
=============================================================================
