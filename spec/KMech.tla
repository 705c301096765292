------------------------------- MODULE KMech -------------------------------
(* Mechanisms: what they can be used for, with which keys, and how their
   results behave (deterministic? authenticated?).                             *)
EXTENDS KObject

AESCiph == {"CKM_AES_ECB", "CKM_AES_CBC", "CKM_AES_CBC_PAD", "CKM_AES_CTR", "CKM_AES_CTS", "CKM_AES_GCM",
            "CKM_AES_CCM", "CKM_AES_OFB", "CKM_AES_CFB1", "CKM_AES_CFB8", "CKM_AES_CFB128"}
AESWrap == {"CKM_AES_KEY_WRAP", "CKM_AES_KEY_WRAP_KWP"}
AESMac == {"CKM_AES_CMAC", "CKM_AES_CMAC_GENERAL", "CKM_AES_MAC", "CKM_AES_MAC_GENERAL"}
HmacKey(m) ==
    CASE m = "CKM_SHA_1_HMAC" -> "CKK_SHA_1_HMAC"
      [] m \in {"CKM_SHA256_HMAC", "CKM_SHA256_HMAC_GENERAL"} -> "CKK_SHA256_HMAC"
      [] OTHER -> "CKK_other_HMAC"
Hmacs == {"CKM_SHA_1_HMAC", "CKM_SHA224_HMAC", "CKM_SHA256_HMAC", "CKM_SHA256_HMAC_GENERAL", "CKM_SHA384_HMAC",
          "CKM_SHA512_HMAC", "CKM_SHA512_HMAC_GENERAL", "CKM_SHA3_256_HMAC"}
RSAEnc == {"CKM_RSA_PKCS", "CKM_RSA_X_509", "CKM_RSA_PKCS_OAEP"}
RSASigDet == {"CKM_RSA_PKCS", "CKM_RSA_X_509", "CKM_SHA1_RSA_PKCS", "CKM_SHA256_RSA_PKCS", "CKM_SHA384_RSA_PKCS",
              "CKM_SHA512_RSA_PKCS"}
RSAPss == {"CKM_RSA_PKCS_PSS", "CKM_SHA256_RSA_PKCS_PSS"}
ECDSAs == {"CKM_ECDSA", "CKM_ECDSA_SHA1", "CKM_ECDSA_SHA256", "CKM_ECDSA_SHA384"}
Digests == {"CKM_SHA_1", "CKM_SHA224", "CKM_SHA256", "CKM_SHA384", "CKM_SHA512", "CKM_SHA3_256", "CKM_SHA3_384",
            "CKM_SHA3_512"}
SimpleKdf == {"CKM_CONCATENATE_BASE_AND_DATA", "CKM_CONCATENATE_DATA_AND_BASE", "CKM_XOR_BASE_AND_DATA",
              "CKM_CONCATENATE_BASE_AND_KEY", "CKM_EXTRACT_KEY_FROM_KEY"}
HashKdf == {"CKM_SHA1_KEY_DERIVATION", "CKM_SHA256_KEY_DERIVATION"}
AesKdf == {"CKM_AES_ECB_ENCRYPT_DATA", "CKM_AES_CBC_ENCRYPT_DATA"}

Kinds == {"enc", "dec", "sign", "ver", "dig", "versig", "menc", "mdec"}
NeedsKey(k) == k # "dig"

(* the uses a mechanism declares *)
Uses(m) ==
    CASE m \in {"CKM_AES_GCM", "CKM_AES_CCM"} -> {"enc", "dec", "wrap", "unwrap", "menc", "mdec"}
      [] m \in {"CKM_AES_OFB", "CKM_AES_CFB1", "CKM_AES_CFB8", "CKM_AES_CFB128"} -> {"enc", "dec"}
      [] m \in AESCiph \cup AESWrap -> {"enc", "dec", "wrap", "unwrap"}
      [] m \in AESMac \cup Hmacs \cup {"CKM_HOTP"} -> {"sign", "ver"}
      [] m \in {"CKM_RSA_PKCS", "CKM_RSA_X_509"} -> {"enc", "dec", "sign", "ver", "wrap", "unwrap"}
      [] m = "CKM_RSA_PKCS_OAEP" -> {"enc", "dec", "wrap", "unwrap"}
      [] m \in RSASigDet \cup RSAPss \cup ECDSAs -> {"sign", "ver"}
      [] m \in Digests -> {"dig"}
      [] m \in SimpleKdf \cup HashKdf \cup AesKdf \cup {"CKM_ECDH1_DERIVE", "CKM_ECDH1_COFACTOR_DERIVE",
              "CKM_DH_PKCS_DERIVE", "CKM_HKDF_DERIVE", "CKM_HKDF_DATA", "CKM_PUB_KEY_FROM_PRIV_KEY"} -> {"derive"}
      [] m \in {"CKM_AES_KEY_GEN", "CKM_GENERIC_SECRET_KEY_GEN", "CKM_HKDF_KEY_GEN", "CKM_HOTP_KEY_GEN",
              "CKM_PKCS5_PBKD2"} -> {"gen"}
      [] m \in {"CKM_RSA_PKCS_KEY_PAIR_GEN", "CKM_EC_KEY_PAIR_GEN", "CKM_EC_MONTGOMERY_KEY_PAIR_GEN",
              "CKM_DH_PKCS_KEY_PAIR_GEN"} -> {"genpair"}
      [] OTHER -> {}
Supports(m, use) == (IF use = "versig" THEN "ver" ELSE use) \in Uses(m)

(* CKF_ flag bits by use *)
FlagBit(use) ==
    CASE use = "menc" -> 2 [] use = "mdec" -> 4 [] use = "enc" -> 256 [] use = "dec" -> 512 [] use = "dig" -> 1024
      [] use = "sign" -> 2048 [] use = "ver" -> 8192 [] use = "gen" -> 32768 [] use = "genpair" -> 65536
      [] use = "wrap" -> 131072 [] use = "unwrap" -> 262144 [] use = "derive" -> 524288
HasBit(n, b) == (n \div b) % 2 = 1
FlagUses(n) == {u \in {"menc", "mdec", "enc", "dec", "dig", "sign", "ver", "gen", "genpair", "wrap", "unwrap", "derive"} :
                  HasBit(n, FlagBit(u))}

UsageAttr(use) ==
    CASE use \in {"enc", "menc"} -> "CKA_ENCRYPT" [] use \in {"dec", "mdec"} -> "CKA_DECRYPT"
      [] use = "sign" -> "CKA_SIGN" [] use \in {"ver", "versig"} -> "CKA_VERIFY"
      [] use = "wrap" -> "CKA_WRAP" [] use = "unwrap" -> "CKA_UNWRAP" [] use = "derive" -> "CKA_DERIVE"

(* does the key's class and type fit? "no" must be refused, "yes" must work, "may": unspecified *)
Fits(m, use, a) ==
    LET c == Class(a) k == KType(a)
        y(b) == IF b THEN "yes" ELSE "no"
    IN  CASE use \in {"wrap", "unwrap"} /\ m \in AESCiph \cup AESWrap /\ c = "CKO_SECRET_KEY" /\ k = "CKK_GENERIC_SECRET" -> "may"
          [] m \in AESCiph \cup AESWrap \cup AESMac \cup AesKdf -> y(c = "CKO_SECRET_KEY" /\ k = "CKK_AES")
          [] m \in Hmacs -> IF c = "CKO_SECRET_KEY" /\ k = "CKK_GENERIC_SECRET" THEN "yes"
                            ELSE IF c = "CKO_SECRET_KEY" /\ k = HmacKey(m) THEN "yes"
                            ELSE IF c = "CKO_SECRET_KEY" /\ k = "CKK_SHA256_HMAC" /\ HmacKey(m) = "CKK_other_HMAC" THEN "no"
                            ELSE "no"
          [] m = "CKM_HOTP" -> y(c = "CKO_OTP_KEY" /\ k = "CKK_HOTP")
          [] m \in RSAEnc \cup RSASigDet \cup RSAPss ->
                y(k = "CKK_RSA" /\ c = (IF use \in {"enc", "ver", "versig", "wrap"} THEN "CKO_PUBLIC_KEY" ELSE "CKO_PRIVATE_KEY"))
          [] m \in ECDSAs -> y(k = "CKK_EC" /\ c = (IF use = "sign" THEN "CKO_PRIVATE_KEY" ELSE "CKO_PUBLIC_KEY"))
          [] m \in {"CKM_ECDH1_DERIVE", "CKM_ECDH1_COFACTOR_DERIVE"} ->
                y(c = "CKO_PRIVATE_KEY" /\ k \in {"CKK_EC", "CKK_EC_MONTGOMERY"})
          [] m = "CKM_DH_PKCS_DERIVE" -> y(c = "CKO_PRIVATE_KEY" /\ k = "CKK_DH")
          [] m \in {"CKM_HKDF_DERIVE", "CKM_HKDF_DATA"} ->
                IF c = "CKO_SECRET_KEY" /\ k \in {"CKK_HKDF", "CKK_GENERIC_SECRET"} THEN "yes"
                ELSE IF c \in {"CKO_SECRET_KEY", "CKO_DATA"} THEN "may" ELSE "no"
          [] m \in SimpleKdf \cup HashKdf -> IF c = "CKO_SECRET_KEY" /\ k \in {"CKK_GENERIC_SECRET", "CKK_AES"} THEN "yes"
                                             ELSE IF c = "CKO_SECRET_KEY" THEN "may" ELSE "no"
          [] m = "CKM_PUB_KEY_FROM_PRIV_KEY" -> y(c = "CKO_PRIVATE_KEY")
          [] OTHER -> "may"

(* "+"-joined list membership *)
RECURSIVE InList(_, _)
InList(x, l) ==
    LET n == Len(x) IN
    IF Len(l) < n THEN FALSE
    ELSE IF l = x THEN TRUE
    ELSE IF SubSeq(l, 1, n) = x /\ SubSeq(l, n + 1, n + 1) = "+" THEN TRUE
    ELSE \E p \in 1 .. Len(l) : SubSeq(l, p, p) = "+" /\ (\A q \in 1 .. (p - 1) : SubSeq(l, q, q) # "+")
                                /\ InList(x, SubSeq(l, p + 1, Len(l)))
Allowed(a, m) == "CKA_ALLOWED_MECHANISMS" \notin DOMAIN a \/ InList(m, a.CKA_ALLOWED_MECHANISMS)

(* ---- how results behave ------------------------------------------------------- *)
Randomised(kind, m) == (kind \in {"enc", "wrap"} /\ m \in {"CKM_RSA_PKCS", "CKM_RSA_PKCS_OAEP"})
                       \/ (kind = "sign" /\ m \in RSAPss \cup ECDSAs)
(* a successful decryption or unwrapping proves that the input was produced *)
Authenticated(m) == m \in {"CKM_AES_GCM", "CKM_AES_CCM", "CKM_RSA_PKCS_OAEP"} \cup AESWrap
Mac(m) == m \in AESMac \cup Hmacs
=============================================================================
