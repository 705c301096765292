// Name <-> number tables for the PKCS#11 constants the harness speaks about.
use kryoptic_lib::pkcs11::*;

macro_rules! tab { ($($n:ident),* $(,)?) => { &[$((stringify!($n), $n as CK_ULONG)),*] } }

#[derive(Clone, Copy, PartialEq)]
pub enum Kind { Bool, Num, Bytes, NumList }

pub static ATTRS: &[(&str, CK_ULONG)] = tab!(
    CKA_CLASS, CKA_TOKEN, CKA_PRIVATE, CKA_LABEL, CKA_UNIQUE_ID, CKA_APPLICATION, CKA_VALUE, CKA_OBJECT_ID,
    CKA_CERTIFICATE_TYPE, CKA_ISSUER, CKA_SERIAL_NUMBER, CKA_CERTIFICATE_CATEGORY, CKA_TRUSTED, CKA_CHECK_VALUE,
    CKA_KEY_TYPE, CKA_SUBJECT, CKA_ID, CKA_SENSITIVE, CKA_ENCRYPT, CKA_DECRYPT, CKA_WRAP, CKA_UNWRAP, CKA_SIGN,
    CKA_SIGN_RECOVER, CKA_VERIFY, CKA_VERIFY_RECOVER, CKA_DERIVE, CKA_START_DATE, CKA_END_DATE, CKA_MODULUS,
    CKA_MODULUS_BITS, CKA_PUBLIC_EXPONENT, CKA_PRIVATE_EXPONENT, CKA_PRIME_1, CKA_PRIME_2, CKA_EXPONENT_1,
    CKA_EXPONENT_2, CKA_COEFFICIENT, CKA_PUBLIC_KEY_INFO, CKA_VALUE_LEN, CKA_EXTRACTABLE, CKA_LOCAL,
    CKA_NEVER_EXTRACTABLE, CKA_ALWAYS_SENSITIVE, CKA_KEY_GEN_MECHANISM, CKA_MODIFIABLE, CKA_COPYABLE,
    CKA_DESTROYABLE, CKA_EC_PARAMS, CKA_EC_POINT, CKA_ALWAYS_AUTHENTICATE, CKA_WRAP_WITH_TRUSTED,
    CKA_ALLOWED_MECHANISMS, CKA_PROFILE_ID, CKA_OTP_COUNTER, CKA_OTP_LENGTH, CKA_OTP_FORMAT,
    CKA_OTP_COUNTER_REQUIREMENT, CKA_PRIME, CKA_BASE, CKA_SUBPRIME, CKA_URL, CKA_HASH_OF_SUBJECT_PUBLIC_KEY,
    CKA_HASH_OF_ISSUER_PUBLIC_KEY, CKA_NAME_HASH_ALGORITHM, CKA_TRUST_SERVER_AUTH, CKA_TRUST_CLIENT_AUTH,
    CKA_TRUST_CODE_SIGNING, CKA_TRUST_EMAIL_PROTECTION, CKA_HASH_OF_CERTIFICATE, CKA_ENCAPSULATE, CKA_DECAPSULATE,
    CKA_MECHANISM_TYPE, CKA_HW_FEATURE_TYPE, CKA_WRAP_TEMPLATE, CKA_UNWRAP_TEMPLATE, CKA_DERIVE_TEMPLATE,
);

pub fn attr_kind(n: &str) -> Kind {
    match n {
        "CKA_TOKEN" | "CKA_PRIVATE" | "CKA_TRUSTED" | "CKA_SENSITIVE" | "CKA_ENCRYPT" | "CKA_DECRYPT" | "CKA_WRAP"
        | "CKA_UNWRAP" | "CKA_SIGN" | "CKA_SIGN_RECOVER" | "CKA_VERIFY" | "CKA_VERIFY_RECOVER" | "CKA_DERIVE"
        | "CKA_EXTRACTABLE" | "CKA_LOCAL" | "CKA_NEVER_EXTRACTABLE" | "CKA_ALWAYS_SENSITIVE" | "CKA_MODIFIABLE"
        | "CKA_COPYABLE" | "CKA_DESTROYABLE" | "CKA_ALWAYS_AUTHENTICATE" | "CKA_WRAP_WITH_TRUSTED"
        | "CKA_ENCAPSULATE" | "CKA_DECAPSULATE" => Kind::Bool,
        "CKA_CLASS" | "CKA_CERTIFICATE_TYPE" | "CKA_CERTIFICATE_CATEGORY" | "CKA_KEY_TYPE" | "CKA_MODULUS_BITS"
        | "CKA_VALUE_LEN" | "CKA_KEY_GEN_MECHANISM" | "CKA_PROFILE_ID" | "CKA_OTP_LENGTH" | "CKA_OTP_FORMAT"
        | "CKA_OTP_COUNTER_REQUIREMENT" | "CKA_NAME_HASH_ALGORITHM" | "CKA_TRUST_SERVER_AUTH"
        | "CKA_TRUST_CLIENT_AUTH" | "CKA_TRUST_CODE_SIGNING" | "CKA_TRUST_EMAIL_PROTECTION" | "CKA_MECHANISM_TYPE"
        | "CKA_HW_FEATURE_TYPE" => Kind::Num,
        "CKA_ALLOWED_MECHANISMS" => Kind::NumList,
        _ => Kind::Bytes,
    }
}

pub static NUMS: &[(&str, CK_ULONG)] = tab!(
    CKO_DATA, CKO_CERTIFICATE, CKO_PUBLIC_KEY, CKO_PRIVATE_KEY, CKO_SECRET_KEY, CKO_HW_FEATURE, CKO_MECHANISM,
    CKO_OTP_KEY, CKO_PROFILE, CKO_TRUST, CKO_VALIDATION,
    CKK_RSA, CKK_EC, CKK_AES, CKK_GENERIC_SECRET, CKK_SHA256_HMAC, CKK_SHA_1_HMAC, CKK_HOTP, CKK_HKDF, CKK_DH, CKK_EC_MONTGOMERY,
    CKK_DES3,
    CKC_X_509,
    CKM_AES_KEY_GEN, CKM_AES_ECB, CKM_AES_CBC, CKM_AES_CBC_PAD, CKM_AES_CTR, CKM_AES_GCM, CKM_AES_CCM, CKM_AES_CTS,
    CKM_AES_CMAC, CKM_AES_CMAC_GENERAL, CKM_AES_MAC, CKM_AES_MAC_GENERAL, CKM_AES_KEY_WRAP, CKM_AES_KEY_WRAP_KWP,
    CKM_AES_OFB, CKM_AES_CFB8, CKM_AES_CFB128, CKM_AES_CFB1, CKM_AES_ECB_ENCRYPT_DATA, CKM_AES_CBC_ENCRYPT_DATA,
    CKM_GENERIC_SECRET_KEY_GEN, CKM_SHA_1, CKM_SHA224, CKM_SHA256, CKM_SHA384, CKM_SHA512, CKM_SHA3_256, CKM_SHA3_512,
    CKM_SHA_1_HMAC, CKM_SHA256_HMAC, CKM_SHA256_HMAC_GENERAL, CKM_SHA384_HMAC, CKM_SHA512_HMAC,
    CKM_SHA512_HMAC_GENERAL, CKM_SHA3_256_HMAC, CKM_SHA3_384, CKM_SHA224_HMAC,
    CKM_RSA_PKCS_KEY_PAIR_GEN, CKM_RSA_PKCS, CKM_RSA_X_509, CKM_SHA256_RSA_PKCS, CKM_SHA512_RSA_PKCS,
    CKM_RSA_PKCS_PSS, CKM_SHA256_RSA_PKCS_PSS, CKM_RSA_PKCS_OAEP, CKM_SHA1_RSA_PKCS, CKM_SHA384_RSA_PKCS,
    CKM_EC_KEY_PAIR_GEN, CKM_ECDSA, CKM_ECDSA_SHA256, CKM_ECDSA_SHA1, CKM_ECDSA_SHA384, CKM_ECDH1_DERIVE, CKM_ECDH1_COFACTOR_DERIVE,
    CKM_EC_MONTGOMERY_KEY_PAIR_GEN, CKM_DH_PKCS_KEY_PAIR_GEN, CKM_DH_PKCS_DERIVE,
    CKM_HKDF_DERIVE, CKM_HKDF_DATA, CKM_HKDF_KEY_GEN, CKM_PKCS5_PBKD2, CKM_SHA256_KEY_DERIVATION, CKM_SHA1_KEY_DERIVATION,
    CKM_CONCATENATE_BASE_AND_DATA, CKM_CONCATENATE_DATA_AND_BASE, CKM_XOR_BASE_AND_DATA, CKM_CONCATENATE_BASE_AND_KEY,
    CKM_EXTRACT_KEY_FROM_KEY, CKM_PUB_KEY_FROM_PRIV_KEY,
    CKM_HOTP_KEY_GEN, CKM_HOTP, CKM_VENDOR_DEFINED,
    CKG_MGF1_SHA1, CKG_MGF1_SHA256, CKG_NO_GENERATE, CKG_GENERATE, CKG_GENERATE_COUNTER, CKG_GENERATE_RANDOM,
    CKG_GENERATE_COUNTER_XOR,
    CKU_SO, CKU_USER, CKU_CONTEXT_SPECIFIC,
    CK_OTP_PARAM_MANDATORY, CK_OTP_PARAM_OPTIONAL, CK_OTP_PARAM_IGNORED, CK_OTP_FORMAT_DECIMAL,
    CKD_NULL, CKT_TRUSTED, CKT_NOT_TRUSTED, CKT_TRUST_ANCHOR, CKT_TRUST_MUST_VERIFY_TRUST,
);

static RVS: &[(&str, CK_ULONG)] = tab!(
    CKR_OK, CKR_CANCEL, CKR_HOST_MEMORY, CKR_SLOT_ID_INVALID, CKR_GENERAL_ERROR, CKR_FUNCTION_FAILED,
    CKR_ARGUMENTS_BAD, CKR_NO_EVENT, CKR_NEED_TO_CREATE_THREADS, CKR_CANT_LOCK, CKR_ATTRIBUTE_READ_ONLY,
    CKR_ATTRIBUTE_SENSITIVE, CKR_ATTRIBUTE_TYPE_INVALID, CKR_ATTRIBUTE_VALUE_INVALID, CKR_ACTION_PROHIBITED,
    CKR_DATA_INVALID, CKR_DATA_LEN_RANGE, CKR_DEVICE_ERROR, CKR_DEVICE_MEMORY, CKR_DEVICE_REMOVED,
    CKR_ENCRYPTED_DATA_INVALID, CKR_ENCRYPTED_DATA_LEN_RANGE, CKR_AEAD_DECRYPT_FAILED, CKR_FUNCTION_CANCELED,
    CKR_FUNCTION_NOT_PARALLEL, CKR_FUNCTION_NOT_SUPPORTED, CKR_KEY_HANDLE_INVALID, CKR_KEY_SIZE_RANGE,
    CKR_KEY_TYPE_INCONSISTENT, CKR_KEY_NOT_NEEDED, CKR_KEY_CHANGED, CKR_KEY_NEEDED, CKR_KEY_INDIGESTIBLE,
    CKR_KEY_FUNCTION_NOT_PERMITTED, CKR_KEY_NOT_WRAPPABLE, CKR_KEY_UNEXTRACTABLE, CKR_MECHANISM_INVALID,
    CKR_MECHANISM_PARAM_INVALID, CKR_OBJECT_HANDLE_INVALID, CKR_OPERATION_ACTIVE, CKR_OPERATION_NOT_INITIALIZED,
    CKR_PIN_INCORRECT, CKR_PIN_INVALID, CKR_PIN_LEN_RANGE, CKR_PIN_EXPIRED, CKR_PIN_LOCKED, CKR_SESSION_CLOSED,
    CKR_SESSION_COUNT, CKR_SESSION_HANDLE_INVALID, CKR_SESSION_PARALLEL_NOT_SUPPORTED, CKR_SESSION_READ_ONLY,
    CKR_SESSION_EXISTS, CKR_SESSION_READ_ONLY_EXISTS, CKR_SESSION_READ_WRITE_SO_EXISTS, CKR_SIGNATURE_INVALID,
    CKR_SIGNATURE_LEN_RANGE, CKR_TEMPLATE_INCOMPLETE, CKR_TEMPLATE_INCONSISTENT, CKR_TOKEN_NOT_PRESENT,
    CKR_TOKEN_NOT_RECOGNIZED, CKR_TOKEN_WRITE_PROTECTED, CKR_UNWRAPPING_KEY_HANDLE_INVALID,
    CKR_UNWRAPPING_KEY_SIZE_RANGE, CKR_UNWRAPPING_KEY_TYPE_INCONSISTENT, CKR_USER_ALREADY_LOGGED_IN,
    CKR_USER_NOT_LOGGED_IN, CKR_USER_PIN_NOT_INITIALIZED, CKR_USER_TYPE_INVALID,
    CKR_USER_ANOTHER_ALREADY_LOGGED_IN, CKR_USER_TOO_MANY_TYPES, CKR_WRAPPED_KEY_INVALID,
    CKR_WRAPPED_KEY_LEN_RANGE, CKR_WRAPPING_KEY_HANDLE_INVALID, CKR_WRAPPING_KEY_SIZE_RANGE,
    CKR_WRAPPING_KEY_TYPE_INCONSISTENT, CKR_RANDOM_SEED_NOT_SUPPORTED, CKR_RANDOM_NO_RNG,
    CKR_DOMAIN_PARAMS_INVALID, CKR_CURVE_NOT_SUPPORTED, CKR_BUFFER_TOO_SMALL, CKR_SAVED_STATE_INVALID,
    CKR_INFORMATION_SENSITIVE, CKR_STATE_UNSAVEABLE, CKR_CRYPTOKI_NOT_INITIALIZED,
    CKR_CRYPTOKI_ALREADY_INITIALIZED, CKR_MUTEX_BAD, CKR_MUTEX_NOT_LOCKED, CKR_FUNCTION_REJECTED,
    CKR_OPERATION_CANCEL_FAILED, CKR_KEY_EXHAUSTED, CKR_OPERATION_NOT_VALIDATED, CKR_PIN_TOO_WEAK,
    CKR_PUBLIC_KEY_INVALID, CKR_TOKEN_RESOURCE_EXCEEDED,
);

pub fn rv_name(rv: CK_RV) -> String {
    for (n, v) in RVS {
        if *v == rv {
            return n[4..].to_string();
        }
    }
    format!("0x{:x}", rv)
}

pub fn num(name: &str) -> Option<CK_ULONG> {
    NUMS.iter().find(|x| x.0 == name).map(|x| x.1)
}

pub fn attr(name: &str) -> Option<CK_ULONG> {
    ATTRS.iter().find(|x| x.0 == name).map(|x| x.1)
}

pub fn num_name(prefix: &str, v: CK_ULONG) -> String {
    for (n, x) in NUMS {
        if *x == v && n.starts_with(prefix) {
            return n.to_string();
        }
    }
    format!("{}", v)
}
