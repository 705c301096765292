// every function of the table with harmless arguments (generated once from the bindings)
use kryoptic_lib::pkcs11::*;

pub fn probe(f: &CK_FUNCTION_LIST_3_2) -> Vec<(&'static str, CK_RV)> {
    let mut res = Vec::new();
    let mut buf = [0u64; 512];
    let mut val = [0u8; 8];
    let mut attr = [CK_ATTRIBUTE { type_: CKA_LABEL, pValue: val.as_mut_ptr() as _, ulValueLen: 8 }];
    let mut mech = CK_MECHANISM { mechanism: CKM_SHA256, pParameter: std::ptr::null_mut(), ulParameterLen: 0 };
    let mut len: CK_ULONG = 8;
    macro_rules! t {
        ($n:ident, $($a:expr),*) => {
            if let Some(g) = f.$n {
                len = 8;
                #[allow(unused_unsafe)]
                let rv = unsafe { g($($a),*) };
                res.push((stringify!($n), rv));
            }
        };
    }
    t!(C_Finalize, buf.as_mut_ptr() as _);
    t!(C_GetInfo, buf.as_mut_ptr() as _);
    t!(C_GetSlotList, 0, buf.as_mut_ptr() as _, &mut len);
    t!(C_GetSlotInfo, 0, buf.as_mut_ptr() as _);
    t!(C_GetTokenInfo, 0, buf.as_mut_ptr() as _);
    t!(C_GetMechanismList, 0, buf.as_mut_ptr() as _, &mut len);
    t!(C_GetMechanismInfo, 0, 1, buf.as_mut_ptr() as _);
    t!(C_InitToken, 0, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _);
    t!(C_InitPIN, 1, buf.as_mut_ptr() as _, 1);
    t!(C_SetPIN, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1);
    t!(C_OpenSession, 0, 6, buf.as_mut_ptr() as _, None, buf.as_mut_ptr() as _);
    t!(C_CloseSession, 1);
    t!(C_CloseAllSessions, 0);
    t!(C_GetSessionInfo, 1, buf.as_mut_ptr() as _);
    t!(C_GetOperationState, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_SetOperationState, 1, buf.as_mut_ptr() as _, 1, 1, 1);
    t!(C_Login, 1, 1, buf.as_mut_ptr() as _, 1);
    t!(C_Logout, 1);
    t!(C_CreateObject, 1, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _);
    t!(C_CopyObject, 1, 1, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _);
    t!(C_DestroyObject, 1, 1);
    t!(C_GetObjectSize, 1, 1, &mut len);
    t!(C_GetAttributeValue, 1, 1, attr.as_mut_ptr(), 1);
    t!(C_SetAttributeValue, 1, 1, attr.as_mut_ptr(), 1);
    t!(C_FindObjectsInit, 1, attr.as_mut_ptr(), 1);
    t!(C_FindObjects, 1, buf.as_mut_ptr() as _, 1, &mut len);
    t!(C_FindObjectsFinal, 1);
    t!(C_EncryptInit, 1, &mut mech, 1);
    t!(C_Encrypt, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_EncryptUpdate, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_EncryptFinal, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DecryptInit, 1, &mut mech, 1);
    t!(C_Decrypt, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DecryptUpdate, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DecryptFinal, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DigestInit, 1, &mut mech);
    t!(C_Digest, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DigestUpdate, 1, buf.as_mut_ptr() as _, 1);
    t!(C_DigestKey, 1, 1);
    t!(C_DigestFinal, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_SignInit, 1, &mut mech, 1);
    t!(C_Sign, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_SignUpdate, 1, buf.as_mut_ptr() as _, 1);
    t!(C_SignFinal, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_SignRecoverInit, 1, &mut mech, 1);
    t!(C_SignRecover, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_VerifyInit, 1, &mut mech, 1);
    t!(C_Verify, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1);
    t!(C_VerifyUpdate, 1, buf.as_mut_ptr() as _, 1);
    t!(C_VerifyFinal, 1, buf.as_mut_ptr() as _, 1);
    t!(C_VerifyRecoverInit, 1, &mut mech, 1);
    t!(C_VerifyRecover, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DigestEncryptUpdate, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DecryptDigestUpdate, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_SignEncryptUpdate, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DecryptVerifyUpdate, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_GenerateKey, 1, &mut mech, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _);
    t!(C_GenerateKeyPair, 1, &mut mech, attr.as_mut_ptr(), 1, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _, buf.as_mut_ptr() as _);
    t!(C_WrapKey, 1, &mut mech, 1, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_UnwrapKey, 1, &mut mech, 1, buf.as_mut_ptr() as _, 1, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _);
    t!(C_DeriveKey, 1, &mut mech, 1, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _);
    t!(C_SeedRandom, 1, buf.as_mut_ptr() as _, 1);
    t!(C_GenerateRandom, 1, buf.as_mut_ptr() as _, 1);
    t!(C_GetFunctionStatus, 1);
    t!(C_CancelFunction, 1);
    t!(C_WaitForSlotEvent, 6, buf.as_mut_ptr() as _, buf.as_mut_ptr() as _);
    t!(C_LoginUser, 1, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1);
    t!(C_SessionCancel, 1, 6);
    t!(C_MessageEncryptInit, 1, &mut mech, 1);
    t!(C_EncryptMessage, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_EncryptMessageBegin, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1);
    t!(C_EncryptMessageNext, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len, 6);
    t!(C_MessageEncryptFinal, 1);
    t!(C_MessageDecryptInit, 1, &mut mech, 1);
    t!(C_DecryptMessage, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_DecryptMessageBegin, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1);
    t!(C_DecryptMessageNext, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len, 6);
    t!(C_MessageDecryptFinal, 1);
    t!(C_MessageSignInit, 1, &mut mech, 1);
    t!(C_SignMessage, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_SignMessageBegin, 1, buf.as_mut_ptr() as _, 1);
    t!(C_SignMessageNext, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_MessageSignFinal, 1);
    t!(C_MessageVerifyInit, 1, &mut mech, 1);
    t!(C_VerifyMessage, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1);
    t!(C_VerifyMessageBegin, 1, buf.as_mut_ptr() as _, 1);
    t!(C_VerifyMessageNext, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1);
    t!(C_MessageVerifyFinal, 1);
    t!(C_EncapsulateKey, 1, &mut mech, 1, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _, &mut len, buf.as_mut_ptr() as _);
    t!(C_DecapsulateKey, 1, &mut mech, 1, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _);
    t!(C_VerifySignatureInit, 1, &mut mech, 1, buf.as_mut_ptr() as _, 1);
    t!(C_VerifySignature, 1, buf.as_mut_ptr() as _, 1);
    t!(C_VerifySignatureUpdate, 1, buf.as_mut_ptr() as _, 1);
    t!(C_VerifySignatureFinal, 1);
    t!(C_GetSessionValidationFlags, 1, 1, buf.as_mut_ptr() as _);
    t!(C_AsyncComplete, 1, buf.as_mut_ptr() as _, buf.as_mut_ptr() as _);
    t!(C_AsyncGetID, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_AsyncJoin, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, 1);
    t!(C_WrapKeyAuthenticated, 1, &mut mech, 1, 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _, &mut len);
    t!(C_UnwrapKeyAuthenticated, 1, &mut mech, 1, buf.as_mut_ptr() as _, 1, attr.as_mut_ptr(), 1, buf.as_mut_ptr() as _, 1, buf.as_mut_ptr() as _);
    let _ = (&len, &val, &attr);
    res
}
