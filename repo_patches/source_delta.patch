From e596dd5f9d12a6ca54bda811497614b34c614f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 01/53] fix: report sessions opened while the SO is logged in
 as R/W SO sessions

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index ab48f2a..35f2c78 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -352,7 +352,7 @@ impl Session {
                     }
                     CKU_SO => {
                         if rw {
-                            CKS_RW_USER_FUNCTIONS
+                            CKS_RW_SO_FUNCTIONS
                         } else {
                             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
                         }
-- 
2.43.0


From 63d9b8886382455ffb487cd42db407e62a095ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 02/53] fix: do not let C_CopyObject create token objects in
 read-only sessions

---
 src/fns/objmgmt.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index 4555924..c048e79 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -147,6 +147,15 @@ fn copy_object(
     let slot_id = session.get_slot_id();
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
 
+    /* a copy is a token object like the original, unless the template says
+     * otherwise, so a read only session can't just check the template */
+    if !session.is_writable()
+        && !tmpl.iter().any(|a| a.type_ == CKA_TOKEN)
+        && token.get_object_by_handle(o_handle)?.is_token()
+    {
+        return Err(CKR_SESSION_READ_ONLY)?;
+    }
+
     /* TODO: return CKR_ACTION_PROHIBITED instead of CKR_USER_NOT_LOGGED_IN ? */
     let oh = token.copy_object(s_handle, o_handle, tmpl)?;
 
-- 
2.43.0


From 358b605af72526b5ba26a5d3f970cd6bedb95ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 03/53] fix: report failures to remove a destroyed object from
 storage

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 8c7ce83..cf758e6 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -764,7 +764,7 @@ impl Token {
                 if !obj.is_destroyable() {
                     return Err(CKR_ACTION_PROHIBITED)?;
                 }
-                let _ = self.storage.remove(&self.facilities, o_handle);
+                self.storage.remove(&self.facilities, o_handle)?;
             }
         }
         self.facilities.handles.remove(o_handle);
-- 
2.43.0


From 092b098d2de5126d7f604445798d88a040085da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 04/53] fix: clear the PIN attempts flags when a new PIN is set

---
 src/token.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index cf758e6..2a7c97f 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -313,6 +313,9 @@ impl Token {
 
         self.storage.set_user_pin(&self.facilities, utype, pin)?;
 
+        /* a new PIN starts with a clean attempts counter */
+        self.update_auth_flags(utype, 0);
+
         if utype == CKU_USER {
             self.info.flags |= CKF_USER_PIN_INITIALIZED;
         }
-- 
2.43.0


From d1895c5c1f30da6fde0f45fda92f3db4f6e521fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 05/53] fix: fail with CKR_KEY_EXHAUSTED instead of overflowing
 the HOTP counter

---
 src/hotp.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/hotp.rs b/src/hotp.rs
index 3047024..2845908 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -551,6 +551,14 @@ impl Sign for HOTPOperation {
 
         self.finalized = true;
 
+        /* once the counter is exhausted no further value can be produced */
+        let next = match self.update {
+            Some(_) => u64::from_be_bytes(self.counter)
+                .checked_add(1)
+                .ok_or(CKR_KEY_EXHAUSTED)?,
+            None => 0,
+        };
+
         let mut otp = vec![0u8; self.length];
         let counter = self.counter;
         self.generate_otp(&counter, &mut otp)?;
@@ -578,9 +586,7 @@ impl Sign for HOTPOperation {
         }
 
         if self.update.is_some() {
-            let mut c_val = u64::from_be_bytes(self.counter);
-            c_val += 1;
-            self.counter = c_val.to_be_bytes();
+            self.counter = next.to_be_bytes();
             self.update = Some(true);
         }
 
@@ -639,12 +645,17 @@ impl Verify for HOTPOperation {
             self.generate_otp(&current_counter, &mut otp)?;
             if signature == otp {
                 if self.update.is_some() {
-                    self.counter = (c_val + 1).to_be_bytes();
+                    let next =
+                        c_val.checked_add(1).ok_or(CKR_KEY_EXHAUSTED)?;
+                    self.counter = next.to_be_bytes();
                     self.update = Some(true);
                 }
                 return Ok(());
             }
-            c_val += 1;
+            c_val = match c_val.checked_add(1) {
+                Some(c) => c,
+                None => break,
+            };
         }
         Err(CKR_SIGNATURE_INVALID)?
     }
-- 
2.43.0


From 90d991030ee15ba5ee9c29fbaa56243ab7c59c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 06/53] fix: do not let C_CopyObject or C_SetAttributeValue
 change attributes that define an object

---
 src/object/factory.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 4d74146..cc5e5d8 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -133,6 +133,18 @@ impl ObjectAttr {
     pub fn has_default(&self) -> bool {
         self.flags.contains(OAFlags::Defval)
     }
+
+    /// Checks if this attribute is fixed once the object exists: it defines
+    /// what the object is or holds, so neither C_SetAttributeValue() nor
+    /// C_CopyObject() may provide a different value for it.
+    fn is_fixed(&self) -> bool {
+        self.is(OAFlags::NeverSettable)
+            || self.is(OAFlags::Sensitive)
+            || matches!(
+                self.get_type(),
+                CKA_CLASS | CKA_KEY_TYPE | CKA_CERTIFICATE_TYPE
+            )
+    }
 }
 
 /// Helper to quickly instantiate an ObjectAttr element
@@ -408,6 +420,20 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
+                    if attr.is_fixed() {
+                        /* repeating the current value is harmless, but must
+                         * not be usable to probe for sensitive values */
+                        let same = match origin.get_attr(ck_attr.type_) {
+                            Some(a) => {
+                                !attr.is(OAFlags::Sensitive)
+                                    && *a.get_value() == ck_attr.to_buf()?
+                            }
+                            None => false,
+                        };
+                        if !same {
+                            return Err(CKR_ATTRIBUTE_READ_ONLY)?;
+                        }
+                    }
                     if attr.is(OAFlags::Unchangeable) {
                         if attr
                             .is(OAFlags::ChangeToFalse | OAFlags::ChangeToTrue)
@@ -490,6 +516,9 @@ pub trait ObjectFactory: Debug + Send + Sync {
                     if attr.is(OAFlags::NeverSettable) {
                         return Err(CKR_ACTION_PROHIBITED)?;
                     }
+                    if attr.is_fixed() {
+                        return Err(CKR_ATTRIBUTE_READ_ONLY)?;
+                    }
                     if attr.is(OAFlags::Unchangeable) {
                         if attr.attribute.get_attrtype() == AttrType::BoolType {
                             let val = ck_attr.to_bool()?;
-- 
2.43.0


From 22a6ea3601476e825a45478b3d9f223854e5ca84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 07/53] fix: implement removal of objects in the NSS DB storage

---
 src/storage/nssdb/mod.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 2e6ffa9..2d00d78 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1418,13 +1418,38 @@ impl Storage for NSSStorage {
         Ok(result)
     }
 
-    /// Removes an object by handle (currently not supported for NSS DB).
+    /// Removes an object by handle.
+    ///
+    /// Deletes the object and the signatures of its authenticated attributes
+    /// in a single transaction.
     fn remove(
         &mut self,
-        _facilities: &TokenFacilities,
-        _handle: CK_OBJECT_HANDLE,
+        facilities: &TokenFacilities,
+        handle: CK_OBJECT_HANDLE,
     ) -> Result<()> {
-        Err(CKR_FUNCTION_NOT_SUPPORTED)?
+        let nssid = match facilities.handles.get(handle) {
+            Some(id) => id,
+            None => return Err(CKR_OBJECT_HANDLE_INVALID)?,
+        };
+        let (table, nssobjid) = nss_id_parse(nssid)?;
+        let dbtype = if table == NSS_PUBLIC_TABLE {
+            "cert"
+        } else {
+            "key"
+        };
+
+        let mut conn = self.conn.lock()?;
+        let mut tx = conn.transaction()?;
+        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        tx.execute(
+            &format!("DELETE FROM {} WHERE id=?", table),
+            params![Value::from(nssobjid)],
+        )?;
+        tx.execute(
+            "DELETE FROM metaData WHERE id LIKE ?",
+            params![Value::from(format!("sig_{}_{:08x}_%", dbtype, nssobjid))],
+        )?;
+        Ok(tx.commit()?)
     }
 
     /// Loads the token info (derived from configuration and DB state).
-- 
2.43.0


From 4b10eb91608e6c5bd41870f70406a607f7adf9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 08/53] fix: do not reveal private token objects via
 C_GetObjectSize when not logged in

---
 src/token.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index 2a7c97f..b4bda51 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -872,6 +872,13 @@ impl Token {
                 &[],
             )?),
         };
+        if obj.is_token()
+            && obj.is_private()
+            && !self.is_logged_in(KRY_UNSPEC)
+        {
+            /* do not reveal if the object exists or not */
+            return Err(CKR_OBJECT_HANDLE_INVALID)?;
+        }
         obj.rough_size()
     }
 
-- 
2.43.0


From 44548863e15ed610ae463c99d79f3b7882e226a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 09/53] fix: return the required length when the signature
 buffer is too small

---
 src/fns/signing.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 023c0bc..ef2936c 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -104,6 +104,7 @@ fn sign(
     }
     unsafe {
         if *pul_signature_len < sig_len {
+            *pul_signature_len = sig_len;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
@@ -235,6 +236,7 @@ fn sign_final(
     }
     unsafe {
         if *pul_signature_len < sig_len {
+            *pul_signature_len = sig_len;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
-- 
2.43.0


From fd73feab853c3df84ebaac9858fed64df8c529df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 10/53] fix: do not leave the library initialized when
 C_Initialize fails

---
 src/fns/general.rs | 56 ++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/fns/general.rs b/src/fns/general.rs
index 54c6105..b9c4144 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -13,7 +13,34 @@ use crate::error::Result;
 use crate::log_debug;
 use crate::pkcs11::*;
 use crate::slot::Slot;
-use crate::STATE;
+use crate::{State, STATE};
+
+/// Creates slots for any new slot specified in the configuration that has
+/// not been created yet, new slots can be added via init args so we check
+/// this every time. Returns whether any of the slots already existed.
+fn add_slots(conf: &Config, wstate: &mut State) -> Result<bool> {
+    let mut already_init = false;
+
+    for slot in &conf.slots {
+        let slotnum =
+            CK_SLOT_ID::try_from(slot.slot).map_err(|_| CKR_GENERAL_ERROR)?;
+        match Slot::new(slot) {
+            Ok(s) => match wstate.add_slot(slotnum, s) {
+                Ok(_) => (),
+                Err(e) => {
+                    let rv = e.rv();
+                    if rv != CKR_CRYPTOKI_ALREADY_INITIALIZED {
+                        return Err(e)?;
+                    }
+                    already_init = true;
+                }
+            },
+            Err(e) => return Err(e)?,
+        }
+    }
+
+    Ok(already_init)
+}
 
 #[inline(always)]
 fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
@@ -53,24 +80,15 @@ fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
         wstate.initialize();
     }
 
-    /* create slots for any new slot specified in the configuration
-     * that has not been created yet, new slots can be added via
-     * init args so we check this every time */
-    for slot in &conf.slots {
-        let slotnum =
-            CK_SLOT_ID::try_from(slot.slot).map_err(|_| CKR_GENERAL_ERROR)?;
-        match Slot::new(slot) {
-            Ok(s) => match wstate.add_slot(slotnum, s) {
-                Ok(_) => (),
-                Err(e) => {
-                    let rv = e.rv();
-                    if rv != CKR_CRYPTOKI_ALREADY_INITIALIZED {
-                        return Err(e)?;
-                    }
-                    already_init = true;
-                }
-            },
-            Err(e) => return Err(e)?,
+    match add_slots(&conf, &mut wstate) {
+        Ok(exists) => already_init |= exists,
+        Err(e) => {
+            if !already_init {
+                /* do not leave a partially initialized library behind */
+                let _ = wstate.finalize();
+                *conf = Config::new();
+            }
+            return Err(e)?;
         }
     }
 
-- 
2.43.0


From 0d7848c92d6e615db58a26487cfc6e5302f6e7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 11/53] fix: track the context specific login requirement for
 each operation

---
 src/fns/sessmgmt.rs |  10 ++---
 src/session.rs      | 105 ++++++++++++++++++++++++++++++++++----------
 2 files changed, 85 insertions(+), 30 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index c433910..b23f06e 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -299,13 +299,9 @@ fn login(
     let vpin = unsafe { bytes_to_slice(pin as *const u8, pin_len as usize) };
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
     if user_type == CKU_CONTEXT_SPECIFIC {
-        let session = rstate.get_session_mut(s_handle)?;
-        match session.check_login_status() {
-            Err(e) => match e.rv() {
-                CKR_USER_NOT_LOGGED_IN => (),
-                _ => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
-            },
-            Ok(()) => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
+        let session = rstate.get_session(s_handle)?;
+        if !session.is_login_required() {
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
     }
 
diff --git a/src/session.rs b/src/session.rs
index 35f2c78..3554242 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -49,9 +49,10 @@ impl SearchOperation for SessionSearch {
 }
 
 /// Represents the login status requirement for an active operation.
-#[derive(Debug)]
+#[derive(Debug, Default)]
 pub enum OpLoginStatus {
     /// No operation active.
+    #[default]
     NotInitialized,
     /// Active operation does not require login.
     NotRequired,
@@ -69,6 +70,7 @@ pub trait ManageOperation {
     fn check_no_op(so: &SessionOperations) -> Result<()>;
     fn get_op(so: &mut SessionOperations) -> Result<&mut Self>;
     fn set_op(so: &mut SessionOperations, op: Box<Self>);
+    fn login_status(so: &mut SessionOperations) -> &mut OpLoginStatus;
 }
 
 /// Macro to implement the `ManageOperation` trait for a specific operation
@@ -78,6 +80,7 @@ macro_rules! impl_mop {
         impl ManageOperation for dyn $optype {
             fn cancel_operation(so: &mut SessionOperations) -> Result<()> {
                 so.$($opname).+ = None;
+                so.login.$($opname).+ = OpLoginStatus::NotInitialized;
                 Ok(())
             }
 
@@ -113,10 +116,60 @@ macro_rules! impl_mop {
             fn set_op(so: &mut SessionOperations, op: Box<Self>) {
                 so.$($opname).+ = Some(op);
             }
+
+            fn login_status(so: &mut SessionOperations) -> &mut OpLoginStatus {
+                &mut so.login.$($opname).+
+            }
         }
     };
 }
 
+/// Login requirement status of each of the operations in a session
+#[derive(Debug, Default)]
+struct OperationsLogin {
+    msg_encryption: OpLoginStatus,
+    msg_decryption: OpLoginStatus,
+    search: OpLoginStatus,
+    encryption: OpLoginStatus,
+    decryption: OpLoginStatus,
+    digest: OpLoginStatus,
+    sign: OpLoginStatus,
+    verify: OpLoginStatus,
+    verifysig: OpLoginStatus,
+}
+
+impl OperationsLogin {
+    /// All the individual operations statuses
+    fn all(&self) -> [&OpLoginStatus; 9] {
+        [
+            &self.msg_encryption,
+            &self.msg_decryption,
+            &self.search,
+            &self.encryption,
+            &self.decryption,
+            &self.digest,
+            &self.sign,
+            &self.verify,
+            &self.verifysig,
+        ]
+    }
+
+    /// All the individual operations statuses, for modification
+    fn all_mut(&mut self) -> [&mut OpLoginStatus; 9] {
+        [
+            &mut self.msg_encryption,
+            &mut self.msg_decryption,
+            &mut self.search,
+            &mut self.encryption,
+            &mut self.decryption,
+            &mut self.digest,
+            &mut self.sign,
+            &mut self.verify,
+            &mut self.verifysig,
+        ]
+    }
+}
+
 /// Operations that span more than one function call and that
 /// can be in flight at the same time in the same session
 #[derive(Debug)]
@@ -130,6 +183,8 @@ pub struct SessionOperations {
     sign: Option<Box<dyn Sign>>,
     verify: Option<Box<dyn Verify>>,
     verifysig: Option<Box<dyn VerifySignature>>,
+    /// Tracks login requirement status of each operation.
+    login: OperationsLogin,
 }
 
 impl_mop!(MsgEncryption, msg_encryption);
@@ -301,6 +356,7 @@ impl SessionOperations {
             sign: None,
             verify: None,
             verifysig: None,
+            login: OperationsLogin::default(),
         }
     }
 }
@@ -314,8 +370,6 @@ pub struct Session {
     //notify: CK_NOTIFY,
     /// Container for active cryptographic operations.
     operations: SessionOperations,
-    /// Tracks login requirement status for the current operation.
-    login_status: OpLoginStatus,
     /// Tracks FIPS approval status for the current operation.
     fips_indicator: Option<bool>,
 }
@@ -365,7 +419,6 @@ impl Session {
             //application: std::ptr::null_mut(),
             //notify: unsafe { std::ptr::null_mut() },
             operations: SessionOperations::new(),
-            login_status: OpLoginStatus::NotInitialized,
             fips_indicator: None,
         })
     }
@@ -522,18 +575,14 @@ impl Session {
         O::check_no_op(&self.operations)
     }
 
-    /// Checks if the current login state permits the active operation.
-    ///
-    /// Returns `CKR_USER_NOT_LOGGED_IN` if login is required but not satisfied.
-    pub fn check_login_status(&self) -> Result<()> {
-        match self.login_status {
-            OpLoginStatus::NotInitialized => {
-                Err(CKR_OPERATION_NOT_INITIALIZED)?
-            }
-            OpLoginStatus::NotRequired => Ok(()),
-            OpLoginStatus::Required => Err(CKR_USER_NOT_LOGGED_IN)?,
-            OpLoginStatus::LoginOk => Ok(()),
-        }
+    /// Checks if any active operation is waiting for a context specific
+    /// login.
+    pub fn is_login_required(&self) -> bool {
+        self.operations
+            .login
+            .all()
+            .iter()
+            .any(|s| matches!(s, OpLoginStatus::Required))
     }
 
     /// Gets a mutable reference to the currently active operation of type `O`.
@@ -542,7 +591,13 @@ impl Session {
     pub fn get_operation<O: ManageOperation + ?Sized>(
         &mut self,
     ) -> Result<&mut O> {
-        self.check_login_status()?;
+        match O::login_status(&mut self.operations) {
+            OpLoginStatus::NotInitialized => {
+                Err(CKR_OPERATION_NOT_INITIALIZED)?
+            }
+            OpLoginStatus::Required => Err(CKR_USER_NOT_LOGGED_IN)?,
+            OpLoginStatus::NotRequired | OpLoginStatus::LoginOk => (),
+        }
         O::get_op(&mut self.operations)
     }
 
@@ -556,7 +611,7 @@ impl Session {
         needs_login: bool,
     ) {
         self.fips_indicator = None; /* FIXME: per operation ? */
-        self.login_status = if needs_login {
+        *O::login_status(&mut self.operations) = if needs_login {
             OpLoginStatus::Required
         } else {
             OpLoginStatus::NotRequired
@@ -565,9 +620,13 @@ impl Session {
         O::set_op(&mut self.operations, op);
     }
 
-    /// Marks the current operation's login requirement as satisfied.
+    /// Marks the pending operations' login requirement as satisfied.
     pub fn set_login_ok(&mut self) {
-        self.login_status = OpLoginStatus::LoginOk;
+        for status in self.operations.login.all_mut() {
+            if matches!(status, OpLoginStatus::Required) {
+                *status = OpLoginStatus::LoginOk;
+            }
+        }
     }
 
     pub fn state_size(&mut self) -> Result<usize> {
@@ -751,19 +810,19 @@ impl Session {
             }
             let mech = mechanisms.get(op.mech)?;
             let operation = mech.digest_restore(op.mech, op.data)?;
-            <dyn Digest>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Digest>(operation, false);
         }
         if let Some(op) = opstate.sig {
             let op_key = key.ok_or(CKR_KEY_NEEDED)?;
             let mech_h = mechanisms.get(op.mech)?;
             let operation = mech_h.sign_restore(op.mech, op_key, op.data)?;
-            <dyn Sign>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Sign>(operation, op_key.always_auth());
         }
         if let Some(op) = opstate.ver {
             let op_key = key.ok_or(CKR_KEY_NEEDED)?;
             let mech_h = mechanisms.get(op.mech)?;
             let operation = mech_h.verify_restore(op.mech, op_key, op.data)?;
-            <dyn Verify>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Verify>(operation, false);
         }
         if let Some(_op) = opstate.versig {
             return Err(CKR_SAVED_STATE_INVALID)?;
-- 
2.43.0


From a912078e908fae3fd93d54d4220abec3a28c0490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 12/53] fix: avoid a deadlock between C_Login/C_Logout and
 functions using a session

---
 src/fns/sessmgmt.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index b23f06e..2b141c9 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -286,10 +286,11 @@ fn login(
     pin: CK_UTF8CHAR_PTR,
     pin_len: CK_ULONG,
 ) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* this changes all sessions while holding the token, which is the reverse
+     * of the order all other functions use, so exclude any other user */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
-    /* avoid deadlock later when we change all sessions */
     drop(session);
     if user_type == CKU_SO {
         if rstate.has_ro_sessions(slot_id)? {
@@ -364,10 +365,11 @@ pub extern "C" fn fn_login(
 
 #[inline(always)]
 fn logout(s_handle: CK_SESSION_HANDLE) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* this changes all sessions while holding the token, which is the reverse
+     * of the order all other functions use, so exclude any other user */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
-    /* avoid deadlock later when we change all sessions */
     drop(session);
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
     let ret = token.logout();
-- 
2.43.0


From 008f683f9b4d52293aa4be01b0d197b59f70f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 13/53] fix: refuse token assigned attributes in generate,
 unwrap and derive templates

The check for unacceptable attributes only triggered on attributes that had
all of the flags passed in, so none of the attributes that can never be set
(CKA_TRUSTED, CKA_LOCAL, CKA_ALWAYS_SENSITIVE, ...) was ever refused when
generating, unwrapping or deriving keys. Callers could this way create
wrapping keys that claim to be trusted.
---
 src/object/factory.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index cc5e5d8..8676be3 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -129,6 +129,11 @@ impl ObjectAttr {
         self.flags.contains(val)
     }
 
+    /// Check if any of the specified flags is present on the ObjectAttr
+    pub fn is_any(&self, val: OAFlags) -> bool {
+        self.flags.intersects(val)
+    }
+
     /// Checks if the ObjectAttr has a default value
     pub fn has_default(&self) -> bool {
         self.flags.contains(OAFlags::Defval)
@@ -335,7 +340,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
-                    if attr.is(unacceptable_flags) {
+                    if attr.is_any(unacceptable_flags) {
                         return Err(CKR_ATTRIBUTE_TYPE_INVALID)?;
                     }
                     /* duplicate? */
-- 
2.43.0


From dbc5ee47e559b876b4671917ae2907ceae59b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 14/53] fix: mark the value of FFDH private keys as sensitive

It was returned in clear by C_GetAttributeValue even for sensitive keys, and
stored in clear in the token database.
---
 src/ffdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffdh.rs b/src/ffdh.rs
index 4e8d868..d91d38c 100644
--- a/src/ffdh.rs
+++ b/src/ffdh.rs
@@ -191,7 +191,7 @@ impl FFDHPrivFactory {
             CKA_BASE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE; OAFlags::RequiredOnCreate
+            CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
             | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-- 
2.43.0


From 37ac648d16a6e87cacfafca138195c0822270c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 15/53] fix: do not let callers set CKA_TRUSTED on existing
 certificates

Creating a certificate with CKA_TRUSTED set is refused, but it could then be
set with C_SetAttributeValue or C_CopyObject by any user.
---
 src/object/certs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/certs.rs b/src/object/certs.rs
index 9d47268..1bab196 100644
--- a/src/object/certs.rs
+++ b/src/object/certs.rs
@@ -27,8 +27,8 @@ pub trait CertFactory: ObjectFactory {
             CKA_CERTIFICATE_TYPE; OAFlags::AlwaysRequired;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
-            CKA_TRUSTED; OAFlags::Defval; Attribute::from_bool;
-            val false));
+            CKA_TRUSTED; OAFlags::Defval | OAFlags::Unchangeable;
+            Attribute::from_bool; val false));
         attrs.push(attr_element!(
             CKA_CERTIFICATE_CATEGORY; OAFlags::Defval;
             Attribute::from_ulong;
-- 
2.43.0


From db1afac68a972733b5d42ea904a53e84dcc796c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:39 +0000
Subject: [PATCH 16/53] fix: keep the base key's protections on keys derived
 from its value

CKM_CONCATENATE_BASE_AND_DATA, CKM_CONCATENATE_DATA_AND_BASE,
CKM_XOR_BASE_AND_DATA and CKM_EXTRACT_KEY_FROM_KEY let the template ask for
a non sensitive, extractable key and so revealed a sensitive base key.
---
 src/native/simplekdf.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 0ecf0e7..6152572 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -253,6 +253,25 @@ impl Derive for SimpleKDFOperation {
             _ => return Err(CKR_MECHANISM_INVALID)?,
         };
 
+        if self.mech != CKM_CONCATENATE_BASE_AND_KEY {
+            /* The derived key carries the base key's value (or part of it),
+             * so it must be at least as protected as the base key. */
+            if base_key_info.sensitive {
+                dkey.set_attr(Attribute::from_bool(CKA_SENSITIVE, true))?;
+                dkey.set_attr(Attribute::from_bool(
+                    CKA_ALWAYS_SENSITIVE,
+                    base_key_info.always_sensitive,
+                ))?;
+            }
+            if !base_key_info.extractable {
+                dkey.set_attr(Attribute::from_bool(CKA_EXTRACTABLE, false))?;
+                dkey.set_attr(Attribute::from_bool(
+                    CKA_NEVER_EXTRACTABLE,
+                    base_key_info.never_extractable,
+                ))?;
+            }
+        }
+
         let outlen = match self.mech {
             CKM_XOR_BASE_AND_DATA => {
                 std::cmp::min(base_key_info.value.len(), other_data_len)
-- 
2.43.0


From 0948e84dec5aa27a45f772b05f886d9a9a1f9220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:42 +0000
Subject: [PATCH 17/53] fix: derive with CKM_EXTRACT_KEY_FROM_KEY at a byte
 boundary

Shifting an u8 by 8 panics (or, without overflow checks, mixes the next
byte into the key) when the bit offset is a multiple of 8.
---
 src/native/simplekdf.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 6152572..962343b 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -363,9 +363,13 @@ impl Derive for SimpleKDFOperation {
                     let first_half = base_key_info.value
                         [(base_byte + i) % outlen]
                         << bit_shift;
-                    let second_half = base_key_info.value
-                        [(base_byte + i + 1) % outlen]
-                        >> (8 - bit_shift);
+                    let second_half = match bit_shift {
+                        0 => 0,
+                        _ => {
+                            base_key_info.value[(base_byte + i + 1) % outlen]
+                                >> (8 - bit_shift)
+                        }
+                    };
                     secret[i] = first_half | second_half;
                 }
             }
-- 
2.43.0


From 6b5e7c163943b256d67e4d3bc4e4e55300665721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 18/53] fix: never use a HOTP counter value twice

Operations on the same key started before another one completed worked with
the same counter and all of them succeeded, also moving the stored counter
backwards.
---
 src/fns/signing.rs | 55 +++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index ef2936c..dae546e 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -14,11 +14,34 @@ use crate::log_debug;
 use crate::mechanism::{Sign, Verify, VerifySignature};
 use crate::pkcs11::*;
 use crate::session::Session;
+use crate::token::Token;
 use crate::STATE;
 
 #[cfg(feature = "fips")]
 use crate::{finalize_fips_approval, init_fips_approval};
 
+/// Stores the attributes of the key that a completed operation changed.
+///
+/// An operation works with the counter it found when it was initialized. If
+/// the stored counter has reached the new value in the meantime, then another
+/// operation has consumed the same value, and this one can't succeed.
+fn update_key_object(
+    token: &mut Token,
+    handle: CK_OBJECT_HANDLE,
+    attrs: &[CK_ATTRIBUTE],
+) -> Result<()> {
+    if let Some(a) = attrs.iter().find(|a| a.type_ == CKA_OTP_COUNTER) {
+        let key = token.get_object_by_handle(handle)?;
+        if key.get_attr_as_bytes(CKA_OTP_COUNTER)? >= &a.to_buf()? {
+            return Err(CKR_FUNCTION_FAILED)?;
+        }
+    }
+    token
+        .set_object_attrs(handle, attrs)
+        .map_err(|_| CKR_GENERAL_ERROR)?;
+    Ok(())
+}
+
 #[inline(always)]
 fn sign_init(
     s_handle: CK_SESSION_HANDLE,
@@ -117,9 +140,11 @@ fn sign(
 
     if let Some((handle, attrs)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
-        }
+        update_key_object(&mut token, handle, attrs.as_slice())
+            .map_err(|e| {
+                signature.fill(0);
+                e
+            })?;
     }
 
     unsafe {
@@ -246,9 +271,11 @@ fn sign_final(
 
     if let Some((handle, attrs)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
-        }
+        update_key_object(&mut token, handle, attrs.as_slice())
+            .map_err(|e| {
+                signature.fill(0);
+                e
+            })?;
     }
 
     unsafe {
@@ -399,9 +426,7 @@ fn verify(
 
     if let Some((handle, attrs)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
-        }
+        update_key_object(&mut token, handle, attrs.as_slice())?;
     }
 
     #[cfg(feature = "fips")]
@@ -515,9 +540,7 @@ fn verify_final(
 
     if let Some((handle, attrs)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
-        }
+        update_key_object(&mut token, handle, attrs.as_slice())?;
     }
 
     #[cfg(feature = "fips")]
@@ -801,9 +824,7 @@ fn verify_signature(
 
     if let Some((handle, attrs)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
-        }
+        update_key_object(&mut token, handle, attrs.as_slice())?;
     }
 
     #[cfg(feature = "fips")]
@@ -887,9 +908,7 @@ fn verify_signature_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
 
     if let Some((handle, attrs)) = operation.updates_object() {
         let mut token = rstate.get_token_from_slot_mut(slot_id)?;
-        if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
-            return Err(CKR_GENERAL_ERROR)?;
-        }
+        update_key_object(&mut token, handle, attrs.as_slice())?;
     }
 
     #[cfg(feature = "fips")]
-- 
2.43.0


From 8e515d3b1c4bd10de4755cf2449b697aaf039744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 19/53] fix: refuse C_FindObjectsFinal when no search is active

---
 src/fns/objmgmt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index c048e79..903508e 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -572,6 +572,7 @@ pub extern "C" fn fn_find_objects(
 fn find_objects_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     let rstate = STATE.rlock()?;
     let mut session = rstate.get_session_mut(s_handle)?;
+    session.check_op::<dyn SearchOperation>()?;
     session.cancel_operation::<dyn SearchOperation>()
 }
 
-- 
2.43.0


From e05cb93941386f2c5a703b7e531efab7ad445bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 20/53] fix: apply no attribute change when one value of the
 template is malformed

---
 src/object/factory.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 8676be3..02c0fd2 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -563,9 +563,15 @@ pub trait ObjectFactory: Debug + Send + Sync {
         /* first check that all attributes can be changed */
         self.check_set_attributes(template)?;
 
+        /* all values must convert before any of them is applied */
+        let attrs = template
+            .iter()
+            .map(Attribute::from_ck_attr)
+            .collect::<Result<Vec<Attribute>>>()?;
+
         /* if checks clear out, apply changes */
-        for ck_attr in template {
-            obj.set_attr(Attribute::from_ck_attr(ck_attr)?)?;
+        for attr in attrs {
+            obj.set_attr(attr)?;
         }
 
         Ok(())
-- 
2.43.0


From 4bef19810858a00495dfaa7c228ab4679b8b4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 21/53] fix: do not assign old object handles again after a
 token is initialized

---
 src/token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index b4bda51..f78b107 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -74,6 +74,12 @@ impl Handles {
         let _ = self.map.remove_by_left(&handle);
     }
 
+    /// Removes all mappings. The counter is kept, so that the handles known
+    /// so far are not assigned again.
+    pub fn clear(&mut self) {
+        self.map.clear();
+    }
+
     /// Returns the next available unique handle ID and increments the internal
     /// counter. Note: This may eventually wrap around, but the handle space
     /// is large. Collisions are checked during insertion.
@@ -252,7 +258,7 @@ impl Token {
             self.auth_user(CKU_SO, pin, true)?;
         };
 
-        self.facilities.handles = Handles::new();
+        self.facilities.handles.clear();
         self.session_objects.clear();
         self.logged = KRY_UNSPEC;
 
-- 
2.43.0


From 0204a9fee39badd16005290b9f4ba0539daa840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 22/53] fix: accept the 7 byte AES-CCM nonces that the
 mechanism allows

---
 src/ossl/aes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 48f9a44..9d3da3a 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -214,7 +214,7 @@ impl AesOperation {
                 }
                 let l = 15 - params.ulNonceLen;
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || (l < 8 && params.ulDataLen > (1 << (8 * l)))
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
-- 
2.43.0


From 851dddaf5a694df3d2c20752c95744ca27213f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 23/53] fix: do not panic when the output buffer of a short
 AES-CTS operation is larger than needed

---
 src/ossl/aes.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 9d3da3a..845780c 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1335,7 +1335,8 @@ impl Encryption for AesOperation {
                     if cipher_offset != plain.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    cipher.copy_from_slice(&buffer[..cipher_offset]);
+                    cipher[..cipher_offset]
+                        .copy_from_slice(&buffer[..cipher_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     plain_offset = plain_end;
@@ -1789,7 +1790,8 @@ impl Decryption for AesOperation {
                     if plain_offset != cipher.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    plain.copy_from_slice(&buffer[..plain_offset]);
+                    plain[..plain_offset]
+                        .copy_from_slice(&buffer[..plain_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     cipher_offset = cipher_end;
-- 
2.43.0


From 0362a8540381042cd337d25d62a48675fbe90cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 24/53] fix: AES: a too small output buffer must not consume
 input

---
 src/ossl/aes.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 845780c..d29d252 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1185,6 +1185,12 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        /* make sure the whole output fits before any input is consumed */
+        let needed = self.encryption_len(plain.len(), true)?;
+        if cipher.len() < needed {
+            /* This is the only, non-fatal error */
+            return Err(error::Error::buf_too_small(needed));
+        }
         let outl = self.encrypt_update(plain, cipher)?;
         if outl > cipher.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
@@ -1205,6 +1211,7 @@ impl Encryption for AesOperation {
         self.in_use = true;
 
         let mut outlen = self.encryption_len(plain.len(), false)?;
+        let mut newblocks = 0u128;
         match self.mech {
             CKM_AES_CTS => {
                 if plain.len() < AES_BLOCK_SIZE {
@@ -1212,11 +1219,10 @@ impl Encryption for AesOperation {
                 }
                 /* some modes are one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
+                newblocks = 1;
             }
             CKM_AES_CCM => {
                 /* This should allow smaller plain length to update
@@ -1244,7 +1250,7 @@ impl Encryption for AesOperation {
                     if self.blockctr + reqblocks > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    self.blockctr += reqblocks;
+                    newblocks = reqblocks;
                 }
             }
             CKM_AES_KEY_WRAP => {
@@ -1258,6 +1264,7 @@ impl Encryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.blockctr += newblocks;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
@@ -1570,6 +1577,7 @@ impl Decryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        let mut newblocks = 0u128;
         match self.mech {
             CKM_AES_CTS => {
                 if cipher.len() < AES_BLOCK_SIZE {
@@ -1578,11 +1586,10 @@ impl Decryption for AesOperation {
 
                 /* CTS mode is one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
+                newblocks = 1;
             }
             CKM_AES_CCM => {
                 if cipher.len() + self.buffer.len()
@@ -1628,7 +1635,7 @@ impl Decryption for AesOperation {
                     if self.blockctr + reqblocks > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    self.blockctr += reqblocks;
+                    newblocks = reqblocks;
                 }
                 cipher.len()
             }
@@ -1651,6 +1658,7 @@ impl Decryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.blockctr += newblocks;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
-- 
2.43.0


From 749f7568fccc28079309ab0e44040cfbfa3f9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 25/53] fix: AES decryption: report enough room for the held
 back block

---
 src/ossl/aes.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index d29d252..051b63b 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1839,6 +1839,14 @@ impl Decryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
 
+        if self.mech == CKM_AES_CBC_PAD
+            && self.buffer.len() == 0
+            && plain.len() < AES_BLOCK_SIZE
+        {
+            /* This is the only, non-fatal error */
+            return Err(error::Error::buf_too_small(AES_BLOCK_SIZE));
+        }
+
         let ctx = match &mut self.ctx {
             Some(c) => c,
             None => return Err(self.op_err(CKR_GENERAL_ERROR)),
@@ -1952,7 +1960,8 @@ impl Decryption for AesOperation {
                     if (self.buffer.len() + data_len) % AES_BLOCK_SIZE != 0 {
                         return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
                     }
-                    self.buffer.len() + data_len
+                    /* the last block is held back until the end */
+                    std::cmp::max(self.buffer.len() + data_len, AES_BLOCK_SIZE)
                 }
                 CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
                     if data_len % AES_KWP_BLOCK != 0 {
@@ -1964,12 +1973,8 @@ impl Decryption for AesOperation {
             }
         } else {
             match self.mech {
-                CKM_AES_CCM => {
-                    if self.buffer.len() + data_len < self.params.taglen {
-                        return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
-                    }
-                    self.buffer.len() + data_len - self.params.taglen
-                }
+                /* what decrypt_update() asks for, whatever it consumes */
+                CKM_AES_CCM => self.params.datalen,
                 CKM_AES_GCM => {
                     if self.buffer.len() + data_len < self.params.taglen {
                         0
-- 
2.43.0


From 5903734337c408d695dbfa0953a22c22ce369161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 26/53] fix: AES messages: check the output size before
 beginning

---
 src/ossl/aes.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 051b63b..57ef531 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2040,6 +2040,10 @@ impl MsgEncryption for AesOperation {
         plain: &[u8],
         cipher: &mut [u8],
     ) -> Result<usize> {
+        if cipher.len() < plain.len() {
+            /* check before beginning, as this is a non-fatal error */
+            return Err(error::Error::buf_too_small(plain.len()));
+        }
         self.msg_encrypt_begin(param, paramlen, aad)?;
         self.msg_encrypt_final(param, paramlen, plain, cipher)
     }
@@ -2230,6 +2234,10 @@ impl MsgDecryption for AesOperation {
         cipher: &[u8],
         plain: &mut [u8],
     ) -> Result<usize> {
+        if plain.len() < cipher.len() {
+            /* check before beginning, as this is a non-fatal error */
+            return Err(error::Error::buf_too_small(cipher.len()));
+        }
         self.msg_decrypt_begin(param, paramlen, aad)?;
         self.msg_decrypt_final(param, paramlen, cipher, plain)
     }
-- 
2.43.0


From 8117da8b361606e79cf82d694186c0fd27fdabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 27/53] fix: return the required length with
 CKR_BUFFER_TOO_SMALL on encryption

---
 src/fns/encryption.rs | 107 +++++++++++++++++++++++-------------------
 src/ossl/rsa.rs       |   2 +-
 2 files changed, 59 insertions(+), 50 deletions(-)

diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 70e0e11..7082ee5 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -9,7 +9,7 @@
 use std::sync::RwLockWriteGuard;
 
 use crate::check_allowed_mechs;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::log_debug;
 use crate::mechanism::{Decryption, Encryption, MsgDecryption, MsgEncryption};
 use crate::pkcs11::*;
@@ -19,6 +19,25 @@ use crate::STATE;
 #[cfg(feature = "fips")]
 use crate::{finalize_fips_approval, init_fips_approval};
 
+/// Returns the required length to the caller when the output buffer was
+/// found to be too small
+fn report_len(e: Error, plen: CK_ULONG_PTR) -> Error {
+    if e.rv() == CKR_BUFFER_TOO_SMALL && e.reqsize() != 0 {
+        unsafe { *plen = e.reqsize() as CK_ULONG };
+    }
+    e
+}
+
+/// Checks that the output fits in the buffer and stores its length
+fn return_len(outlen: usize, buflen: usize, plen: CK_ULONG_PTR) -> Result<()> {
+    let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
+    unsafe { *plen = retlen };
+    if outlen > buflen {
+        return Err(CKR_BUFFER_TOO_SMALL)?;
+    }
+    Ok(())
+}
+
 #[inline(always)]
 fn encrypt_init(
     s_handle: CK_SESSION_HANDLE,
@@ -109,9 +128,10 @@ fn encrypt(
     let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
     let encdata: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(encrypted_data, enclen) };
-    let outlen = operation.encrypt(data, encdata)?;
-    let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
-    unsafe { *pul_encrypted_data_len = retlen };
+    let outlen = operation
+        .encrypt(data, encdata)
+        .map_err(|e| report_len(e, pul_encrypted_data_len))?;
+    return_len(outlen, encdata.len(), pul_encrypted_data_len)?;
 
     #[cfg(feature = "fips")]
     {
@@ -173,7 +193,9 @@ pub(crate) fn internal_encrypt_update(
         let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
         let encpart: &mut [u8] =
             unsafe { std::slice::from_raw_parts_mut(encrypted_part, enclen) };
-        operation.encrypt_update(data, encpart)?
+        operation
+            .encrypt_update(data, encpart)
+            .map_err(|e| report_len(e, pul_encrypted_part_len))?
     };
     let cklen = CK_ULONG::try_from(len).map_err(|_| CKR_ARGUMENTS_BAD)?;
     unsafe { *pul_encrypted_part_len = cklen };
@@ -260,7 +282,9 @@ fn encrypt_final(
     let enclen = usize::try_from(penclen).map_err(|_| CKR_ARGUMENTS_BAD)?;
     let enclast: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(last_encrypted_part, enclen) };
-    let outlen = operation.encrypt_final(enclast)?;
+    let outlen = operation
+        .encrypt_final(enclast)
+        .map_err(|e| report_len(e, pul_last_encrypted_part_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_last_encrypted_part_len = retlen };
 
@@ -388,9 +412,10 @@ fn decrypt(
     let dlen = usize::try_from(pdlen).map_err(|_| CKR_ARGUMENTS_BAD)?;
     let ddata: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(data, dlen) };
-    let outlen = operation.decrypt(enc, ddata)?;
-    let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
-    unsafe { *pul_data_len = retlen };
+    let outlen = operation
+        .decrypt(enc, ddata)
+        .map_err(|e| report_len(e, pul_data_len))?;
+    return_len(outlen, ddata.len(), pul_data_len)?;
 
     #[cfg(feature = "fips")]
     {
@@ -454,7 +479,9 @@ pub(crate) fn internal_decrypt_update(
         let plen = usize::try_from(pplen).map_err(|_| CKR_ARGUMENTS_BAD)?;
         let dpart: &mut [u8] =
             unsafe { std::slice::from_raw_parts_mut(part, plen) };
-        operation.decrypt_update(enc, dpart)?
+        operation
+            .decrypt_update(enc, dpart)
+            .map_err(|e| report_len(e, pul_part_len))?
     };
     let cklen = CK_ULONG::try_from(len).map_err(|_| CKR_ARGUMENTS_BAD)?;
     unsafe { *pul_part_len = cklen };
@@ -541,7 +568,9 @@ fn decrypt_final(
     let plen = usize::try_from(pplen).map_err(|_| CKR_ARGUMENTS_BAD)?;
     let dlast: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(last_part, plen) };
-    let outlen = operation.decrypt_final(dlast)?;
+    let outlen = operation
+        .decrypt_final(dlast)
+        .map_err(|e| report_len(e, pul_last_part_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_last_part_len = retlen };
 
@@ -686,13 +715,9 @@ fn encrypt_message(
     let cipher: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(ciphertext, clen) };
 
-    let outlen = operation.msg_encrypt(
-        parameter,
-        parameter_len,
-        adata,
-        plain,
-        cipher,
-    )?;
+    let outlen = operation
+        .msg_encrypt(parameter, parameter_len, adata, plain, cipher)
+        .map_err(|e| report_len(e, pul_ciphertext_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_ciphertext_len = retlen };
 
@@ -878,18 +903,12 @@ fn encrypt_message_next(
         unsafe { std::slice::from_raw_parts_mut(ciphertext_part, clen) };
 
     let outlen = match fin {
-        false => operation.msg_encrypt_next(
-            parameter,
-            parameter_len,
-            plain,
-            cipher,
-        )?,
-        true => operation.msg_encrypt_final(
-            parameter,
-            parameter_len,
-            plain,
-            cipher,
-        )?,
+        false => operation
+            .msg_encrypt_next(parameter, parameter_len, plain, cipher)
+            .map_err(|e| report_len(e, pul_ciphertext_part_len))?,
+        true => operation
+            .msg_encrypt_final(parameter, parameter_len, plain, cipher)
+            .map_err(|e| report_len(e, pul_ciphertext_part_len))?,
     };
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_ciphertext_part_len = retlen };
@@ -1080,13 +1099,9 @@ fn decrypt_message(
     let plain: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(plaintext, plen) };
 
-    let outlen = operation.msg_decrypt(
-        parameter,
-        parameter_len,
-        adata,
-        cipher,
-        plain,
-    )?;
+    let outlen = operation
+        .msg_decrypt(parameter, parameter_len, adata, cipher, plain)
+        .map_err(|e| report_len(e, pul_plaintext_len))?;
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_plaintext_len = retlen };
 
@@ -1272,18 +1287,12 @@ fn decrypt_message_next(
         unsafe { std::slice::from_raw_parts_mut(plaintext_part, plen) };
 
     let outlen = match fin {
-        false => operation.msg_decrypt_next(
-            parameter,
-            parameter_len,
-            cipher,
-            plain,
-        )?,
-        true => operation.msg_decrypt_final(
-            parameter,
-            parameter_len,
-            cipher,
-            plain,
-        )?,
+        false => operation
+            .msg_decrypt_next(parameter, parameter_len, cipher, plain)
+            .map_err(|e| report_len(e, pul_plaintext_part_len))?,
+        true => operation
+            .msg_decrypt_final(parameter, parameter_len, cipher, plain)
+            .map_err(|e| report_len(e, pul_plaintext_part_len))?,
     };
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_plaintext_part_len = retlen };
diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index e009014..0f4d25b 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -647,7 +647,7 @@ impl Decryption for RsaPKCSOperation {
             }
 
             if plain.len() < outlen && plain.len() < self.output_len {
-                return Err(CKR_BUFFER_TOO_SMALL)?;
+                return Err(Error::buf_too_small(outlen));
             }
             self.finalized = true;
 
-- 
2.43.0


From 83a583c603c0b6123d8431bcb921d850c7882104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 28/53] fix: C_WrapKey: return CKR_BUFFER_TOO_SMALL with the
 required length

---
 src/fns/keymgmt.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 4034047..00a1a38 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -324,10 +324,18 @@ fn wrap_key(
             ));
             len
         }
-        Err(e) => return Err(e)?,
+        Err(e) => {
+            if e.rv() == CKR_BUFFER_TOO_SMALL && e.reqsize() != 0 {
+                unsafe { *pul_wrapped_key_len = e.reqsize() as CK_ULONG };
+            }
+            return Err(e)?;
+        }
     };
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_wrapped_key_len = retlen };
+    if !wrapped_key.is_null() && outlen > wrapped.len() {
+        return Err(CKR_BUFFER_TOO_SMALL)?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 58510f843211372ca0854962c71a62a52123c21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 29/53] fix: AES-GCM: multi-part decryption lost data after a
 small first part

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 57ef531..3d8c5d1 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1741,9 +1741,9 @@ impl Decryption for AesOperation {
                             zeromem(&mut self.buffer.as_mut_slice()[..buflen]);
                             let _ = self.buffer.drain(..buflen);
                         }
+                        /* The cipher buffer has been utilized */
+                        cipher_offset = cipher_end;
                     }
-                    /* The cipher buffer has been utilized */
-                    cipher_offset = cipher_end;
                 } else if cipher_end > self.params.taglen {
                     cipher_end -= self.params.taglen;
                     self.buffer.extend_from_slice(&cipher[cipher_end..]);
-- 
2.43.0


From 02b23566e91b05bbc2b29fdfbdacefe8ce624c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 30/53] fix: AES: one-shot calls can't terminate a multi-part
 operation

---
 src/ossl/aes.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 3d8c5d1..4068149 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1185,6 +1185,10 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        if self.in_use {
+            /* can't be used to terminate a multi-part operation */
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
+        }
         /* make sure the whole output fits before any input is consumed */
         let needed = self.encryption_len(plain.len(), true)?;
         if cipher.len() < needed {
@@ -1208,8 +1212,6 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
-        self.in_use = true;
-
         let mut outlen = self.encryption_len(plain.len(), false)?;
         let mut newblocks = 0u128;
         match self.mech {
@@ -1264,6 +1266,7 @@ impl Encryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
         self.blockctr += newblocks;
 
         let ctx = match &mut self.ctx {
@@ -1560,6 +1563,10 @@ impl Decryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        if self.in_use {
+            /* can't be used to terminate a multi-part operation */
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
+        }
         let outl = self.decrypt_update(cipher, plain)?;
         if outl > plain.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
@@ -1605,8 +1612,6 @@ impl Decryption for AesOperation {
             }
             _ => (),
         }
-        self.in_use = true;
-
         let outlen = match self.mech {
             CKM_AES_CCM => {
                 let needlen = self.params.datalen + self.params.taglen;
@@ -1658,6 +1663,7 @@ impl Decryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
         self.blockctr += newblocks;
 
         let ctx = match &mut self.ctx {
-- 
2.43.0


From 97b3da769f673d392ea10188fc8a706a5042774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 31/53] fix: AES messages: a counter xored IV must not repeat
 when it is passed back

---
 src/ossl/aes.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 4068149..0a10e39 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -75,6 +75,8 @@ struct AesIvData {
     counter: u64,
     /// Maximum counter value before wrapping/error (if applicable).
     maxcount: u64,
+    /// The original IV the counter is xored with (if applicable).
+    xorbase: Vec<u8>,
 }
 
 impl AesIvData {
@@ -86,6 +88,7 @@ impl AesIvData {
             generator: CKG_NO_GENERATE,
             counter: 0,
             maxcount: 0,
+            xorbase: Vec::new(),
         })
     }
 
@@ -97,6 +100,7 @@ impl AesIvData {
             generator: CKG_NO_GENERATE,
             counter: 0,
             maxcount: 0,
+            xorbase: Vec::new(),
         })
     }
 }
@@ -509,6 +513,18 @@ impl AesOperation {
                 }
             }
             CKG_GENERATE_COUNTER_XOR => {
+                /* always xor the counter with the original IV, the caller
+                 * may be passing back the last one we returned */
+                if params.iv.counter == 0
+                    || params.iv.xorbase.len() != params.iv.buf.len()
+                {
+                    params.iv.xorbase = params.iv.buf.clone();
+                } else {
+                    params.iv.buf[genidx] &= !mask;
+                    params.iv.buf[genidx] |= params.iv.xorbase[genidx] & mask;
+                    params.iv.buf[(genidx + 1)..]
+                        .copy_from_slice(&params.iv.xorbase[(genidx + 1)..]);
+                }
                 let cntbuf = params.iv.counter.to_be_bytes();
                 if genbytes > cntbuf.len() {
                     let cntidx = params.iv.buf.len() - cntbuf.len();
@@ -803,6 +819,9 @@ impl AesOperation {
                         generator: params.nonceGenerator,
                         counter: self.params.iv.counter,
                         maxcount: self.params.iv.maxcount,
+                        xorbase: std::mem::take(
+                            &mut self.params.iv.xorbase,
+                        ),
                     };
                 } else {
                     self.params.iv = AesIvData {
@@ -811,6 +830,7 @@ impl AesOperation {
                         generator: CKG_NO_GENERATE,
                         counter: 0,
                         maxcount: 0,
+                        xorbase: Vec::new(),
                     };
                 }
                 self.params.maxblocks = 0;
@@ -874,6 +894,9 @@ impl AesOperation {
                         generator: params.ivGenerator,
                         counter: self.params.iv.counter,
                         maxcount: self.params.iv.maxcount,
+                        xorbase: std::mem::take(
+                            &mut self.params.iv.xorbase,
+                        ),
                     };
                 } else {
                     self.params.iv = AesIvData {
@@ -882,6 +905,7 @@ impl AesOperation {
                         generator: CKG_NO_GENERATE,
                         counter: 0,
                         maxcount: 0,
+                        xorbase: Vec::new(),
                     };
                 }
                 self.params.maxblocks = 0;
-- 
2.43.0


From 57be25ceadede75c6df3dd4cf6c849e103c2601f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:41 +0000
Subject: [PATCH 32/53] fix: unwrapped keys were never always sensitive or
 never extractable

---
 src/object/key.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index ade2b24..fa7c244 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -122,11 +122,16 @@ pub trait KeyFactory: ObjectFactory {
     ///
     /// Uses `internal_key_create()` with appropriate flags.
     fn key_unwrap(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
-        self.internal_key_create(
+        let mut obj = self.internal_key_create(
             template,
             OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
-        )
+        )?;
+        /* the value has been outside of the token */
+        obj.set_attr(Attribute::from_bool(CKA_LOCAL, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?;
+        Ok(obj)
     }
 
     /// The internal key object derivation function
-- 
2.43.0


From 502c62d8c97bbad4878023da859ae1533c50ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 33/53] fix: the wrapping key's class and type must fit the
 mechanism

---
 src/aes.rs | 16 ++++++++++++++++
 src/rsa.rs |  2 ++
 2 files changed, 18 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index d51d0ae..c26a099 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -334,6 +334,14 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_WRAP != CKF_WRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        match wrapping_key.check_key_ops(CKO_SECRET_KEY, CKK_AES, CKA_WRAP) {
+            Ok(_) => (),
+            Err(_) => wrapping_key.check_key_ops(
+                CKO_SECRET_KEY,
+                CKK_GENERIC_SECRET,
+                CKA_WRAP,
+            )?,
+        }
         AesOperation::wrap(
             mech,
             wrapping_key,
@@ -358,6 +366,14 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_UNWRAP != CKF_UNWRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        match wrapping_key.check_key_ops(CKO_SECRET_KEY, CKK_AES, CKA_UNWRAP) {
+            Ok(_) => (),
+            Err(_) => wrapping_key.check_key_ops(
+                CKO_SECRET_KEY,
+                CKK_GENERIC_SECRET,
+                CKA_UNWRAP,
+            )?,
+        }
         let keydata = AesOperation::unwrap(mech, wrapping_key, data)?;
         key_template
             .as_key_factory()?
diff --git a/src/rsa.rs b/src/rsa.rs
index c52608b..5d71784 100644
--- a/src/rsa.rs
+++ b/src/rsa.rs
@@ -745,6 +745,7 @@ impl Mechanism for RsaPKCSMechanism {
         if self.info.flags & CKF_WRAP != CKF_WRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        wrapping_key.check_key_ops(CKO_PUBLIC_KEY, CKK_RSA, CKA_WRAP)?;
         RsaPKCSOperation::wrap(
             mech,
             wrapping_key,
@@ -774,6 +775,7 @@ impl Mechanism for RsaPKCSMechanism {
         if self.info.flags & CKF_UNWRAP != CKF_UNWRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        wrapping_key.check_key_ops(CKO_PRIVATE_KEY, CKK_RSA, CKA_UNWRAP)?;
         let keydata =
             RsaPKCSOperation::unwrap(mech, wrapping_key, data, &self.info)?;
         key_template
-- 
2.43.0


From c2dab7cc24275453f88dc402baae5d7e521ce308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:33 +0000
Subject: [PATCH 34/53] fix: keys agreed with C_DeriveKey are not locally
 generated

---
 src/ossl/ecdh.rs | 10 +++-------
 src/ossl/ffdh.rs | 13 ++++++-------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index 3f054a6..e650ff1 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -7,11 +7,10 @@
 
 use std::borrow::Cow;
 
-use crate::attribute::CkAttrs;
 use crate::error::Result;
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
 use crate::misc::{bytes_to_vec, zeromem};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -230,12 +229,9 @@ impl Derive for ECDHOperation {
             secret = output;
         }
 
-        let mut tmpl = CkAttrs::from(template);
-        tmpl.add_vec(CKA_VALUE, secret)?;
-        tmpl.zeroize = true;
-        let mut obj = factory.create(tmpl.as_slice())?;
+        let mut obj = factory.as_key_factory()?.key_derive(template, key)?;
+        factory.as_secret_key_factory()?.set_key(&mut obj, secret)?;
 
-        default_key_attributes(&mut obj, self.mech)?;
         Ok(vec![obj])
     }
 }
diff --git a/src/ossl/ffdh.rs b/src/ossl/ffdh.rs
index 0ba48de..b0ce7a3 100644
--- a/src/ossl/ffdh.rs
+++ b/src/ossl/ffdh.rs
@@ -7,11 +7,11 @@
 
 use std::fmt::Debug;
 
-use crate::attribute::{Attribute, CkAttrs};
+use crate::attribute::Attribute;
 use crate::error::{Error, Result};
 use crate::ffdh_groups::{get_group_name, DHGroupName};
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -228,12 +228,11 @@ impl Derive for FFDHOperation {
             }
         }
 
-        let mut tmpl = CkAttrs::from(template);
-        tmpl.add_vec(CKA_VALUE, secret.to_vec())?;
-        tmpl.zeroize = true;
-        let mut obj = factory.create(tmpl.as_slice())?;
+        let mut obj = factory.as_key_factory()?.key_derive(template, key)?;
+        factory
+            .as_secret_key_factory()?
+            .set_key(&mut obj, secret.to_vec())?;
 
-        default_key_attributes(&mut obj, self.mech)?;
         Ok(vec![obj])
     }
 }
-- 
2.43.0


From d2dce9972300916a09943ae373c47d9a124c77e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 35/53] fix: only private keys give a public key

The operation tested the CKA_PRIVATE flag instead of the object class.
---
 src/native/simplekdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 962343b..3336f24 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -525,7 +525,7 @@ impl Derive for PubFromPrivOperation {
         // key must be a private key
         // It does not need to allow derivation, as this is a pseudo
         // mechanism that is alaways usable for any private key
-        if !key.is_private() {
+        if key.get_class() != CKO_PRIVATE_KEY {
             return Err(CKR_KEY_TYPE_INCONSISTENT)?;
         }
 
-- 
2.43.0


From e976d14c1299eab740890fe7d8df3feca26bdea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 36/53] fix: a failed key pair generation leaves no public key
 behind

The rollback went through C_DestroyObject's checks, which keep an object
that is not destroyable.
---
 src/fns/keymgmt.rs |  2 +-
 src/token.rs       | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 00a1a38..d16ffdd 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -200,7 +200,7 @@ fn generate_key_pair(
                     Ok(())
                 }
                 Err(e) => {
-                    let _ = token.destroy_object(pubh);
+                    let _ = token.withdraw_object(pubh);
                     Err(e)?
                 }
             }
diff --git a/src/token.rs b/src/token.rs
index f78b107..283b6d1 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -780,6 +780,16 @@ impl Token {
         Ok(())
     }
 
+    /// Takes back an object that was just inserted, as part of an operation
+    /// that failed later, regardless of the object's own attributes.
+    pub fn withdraw_object(&mut self, o_handle: CK_OBJECT_HANDLE) -> Result<()> {
+        if self.session_objects.remove(&o_handle).is_none() {
+            self.storage.remove(&self.facilities, o_handle)?;
+        }
+        self.facilities.handles.remove(o_handle);
+        Ok(())
+    }
+
     /// Retrieves specified attributes for an object identified by its handle.
     ///
     /// Checks session cache then storage. Performs login checks. Uses the
-- 
2.43.0


From 87345b12b8ab8d01defed2031ac21468b08d56d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 37/53] fix: AES-CTS works with an output buffer of exactly the
 reported length

The ossl wrapper wants room for whole blocks, so any length that is not a
multiple of the block size failed with CKR_DEVICE_ERROR.
---
 src/ossl/aes.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 0a10e39..f982ed3 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1356,11 +1356,15 @@ impl Encryption for AesOperation {
                 }
             }
             CKM_AES_CTS => {
-                /* CTS requires a minimum of 2 blocks to perform stealing
-                 * so if the output is smaller we need to use a support buffer
-                 * to call into OpenSSL */
-                if cipher.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                /* CTS requires a minimum of 2 blocks to perform stealing,
+                 * and room for whole blocks, so if the output is smaller we
+                 * need to use a support buffer to call into OpenSSL */
+                let bufsize = std::cmp::max(
+                    ctx.buffer_size(plain.len()),
+                    AES_BLOCK_SIZE * 2,
+                );
+                if cipher.len() < bufsize {
+                    let mut buffer = vec![0u8; bufsize];
                     cipher_offset =
                         ctx.update(plain, &mut buffer).or_else(|_| {
                             self.finalized = true;
@@ -1815,11 +1819,15 @@ impl Decryption for AesOperation {
                 }
             }
             CKM_AES_CTS => {
-                /* CTS requires a minimum of 2 blocks to perform stealing
-                 * so if the output is smaller we need to use a support buffer
-                 * to call into OpenSSL */
-                if plain.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                /* CTS requires a minimum of 2 blocks to perform stealing,
+                 * and room for whole blocks, so if the output is smaller we
+                 * need to use a support buffer to call into OpenSSL */
+                let bufsize = std::cmp::max(
+                    ctx.buffer_size(cipher.len()),
+                    AES_BLOCK_SIZE * 2,
+                );
+                if plain.len() < bufsize {
+                    let mut buffer = vec![0u8; bufsize];
                     plain_offset =
                         ctx.update(cipher, &mut buffer).or_else(|_| {
                             self.finalized = true;
-- 
2.43.0


From 067a31263aae7b13062acd70dbef80ea28e146ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 38/53] fix: Diffie-Hellman mechanisms check the type of the
 base key

CKM_ECDH1_DERIVE could be used with a finite field DH key.
---
 src/ossl/ecdh.rs | 5 +++++
 src/ossl/ffdh.rs | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index e650ff1..f4f6852 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -142,6 +142,11 @@ impl Derive for ECDHOperation {
         }
         self.finalized = true;
 
+        match key.get_attr_as_ulong(CKA_KEY_TYPE)? {
+            CKK_EC | CKK_EC_MONTGOMERY => (),
+            _ => return Err(CKR_KEY_TYPE_INCONSISTENT)?,
+        }
+
         let mut pkey = privkey_from_object(key)?;
         let mut ecdh = EcdhDerive::new(osslctx(), &mut pkey)?;
 
diff --git a/src/ossl/ffdh.rs b/src/ossl/ffdh.rs
index b0ce7a3..f7fcfe7 100644
--- a/src/ossl/ffdh.rs
+++ b/src/ossl/ffdh.rs
@@ -166,6 +166,10 @@ impl Derive for FFDHOperation {
         }
         self.finalized = true;
 
+        if key.get_attr_as_ulong(CKA_KEY_TYPE)? != CKK_DH {
+            return Err(CKR_KEY_TYPE_INCONSISTENT)?;
+        }
+
         let factory =
             objectfactories.get_obj_factory_from_key_template(template)?;
 
-- 
2.43.0


From c272a48059bdd1b84333691e9b7326778ef20721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 39/53] fix: a failed derivation of several keys leaves none of
 them behind

---
 src/fns/keymgmt.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index d16ffdd..fd4d036 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -703,9 +703,9 @@ fn derive_key(
                         Ok(h) => ah.push(h),
                         Err(e) => {
                             for h in ah {
-                                let _ = token.destroy_object(h);
+                                let _ = token.withdraw_object(h);
                             }
-                            let _ = token.destroy_object(kh);
+                            let _ = token.withdraw_object(kh);
                             return Err(e)?;
                         }
                     }
@@ -742,7 +742,7 @@ fn derive_key(
                     Ok(h) => ah.push(h),
                     Err(e) => {
                         for h in ah {
-                            let _ = token.destroy_object(h);
+                            let _ = token.withdraw_object(h);
                         }
                         return Err(e)?;
                     }
-- 
2.43.0


From 12eb5535b3eb5d03e4aa53995d3ca33109315673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 40/53] fix: public keys do not carry attributes defined for
 secret keys

CKA_ALWAYS_SENSITIVE and CKA_NEVER_EXTRACTABLE could be searched for on
generated public keys but not read.
---
 src/object/key.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/object/key.rs b/src/object/key.rs
index fa7c244..a09caed 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -493,6 +493,11 @@ pub fn default_key_attributes(
     key.set_attr(Attribute::from_bool(CKA_LOCAL, true))?;
     key.set_attr(Attribute::from_ulong(CKA_KEY_GEN_MECHANISM, mech))?;
 
+    if key.get_class() == CKO_PUBLIC_KEY {
+        /* the attributes below are not defined for public keys */
+        return Ok(());
+    }
+
     let extractable = match key.get_attr_as_bool(CKA_EXTRACTABLE) {
         Ok(b) => b,
         _ => true,
-- 
2.43.0


From 8bb24cc147b51a6c7b4f8cd7e1b74c0c2076776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 41/53] fix: a modulus cannot be given for an RSA key pair to
 be generated

---
 src/rsa.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsa.rs b/src/rsa.rs
index 5d71784..3ced748 100644
--- a/src/rsa.rs
+++ b/src/rsa.rs
@@ -215,7 +215,8 @@ impl RSAPubFactory {
         let attributes = factory.data.get_attributes_mut();
 
         attributes.push(attr_element!(
-            CKA_MODULUS; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
+            CKA_MODULUS; OAFlags::RequiredOnCreate
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_MODULUS_BITS; OAFlags::RequiredOnGenerate
-- 
2.43.0


From fb308ed584bec017fa2e3e0b7e84278256df5764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 42/53] fix: values of keys that are not extractable cannot be
 guessed by searching

---
 src/storage/format.rs | 2 +-
 src/token.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 611150b..d96be53 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -430,7 +430,7 @@ impl Storage for StdStorageFormat {
         let mut objects = self.store.search(template)?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
-            if obj.is_sensitive() {
+            if obj.is_sensitive() || !obj.is_extractable() {
                 obj.set_zeroize();
                 match facilities.factories.check_sensitive(&obj, template) {
                     Err(_) => continue,
diff --git a/src/token.rs b/src/token.rs
index 283b6d1..7f6cd69 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -941,7 +941,7 @@ impl Token {
 
         /* First add internal session objects */
         for (_, o) in &self.session_objects {
-            if o.is_sensitive() {
+            if o.is_sensitive() || !o.is_extractable() {
                 match self.facilities.factories.check_sensitive(o, template) {
                     Err(_) => continue,
                     Ok(()) => (),
-- 
2.43.0


From 27e9bc40b2511015f3388fc2f2e90f0a840da60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 43/53] fix: report the number of entries when the buffer for a
 list is too small

C_GetSlotList, C_GetMechanismList, C_GetInterfaceList and C_EncapsulateKey
left the caller's count unchanged with CKR_BUFFER_TOO_SMALL.
---
 src/fns/general.rs | 1 +
 src/fns/keymgmt.rs | 3 +++
 src/fns/stmgmt.rs  | 5 +++++
 3 files changed, 9 insertions(+)

diff --git a/src/fns/general.rs b/src/fns/general.rs
index b9c4144..8205dea 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -220,6 +220,7 @@ fn get_interface_list(
     }
     unsafe {
         if *count < iflen {
+            *count = iflen;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index fd4d036..945ae86 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -872,6 +872,9 @@ fn encapsulate_key(
         return Ok(());
     }
     if ciphertext_len > enclen {
+        unsafe {
+            *encrypted_part_len = ctext_len;
+        }
         return Err(CKR_BUFFER_TOO_SMALL)?;
     }
 
diff --git a/src/fns/stmgmt.rs b/src/fns/stmgmt.rs
index 87301d1..4af9aae 100644
--- a/src/fns/stmgmt.rs
+++ b/src/fns/stmgmt.rs
@@ -36,6 +36,7 @@ fn get_slot_list(
     unsafe {
         let num: CK_ULONG = *count;
         if num < silen {
+            *count = silen;
             return Err(CKR_BUFFER_TOO_SMALL)?;
         }
     }
@@ -157,6 +158,10 @@ fn get_mechanism_list(
     let mechs = token.get_mechs_list();
     let num = unsafe { *count };
     if (num as usize) < mechs.len() {
+        unsafe {
+            *count = CK_ULONG::try_from(mechs.len())
+                .map_err(|_| CKR_GENERAL_ERROR)?;
+        }
         return Err(CKR_BUFFER_TOO_SMALL)?;
     }
     for (udx, mech) in mechs.iter().enumerate() {
-- 
2.43.0


From eeab57d7991bb125c43e5b641102675f7ce15035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 44/53] fix: C_InitToken applies entirely or not at all

A crash or a storage failure in the middle of C_InitToken left a token
without users that made C_Initialize fail from then on.
---
 src/storage/format.rs |  30 +++++++++++++
 src/storage/mod.rs    |  13 ++++++
 src/storage/sqlite.rs | 100 ++++++++++++++++++++++++++++++++----------
 src/token.rs          |  48 +++++++++++++++-----
 4 files changed, 156 insertions(+), 35 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index d96be53..a67c263 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -111,6 +111,19 @@ pub trait StorageRaw: Debug + Send + Sync {
     fn open(&mut self) -> Result<()> {
         Err(CKR_GENERAL_ERROR)?
     }
+    /// Starts a set of changes that is applied entirely or not at all, if
+    /// the backend supports it
+    fn begin(&mut self) -> Result<()> {
+        Ok(())
+    }
+    /// Makes the changes done since begin() permanent
+    fn commit(&mut self) -> Result<()> {
+        Ok(())
+    }
+    /// Undoes the changes done since begin()
+    fn rollback(&mut self) -> Result<()> {
+        Ok(())
+    }
     /// Flushes any pending changes to the persistent storage medium.
     fn flush(&mut self) -> Result<()> {
         Err(CKR_GENERAL_ERROR)?
@@ -262,6 +275,23 @@ impl Storage for StdStorageFormat {
         Ok(info)
     }
 
+    /// Starts a set of changes on the raw backend
+    fn begin(&mut self) -> Result<()> {
+        self.store.begin()
+    }
+
+    /// Commits the changes on the raw backend
+    fn commit(&mut self) -> Result<()> {
+        self.store.commit()
+    }
+
+    /// Undoes the changes on the raw backend and forgets the key, which may
+    /// be one that was never stored
+    fn rollback(&mut self) -> Result<()> {
+        self.aci.unauth();
+        self.store.rollback()
+    }
+
     /// Flushes the underlying raw storage.
     fn flush(&mut self) -> Result<()> {
         self.store.flush()
diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 7a09190..277116c 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -68,6 +68,19 @@ pub trait Storage: Debug + Send + Sync {
         &mut self,
         facilities: &TokenFacilities,
     ) -> Result<StorageTokenInfo>;
+    /// Starts a set of changes that is applied entirely or not at all, for
+    /// backends that support it
+    fn begin(&mut self) -> Result<()> {
+        Ok(())
+    }
+    /// Makes the changes done since begin() permanent
+    fn commit(&mut self) -> Result<()> {
+        Ok(())
+    }
+    /// Undoes the changes done since begin()
+    fn rollback(&mut self) -> Result<()> {
+        Ok(())
+    }
     /// Flushes any pending changes to the persistent storage.
     fn flush(&mut self) -> Result<()>;
     /// Fetches an object from storage by its handle.
diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index da54f1b..58f2d79 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -37,12 +37,12 @@ const DB_VERSION_COL: &str = "version";
 const DB_VERSION: &str = "v1";
 const TOKEN_INFO_META: &str = "TOKEN INFO";
 
-const DROP_META_TABLE: &str = "DROP TABLE meta";
+const DROP_META_TABLE: &str = "DROP TABLE IF EXISTS meta";
 const CREATE_META_TABLE: &str =
     "CREATE TABLE meta (name TEXT NOT NULL, id INTEGER, value TEXT, data BLOB, UNIQUE(name, value))";
 
 const OBJECTS_TABLE: &str = "objects";
-const DROP_OBJ_TABLE: &str = "DROP TABLE objects";
+const DROP_OBJ_TABLE: &str = "DROP TABLE IF EXISTS objects";
 const CREATE_OBJ_TABLE: &str = "CREATE TABLE objects (id int NOT NULL, attr int NOT NULL, val blob, UNIQUE (id, attr))";
 
 /* search by filter constants */
@@ -230,7 +230,7 @@ impl SqliteStorage {
     ///
     /// Uses INSERT OR REPLACE.
     fn store_meta(
-        tx: &mut Transaction,
+        tx: &mut StorageTx,
         name: &str,
         id: Option<u32>,
         value: Option<&str>,
@@ -272,7 +272,7 @@ impl SqliteStorage {
     /// new numeric ID if necessary, then inserts each attribute as a separate
     /// row (id, attr_type, value).
     fn store_object(
-        tx: &mut Transaction,
+        tx: &mut StorageTx,
         uid: &String,
         obj: Object,
     ) -> Result<()> {
@@ -323,7 +323,7 @@ impl SqliteStorage {
     ///
     /// Returns the numeric ID of the deleted object, or 0 if the object was
     /// not found.
-    fn delete_object(tx: &mut Transaction, uid: &String) -> Result<i32> {
+    fn delete_object(tx: &mut StorageTx, uid: &String) -> Result<i32> {
         let mut stmt = tx.prepare(SEARCH_OBJ_ID).map_err(bad_storage)?;
         let objid = match stmt
             .query_row(params![CKA_UNIQUE_ID as u32, uid], |row| row.get(0))
@@ -381,6 +381,42 @@ impl SqliteStorage {
     }
 }
 
+/// The transaction an operation runs in: its own, or one that was opened with
+/// begin() to enclose several operations
+enum StorageTx<'a> {
+    Own(Transaction<'a>),
+    Enclosing(&'a Connection),
+}
+
+impl<'a> StorageTx<'a> {
+    fn new(conn: &'a mut Connection) -> Result<StorageTx<'a>> {
+        if !conn.is_autocommit() {
+            return Ok(StorageTx::Enclosing(conn));
+        }
+        let mut tx = conn.transaction().map_err(bad_storage)?;
+        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        Ok(StorageTx::Own(tx))
+    }
+
+    fn commit(self) -> Result<()> {
+        match self {
+            StorageTx::Own(tx) => tx.commit().map_err(bad_storage),
+            StorageTx::Enclosing(_) => Ok(()),
+        }
+    }
+}
+
+impl std::ops::Deref for StorageTx<'_> {
+    type Target = Connection;
+
+    fn deref(&self) -> &Connection {
+        match self {
+            StorageTx::Own(tx) => tx,
+            StorageTx::Enclosing(conn) => conn,
+        }
+    }
+}
+
 const USER_FLAGS: &str = "USER FLAGS";
 const USER_COUNTER: &str = "USER COUNTER";
 const USER_DATA: &str = "USER DATA";
@@ -395,10 +431,10 @@ impl StorageRaw for SqliteStorage {
 
     fn db_reset(&mut self) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
-        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
-        /* the drops can fail when files are empty (new) */
-        let _ = tx.execute(DROP_META_TABLE, params![]);
+        let mut tx = StorageTx::new(&mut conn)?;
+        /* there is nothing to drop when files are empty (new) */
+        tx.execute(DROP_META_TABLE, params![])
+            .map_err(bad_storage)?;
         tx.execute(CREATE_META_TABLE, params![])
             .map_err(bad_storage)?;
         Self::store_meta(
@@ -408,10 +444,10 @@ impl StorageRaw for SqliteStorage {
             Some(DB_VERSION),
             None,
         )?;
-        let _ = tx.execute(DROP_OBJ_TABLE, params![]);
+        tx.execute(DROP_OBJ_TABLE, params![]).map_err(bad_storage)?;
         tx.execute(CREATE_OBJ_TABLE, params![])
             .map_err(bad_storage)?;
-        tx.commit().map_err(bad_storage)
+        tx.commit()
     }
 
     fn open(&mut self) -> Result<()> {
@@ -424,6 +460,28 @@ impl StorageRaw for SqliteStorage {
         set_secure_delete(&conn)
     }
 
+    /// Opens a transaction that encloses the operations that follow
+    fn begin(&mut self) -> Result<()> {
+        let conn = self.conn.lock()?;
+        conn.execute_batch("BEGIN").map_err(bad_storage)
+    }
+
+    /// Commits the enclosing transaction
+    fn commit(&mut self) -> Result<()> {
+        let conn = self.conn.lock()?;
+        conn.execute_batch("COMMIT").map_err(bad_storage)
+    }
+
+    /// Rolls the enclosing transaction back
+    fn rollback(&mut self) -> Result<()> {
+        let conn = self.conn.lock()?;
+        if conn.is_autocommit() {
+            /* sqlite already rolled back on a storage failure */
+            return Ok(());
+        }
+        conn.execute_batch("ROLLBACK").map_err(bad_storage)
+    }
+
     fn flush(&mut self) -> Result<()> {
         Ok(())
     }
@@ -529,18 +587,16 @@ impl StorageRaw for SqliteStorage {
     fn store_obj(&mut self, obj: Object) -> Result<()> {
         let uid = obj.get_attr_as_string(CKA_UNIQUE_ID)?;
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
-        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        let mut tx = StorageTx::new(&mut conn)?;
         Self::store_object(&mut tx, &uid, obj)?;
-        tx.commit().map_err(bad_storage)
+        tx.commit()
     }
 
     fn remove_by_uid(&mut self, uid: &String) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
-        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        let mut tx = StorageTx::new(&mut conn)?;
         Self::delete_object(&mut tx, &uid)?;
-        tx.commit().map_err(bad_storage)
+        tx.commit()
     }
 
     fn fetch_token_info(&self) -> Result<StorageTokenInfo> {
@@ -575,8 +631,7 @@ impl StorageRaw for SqliteStorage {
 
     fn store_token_info(&mut self, info: &StorageTokenInfo) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
-        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        let mut tx = StorageTx::new(&mut conn)?;
 
         Self::store_meta(
             &mut tx,
@@ -620,7 +675,7 @@ impl StorageRaw for SqliteStorage {
             Some(&flags32.to_le_bytes() as &[u8]),
         )?;
 
-        tx.commit().map_err(bad_storage)
+        tx.commit()
     }
 
     fn fetch_user(&self, uid: &str) -> Result<StorageAuthInfo> {
@@ -662,8 +717,7 @@ impl StorageRaw for SqliteStorage {
 
     fn store_user(&mut self, uid: &str, data: &StorageAuthInfo) -> Result<()> {
         let mut conn = self.conn.lock()?;
-        let mut tx = conn.transaction().map_err(bad_storage)?;
-        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        let mut tx = StorageTx::new(&mut conn)?;
 
         if data.default_pin {
             let flags32 = USER_FLAGS_DEFAULT_PIN;
@@ -694,7 +748,7 @@ impl StorageRaw for SqliteStorage {
                 Some(blob.as_slice()),
             )?;
         }
-        tx.commit().map_err(bad_storage)
+        tx.commit()
     }
 }
 
diff --git a/src/token.rs b/src/token.rs
index 7f6cd69..50f3771 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -258,10 +258,45 @@ impl Token {
             self.auth_user(CKU_SO, pin, true)?;
         };
 
+        /* a token must never be left half initialized */
+        let flags = self.info.flags;
+        self.storage.begin()?;
+        let result = match self.reset_storage(pin, label) {
+            Ok(info) => self.storage.commit().map(|_| info),
+            Err(e) => Err(e),
+        };
+        let info = match result {
+            Ok(info) => info,
+            Err(e) => {
+                let _ = self.storage.rollback();
+                self.info.flags = flags;
+                return Err(e);
+            }
+        };
+
         self.facilities.handles.clear();
         self.session_objects.clear();
         self.logged = KRY_UNSPEC;
 
+        /* copy info on Token object */
+        self.fill_token_info(&info);
+
+        /* IMPORTANT: we always forcibly unauth here (A reinit
+         * creates the token as if CKU_SO was logged in in oreder
+         * to properly store data and set PINs).
+         * The caller must ensure authentication after a reset
+         * to be able to correctly access the database. */
+        self.storage.unauth_user(CKU_SO)?;
+
+        self.token_internal_objects_init()
+    }
+
+    /// Wipes the storage and stores the SO PIN and label of a new token
+    fn reset_storage(
+        &mut self,
+        pin: &[u8],
+        label: &[u8],
+    ) -> Result<StorageTokenInfo> {
         /* this inits from scratch or deletes and reinits an existing db */
         let mut info = self.storage.reinit(&self.facilities)?;
 
@@ -281,18 +316,7 @@ impl Token {
 
         /* save token info with provided label */
         self.storage.store_token_info(&info)?;
-
-        /* copy info on Token object */
-        self.fill_token_info(&info);
-
-        /* IMPORTANT: we always forcibly unauth here (A reinit
-         * creates the token as if CKU_SO was logged in in oreder
-         * to properly store data and set PINs).
-         * The caller must ensure authentication after a reset
-         * to be able to correctly access the database. */
-        self.storage.unauth_user(CKU_SO)?;
-
-        self.token_internal_objects_init()
+        Ok(info)
     }
 
     /// Sets or changes the PIN for a given user type (SO or User).
-- 
2.43.0


From ac7e44ab33e544708bed6cd089c51f1fd7426903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 45/53] fix: logout does not depend on the storage

When the storage could not be read C_Logout reported an error, although the
user was logged out, and kept the storage key.
---
 src/storage/format.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index a67c263..3d238ad 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -551,8 +551,9 @@ impl Storage for StdStorageFormat {
 
     /// Unauthenticates a user via the ACI layer (clears the master key).
     fn unauth_user(&mut self, user_type: CK_USER_TYPE) -> Result<()> {
-        /* check it exists so we return the correct error */
-        let _ = self.store.fetch_user(get_pin_uid(user_type)?)?;
+        /* check the type so we return the correct error, this must not
+         * depend on the storage: a logout always drops the key */
+        let _ = get_pin_uid(user_type)?;
         self.aci.unauth();
         Ok(())
     }
-- 
2.43.0


From 714d7943c41ed04cdffeebbefde32b7fd00fc636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 46/53] fix: report a login attempt that could not be recorded

When the attempts counter could not be written the login still reported
success (the counter of failed attempts was not reset) or a wrong PIN (the
attempt was not counted), and unrelated errors cleared the PIN flags.
---
 src/storage/format.rs | 9 ++++++++-
 src/token.rs          | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 3d238ad..eb0c02a 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -534,7 +534,14 @@ impl Storage for StdStorageFormat {
         )?;
 
         if update {
-            let _ = self.store.store_user(uid, &user_data);
+            if let Err(e) = self.store.store_user(uid, &user_data) {
+                /* an attempt that can not be recorded does not count as
+                 * a login */
+                if !check_only {
+                    self.aci.unauth();
+                }
+                return Err(e);
+            }
         }
 
         if user_data.cur_attempts == 0 {
diff --git a/src/token.rs b/src/token.rs
index 50f3771..d4bdef8 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -404,7 +404,13 @@ impl Token {
             &mut flags,
             check_only,
         );
-        self.update_auth_flags(user_type, flags);
+        /* other errors do not tell anything about the PIN */
+        if matches!(
+            ret.as_ref().map_err(|e| e.rv()),
+            Ok(()) | Err(CKR_PIN_INCORRECT) | Err(CKR_PIN_LOCKED)
+        ) {
+            self.update_auth_flags(user_type, flags);
+        }
         if ret.is_err() {
             return ret;
         }
-- 
2.43.0


From 48d02d619821c2be1f1aef06269ae623524e811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 47/53] fix: objects created by one call are stored all or none

When storage failed or the process died in the middle of C_GenerateKeyPair or
of a derivation of several keys, removing the ones already stored could fail
too (or never happen) and one half was left behind.
---
 src/fns/keymgmt.rs    | 63 +++++++++++++------------------------------
 src/storage/format.rs |  4 +--
 src/token.rs          | 45 ++++++++++++++++++++++++++++---
 3 files changed, 60 insertions(+), 52 deletions(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 945ae86..8eab9b6 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -190,20 +190,13 @@ fn generate_key_pair(
                 );
                 session.set_fips_indicator(approved);
             }
-            let pubh = token.insert_object(s_handle, pubkey)?;
-            match token.insert_object(s_handle, privkey) {
-                Ok(privh) => {
-                    unsafe {
-                        core::ptr::write(public_key as *mut _, pubh);
-                        core::ptr::write(private_key as *mut _, privh);
-                    }
-                    Ok(())
-                }
-                Err(e) => {
-                    let _ = token.withdraw_object(pubh);
-                    Err(e)?
-                }
+            let handles =
+                token.insert_objects(s_handle, vec![pubkey, privkey])?;
+            unsafe {
+                core::ptr::write(public_key as *mut _, handles[0]);
+                core::ptr::write(private_key as *mut _, handles[1]);
             }
+            Ok(())
         }
         Err(e) => Err(e)?,
     }
@@ -664,8 +657,11 @@ fn derive_key(
         CKM_SP800_108_COUNTER_KDF
         | CKM_SP800_108_FEEDBACK_KDF
         | CKM_SP800_108_DOUBLE_PIPELINE_KDF => {
-            let kh = token.insert_object(s_handle, result.remove(0))?;
-            if result.len() > 0 {
+            if result.len() == 0 {
+                return Err(CKR_GENERAL_ERROR)?;
+            }
+            let ah: Vec<CK_OBJECT_HANDLE>;
+            if result.len() > 1 {
                 let adk = match mechanism.mechanism {
                     CKM_SP800_108_COUNTER_KDF => {
                         let params = mechanism
@@ -693,33 +689,22 @@ fn derive_key(
 
                     _ => return Err(CKR_MECHANISM_INVALID)?,
                 };
-                if adk.len() != result.len() {
+                if adk.len() != result.len() - 1 {
                     return Err(CKR_GENERAL_ERROR)?;
                 }
-                let mut ah = Vec::<CK_OBJECT_HANDLE>::with_capacity(adk.len());
-                let mut iter_result = result.into_iter();
-                while let Some(obj) = iter_result.next() {
-                    match token.insert_object(s_handle, obj) {
-                        Ok(h) => ah.push(h),
-                        Err(e) => {
-                            for h in ah {
-                                let _ = token.withdraw_object(h);
-                            }
-                            let _ = token.withdraw_object(kh);
-                            return Err(e)?;
-                        }
-                    }
-                }
+                ah = token.insert_objects(s_handle, result)?;
                 for i in 0..adk.len() {
                     unsafe {
-                        core::ptr::write(adk[i].phKey, ah[i]);
+                        core::ptr::write(adk[i].phKey, ah[i + 1]);
                     }
                 }
+            } else {
+                ah = token.insert_objects(s_handle, result)?;
             }
 
             if !key_handle.is_null() {
                 unsafe {
-                    core::ptr::write(key_handle, kh);
+                    core::ptr::write(key_handle, ah[0]);
                 }
             }
             Ok(())
@@ -735,19 +720,7 @@ fn derive_key(
                 _ => return Err(CKR_GENERAL_ERROR)?,
             }
 
-            let mut ah = Vec::<CK_OBJECT_HANDLE>::with_capacity(result.len());
-            let mut iter_result = result.into_iter();
-            while let Some(obj) = iter_result.next() {
-                match token.insert_object(s_handle, obj) {
-                    Ok(h) => ah.push(h),
-                    Err(e) => {
-                        for h in ah {
-                            let _ = token.withdraw_object(h);
-                        }
-                        return Err(e)?;
-                    }
-                }
-            }
+            let mut ah = token.insert_objects(s_handle, result)?;
             if ah.len() == 4 {
                 unsafe {
                     (*mat_out).hClientMacSecret = ah.remove(0);
diff --git a/src/storage/format.rs b/src/storage/format.rs
index eb0c02a..57433cd 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -285,10 +285,8 @@ impl Storage for StdStorageFormat {
         self.store.commit()
     }
 
-    /// Undoes the changes on the raw backend and forgets the key, which may
-    /// be one that was never stored
+    /// Undoes the changes on the raw backend
     fn rollback(&mut self) -> Result<()> {
-        self.aci.unauth();
         self.store.rollback()
     }
 
diff --git a/src/token.rs b/src/token.rs
index d4bdef8..d1b2f14 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -269,6 +269,8 @@ impl Token {
             Ok(info) => info,
             Err(e) => {
                 let _ = self.storage.rollback();
+                /* forget the key of the token that was not stored */
+                let _ = self.storage.unauth_user(CKU_SO);
                 self.info.flags = flags;
                 return Err(e);
             }
@@ -630,6 +632,43 @@ impl Token {
         Ok(handle)
     }
 
+    /// Inserts the objects that one operation created, all of them or none.
+    pub fn insert_objects(
+        &mut self,
+        s_handle: CK_SESSION_HANDLE,
+        objs: Vec<Object>,
+    ) -> Result<Vec<CK_OBJECT_HANDLE>> {
+        let num = objs.iter().filter(|o| o.is_token()).count();
+        let mut handles = Vec::<CK_OBJECT_HANDLE>::with_capacity(objs.len());
+        if num > 1 {
+            self.storage.begin()?;
+        }
+        let mut result = Ok(());
+        for obj in objs {
+            match self.insert_object(s_handle, obj) {
+                Ok(h) => handles.push(h),
+                Err(e) => {
+                    result = Err(e);
+                    break;
+                }
+            }
+        }
+        if num > 1 && result.is_ok() {
+            result = self.storage.commit();
+        }
+        if let Err(e) = result {
+            if num > 1 {
+                let _ = self.storage.rollback();
+            }
+            /* session objects, and storage that can not roll back */
+            for h in handles {
+                let _ = self.withdraw_object(h);
+            }
+            return Err(e);
+        }
+        Ok(handles)
+    }
+
     /// Internal function to check for cert/trust object duplicates
     fn _is_duplicate(
         &mut self,
@@ -812,7 +851,7 @@ impl Token {
 
     /// Takes back an object that was just inserted, as part of an operation
     /// that failed later, regardless of the object's own attributes.
-    pub fn withdraw_object(&mut self, o_handle: CK_OBJECT_HANDLE) -> Result<()> {
+    fn withdraw_object(&mut self, o_handle: CK_OBJECT_HANDLE) -> Result<()> {
         if self.session_objects.remove(&o_handle).is_none() {
             self.storage.remove(&self.facilities, o_handle)?;
         }
@@ -918,9 +957,7 @@ impl Token {
                 &[],
             )?),
         };
-        if obj.is_token()
-            && obj.is_private()
-            && !self.is_logged_in(KRY_UNSPEC)
+        if obj.is_token() && obj.is_private() && !self.is_logged_in(KRY_UNSPEC)
         {
             /* do not reveal if the object exists or not */
             return Err(CKR_OBJECT_HANDLE_INVALID)?;
-- 
2.43.0


From 053110dea445d807f354636cc77e1e93fcd83632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 48/53] fix: certificates without issuer or serial number are
 not duplicates

---
 src/token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index d1b2f14..75b9691 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -689,6 +689,10 @@ impl Token {
         if let (Some(issuer), Some(serial)) =
             (obj.get_attr(CKA_ISSUER), obj.get_attr(CKA_SERIAL_NUMBER))
         {
+            /* the default is an empty value, which identifies nothing */
+            if issuer.get_value().is_empty() || serial.get_value().is_empty() {
+                return Ok(None);
+            }
             let class = obj.get_class();
             let mut tmpl = CkAttrs::with_capacity(3);
             tmpl.add_ulong(CKA_CLASS, &class);
-- 
2.43.0


From 5ec1e9a5b37a44d05446ecce47fb853564608401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 49/53] hook: locks can be watched in builds with --cfg
 kryoptic_locktrace

---
 src/fns/digest.rs            |   3 +-
 src/fns/encryption.rs        |   3 +-
 src/fns/signing.rs           |   3 +-
 src/lib.rs                   |   4 +-
 src/slot.rs                  |   2 +-
 src/storage/nssdb/ci.rs      |   2 +-
 src/storage/nssdb/mod.rs     |   3 +-
 src/storage/sqlite.rs        |   3 +-
 src/storage/sqlite_common.rs |   7 +-
 src/sync.rs                  | 196 +++++++++++++++++++++++++++++++++++
 10 files changed, 211 insertions(+), 15 deletions(-)
 create mode 100644 src/sync.rs

diff --git a/src/fns/digest.rs b/src/fns/digest.rs
index 20f23e5..147d8cd 100644
--- a/src/fns/digest.rs
+++ b/src/fns/digest.rs
@@ -6,13 +6,12 @@
 //! This module contains the implementation of the Message Digesting functions
 //! as defined in the PKCS#11 specification.
 
-use std::sync::RwLockWriteGuard;
-
 use crate::error::Result;
 use crate::fns::log_debug;
 use crate::mechanism::Digest;
 use crate::pkcs11::*;
 use crate::session::Session;
+use crate::sync::RwLockWriteGuard;
 use crate::STATE;
 
 #[cfg(feature = "fips")]
diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 7082ee5..be46e59 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -6,14 +6,13 @@
 //! This module contains the implementation of the Encryption and Decryption functions
 //! as defined in the PKCS#11 specification.
 
-use std::sync::RwLockWriteGuard;
-
 use crate::check_allowed_mechs;
 use crate::error::{Error, Result};
 use crate::log_debug;
 use crate::mechanism::{Decryption, Encryption, MsgDecryption, MsgEncryption};
 use crate::pkcs11::*;
 use crate::session::Session;
+use crate::sync::RwLockWriteGuard;
 use crate::STATE;
 
 #[cfg(feature = "fips")]
diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index dae546e..b4c9997 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -6,14 +6,13 @@
 //! This module contains the implementation of the Signing and Verification functions
 //! as defined in the PKCS#11 specification.
 
-use std::sync::RwLockWriteGuard;
-
 use crate::check_allowed_mechs;
 use crate::error::Result;
 use crate::log_debug;
 use crate::mechanism::{Sign, Verify, VerifySignature};
 use crate::pkcs11::*;
 use crate::session::Session;
+use crate::sync::RwLockWriteGuard;
 use crate::token::Token;
 use crate::STATE;
 
diff --git a/src/lib.rs b/src/lib.rs
index 111a908..00bce5a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,7 +9,7 @@
 
 use std::cell::RefCell;
 use std::collections::HashMap;
-use std::sync::{LazyLock, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::LazyLock;
 
 mod attribute;
 mod config;
@@ -26,6 +26,7 @@ mod rng;
 mod session;
 mod slot;
 mod storage;
+pub mod sync;
 mod token;
 
 /* Include algorithms based on selected features */
@@ -46,6 +47,7 @@ use pkcs11::*;
 use rng::RNG;
 use session::Session;
 use slot::Slot;
+use sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use token::Token;
 
 use fns::digest::*;
diff --git a/src/slot.rs b/src/slot.rs
index 0c44a1d..8560a88 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -5,7 +5,6 @@
 //! It manages the associated token and the sessions opened against that token.
 
 use std::collections::HashMap;
-use std::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 
 use crate::config;
 use crate::defaults;
@@ -13,6 +12,7 @@ use crate::error::Result;
 use crate::misc::copy_sized_string;
 use crate::pkcs11::*;
 use crate::session::Session;
+use crate::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use crate::token::Token;
 
 /// Represents a PKCS#11 Slot, containing information about the slot itself,
diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 47f3c75..5218a7d 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -7,7 +7,6 @@
 //! integrity protection, using keys derived from the user's PIN via PBKDF2.
 
 use std::collections::BTreeMap;
-use std::sync::{RwLock, RwLockReadGuard};
 
 use crate::attribute::CkAttrs;
 use crate::error::Result;
@@ -17,6 +16,7 @@ use crate::misc::{sizeof, void_ptr, zeromem};
 use crate::object::Object;
 use crate::pkcs11::*;
 use crate::storage::aci::pbkdf2_derive;
+use crate::sync::{RwLock, RwLockReadGuard};
 use crate::token::TokenFacilities;
 use crate::CSPRNG;
 
diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 2d00d78..49bc52a 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -8,7 +8,7 @@
 use std::borrow::Cow;
 use std::fmt::Write as _;
 use std::path::Path;
-use std::sync::{Arc, Mutex, MutexGuard};
+use std::sync::Arc;
 
 use crate::attribute::{AttrType, Attribute, CkAttrs};
 use crate::defaults;
@@ -21,6 +21,7 @@ use crate::pkcs11::vendor::nss::*;
 use crate::pkcs11::*;
 use crate::storage::sqlite_common::{check_table, set_secure_delete};
 use crate::storage::{Storage, StorageDBInfo, StorageTokenInfo};
+use crate::sync::{Mutex, MutexGuard};
 use crate::token::TokenFacilities;
 use crate::CSPRNG;
 
diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index 58f2d79..de18ba6 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -5,7 +5,7 @@
 //! that fulfills the `StorageRaw` trait using a single SQLite database file
 //! for persistence.
 
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
 
 use crate::attribute::{AttrType, Attribute};
 use crate::error::{Error, Result};
@@ -16,6 +16,7 @@ use crate::storage::aci::{StorageACI, StorageAuthInfo};
 use crate::storage::format::{StdStorageFormat, StorageRaw};
 use crate::storage::sqlite_common::{check_table, set_secure_delete};
 use crate::storage::{Storage, StorageDBInfo, StorageTokenInfo};
+use crate::sync::Mutex;
 
 use itertools::Itertools;
 use rusqlite::types::{Value, ValueRef};
diff --git a/src/storage/sqlite_common.rs b/src/storage/sqlite_common.rs
index 644fe73..0f0a4ba 100644
--- a/src/storage/sqlite_common.rs
+++ b/src/storage/sqlite_common.rs
@@ -4,10 +4,9 @@
 //! This module provides common utilities and error handling conversions
 //! for storage backends implemented using the `rusqlite` crate.
 
-use std::sync::MutexGuard;
-
 use crate::error::{Error, Result};
 use crate::pkcs11::*;
+use crate::sync::MutexGuard;
 
 use rusqlite;
 use rusqlite::{Error as rlError, ErrorCode};
@@ -58,8 +57,8 @@ impl From<rlError> for Error {
 }
 
 /// Converts `std::sync::PoisonError` (from Mutex locking) into `CKR_CANT_LOCK`.
-impl<T> From<std::sync::PoisonError<std::sync::MutexGuard<'_, T>>> for Error {
-    fn from(_: std::sync::PoisonError<std::sync::MutexGuard<'_, T>>) -> Error {
+impl<T> From<std::sync::PoisonError<MutexGuard<'_, T>>> for Error {
+    fn from(_: std::sync::PoisonError<MutexGuard<'_, T>>) -> Error {
         Error::ck_rv(CKR_CANT_LOCK)
     }
 }
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..6f7b243
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,196 @@
+// Copyright 2026 The Kryoptic authors
+// See LICENSE.txt file for terms
+
+//! Locks used by the library.
+//!
+//! These are the locks of the standard library. A build with
+//! `--cfg kryoptic_locktrace` replaces them with wrappers that tell a
+//! watcher about each acquisition and release, so that tests can control
+//! how threads interleave.
+
+#![allow(unexpected_cfgs)]
+
+#[cfg(not(kryoptic_locktrace))]
+pub use std::sync::{
+    Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard,
+};
+
+#[cfg(kryoptic_locktrace)]
+pub use traced::*;
+
+#[cfg(kryoptic_locktrace)]
+mod traced {
+    use std::fmt;
+    use std::mem::ManuallyDrop;
+    use std::ops::{Deref, DerefMut};
+    use std::sync::atomic::{AtomicUsize, Ordering};
+    use std::sync::{LockResult, OnceLock, PoisonError};
+
+    /// How a lock is taken
+    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
+    pub enum Mode {
+        Read,
+        Write,
+    }
+
+    /// Receives what happens to the locks. `acquire` is called before the
+    /// lock is taken and may delay the thread, `release` after it is free.
+    pub trait Watch: Send + Sync {
+        fn acquire(&self, id: usize, what: &'static str, mode: Mode);
+        fn release(&self, id: usize, what: &'static str, mode: Mode);
+    }
+
+    /// The watcher, if there is one
+    pub static WATCH: OnceLock<Box<dyn Watch>> = OnceLock::new();
+
+    static NEXT: AtomicUsize = AtomicUsize::new(1);
+
+    #[derive(Clone, Copy)]
+    struct Tag {
+        id: usize,
+        what: &'static str,
+        mode: Mode,
+    }
+
+    impl Tag {
+        fn acquire(id: usize, what: &'static str, mode: Mode) -> Tag {
+            if let Some(w) = WATCH.get() {
+                w.acquire(id, what, mode);
+            }
+            Tag { id, what, mode }
+        }
+        fn release(&self) {
+            if let Some(w) = WATCH.get() {
+                w.release(self.id, self.what, self.mode);
+            }
+        }
+    }
+
+    macro_rules! guard {
+        ($name:ident) => {
+            pub struct $name<'a, T: 'a> {
+                inner: ManuallyDrop<std::sync::$name<'a, T>>,
+                tag: Tag,
+            }
+
+            impl<'a, T> $name<'a, T> {
+                fn result(
+                    r: LockResult<std::sync::$name<'a, T>>,
+                    tag: Tag,
+                ) -> LockResult<$name<'a, T>> {
+                    match r {
+                        Ok(g) => Ok($name {
+                            inner: ManuallyDrop::new(g),
+                            tag: tag,
+                        }),
+                        Err(e) => Err(PoisonError::new($name {
+                            inner: ManuallyDrop::new(e.into_inner()),
+                            tag: tag,
+                        })),
+                    }
+                }
+            }
+
+            impl<T> Deref for $name<'_, T> {
+                type Target = T;
+                fn deref(&self) -> &T {
+                    &self.inner
+                }
+            }
+
+            impl<T> Drop for $name<'_, T> {
+                fn drop(&mut self) {
+                    /* dropped exactly once, here */
+                    unsafe { ManuallyDrop::drop(&mut self.inner) };
+                    self.tag.release();
+                }
+            }
+
+            impl<T: fmt::Debug> fmt::Debug for $name<'_, T> {
+                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                    self.inner.fmt(f)
+                }
+            }
+        };
+    }
+
+    guard!(MutexGuard);
+    guard!(RwLockReadGuard);
+    guard!(RwLockWriteGuard);
+
+    impl<T> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            &mut self.inner
+        }
+    }
+
+    impl<T> DerefMut for RwLockWriteGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            &mut self.inner
+        }
+    }
+
+    macro_rules! lock {
+        ($name:ident) => {
+            #[derive(Debug)]
+            pub struct $name<T> {
+                inner: std::sync::$name<T>,
+                id: usize,
+            }
+
+            impl<T> $name<T> {
+                pub fn new(t: T) -> $name<T> {
+                    $name {
+                        inner: std::sync::$name::new(t),
+                        id: NEXT.fetch_add(1, Ordering::Relaxed),
+                    }
+                }
+                pub fn into_inner(self) -> LockResult<T> {
+                    self.inner.into_inner()
+                }
+                pub fn get_mut(&mut self) -> LockResult<&mut T> {
+                    self.inner.get_mut()
+                }
+                pub fn is_poisoned(&self) -> bool {
+                    self.inner.is_poisoned()
+                }
+            }
+
+            impl<T> From<T> for $name<T> {
+                fn from(t: T) -> $name<T> {
+                    $name::new(t)
+                }
+            }
+
+            impl<T: Default> Default for $name<T> {
+                fn default() -> $name<T> {
+                    $name::new(T::default())
+                }
+            }
+        };
+    }
+
+    lock!(Mutex);
+    lock!(RwLock);
+
+    impl<T> Mutex<T> {
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            let tag =
+                Tag::acquire(self.id, std::any::type_name::<T>(), Mode::Write);
+            MutexGuard::result(self.inner.lock(), tag)
+        }
+    }
+
+    impl<T> RwLock<T> {
+        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+            let tag =
+                Tag::acquire(self.id, std::any::type_name::<T>(), Mode::Read);
+            RwLockReadGuard::result(self.inner.read(), tag)
+        }
+        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+            let tag =
+                Tag::acquire(self.id, std::any::type_name::<T>(), Mode::Write);
+            RwLockWriteGuard::result(self.inner.write(), tag)
+        }
+    }
+}
-- 
2.43.0


From 48b85a63e188f2fbdef14543a974ab4cb5d8ec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 50/53] fix: check NSS DB PINs with keys of their own

The cache of derived keys is indexed by salt alone, so after one successful
login any PIN was accepted. A wrong PIN also dropped the keys of a logged in
user, and was reported as invalid encrypted data.
---
 src/storage/nssdb/mod.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 49bc52a..915493a 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1503,37 +1503,35 @@ impl Storage for NSSStorage {
          * to the chosen algorithm. The data is a structured ASN.1
          * structure that includes in formation about which algorithm
          * to use for the decryption.
-         * NOTE: to allow key caching we set the key unchecked, and
-         * then remove it on failure or if only a check was requested */
+         * NOTE: the candidate key is checked on its own, the keys in use
+         * and their cache are left alone unless the check succeeds */
         let (salt, data) = self.fetch_password()?;
         let enckey = enckey_derive(facilities, pin, salt.as_slice())?;
-        let originally_set = self.keys.available();
-        if originally_set && self.keys.check_key(enckey.as_slice()) {
+        if self.keys.check_key(enckey.as_slice()) {
             return Ok(());
         }
-        self.keys.set_key(enckey);
-        let check = match decrypt_data(facilities, &self.keys, data.as_slice())
-        {
+        let mut keys = KeysWithCaching::default();
+        keys.set_key(enckey);
+        match decrypt_data(facilities, &keys, data.as_slice()) {
             Ok(plain) => {
-                if plain.as_slice() == NSS_PASS_CHECK {
-                    Ok(())
-                } else {
-                    Err(CKR_PIN_INCORRECT)?
+                if plain.as_slice() != NSS_PASS_CHECK {
+                    return Err(CKR_PIN_INCORRECT)?;
                 }
             }
-            Err(e) => Err(e),
-        };
-        if check.is_err() {
-            /* unconditionally remove the key on failure */
-            self.keys.unset_key();
-            return check;
+            Err(e) => match e.rv() {
+                /* the padding is wrong unless the key is correct */
+                CKR_ENCRYPTED_DATA_INVALID => {
+                    return Err(CKR_PIN_INCORRECT)?;
+                }
+                _ => return Err(e),
+            },
         }
 
         /* NSS does not support any error counter for authentication attempts */
         *flag = 0;
 
-        if check_only && !originally_set {
-            self.keys.unset_key();
+        if !check_only {
+            self.keys = keys;
         }
         Ok(())
     }
-- 
2.43.0


From 9f3245d93a0135c4c97bb225069f15949fe23caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 51/53] fix: re-encode protected NSS DB attributes when the PIN
 changes

The stored keys could not be decrypted anymore after a change of the PIN.
---
 src/storage/nssdb/mod.rs | 142 +++++++++++++++++++++++++++++++++++----
 1 file changed, 130 insertions(+), 12 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 915493a..ccf48d3 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -857,16 +857,132 @@ impl NSSStorage {
         Ok(())
     }
 
-    /// Saves the password check entry (salt and encrypted data) to metadata.
-    fn save_password(&mut self, item1: &[u8], item2: &[u8]) -> Result<()> {
+    /// Saves the password check entry (salt and encrypted data) to metadata,
+    /// together with all the attributes encoded with the current keys, which
+    /// are re-encoded with the new ones.
+    fn save_password(
+        &mut self,
+        facilities: &TokenFacilities,
+        newkeys: &KeysWithCaching,
+        item1: &[u8],
+        item2: &[u8],
+    ) -> Result<()> {
+        /* nothing can have been encoded before a pin was ever set */
+        let mut objs = if self.keys.available() {
+            self.fetch_all_objects()?
+        } else {
+            Vec::new()
+        };
+
         let mut conn = self.conn.lock()?;
         let mut tx = conn.transaction()?;
         tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        for (table, nssobjid, obj) in objs.iter_mut() {
+            Self::reencode_object(
+                &mut tx, facilities, &self.keys, newkeys, table, *nssobjid, obj,
+            )?;
+        }
         Self::save_metadata(&mut tx, "password", item1, item2)?;
         tx.commit()?;
         Ok(())
     }
 
+    /// Fetches all objects as they are stored (sensitive attributes are still
+    /// encrypted).
+    fn fetch_all_objects(&self) -> Result<Vec<(String, u32, Object)>> {
+        let mut ids = Vec::<String>::new();
+        for (table, missing) in [
+            (NSS_PUBLIC_TABLE, self.config.no_cert_db),
+            (NSS_PRIVATE_TABLE, self.config.no_key_db),
+        ] {
+            if !missing {
+                let query = format!("SELECT ALL id FROM {}", table);
+                let mut conn = self.conn.lock()?;
+                ids.append(&mut Self::search_with_params(
+                    &mut conn,
+                    &query,
+                    Vec::new(),
+                    table,
+                )?);
+            }
+        }
+        let mut objs = Vec::with_capacity(ids.len());
+        for nssid in ids {
+            let (table, nssobjid) = nss_id_parse(&nssid)?;
+            let obj = self.fetch_by_nssid(&table, nssobjid, &[])?;
+            objs.push((table, nssobjid, obj));
+        }
+        Ok(objs)
+    }
+
+    /// Encrypts the sensitive attributes and signs the authenticated
+    /// attributes of a stored object with new keys.
+    fn reencode_object(
+        tx: &mut Transaction,
+        facilities: &TokenFacilities,
+        oldkeys: &KeysWithCaching,
+        newkeys: &KeysWithCaching,
+        table: &str,
+        nssobjid: u32,
+        obj: &mut Object,
+    ) -> Result<()> {
+        if table == NSS_PRIVATE_TABLE {
+            let mut values = Vec::<(CK_ULONG, Vec<u8>)>::new();
+            for attr_info in ALL_ATTRIBUTES.iter().filter(|a| a.sensitive) {
+                let typ = attr_info.attr_type;
+                if let Some(attr) = obj.get_attr(typ) {
+                    let mut plain = decrypt_data(
+                        facilities,
+                        oldkeys,
+                        attr.get_value().as_slice(),
+                    )?;
+                    let encval = encrypt_data(
+                        facilities,
+                        newkeys,
+                        NSS_MP_PBE_ITERATION_COUNT,
+                        plain.as_slice(),
+                    );
+                    zeromem(plain.as_mut_slice());
+                    values.push((typ, encval?));
+                }
+            }
+            let mut attrs = CkAttrs::with_capacity(values.len());
+            for (typ, encval) in values {
+                attrs.add_vec(typ, encval)?;
+            }
+            if attrs.len() != 0 {
+                Self::store_attributes(tx, table, nssobjid, &attrs)?;
+            }
+        }
+
+        let dbtype = if table == NSS_PUBLIC_TABLE {
+            "cert"
+        } else {
+            "key"
+        };
+        for attr_info in ALL_ATTRIBUTES.iter().filter(|a| a.authenticated) {
+            let typ = attr_info.attr_type;
+            if let Some(attr) = obj.get_attr(typ) {
+                let sig = make_signature(
+                    facilities,
+                    newkeys,
+                    attr.get_value().as_slice(),
+                    nssobjid,
+                    u32::try_from(typ)?,
+                    NSS_MP_PBE_ITERATION_COUNT,
+                )?;
+                Self::store_signature(
+                    tx,
+                    dbtype,
+                    nssobjid,
+                    typ,
+                    sig.as_slice(),
+                )?;
+            }
+        }
+        Ok(())
+    }
+
     /// Finds the next available numeric ID within a given table (nssPublic or
     /// nssPrivate) inside a transaction. Handles potential wrap-around.
     fn get_next_id(tx: &mut Transaction, table: &str) -> Result<u32> {
@@ -1544,9 +1660,8 @@ impl Storage for NSSStorage {
     /// Sets the user PIN.
     ///
     /// Derives a new KEK from the PIN+new salt, re-encrypts the password check
-    /// value, and potentially re-encrypts all sensitive/authenticated
-    /// attributes (FIXME).  Updates the stored salt and encrypted password
-    /// check value. Clears key cache.
+    /// value, and re-encodes all sensitive/authenticated attributes.  Updates
+    /// the stored salt and encrypted password check value. Clears key cache.
     fn set_user_pin(
         &mut self,
         facilities: &TokenFacilities,
@@ -1577,14 +1692,17 @@ impl Storage for NSSStorage {
         let mut encdata =
             encrypt_data(facilities, &newkeys, iterations, NSS_PASS_CHECK)?;
 
-        /* FIXME: need to re-encode all encrypted/integrity protected attributes */
-
-        /* now that the pin has changed all cached keys are invalid, replace the lot */
-        self.keys = newkeys;
-        /* changing the pin does not leave the token logged in */
-        self.keys.unset_key();
+        let result =
+            self.save_password(facilities, &newkeys, &salt, encdata.as_slice());
+        if result.is_ok() {
+            /* now that the pin has changed all cached keys are invalid,
+             * replace the lot, a user that is not logged in stays so */
+            if !self.keys.available() {
+                newkeys.unset_key();
+            }
+            self.keys = newkeys;
+        }
 
-        let result = self.save_password(&salt, encdata.as_slice());
         zeromem(encdata.as_mut_slice());
         result
     }
-- 
2.43.0


From 76f8d31ddb7ba67e21060be274b9171e27bcd9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 52/53] fix: map back unavailable information read from a NSS
 DB

---
 src/storage/nssdb/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index ccf48d3..9aa792f 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -546,8 +546,11 @@ impl NSSStorage {
                                     return Err(CKR_ATTRIBUTE_VALUE_INVALID)?
                                 }
                             };
-                            let number = u32::from_be_bytes(bytes);
-                            number as CK_ULONG
+                            match u32::from_be_bytes(bytes) {
+                                /* see num_to_val() */
+                                u32::MAX => CK_UNAVAILABLE_INFORMATION,
+                                number => number as CK_ULONG,
+                            }
                         };
                         Attribute::from_attr_slice(
                             cols[i],
-- 
2.43.0


From 2038a6de7b64955430d5d14ef7408222e0545d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 53/53] fix: do not return encrypted NSS DB values as key
 values

Without a login the sensitive attributes of non-private keys were returned
as stored, encrypted.
---
 src/storage/nssdb/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 9aa792f..91bc7b4 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1315,6 +1315,14 @@ impl Storage for NSSStorage {
                     sdbtype,
                 )?;
             }
+        } else if table == NSS_PRIVATE_TABLE {
+            /* these can not be decrypted */
+            if ALL_ATTRIBUTES
+                .iter()
+                .any(|a| a.sensitive && obj.get_attr(a.attr_type).is_some())
+            {
+                return Err(CKR_USER_NOT_LOGGED_IN)?;
+            }
         }
         /* add back the attributes that we requested, but that do not exist in DB */
         for a_info in ALL_ATTRIBUTES.iter().filter(|a| a.skippable) {
-- 
2.43.0

