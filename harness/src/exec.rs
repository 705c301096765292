use crate::sched;
use crate::consts::*;
use kryoptic_lib::pkcs11::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Ctx {
    f: &'static CK_FUNCTION_LIST_3_2,
    sess: Mutex<HashMap<String, CK_SESSION_HANDLE>>,
    objs: Mutex<HashMap<String, CK_OBJECT_HANDLE>>,
    blobs: Mutex<HashMap<String, Vec<u8>>>,
    clock: AtomicU64,
}

const BAD_SESS: CK_SESSION_HANDLE = 0xdead_0000;
const BAD_OBJ: CK_OBJECT_HANDLE = 0xbeef_0000;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

/// "x<hex>" is hex, "s:<text>" is text
fn bytes_of(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => {
            if let Some(h) = s.strip_prefix('x') {
                unhex(h)
            } else if let Some(t) = s.strip_prefix("s:") {
                t.as_bytes().to_vec()
            } else {
                s.as_bytes().to_vec()
            }
        }
        Value::Null => Vec::new(),
        _ => panic!("bytes expected {v}"),
    }
}

struct Tmpl {
    _store: Vec<Vec<u8>>,
    attrs: Vec<CK_ATTRIBUTE>,
}

fn ulong_of(v: &Value) -> CK_ULONG {
    match v {
        Value::Number(n) => n.as_u64().unwrap_or(CK_ULONG::MAX) as CK_ULONG,
        Value::String(s) => num(s).unwrap_or_else(|| panic!("unknown constant {s}")),
        _ => panic!("number expected {v}"),
    }
}

fn tmpl(v: &Value) -> Tmpl {
    let mut store: Vec<Vec<u8>> = Vec::new();
    let mut types = Vec::new();
    let empty = Vec::new();
    for a in v.as_array().unwrap_or(&empty) {
        let n = a[0].as_str().unwrap();
        types.push(attr(n).unwrap_or_else(|| panic!("unknown attr {n}")));
        let val = &a[1];
        let b: Vec<u8> = match attr_kind(n) {
            Kind::Bool if val.is_boolean() => vec![val.as_bool().unwrap() as u8],
            Kind::Num if val.is_number() => ulong_of(val).to_ne_bytes().to_vec(),
            Kind::Num if val.as_str().map(|s| num(s).is_some()).unwrap_or(false) => {
                ulong_of(val).to_ne_bytes().to_vec()
            }
            Kind::NumList if val.is_array() => {
                val.as_array().unwrap().iter().flat_map(|x| ulong_of(x).to_ne_bytes().to_vec()).collect()
            }
            _ => bytes_of(val),
        };
        store.push(b);
    }
    let attrs = (0..types.len())
        .map(|i| CK_ATTRIBUTE {
            type_: types[i],
            pValue: store[i].as_mut_ptr() as CK_VOID_PTR,
            ulValueLen: store[i].len() as CK_ULONG,
        })
        .collect();
    Tmpl { _store: store, attrs }
}

struct Mech {
    _bufs: Vec<Vec<u8>>,
    _param: Vec<u8>,
    m: CK_MECHANISM,
}

fn as_bytes<T>(t: &T) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(t as *const T as *const u8, std::mem::size_of::<T>()).to_vec() }
}

fn mech(ctx: &Ctx, v: &Value) -> Mech {
    let (name, p) = match v {
        Value::Array(a) => (a[0].clone(), a.get(1).cloned().unwrap_or(Value::Null)),
        x => (x.clone(), Value::Null),
    };
    let mut bufs: Vec<Vec<u8>> = Vec::new();
    let mut param: Vec<u8> = Vec::new();
    if let Value::Object(o) = &p {
        if let Some(h) = o.get("hex") {
            param = bytes_of(h);
        } else if let Some(n) = o.get("ulong") {
            param = ulong_of(n).to_ne_bytes().to_vec();
        } else if let Some(n) = o.get("okey") {
            param = ctx.obj(n).to_ne_bytes().to_vec();
        } else if let Some(g) = o.get("gcm") {
            bufs.push(bytes_of(&g["iv"]));
            bufs.push(bytes_of(&g["aad"]));
            let pr = CK_GCM_PARAMS {
                pIv: bufs[0].as_mut_ptr(),
                ulIvLen: bufs[0].len() as CK_ULONG,
                ulIvBits: (bufs[0].len() * 8) as CK_ULONG,
                pAAD: bufs[1].as_mut_ptr(),
                ulAADLen: bufs[1].len() as CK_ULONG,
                ulTagBits: g["tag"].as_u64().unwrap_or(128) as CK_ULONG,
            };
            param = as_bytes(&pr);
        } else if let Some(g) = o.get("ccm") {
            bufs.push(bytes_of(&g["nonce"]));
            bufs.push(bytes_of(&g["aad"]));
            let pr = CK_CCM_PARAMS {
                ulDataLen: g["dlen"].as_u64().unwrap_or(0) as CK_ULONG,
                pNonce: bufs[0].as_mut_ptr(),
                ulNonceLen: bufs[0].len() as CK_ULONG,
                pAAD: bufs[1].as_mut_ptr(),
                ulAADLen: bufs[1].len() as CK_ULONG,
                ulMACLen: g["mac"].as_u64().unwrap_or(16) as CK_ULONG,
            };
            param = as_bytes(&pr);
        } else if let Some(c) = o.get("ctr") {
            let mut cb = [0u8; 16];
            let b = bytes_of(&c["cb"]);
            cb.copy_from_slice(&b[..16]);
            param = as_bytes(&CK_AES_CTR_PARAMS { ulCounterBits: ulong_of(&c["bits"]), cb });
        } else if let Some(x) = o.get("pss") {
            param = as_bytes(&CK_RSA_PKCS_PSS_PARAMS {
                hashAlg: ulong_of(&x[0]),
                mgf: ulong_of(&x[1]) as _,
                sLen: ulong_of(&x[2]),
            });
        } else if let Some(x) = o.get("oaep") {
            param = as_bytes(&CK_RSA_PKCS_OAEP_PARAMS {
                hashAlg: ulong_of(&x[0]),
                mgf: ulong_of(&x[1]) as _,
                source: CKZ_DATA_SPECIFIED as _,
                pSourceData: std::ptr::null_mut(),
                ulSourceDataLen: 0,
            });
        } else if let Some(x) = o.get("ecdh") {
            bufs.push(match x.as_str().and_then(|s| s.strip_prefix('@')) {
                Some(name) => ctx.blobs.lock().unwrap().get(name).cloned().unwrap_or_default(),
                None => bytes_of(x),
            });
            param = as_bytes(&CK_ECDH1_DERIVE_PARAMS {
                kdf: CKD_NULL as _,
                ulSharedDataLen: 0,
                pSharedData: std::ptr::null_mut(),
                ulPublicDataLen: bufs[0].len() as CK_ULONG,
                pPublicData: bufs[0].as_mut_ptr(),
            });
        } else if let Some(x) = o.get("hkdf") {
            bufs.push(bytes_of(&x["salt"]));
            bufs.push(bytes_of(&x["info"]));
            param = as_bytes(&CK_HKDF_PARAMS {
                bExtract: x["extract"].as_bool().unwrap_or(true) as CK_BBOOL,
                bExpand: x["expand"].as_bool().unwrap_or(true) as CK_BBOOL,
                prfHashMechanism: ulong_of(&x["prf"]),
                ulSaltType: if bufs[0].is_empty() { CKF_HKDF_SALT_NULL } else { CKF_HKDF_SALT_DATA } as CK_ULONG,
                pSalt: bufs[0].as_mut_ptr(),
                ulSaltLen: bufs[0].len() as CK_ULONG,
                hSaltKey: 0,
                pInfo: bufs[1].as_mut_ptr(),
                ulInfoLen: bufs[1].len() as CK_ULONG,
            });
        } else if let Some(x) = o.get("strdata") {
            bufs.push(bytes_of(x));
            param = as_bytes(&CK_KEY_DERIVATION_STRING_DATA {
                pData: bufs[0].as_mut_ptr(),
                ulLen: bufs[0].len() as CK_ULONG,
            });
        } else if let Some(x) = o.get("aescbcd") {
            let iv = bytes_of(&x[0]);
            bufs.push(bytes_of(&x[1]));
            let mut pr = CK_AES_CBC_ENCRYPT_DATA_PARAMS {
                iv: [0u8; 16],
                pData: bufs[0].as_mut_ptr(),
                length: bufs[0].len() as CK_ULONG,
            };
            pr.iv.copy_from_slice(&iv[..16]);
            param = as_bytes(&pr);
        } else if let Some(x) = o.get("pbkd2") {
            bufs.push(bytes_of(&x["salt"]));
            bufs.push(bytes_of(&x["pw"]));
            param = as_bytes(&CK_PKCS5_PBKD2_PARAMS2 {
                saltSource: CKZ_SALT_SPECIFIED as _,
                pSaltSourceData: bufs[0].as_mut_ptr() as _,
                ulSaltSourceDataLen: bufs[0].len() as CK_ULONG,
                iterations: x["iter"].as_u64().unwrap_or(1000) as CK_ULONG,
                prf: CKP_PKCS5_PBKD2_HMAC_SHA256 as _,
                pPrfData: std::ptr::null_mut(),
                ulPrfDataLen: 0,
                pPassword: bufs[1].as_mut_ptr(),
                ulPasswordLen: bufs[1].len() as CK_ULONG,
            });
        } else if let Some(x) = o.get("otp") {
            bufs.push(bytes_of(x));
            let p1 = CK_OTP_PARAM {
                type_: CK_OTP_COUNTER,
                pValue: bufs[0].as_mut_ptr() as _,
                ulValueLen: bufs[0].len() as CK_ULONG,
            };
            bufs.push(as_bytes(&p1));
            param = as_bytes(&CK_OTP_PARAMS { pParams: bufs[1].as_mut_ptr() as _, ulCount: 1 });
        }
    }
    let m = CK_MECHANISM {
        mechanism: ulong_of(&name),
        pParameter: if param.is_empty() { std::ptr::null_mut() } else { param.as_mut_ptr() as CK_VOID_PTR },
        ulParameterLen: param.len() as CK_ULONG,
    };
    Mech { _bufs: bufs, _param: param, m }
}

/// An output buffer with canaries, so that a write past what the caller offered is visible.
struct OutBuf {
    buf: Vec<u8>,
    off: usize,
    null: bool,
    len: CK_ULONG,
}
const CANARY: u8 = 0xA7;
impl OutBuf {
    fn new(spec: &Value, default: usize) -> OutBuf {
        let (null, n) = match spec {
            Value::String(s) if s == "null" => (true, 0),
            Value::Number(n) => (false, n.as_u64().unwrap() as usize),
            _ => (false, default),
        };
        OutBuf { buf: vec![CANARY; n + 64], off: 32, null, len: n as CK_ULONG }
    }
    fn ptr(&mut self) -> CK_BYTE_PTR {
        if self.null {
            std::ptr::null_mut()
        } else {
            unsafe { self.buf.as_mut_ptr().add(self.off) }
        }
    }
    fn put(&self, r: &mut Map<String, Value>, ok: bool) -> Vec<u8> {
        let cap = self.buf.len() - 64;
        let intact = self.buf[..32].iter().all(|b| *b == CANARY) && self.buf[32 + cap..].iter().all(|b| *b == CANARY);
        r.insert("canary".into(), json!(if intact { "ok" } else { "overrun" }));
        r.insert("len".into(), json!(self.len.min(1 << 30)));
        let touched = self.buf[32..32 + cap].iter().any(|b| *b != CANARY);
        r.insert("touched".into(), json!(touched));
        let mut data = Vec::new();
        if ok && !self.null {
            let l = (self.len as usize).min(cap);
            data = self.buf[32..32 + l].to_vec();
            r.insert("data".into(), json!(format!("x{}", hex(&data))));
        }
        data
    }
}

fn fmt_attr(n: &str, b: &[u8]) -> String {
    match attr_kind(n) {
        Kind::Bool if b.len() == 1 => match b[0] {
            0 => "F".into(),
            1 => "T".into(),
            x => format!("bool?{x}"),
        },
        Kind::Num if b.len() == 8 => {
            let v = CK_ULONG::from_ne_bytes(b.try_into().unwrap());
            if v == CK_ULONG::MAX {
                return "UNAVAIL".into();
            }
            let pfx = match n {
                "CKA_CLASS" => "CKO_",
                "CKA_KEY_TYPE" => "CKK_",
                "CKA_KEY_GEN_MECHANISM" => "CKM_",
                _ => "!none",
            };
            num_name(pfx, v)
        }
        Kind::NumList => b
            .chunks(8)
            .map(|c| c.try_into().map(|x| num_name("CKM_", CK_ULONG::from_ne_bytes(x))).unwrap_or("?".into()))
            .collect::<Vec<_>>()
            .join("+"),
        _ => {
            if n == "CKA_LABEL" || n == "CKA_APPLICATION" {
                if let Ok(s) = std::str::from_utf8(b) {
                    return s.to_string();
                }
            }
            format!("x{}", hex(b))
        }
    }
}

static RB: &[&str] = &[
    "CKA_CLASS", "CKA_TOKEN", "CKA_PRIVATE", "CKA_LABEL", "CKA_ID", "CKA_APPLICATION", "CKA_VALUE", "CKA_OBJECT_ID",
    "CKA_CERTIFICATE_TYPE", "CKA_SUBJECT", "CKA_ISSUER", "CKA_SERIAL_NUMBER", "CKA_TRUSTED", "CKA_KEY_TYPE", "CKA_SENSITIVE", "CKA_ENCRYPT",
    "CKA_DECRYPT", "CKA_WRAP", "CKA_UNWRAP", "CKA_SIGN", "CKA_VERIFY", "CKA_DERIVE", "CKA_START_DATE",
    "CKA_END_DATE", "CKA_MODULUS", "CKA_MODULUS_BITS", "CKA_PUBLIC_EXPONENT", "CKA_PRIVATE_EXPONENT", "CKA_PRIME_1",
    "CKA_VALUE_LEN", "CKA_EXTRACTABLE", "CKA_LOCAL", "CKA_NEVER_EXTRACTABLE", "CKA_ALWAYS_SENSITIVE",
    "CKA_KEY_GEN_MECHANISM", "CKA_MODIFIABLE", "CKA_COPYABLE", "CKA_DESTROYABLE", "CKA_EC_PARAMS", "CKA_EC_POINT",
    "CKA_ALWAYS_AUTHENTICATE", "CKA_WRAP_WITH_TRUSTED", "CKA_ALLOWED_MECHANISMS", "CKA_OTP_COUNTER",
    "CKA_UNIQUE_ID", "CKA_SIGN_RECOVER", "CKA_VERIFY_RECOVER", "CKA_PRIME_2", "CKA_EXPONENT_1", "CKA_EXPONENT_2",
    "CKA_COEFFICIENT", "CKA_PRIME", "CKA_BASE", "CKA_PUBLIC_KEY_INFO", "CKA_OTP_LENGTH", "CKA_CERTIFICATE_CATEGORY",
    "CKA_URL", "CKA_HASH_OF_CERTIFICATE", "CKA_TRUST_SERVER_AUTH", "CKA_TRUST_CLIENT_AUTH",
    "CKA_TRUST_CODE_SIGNING", "CKA_TRUST_EMAIL_PROTECTION", "CKA_NAME_HASH_ALGORITHM",
];

static SECRETISH: &[&str] = &[
    "CKA_VALUE", "CKA_PRIVATE_EXPONENT", "CKA_PRIME_1", "CKA_PRIME_2", "CKA_EXPONENT_1", "CKA_EXPONENT_2", "CKA_COEFFICIENT",
];

impl Ctx {
    pub fn new() -> Ctx {
        let mut p: *mut CK_INTERFACE = std::ptr::null_mut();
        let mut ver = CK_VERSION { major: 3, minor: 2 };
        let rv = kryoptic_lib::fns::general::fn_get_interface(
            std::ptr::null_mut(),
            &mut ver,
            &mut p as *mut _ as CK_INTERFACE_PTR_PTR,
            0,
        );
        assert_eq!(rv, CKR_OK);
        let f = unsafe { &*((*p).pFunctionList as *const CK_FUNCTION_LIST_3_2) };
        Ctx {
            f,
            sess: Mutex::new(HashMap::new()),
            objs: Mutex::new(HashMap::new()),
            blobs: Mutex::new(HashMap::new()),
            clock: AtomicU64::new(0),
        }
    }
    fn ses(&self, v: &Value) -> CK_SESSION_HANDLE {
        match v {
            Value::Number(n) => n.as_u64().unwrap() as _,
            Value::String(s) => *self.sess.lock().unwrap().get(s).unwrap_or(&BAD_SESS),
            _ => BAD_SESS,
        }
    }
    fn obj(&self, v: &Value) -> CK_OBJECT_HANDLE {
        match v {
            Value::Number(n) => n.as_u64().unwrap() as _,
            Value::String(s) => *self.objs.lock().unwrap().get(s).unwrap_or(&BAD_OBJ),
            _ => BAD_OBJ,
        }
    }
    fn blob(&self, v: &Value) -> Vec<u8> {
        match v.as_str().and_then(|s| s.strip_prefix('@')) {
            Some(n) => self.blobs.lock().unwrap().get(n).cloned().unwrap_or_default(),
            None => bytes_of(v),
        }
    }

    /// Reads one attribute with an exact-size two-pass call.
    unsafe fn get1(&self, s: CK_SESSION_HANDLE, o: CK_OBJECT_HANDLE, n: &str) -> (CK_RV, Vec<u8>) {
        let mut a = CK_ATTRIBUTE { type_: attr(n).unwrap(), pValue: std::ptr::null_mut(), ulValueLen: 0 };
        let rv = self.f.C_GetAttributeValue.unwrap()(s, o, &mut a, 1);
        if rv != CKR_OK {
            return (rv, vec![]);
        }
        let mut b = vec![0u8; a.ulValueLen as usize];
        a.pValue = b.as_mut_ptr() as CK_VOID_PTR;
        let rv = self.f.C_GetAttributeValue.unwrap()(s, o, &mut a, 1);
        (rv, b)
    }

    /// (not part of what is recorded of the locks)
    pub unsafe fn readback(&self, s: CK_SESSION_HANDLE, o: CK_OBJECT_HANDLE) -> Value {
        let rec = sched::rec_pause();
        let v = self.readback0(s, o);
        sched::rec_resume(rec);
        v
    }
    unsafe fn readback0(&self, s: CK_SESSION_HANDLE, o: CK_OBJECT_HANDLE) -> Value {
        pause_faults();
        let mut bufs: Vec<Vec<u8>> = RB.iter().map(|_| vec![0u8; 1200]).collect();
        let mut at: Vec<CK_ATTRIBUTE> = RB
            .iter()
            .enumerate()
            .map(|(i, n)| CK_ATTRIBUTE {
                type_: attr(n).unwrap(),
                pValue: bufs[i].as_mut_ptr() as CK_VOID_PTR,
                ulValueLen: 1200,
            })
            .collect();
        let rv = self.f.C_GetAttributeValue.unwrap()(s, o, at.as_mut_ptr(), at.len() as CK_ULONG);
        let mut m = Map::new();
        if !(rv == CKR_OK || rv == CKR_ATTRIBUTE_SENSITIVE || rv == CKR_ATTRIBUTE_TYPE_INVALID) {
            m.insert("rv".into(), json!(rv_name(rv)));
            return Value::Object(m);
        }
        for (i, n) in RB.iter().enumerate() {
            let l = at[i].ulValueLen;
            if l == CK_ULONG::MAX {
                if SECRETISH.contains(n) {
                    let (rv, _) = self.get1(s, o, n);
                    if rv == CKR_ATTRIBUTE_SENSITIVE {
                        m.insert(n.to_string(), json!("!SENSITIVE"));
                    }
                }
                continue;
            }
            m.insert(n.to_string(), json!(fmt_attr(n, &bufs[i][..l as usize])));
        }
        Value::Object(m)
    }

    unsafe fn find_all(&self, s: CK_SESSION_HANDLE, t: &Value, chunk: usize) -> (CK_RV, Vec<CK_OBJECT_HANDLE>) {
        let mut t = tmpl(t);
        let rv = self.f.C_FindObjectsInit.unwrap()(s, t.attrs.as_mut_ptr(), t.attrs.len() as CK_ULONG);
        if rv != CKR_OK {
            return (rv, vec![]);
        }
        let mut all = Vec::new();
        loop {
            let mut hs = vec![0 as CK_OBJECT_HANDLE; chunk];
            let mut n: CK_ULONG = 0;
            let rv = self.f.C_FindObjects.unwrap()(s, hs.as_mut_ptr(), chunk as CK_ULONG, &mut n);
            if rv != CKR_OK {
                return (rv, all);
            }
            if n == 0 {
                break;
            }
            all.extend_from_slice(&hs[..n as usize]);
            if all.len() > 100000 {
                break;
            }
        }
        let rv = self.f.C_FindObjectsFinal.unwrap()(s);
        // the token's built-in mechanism / profile / validation objects are not user objects
        all.retain(|h| {
            let (rv, b) = self.get1(s, *h, "CKA_CLASS");
            if rv != CKR_OK || b.len() != 8 {
                return true;
            }
            let c = CK_ULONG::from_ne_bytes(b.try_into().unwrap());
            !(c == CKO_MECHANISM || c == CKO_PROFILE || c == CKO_HW_FEATURE || c == CKO_VALIDATION)
        });
        (rv, all)
    }

    unsafe fn label_of(&self, s: CK_SESSION_HANDLE, h: CK_OBJECT_HANDLE) -> String {
        let (rv, b) = self.get1(s, h, "CKA_LABEL");
        if rv != CKR_OK {
            return format!("?{}", rv_name(rv));
        }
        String::from_utf8(b).unwrap_or("?utf8".into())
    }
}

pub fn run(ctx: &'static Ctx, cmd: Value) -> Value {
    let mut r = match cmd {
        Value::Object(m) => m,
        _ => panic!("object expected"),
    };
    if r["c"] == "par" {
        return par(ctx, r);
    }
    if r.get("lk").is_some() {
        sched::install();
        sched::rec_start();
        unsafe { exec(ctx, &mut r) };
        r.insert("lk".into(), Value::Array(sched::rec_stop()));
    } else {
        unsafe { exec(ctx, &mut r) };
    }
    Value::Object(r)
}

fn par(ctx: &'static Ctx, mut r: Map<String, Value>) -> Value {
    let threads = r.remove("threads").unwrap();
    let lists: Vec<Vec<Value>> = threads.as_array().unwrap().iter().map(|t| t.as_array().unwrap().clone()).collect();
    let n = lists.len();
    let sc = r.get("sched").cloned().unwrap_or(json!({"seed": 1, "p": 30}));
    sched::begin(n, &sc);
    let (tx, rx) = std::sync::mpsc::channel::<Vec<Value>>();
    for (ti, list) in lists.into_iter().enumerate() {
        let tx = tx.clone();
        std::thread::spawn(move || {
            sched::enter(ti);
            let mut out = Vec::new();
            for (i, c) in list.into_iter().enumerate() {
                if i > 0 {
                    sched::between();
                }
                let mut m = match c {
                    Value::Object(m) => m,
                    _ => panic!(),
                };
                let inv = ctx.clock.fetch_add(1, Ordering::SeqCst);
                let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { exec(ctx, &mut m) }));
                let res = ctx.clock.fetch_add(1, Ordering::SeqCst);
                if ok.is_err() {
                    m.insert("rv".into(), json!("PANIC"));
                }
                m.insert("inv".into(), json!(inv));
                m.insert("res".into(), json!(res));
                m.insert("th".into(), json!(ti));
                out.push(Value::Object(m));
            }
            sched::leave(ti);
            let _ = tx.send(out);
        });
    }
    let mut all: Vec<Value> = Vec::new();
    let mut left = n;
    let t0 = std::time::Instant::now();
    while left > 0 {
        match rx.recv_timeout(std::time::Duration::from_millis(200)) {
            Ok(v) => {
                all.extend(v);
                left -= 1;
            }
            Err(_) => {
                if let Some(d) = sched::dead() {
                    r.insert("deadlock".into(), json!(d));
                    break;
                }
                if t0.elapsed().as_secs() > 30 {
                    r.insert("deadlock".into(), json!("no progress: a thread waits for something that is not a watched lock"));
                    break;
                }
            }
        }
    }
    all.sort_by_key(|e| e["inv"].as_u64().unwrap_or(0));
    r.insert("steps".into(), json!(sched::steps()));
    r.insert("evs".into(), Value::Array(all));
    Value::Object(r)
}

fn trim(b: &[u8]) -> String {
    String::from_utf8_lossy(b).trim_end().to_string()
}

unsafe fn exec(ctx: &Ctx, r: &mut Map<String, Value>) {
    let c = r["c"].as_str().unwrap().to_string();
    let g = |r: &Map<String, Value>, k: &str| r.get(k).cloned().unwrap_or(Value::Null);
    let gs = |r: &Map<String, Value>, k: &str| r.get(k).and_then(|v| v.as_str()).unwrap_or("").to_string();
    let f = ctx.f;
    let s = ctx.ses(&g(r, "s"));
    let rv: CK_RV = match c.as_str() {
        "init" => {
            let conf = gs(r, "conf");
            let cs = std::ffi::CString::new(conf).unwrap();
            let mut args = CK_C_INITIALIZE_ARGS {
                CreateMutex: None,
                DestroyMutex: None,
                LockMutex: None,
                UnlockMutex: None,
                flags: CKF_OS_LOCKING_OK as _,
                pReserved: cs.as_ptr() as *mut _,
            };
            f.C_Initialize.unwrap()(&mut args as *mut _ as CK_VOID_PTR)
        }
        "fini" => f.C_Finalize.unwrap()(std::ptr::null_mut()),
        "probe" => {
            let res = crate::probe::probe(f);
            r.insert("n".into(), json!(res.len()));
            r.insert("okfns".into(), json!(res.iter().filter(|x| x.1 == CKR_OK).map(|x| x.0).collect::<Vec<_>>()));
            CKR_OK
        }
        "forget" => {
            ctx.sess.lock().unwrap().clear();
            ctx.objs.lock().unwrap().clear();
            ctx.blobs.lock().unwrap().clear();
            CKR_OK
        }
        "note" => CKR_OK,
        "inittoken" => {
            let mut pin = bytes_of(&g(r, "pin"));
            let mut label = [b' '; 32];
            let l = gs(r, "label");
            label[..l.len()].copy_from_slice(l.as_bytes());
            f.C_InitToken.unwrap()(g(r, "slot").as_u64().unwrap() as _, pin.as_mut_ptr(), pin.len() as _, label.as_mut_ptr())
        }
        "initpin" => {
            let mut pin = bytes_of(&g(r, "pin"));
            f.C_InitPIN.unwrap()(s, pin.as_mut_ptr(), pin.len() as _)
        }
        "setpin" => {
            let mut o = bytes_of(&g(r, "old"));
            let mut n = bytes_of(&g(r, "new"));
            f.C_SetPIN.unwrap()(s, o.as_mut_ptr(), o.len() as _, n.as_mut_ptr(), n.len() as _)
        }
        "login" => {
            let mut pin = bytes_of(&g(r, "pin"));
            let u = match gs(r, "user").as_str() {
                "so" => CKU_SO,
                "user" => CKU_USER,
                "ctx" => CKU_CONTEXT_SPECIFIC,
                _ => 77,
            };
            f.C_Login.unwrap()(s, u as _, pin.as_mut_ptr(), pin.len() as _)
        }
        "logout" => f.C_Logout.unwrap()(s),
        "open" => {
            let mut h: CK_SESSION_HANDLE = 0;
            let mut fl = if g(r, "noserial") == json!(true) { 0 } else { CKF_SERIAL_SESSION };
            if g(r, "rw") == json!(true) {
                fl |= CKF_RW_SESSION;
            }
            let rv = f.C_OpenSession.unwrap()(g(r, "slot").as_u64().unwrap() as _, fl as _, std::ptr::null_mut(), None, &mut h);
            if rv == CKR_OK {
                ctx.sess.lock().unwrap().insert(gs(r, "s"), h);
                r.insert("h".into(), json!(h.to_string()));
            }
            rv
        }
        "close" => f.C_CloseSession.unwrap()(s),
        "closeall" => f.C_CloseAllSessions.unwrap()(g(r, "slot").as_u64().unwrap() as _),
        "sinfo" => {
            let mut i: CK_SESSION_INFO = unsafe { std::mem::zeroed() };
            let rv = f.C_GetSessionInfo.unwrap()(s, &mut i);
            if rv == CKR_OK {
                let st = match i.state {
                    x if x == CKS_RO_PUBLIC_SESSION => "RO_PUBLIC",
                    x if x == CKS_RO_USER_FUNCTIONS => "RO_USER",
                    x if x == CKS_RW_PUBLIC_SESSION => "RW_PUBLIC",
                    x if x == CKS_RW_USER_FUNCTIONS => "RW_USER",
                    x if x == CKS_RW_SO_FUNCTIONS => "RW_SO",
                    _ => "?",
                };
                r.insert("state".into(), json!(st));
                r.insert("slot".into(), json!(i.slotID));
                r.insert("rwf".into(), json!(i.flags & CKF_RW_SESSION != 0));
            }
            rv
        }
        "tinfo" => {
            let mut i: CK_TOKEN_INFO = unsafe { std::mem::zeroed() };
            let rv = f.C_GetTokenInfo.unwrap()(g(r, "slot").as_u64().unwrap() as _, &mut i);
            if rv == CKR_OK {
                let mut fl: Vec<&str> = Vec::new();
                for (n, b) in [
                    ("RNG", CKF_RNG), ("WRITE_PROTECTED", CKF_WRITE_PROTECTED), ("LOGIN_REQUIRED", CKF_LOGIN_REQUIRED),
                    ("USER_PIN_INITIALIZED", CKF_USER_PIN_INITIALIZED), ("TOKEN_INITIALIZED", CKF_TOKEN_INITIALIZED),
                    ("USER_PIN_COUNT_LOW", CKF_USER_PIN_COUNT_LOW), ("USER_PIN_FINAL_TRY", CKF_USER_PIN_FINAL_TRY),
                    ("USER_PIN_LOCKED", CKF_USER_PIN_LOCKED), ("USER_PIN_TO_BE_CHANGED", CKF_USER_PIN_TO_BE_CHANGED),
                    ("SO_PIN_COUNT_LOW", CKF_SO_PIN_COUNT_LOW), ("SO_PIN_FINAL_TRY", CKF_SO_PIN_FINAL_TRY),
                    ("SO_PIN_LOCKED", CKF_SO_PIN_LOCKED), ("SO_PIN_TO_BE_CHANGED", CKF_SO_PIN_TO_BE_CHANGED),
                    ("DUAL_CRYPTO", CKF_DUAL_CRYPTO_OPERATIONS),
                ] {
                    if i.flags & (b as CK_FLAGS) != 0 {
                        fl.push(n);
                    }
                }
                r.insert("flags".into(), json!(fl));
                r.insert("label".into(), json!(trim(&i.label)));
                r.insert("serial".into(), json!(trim(&i.serialNumber)));
                r.insert("nsess".into(), json!(i.ulSessionCount as i64));
                r.insert("nrw".into(), json!(i.ulRwSessionCount as i64));
            }
            rv
        }
        "slots" => {
            let mut n: CK_ULONG = 64;
            let mut l = vec![0 as CK_SLOT_ID; 64];
            let rv = f.C_GetSlotList.unwrap()(if g(r, "present") == json!(true) { 1 } else { 0 }, l.as_mut_ptr(), &mut n);
            if rv == CKR_OK {
                l.truncate(n as usize);
                l.sort();
                r.insert("ids".into(), json!(l));
            }
            rv
        }
        "mechs" => {
            let sl: CK_SLOT_ID = g(r, "slot").as_u64().unwrap() as _;
            let mut n0: CK_ULONG = 0;
            let rv0 = f.C_GetMechanismList.unwrap()(sl, std::ptr::null_mut(), &mut n0);
            r.insert("nnull".into(), json!(if rv0 == CKR_OK { n0 as i64 } else { -1 }));
            let mut n: CK_ULONG = 512;
            let mut l = vec![0 as CK_MECHANISM_TYPE; 512];
            if n0 > 1 {
                let mut n1 = n0 - 1;
                let rv1 = f.C_GetMechanismList.unwrap()(sl, l.as_mut_ptr(), &mut n1);
                r.insert("small".into(), json!([rv_name(rv1), n1 as i64]));
            }
            let rv = f.C_GetMechanismList.unwrap()(g(r, "slot").as_u64().unwrap() as _, l.as_mut_ptr(), &mut n);
            if rv == CKR_OK {
                l.truncate(n as usize);
                let mut names: Vec<String> = l.iter().map(|x| num_name("CKM_", *x)).collect();
                names.sort();
                r.insert("list".into(), json!(names));
            }
            rv
        }
        "minfo" => {
            let mut i: CK_MECHANISM_INFO = unsafe { std::mem::zeroed() };
            let rv = f.C_GetMechanismInfo.unwrap()(g(r, "slot").as_u64().unwrap() as _, ulong_of(&g(r, "m")), &mut i);
            if rv == CKR_OK {
                r.insert("minfo".into(), json!([i.ulMinKeySize as u32, i.ulMaxKeySize as u32, i.flags as u32]));
            }
            rv
        }
        "create" => {
            let mut t = tmpl(&g(r, "t"));
            let mut h: CK_OBJECT_HANDLE = 0;
            let rv = f.C_CreateObject.unwrap()(s, t.attrs.as_mut_ptr(), t.attrs.len() as _, &mut h);
            newobj(ctx, r, "o", rv, h, s);
            rv
        }
        "copy" => {
            let mut t = tmpl(&g(r, "t"));
            let mut h: CK_OBJECT_HANDLE = 0;
            let src = ctx.obj(&g(r, "src"));
            let rv = f.C_CopyObject.unwrap()(s, src, t.attrs.as_mut_ptr(), t.attrs.len() as _, &mut h);
            newobj(ctx, r, "o", rv, h, s);
            rv
        }
        "destroy" => f.C_DestroyObject.unwrap()(s, ctx.obj(&g(r, "o"))),
        "size" => {
            let mut n: CK_ULONG = 0;
            f.C_GetObjectSize.unwrap()(s, ctx.obj(&g(r, "o")), &mut n)
        }
        "set" => {
            let mut t = tmpl(&g(r, "t"));
            let o = ctx.obj(&g(r, "o"));
            let rv = f.C_SetAttributeValue.unwrap()(s, o, t.attrs.as_mut_ptr(), t.attrs.len() as _);
            if g(r, "rb") != json!(false) {
                r.insert("attrs".into(), ctx.readback(s, o));
            }
            rv
        }
        "read" => {
            let o = ctx.obj(&g(r, "o"));
            let a = ctx.readback(s, o);
            let rv = a.get("rv").cloned();
            match rv {
                Some(v) => {
                    r.insert("rv".into(), v);
                }
                None => {
                    r.insert("rv".into(), json!("OK"));
                    r.insert("attrs".into(), a);
                }
            }
            return;
        }
        "get" => {
            // spec: list of [name, mode] where mode is "null" or a buffer size
            let list = g(r, "a");
            let l = list.as_array().unwrap().clone();
            let mut bufs: Vec<OutBuf> = l.iter().map(|x| OutBuf::new(&x[1], 2048)).collect();
            let mut at: Vec<CK_ATTRIBUTE> = l
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    let p = bufs[i].ptr();
                    CK_ATTRIBUTE {
                        type_: attr(x[0].as_str().unwrap()).unwrap(),
                        pValue: p as CK_VOID_PTR,
                        ulValueLen: bufs[i].len,
                    }
                })
                .collect();
            let rv = f.C_GetAttributeValue.unwrap()(s, ctx.obj(&g(r, "o")), at.as_mut_ptr(), at.len() as _);
            let mut out = Vec::new();
            for i in 0..l.len() {
                let n = l[i][0].as_str().unwrap();
                let cap = bufs[i].len as usize;
                let unav = at[i].ulValueLen == CK_ULONG::MAX;
                bufs[i].len = at[i].ulValueLen;
                let mut m = Map::new();
                bufs[i].put(&mut m, false);
                m.insert("a".into(), json!(n));
                m.insert("null".into(), json!(bufs[i].null));
                m.insert("cap".into(), json!(cap));
                if unav {
                    m.insert("len".into(), json!(-1));
                } else if !bufs[i].null && (bufs[i].len as usize) <= cap {
                    m.insert("v".into(), json!(fmt_attr(n, &bufs[i].buf[32..32 + bufs[i].len as usize])));
                }
                out.push(Value::Object(m));
            }
            r.insert("out".into(), Value::Array(out));
            rv
        }
        "findinit" => {
            let mut t = tmpl(&g(r, "t"));
            f.C_FindObjectsInit.unwrap()(s, t.attrs.as_mut_ptr(), t.attrs.len() as _)
        }
        "find" => {
            let max = g(r, "n").as_u64().unwrap_or(4) as usize;
            let mut hs = vec![0 as CK_OBJECT_HANDLE; max + 1];
            let mut n: CK_ULONG = 0;
            let rv = f.C_FindObjects.unwrap()(s, hs.as_mut_ptr(), max as _, &mut n);
            if rv == CKR_OK {
                let l: Vec<String> = hs[..n as usize].iter().map(|h| h.to_string()).collect();
                r.insert("hs".into(), json!(l));
            }
            rv
        }
        "findfinal" => f.C_FindObjectsFinal.unwrap()(s),
        "search" => {
            // complete search in one command; labels identify what was found
            let (rv, hs) = ctx.find_all(s, &g(r, "t"), g(r, "chunk").as_u64().unwrap_or(64) as usize);
            if rv == CKR_OK {
                let mut names: Vec<String> = hs.iter().map(|h| ctx.label_of(s, *h)).collect();
                let mut hm = Map::new();
                for (n, h) in names.iter().zip(hs.iter()) {
                    hm.insert(n.clone(), json!(h.to_string()));
                }
                r.insert("oh".into(), Value::Object(hm));
                names.sort();
                r.insert("names".into(), json!(names));
                let hl: Vec<String> = hs.iter().map(|h| h.to_string()).collect();
                r.insert("hs".into(), json!(hl));
            }
            rv
        }
        "snap" => {
            let (rv, hs) = ctx.find_all(s, &g(r, "t"), 64);
            if rv == CKR_OK {
                let mut m = Map::new();
                let mut hm = Map::new();
                let mut dups: Vec<String> = Vec::new();
                for h in &hs {
                    let a = ctx.readback(s, *h);
                    let n = a.get("CKA_LABEL").and_then(|v| v.as_str()).unwrap_or("?").to_string();
                    if n == "?" {
                        dups.push(format!("unlabelled:{}", a));
                        continue;
                    }
                    if m.contains_key(&n) {
                        dups.push(n.clone());
                    }
                    m.insert(n.clone(), a);
                    hm.insert(n.clone(), json!(h.to_string()));
                    if g(r, "bind") == json!(true) {
                        ctx.objs.lock().unwrap().insert(n.clone(), *h);
                    }
                }
                r.insert("objs".into(), Value::Object(m));
                r.insert("oh".into(), Value::Object(hm));
                r.insert("dups".into(), json!(dups));
            }
            rv
        }
        "genkey" => {
            let m = mech(ctx, &g(r, "m"));
            let mut mm = m.m;
            let mut t = tmpl(&g(r, "t"));
            let mut h: CK_OBJECT_HANDLE = 0;
            let rv = f.C_GenerateKey.unwrap()(s, &mut mm, t.attrs.as_mut_ptr(), t.attrs.len() as _, &mut h);
            newobj(ctx, r, "o", rv, h, s);
            rv
        }
        "genpair" => {
            let m = mech(ctx, &g(r, "m"));
            let mut mm = m.m;
            let mut t1 = tmpl(&g(r, "t"));
            let mut t2 = tmpl(&g(r, "t2"));
            let mut h1: CK_OBJECT_HANDLE = 0;
            let mut h2: CK_OBJECT_HANDLE = 0;
            let rv = f.C_GenerateKeyPair.unwrap()(
                s, &mut mm, t1.attrs.as_mut_ptr(), t1.attrs.len() as _, t2.attrs.as_mut_ptr(), t2.attrs.len() as _,
                &mut h1, &mut h2,
            );
            newobj(ctx, r, "o", rv, h1, s);
            newobj(ctx, r, "o2", rv, h2, s);
            rv
        }
        "wrap" => {
            let m = mech(ctx, &g(r, "m"));
            let mut mm = m.m;
            let mut ob = OutBuf::new(&g(r, "out"), 4096);
            let p = ob.ptr();
            let rv = f.C_WrapKey.unwrap()(s, &mut mm, ctx.obj(&g(r, "wk")), ctx.obj(&g(r, "k")), p, &mut ob.len);
            let d = ob.put(r, rv == CKR_OK);
            if let Some(b) = r.get("b").and_then(|v| v.as_str()) {
                if rv == CKR_OK && !ob.null {
                    ctx.blobs.lock().unwrap().insert(b.to_string(), d);
                }
            }
            rv
        }
        "unwrap" => {
            let m = mech(ctx, &g(r, "m"));
            let mut mm = m.m;
            let mut t = tmpl(&g(r, "t"));
            let mut d = ctx.blob(&g(r, "data"));
            flip(&mut d, &g(r, "flip"));
            let mut h: CK_OBJECT_HANDLE = 0;
            let rv = f.C_UnwrapKey.unwrap()(
                s, &mut mm, ctx.obj(&g(r, "wk")), d.as_mut_ptr(), d.len() as _, t.attrs.as_mut_ptr(), t.attrs.len() as _, &mut h,
            );
            newobj(ctx, r, "o", rv, h, s);
            rv
        }
        "derive" => {
            let m = mech(ctx, &g(r, "m"));
            let mut mm = m.m;
            let mut t = tmpl(&g(r, "t"));
            let mut h: CK_OBJECT_HANDLE = 0;
            let rv = f.C_DeriveKey.unwrap()(s, &mut mm, ctx.obj(&g(r, "k")), t.attrs.as_mut_ptr(), t.attrs.len() as _, &mut h);
            newobj(ctx, r, "o", rv, h, s);
            rv
        }
        "opinit" => {
            let k = gs(r, "k");
            let nullm = g(r, "m").is_null();
            let m = if nullm { None } else { Some(mech(ctx, &g(r, "m"))) };
            let mut mm = m.as_ref().map(|x| x.m);
            let p: CK_MECHANISM_PTR = match mm.as_mut() {
                Some(x) => x,
                None => std::ptr::null_mut(),
            };
            let o = ctx.obj(&g(r, "o"));
            match k.as_str() {
                "enc" => f.C_EncryptInit.unwrap()(s, p, o),
                "dec" => f.C_DecryptInit.unwrap()(s, p, o),
                "sign" => f.C_SignInit.unwrap()(s, p, o),
                "ver" => f.C_VerifyInit.unwrap()(s, p, o),
                "dig" => f.C_DigestInit.unwrap()(s, p),
                "versig" => {
                    let mut sg = ctx.blob(&g(r, "sig"));
                    flip(&mut sg, &g(r, "flip"));
                    f.C_VerifySignatureInit.unwrap()(s, p, o, sg.as_mut_ptr(), sg.len() as _)
                }
                "menc" => f.C_MessageEncryptInit.unwrap()(s, p, o),
                "mdec" => f.C_MessageDecryptInit.unwrap()(s, p, o),
                _ => panic!("kind {k}"),
            }
        }
        // one-shot / update / final for every kind
        "op" | "upd" | "fin" => {
            let k = gs(r, "k");
            let mut d = ctx.blob(&g(r, "data"));
            flip(&mut d, &g(r, "flip"));
            let dl = d.len() as CK_ULONG;
            let mut sg = ctx.blob(&g(r, "sig"));
            if g(r, "flipsig") != Value::Null {
                flip(&mut sg, &g(r, "flipsig"));
            }
            let mut ob = OutBuf::new(&g(r, "out"), 4096);
            let op = ob.ptr();
            if d.is_empty() {
                d.reserve(16);
            }
            let dp = d.as_mut_ptr();
            let mut has_out = false;
            let rv = match (c.as_str(), k.as_str()) {
                ("op", "enc") => { has_out = true; f.C_Encrypt.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("op", "dec") => { has_out = true; f.C_Decrypt.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("op", "sign") => { has_out = true; f.C_Sign.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("op", "dig") => { has_out = true; f.C_Digest.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("op", "ver") => f.C_Verify.unwrap()(s, dp, dl, sg.as_mut_ptr(), sg.len() as _),
                ("op", "versig") => f.C_VerifySignature.unwrap()(s, dp, dl),
                ("upd", "enc") => { has_out = true; f.C_EncryptUpdate.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("upd", "dec") => { has_out = true; f.C_DecryptUpdate.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("upd", "sign") => f.C_SignUpdate.unwrap()(s, dp, dl),
                ("upd", "dig") => f.C_DigestUpdate.unwrap()(s, dp, dl),
                ("upd", "ver") => f.C_VerifyUpdate.unwrap()(s, dp, dl),
                ("upd", "versig") => f.C_VerifySignatureUpdate.unwrap()(s, dp, dl),
                ("upd", "digkey") => f.C_DigestKey.unwrap()(s, ctx.obj(&g(r, "o"))),
                ("upd", "digenc") => { has_out = true; f.C_DigestEncryptUpdate.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("upd", "decdig") => { has_out = true; f.C_DecryptDigestUpdate.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("upd", "signenc") => { has_out = true; f.C_SignEncryptUpdate.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("upd", "decver") => { has_out = true; f.C_DecryptVerifyUpdate.unwrap()(s, dp, dl, op, &mut ob.len) }
                ("fin", "enc") => { has_out = true; f.C_EncryptFinal.unwrap()(s, op, &mut ob.len) }
                ("fin", "dec") => { has_out = true; f.C_DecryptFinal.unwrap()(s, op, &mut ob.len) }
                ("fin", "sign") => { has_out = true; f.C_SignFinal.unwrap()(s, op, &mut ob.len) }
                ("fin", "dig") => { has_out = true; f.C_DigestFinal.unwrap()(s, op, &mut ob.len) }
                ("fin", "ver") => f.C_VerifyFinal.unwrap()(s, sg.as_mut_ptr(), sg.len() as _),
                ("fin", "versig") => f.C_VerifySignatureFinal.unwrap()(s),
                ("fin", "menc") => f.C_MessageEncryptFinal.unwrap()(s),
                ("fin", "mdec") => f.C_MessageDecryptFinal.unwrap()(s),
                _ => panic!("op {c} {k}"),
            };
            if has_out {
                let mut od = ob.put(r, rv == CKR_OK);
                if g(r, "otp") == json!(true) && rv == CKR_OK && od.len() > 40 {
                    // the HOTP signature buffer carries pointers: keep the digits only
                    od = od[40..].to_vec();
                    r.insert("data".into(), json!(format!("x{}", hex(&od))));
                }
                if let Some(b) = r.get("b").and_then(|v| v.as_str()) {
                    if rv == CKR_OK && !ob.null {
                        let mut bl = ctx.blobs.lock().unwrap();
                        let e = bl.entry(b.to_string()).or_default();
                        if g(r, "append") == json!(true) {
                            e.extend_from_slice(&od);
                        } else {
                            *e = od;
                        }
                    }
                }
            }
            rv
        }
        "msg" => {
            // one-shot message encryption / decryption with AES-GCM
            let k = gs(r, "k");
            let mut iv = bytes_of(&g(r, "iv"));
            let mut tag = if k == "mdec" { ctx.blob(&g(r, "tag")) } else { vec![0u8; 16] };
            flip(&mut tag, &g(r, "fliptag"));
            let mut aad = bytes_of(&g(r, "aad"));
            let mut d = ctx.blob(&g(r, "data"));
            flip(&mut d, &g(r, "flip"));
            let mut p = CK_GCM_MESSAGE_PARAMS {
                pIv: iv.as_mut_ptr(),
                ulIvLen: iv.len() as _,
                ulIvFixedBits: g(r, "fixed").as_u64().unwrap_or(0) as _,
                ivGenerator: ulong_of(&g(r, "gen")) as _,
                pTag: tag.as_mut_ptr(),
                ulTagBits: (tag.len() * 8) as _,
            };
            let mut ob = OutBuf::new(&g(r, "out"), 4096);
            let op = ob.ptr();
            let pp = &mut p as *mut _ as CK_VOID_PTR;
            let pl = std::mem::size_of::<CK_GCM_MESSAGE_PARAMS>() as CK_ULONG;
            let rv = if k == "menc" {
                f.C_EncryptMessage.unwrap()(s, pp, pl, aad.as_mut_ptr(), aad.len() as _, d.as_mut_ptr(), d.len() as _, op, &mut ob.len)
            } else {
                f.C_DecryptMessage.unwrap()(s, pp, pl, aad.as_mut_ptr(), aad.len() as _, d.as_mut_ptr(), d.len() as _, op, &mut ob.len)
            };
            let od = ob.put(r, rv == CKR_OK);
            if rv == CKR_OK && !ob.null {
                r.insert("ivout".into(), json!(format!("x{}", hex(&iv))));
                r.insert("tagout".into(), json!(format!("x{}", hex(&tag))));
                if let Some(b) = r.get("b").and_then(|v| v.as_str()) {
                    let mut bl = ctx.blobs.lock().unwrap();
                    bl.insert(b.to_string(), od);
                    bl.insert(format!("{b}.tag"), tag);
                    bl.insert(format!("{b}.iv"), iv);
                }
            }
            rv
        }
        "scancel" => {
            let mut fl: CK_FLAGS = 0;
            for k in g(r, "ks").as_array().unwrap() {
                fl |= match k.as_str().unwrap() {
                    "enc" => CKF_ENCRYPT,
                    "dec" => CKF_DECRYPT,
                    "sign" => CKF_SIGN,
                    "ver" => CKF_VERIFY,
                    "dig" => CKF_DIGEST,
                    "menc" => CKF_MESSAGE_ENCRYPT,
                    "mdec" => CKF_MESSAGE_DECRYPT,
                    "search" => CKF_FIND_OBJECTS,
                    _ => 0,
                } as CK_FLAGS;
            }
            f.C_SessionCancel.unwrap()(s, fl)
        }
        "save" => {
            let mut ob = OutBuf::new(&g(r, "out"), 8192);
            let p = ob.ptr();
            let rv = f.C_GetOperationState.unwrap()(s, p, &mut ob.len);
            let d = ob.put(r, rv == CKR_OK);
            r.remove("data");
            if rv == CKR_OK && !ob.null {
                ctx.blobs.lock().unwrap().insert(gs(r, "b"), d);
            }
            rv
        }
        "restore" => {
            let mut d = ctx.blob(&g(r, "data"));
            flip(&mut d, &g(r, "flip"));
            let ek = if g(r, "ek").is_null() { 0 } else { ctx.obj(&g(r, "ek")) };
            let ak = if g(r, "ak").is_null() { 0 } else { ctx.obj(&g(r, "ak")) };
            f.C_SetOperationState.unwrap()(s, d.as_mut_ptr(), d.len() as _, ek, ak)
        }
        "random" => {
            let n = g(r, "n").as_u64().unwrap() as usize;
            let mut b = vec![0u8; n];
            let rv = f.C_GenerateRandom.unwrap()(s, b.as_mut_ptr(), n as _);
            if rv == CKR_OK {
                r.insert("data".into(), json!(format!("x{}", hex(&b))));
            }
            rv
        }
        "blobattr" => {
            // remember an attribute's bytes under a blob name (EC points for ECDH)
            let (rv, b) = ctx.get1(s, ctx.obj(&g(r, "o")), &gs(r, "a"));
            ctx.blobs.lock().unwrap().insert(gs(r, "b"), b);
            rv
        }
        "scan" => {
            // which of the given needles occur, byte for byte, in the files of a directory
            let mut found = Vec::new();
            let mut data: Vec<Vec<u8>> = Vec::new();
            for e in std::fs::read_dir(gs(r, "dir")).unwrap() {
                let p = e.unwrap().path();
                if p.is_file() {
                    data.push(std::fs::read(&p).unwrap());
                }
            }
            for n in g(r, "needles").as_array().unwrap() {
                let b = bytes_of(n);
                if !b.is_empty() && data.iter().any(|d| d.windows(b.len()).any(|w| w == &b[..])) {
                    found.push(n.clone());
                }
            }
            r.insert("found".into(), json!(found));
            CKR_OK
        }
        "arm" => {
            // arms the fault shim (see ../faultshim.c), if it is preloaded
            let mode = match gs(r, "mode").as_str() {
                "kill" => 1,
                "tear" => 2,
                "eio" => 3,
                "enospc" => 4,
                "eiostick" => 5,
                "read" => 6,
                "readstick" => 7,
                _ => 0,
            };
            let n = arm_faults(g(r, "n").as_i64().unwrap_or(-1), mode);
            let c = PAUSED.swap(-1, std::sync::atomic::Ordering::SeqCst);
            r.insert("count".into(), json!(if c >= 0 { c } else { n }));
            CKR_OK
        }
        _ => panic!("unknown command {c}"),
    };
    r.insert("rv".into(), json!(rv_name(rv)));
}

fn flip(d: &mut Vec<u8>, v: &Value) {
    if let Some(n) = v.as_i64() {
        if n == -1 {
            d.pop();
        } else if n == -2 {
            d.push(0);
        } else if !d.is_empty() {
            let l = d.len();
            d[(n as usize) % l] ^= 1;
        }
    }
}

unsafe fn newobj(ctx: &Ctx, r: &mut Map<String, Value>, key: &str, rv: CK_RV, h: CK_OBJECT_HANDLE, s: CK_SESSION_HANDLE) {
    let (hk, ak) = if key == "o" { ("h", "attrs") } else { ("h2", "attrs2") };
    if rv == CKR_OK {
        let name = r.get(key).and_then(|v| v.as_str()).unwrap_or("?").to_string();
        ctx.objs.lock().unwrap().insert(name, h);
        r.insert(hk.into(), json!(h.to_string()));
        if r.get("rb") != Some(&json!(false)) {
            r.insert(ak.into(), ctx.readback(s, h));
        }
    }
}


// what had been counted when a reading of our own began
static PAUSED: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);

fn arm_faults(n: i64, mode: i32) -> i64 {
    unsafe {
        let p = libc::dlsym(libc::RTLD_DEFAULT, b"kv_arm\0".as_ptr() as *const _);
        if p.is_null() {
            return -1;
        }
        let fun: extern "C" fn(i64, i32) -> i64 = std::mem::transmute(p);
        fun(n, mode)
    }
}

// the harness looks at the result of a call: no faults from here on
fn pause_faults() {
    if PAUSED.load(std::sync::atomic::Ordering::SeqCst) < 0 {
        let c = arm_faults(-1, 0);
        if c >= 0 {
            PAUSED.store(c, std::sync::atomic::Ordering::SeqCst);
        }
    }
}
