"""Cryptographic operations and key management: chooses the calls.  Known answers (kat events) are constants computed here."""
import hashlib, hmac, struct
import keys

HASH = {"CKM_SHA_1": "sha1", "CKM_SHA224": "sha224", "CKM_SHA256": "sha256", "CKM_SHA384": "sha384", "CKM_SHA512": "sha512",
        "CKM_SHA3_256": "sha3_256", "CKM_SHA3_384": "sha3_384", "CKM_SHA3_512": "sha3_512"}
HMAC = {"CKM_SHA_1_HMAC": "sha1", "CKM_SHA224_HMAC": "sha224", "CKM_SHA256_HMAC": "sha256", "CKM_SHA384_HMAC": "sha384",
        "CKM_SHA512_HMAC": "sha512", "CKM_SHA3_256_HMAC": "sha3_256"}
HMACG = {"CKM_SHA256_HMAC_GENERAL": "sha256", "CKM_SHA512_HMAC_GENERAL": "sha512"}
DIGINFO = {"CKM_SHA1_RSA_PKCS": ("sha1", "3021300906052b0e03021a05000414"),
           "CKM_SHA256_RSA_PKCS": ("sha256", "3031300d060960864801650304020105000420"),
           "CKM_SHA384_RSA_PKCS": ("sha384", "3041300d060960864801650304020205000430"),
           "CKM_SHA512_RSA_PKCS": ("sha512", "3051300d060960864801650304020305000440")}


def unx(x):
    return bytes.fromhex(x[1:])


def hx(b):
    return "x" + b.hex()


def hotp(key, c):
    d = hmac.new(key, struct.pack(">Q", c), "sha1").digest()
    o = d[19] & 15
    return "%06d" % ((struct.unpack(">I", d[o:o + 4])[0] & 0x7fffffff) % 1000000)


# ---- a small AES, for known answers
def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = (p ^ (p << 1) ^ (0x1b if p & 0x80 else 0)) & 255
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 255
        if q & 0x80:
            q ^= 0x09
        x = q ^ ((q << 1 | q >> 7) & 255) ^ ((q << 2 | q >> 6) & 255) ^ ((q << 3 | q >> 5) & 255) ^ ((q << 4 | q >> 4) & 255)
        s[p] = x ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


SBOX = _sbox()


def _xt(a):
    return ((a << 1) ^ 0x1b) & 255 if a & 0x80 else a << 1


def expand(key):
    nk = len(key) // 4
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nk + 7)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [SBOX[x] for x in t[1:] + t[:1]]
            t[0] ^= rc
            rc = _xt(rc)
        elif nk > 6 and i % nk == 4:
            t = [SBOX[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return w


def block(w, b):
    s = list(b)
    n = len(w) // 4
    def ark(r):
        for c in range(4):
            for i in range(4):
                s[4 * c + i] ^= w[4 * r + c][i]
    ark(0)
    for r in range(1, n):
        t = [SBOX[x] for x in s]
        u = [t[(4 * (c + i) + i) % 16] for c in range(4) for i in range(4)]
        if r < n - 1:
            o = []
            for c in range(4):
                a = u[4 * c:4 * c + 4]
                x = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ x ^ _xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            u = o
        s[:] = u
        ark(r)
    return bytes(s)


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


# ---- P-256, for the known answers of key agreements
_P = 2**256 - 2**224 + 2**192 + 2**96 - 1
_B = 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b


def _add(a, b):
    if a is None or b is None:
        return a or b
    if a[0] == b[0]:
        if (a[1] + b[1]) % _P == 0:
            return None
        l = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, _P) % _P
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, _P) % _P
    x = (l * l - a[0] - b[0]) % _P
    return x, (l * (a[0] - x) - a[1]) % _P


def ecdh(d, pt):
    """private value (bytes), uncompressed point (bytes) -> shared x coordinate"""
    if len(pt) != 65 or pt[0] != 4:
        return None
    p = int.from_bytes(pt[1:33], "big"), int.from_bytes(pt[33:], "big")
    if (p[1] * p[1] - p[0]**3 + 3 * p[0] - _B) % _P:
        return None
    n, r = int.from_bytes(d, "big"), None
    while n:
        if n & 1:
            r = _add(r, p)
        p = _add(p, p)
        n >>= 1
    return r[0].to_bytes(32, "big") if r else None


def derived(m, par, n, base, other=None):
    """known value of a derived key of n bytes; b"" if there are not enough bytes; None if not worked out here"""
    if m == "CKM_CONCATENATE_BASE_AND_DATA":
        v = base + unx(par["strdata"])
    elif m == "CKM_CONCATENATE_DATA_AND_BASE":
        v = unx(par["strdata"]) + base
    elif m == "CKM_XOR_BASE_AND_DATA":
        v = xor(base, unx(par["strdata"]))
    elif m == "CKM_CONCATENATE_BASE_AND_KEY":
        if other is None:
            return None
        v = base + other
    elif m == "CKM_EXTRACT_KEY_FROM_KEY":
        k = par["ulong"]
        b = "".join("{:08b}".format(x) for x in base)
        if n * 8 > len(b) or k > len(b):
            return b""
        b = (b + b)[k:k + 8 * n]
        v = int(b, 2).to_bytes(n, "big") if n else b""
    elif m in ("CKM_SHA1_KEY_DERIVATION", "CKM_SHA256_KEY_DERIVATION"):
        v = hashlib.new("sha1" if "SHA1" in m else "sha256", base).digest()
    elif m.startswith("CKM_AES_") and len(base) not in (16, 24, 32):
        return None
    elif m == "CKM_AES_ECB_ENCRYPT_DATA":
        v = aes(base, "CKM_AES_ECB", None, unx(par["strdata"]))
    elif m == "CKM_AES_CBC_ENCRYPT_DATA":
        v = aes(base, "CKM_AES_CBC", {"hex": par["aescbcd"][0]}, unx(par["aescbcd"][1]))
    elif m in ("CKM_HKDF_DERIVE", "CKM_HKDF_DATA"):
        h = par["hkdf"]
        f = {"CKM_SHA256": "sha256", "CKM_SHA512": "sha512"}[h["prf"]]
        z = hashlib.new(f).digest_size
        prk = base
        if h["extract"]:
            prk = hmac.new(unx(h["salt"]) or bytes(z), base, f).digest()
        v = prk
        if h["expand"]:
            v, t, i = b"", b"", 1
            while len(v) < n:
                t = hmac.new(prk, t + unx(h["info"]) + bytes([i]), f).digest()
                v, i = v + t, i + 1
    elif m == "CKM_ECDH1_DERIVE":
        p = unx(par["ecdh"])
        p = p[2:] if len(p) == 67 else p
        v = ecdh(base, p)
        if v is None:
            return None
        v = v[-n:] if n <= 32 else b""
    else:
        return None
    return v[:n] if len(v) >= n else b""


def aes(key, m, par, data):
    """known answer of an encryption, None if not worked out here"""
    w = expand(key)
    bl = [data[i:i + 16] for i in range(0, len(data), 16)]
    if m == "CKM_AES_ECB" and len(data) % 16 == 0:
        return b"".join(block(w, x) for x in bl)
    if m in ("CKM_AES_CBC", "CKM_AES_CBC_PAD"):
        if m == "CKM_AES_CBC_PAD":
            n = 16 - len(data) % 16
            data += bytes([n]) * n
            bl = [data[i:i + 16] for i in range(0, len(data), 16)]
        if len(data) % 16:
            return None
        p, o = unx(par["hex"]), b""
        for x in bl:
            p = block(w, xor(p, x))
            o += p
        return o
    if m == "CKM_AES_CTR":
        c, o = int.from_bytes(unx(par["ctr"]["cb"]), "big"), b""
        bits = par["ctr"]["bits"]
        for x in bl:
            o += xor(x, block(w, c.to_bytes(16, "big")))
            c = (c >> bits << bits) | ((c + 1) & ((1 << bits) - 1))
        return o
    if m == "CKM_AES_OFB":
        p, o = unx(par["hex"]), b""
        for x in bl:
            p = block(w, p)
            o += xor(p, x)
        return o
    if m == "CKM_AES_CFB128":
        p, o = unx(par["hex"]), b""
        for x in bl:
            p = xor(block(w, p), x)
            o += p
        return o
    if m == "CKM_AES_CFB8":
        p, o = unx(par["hex"]), b""
        for x in data:
            c = bytes([x ^ block(w, p)[0]])
            o += c
            p = p[1:] + c
        return o
    if m == "CKM_AES_GCM" and len(unx(par["gcm"]["iv"])) == 12:
        h = int.from_bytes(block(w, bytes(16)), "big")
        def mul(x):
            z, v = 0, h
            for i in range(127, -1, -1):
                if x >> i & 1:
                    z ^= v
                v = v >> 1 ^ (0xe1 << 120 if v & 1 else 0)
            return z
        j0 = unx(par["gcm"]["iv"]) + b"\0\0\0\1"
        c, o = 1, b""
        for x in bl:
            c += 1
            o += xor(x, block(w, j0[:12] + c.to_bytes(4, "big")))
        aad = unx(par["gcm"]["aad"])
        y = 0
        for src in (aad, o):
            for i in range(0, len(src), 16):
                y = mul(y ^ int.from_bytes(src[i:i + 16].ljust(16, b"\0"), "big"))
        y = mul(y ^ (len(aad) * 8 << 64 | len(o) * 8))
        t = xor(y.to_bytes(16, "big"), block(w, j0))
        return o + t[:par["gcm"]["tag"] // 8]
    return None


def cmac(key, data):
    w = expand(key)
    def dbl(x):
        n = int.from_bytes(x, "big") << 1
        return (n ^ (0x87 if n >> 128 else 0) & 0xff | 0).to_bytes(17, "big")[1:] if n >> 128 == 0 else ((n & ((1 << 128) - 1)) ^ 0x87).to_bytes(16, "big")
    k1 = dbl(block(w, bytes(16)))
    k2 = dbl(k1)
    n = max(1, (len(data) + 15) // 16)
    last = data[16 * (n - 1):]
    last = xor(last, k1) if len(last) == 16 else xor(last + b"\x80" + bytes(15 - len(last)), k2)
    p = bytes(16)
    for i in range(n - 1):
        p = block(w, xor(p, data[16 * i:16 * i + 16]))
    return block(w, xor(p, last))


def cbcmac(key, data):
    w = expand(key)
    p = bytes(16)
    for i in range(0, len(data), 16):
        p = block(w, xor(p, data[i:i + 16].ljust(16, b"\0")))
    return p


def rsa_raw(k, m):
    n, d = int(k["n"][1:], 16), int(k["d"][1:], 16)
    l = (n.bit_length() + 7) // 8
    return pow(int.from_bytes(m, "big"), d, n).to_bytes(l, "big")


def rsa_pkcs(k, t):
    l = (int(k["n"][1:], 16).bit_length() + 7) // 8
    if len(t) > l - 11:
        return None
    return rsa_raw(k, b"\0\1" + b"\xff" * (l - 3 - len(t)) + b"\0" + t)


def known(kind, m, par, mat, data):
    """known answer for an operation on key material mat ("v:x.." or "rsa:x..")"""
    if kind == "dig":
        return hashlib.new(HASH[m], data).digest()
    if mat.startswith("v:"):
        key = unx(mat[2:])
        if kind == "enc" and m.startswith("CKM_AES"):
            return aes(key, m, par, data)
        if kind == "sign":
            if m in HMAC:
                return hmac.new(key, data, HMAC[m]).digest()
            if m in HMACG:
                return hmac.new(key, data, HMACG[m]).digest()[:par["ulong"]]
            if m == "CKM_AES_CMAC":
                return cmac(key, data)
            if m == "CKM_AES_CMAC_GENERAL":
                return cmac(key, data)[:par["ulong"]]
            if m == "CKM_AES_MAC":
                return cbcmac(key, data)[:8] if data else None
            if m == "CKM_AES_MAC_GENERAL":
                return cbcmac(key, data)[:par["ulong"]] if data else None
    if mat.startswith("rsa:") and kind == "sign":
        k = next((x for x in keys.RSA if x["n"] == mat[4:]), None)
        if k is None:
            return None
        if m in DIGINFO:
            h, pre = DIGINFO[m]
            return rsa_pkcs(k, bytes.fromhex(pre) + hashlib.new(h, data).digest())
        if m == "CKM_RSA_PKCS":
            return rsa_pkcs(k, data)
    return None


# ---- the operations to try: kind -> mechanism -> (key kind, parameter pool, data sizes)
IV = ["x" + "%02x" % i * 16 for i in (1, 2)]
IVP = [{"hex": x} for x in IV]
ANY = [0, 1, 5, 15, 16, 17, 31, 32, 33, 47, 48, 64, 65, 100, 200]
BLK = [0, 16, 32, 48, 64, 160]
GCMP = [{"gcm": {"iv": "x" + "0a" * 12, "aad": "x", "tag": 128}}, {"gcm": {"iv": "x" + "0b" * 12, "aad": "x0102030405", "tag": 128}},
        {"gcm": {"iv": "x" + "0c" * 12, "aad": "x00", "tag": 96}}, {"gcm": {"iv": "x" + "0d" * 16, "aad": "x00", "tag": 128}}]
CCMP = [{"ccm": {"nonce": "x" + "0a" * 12, "aad": "x", "mac": 16}}, {"ccm": {"nonce": "x" + "0b" * 7, "aad": "x0102", "mac": 8}}]
CTRP = [{"ctr": {"cb": "x" + "00" * 15 + "01", "bits": 128}}, {"ctr": {"cb": "x" + "ff" * 16, "bits": 128}}, {"ctr": {"cb": "x" + "01" * 12 + "00" * 4, "bits": 32}}]
OAEP = [{"oaep": ["CKM_SHA_1", "CKG_MGF1_SHA1", 0]}, {"oaep": ["CKM_SHA256", "CKG_MGF1_SHA256", 0]}]
PSS = [{"pss": ["CKM_SHA256", "CKG_MGF1_SHA256", 32]}, {"pss": ["CKM_SHA256", "CKG_MGF1_SHA256", 0]}]
CIPH = {"CKM_AES_ECB": (None, BLK), "CKM_AES_CBC": (IVP, BLK), "CKM_AES_CBC_PAD": (IVP, ANY), "CKM_AES_CTR": (CTRP, ANY), "CKM_AES_GCM": (GCMP, ANY),
        "CKM_AES_CCM": (CCMP, ANY), "CKM_AES_OFB": (IVP, ANY), "CKM_AES_CFB8": (IVP, ANY), "CKM_AES_CFB128": (IVP, ANY), "CKM_AES_CFB1": (IVP, [8, 16, 17]),
        "CKM_AES_CTS": (IVP, [16, 17, 20, 31, 32, 33, 48, 50]), "CKM_AES_KEY_WRAP": (None, [16, 24, 32, 40]), "CKM_AES_KEY_WRAP_KWP": (None, [1, 7, 8, 9, 20, 33])}
RSAE = {"CKM_RSA_PKCS": (None, [0, 1, 20, 53]), "CKM_RSA_PKCS_OAEP": (OAEP, [0, 1, 20]), "CKM_RSA_X_509": (None, [0])}
MACS = {"CKM_AES_CMAC": (None, ANY), "CKM_AES_CMAC_GENERAL": ([{"ulong": 8}, {"ulong": 16}], ANY), "CKM_AES_MAC": (None, ANY[1:]),
        "CKM_AES_MAC_GENERAL": ([{"ulong": 4}, {"ulong": 16}], ANY[1:])}
HM = {m: (None, ANY) for m in HMAC}
HM.update({"CKM_SHA256_HMAC_GENERAL": ([{"ulong": 16}, {"ulong": 32}], ANY), "CKM_SHA512_HMAC_GENERAL": ([{"ulong": 20}], ANY)})
RSAS = {"CKM_RSA_PKCS": (None, [1, 20, 53]), "CKM_SHA1_RSA_PKCS": (None, ANY), "CKM_SHA256_RSA_PKCS": (None, ANY), "CKM_SHA384_RSA_PKCS": (None, ANY),
        "CKM_SHA512_RSA_PKCS": (None, ANY), "CKM_RSA_PKCS_PSS": (PSS, [32]), "CKM_SHA256_RSA_PKCS_PSS": (PSS, ANY)}
ECS = {"CKM_ECDSA": (None, [32, 20]), "CKM_ECDSA_SHA1": (None, ANY), "CKM_ECDSA_SHA256": (None, ANY), "CKM_ECDSA_SHA384": (None, ANY)}
MULTI = set(CIPH) - {"CKM_AES_KEY_WRAP", "CKM_AES_KEY_WRAP_KWP"}
ONESHOT = {"CKM_RSA_PKCS", "CKM_RSA_X_509", "CKM_RSA_PKCS_OAEP", "CKM_RSA_PKCS_PSS", "CKM_ECDSA", "CKM_HOTP"}
FULLN = {"CKM_RSA_X_509"}


def fits(a, kind, tab):
    c, k = a.get("CKA_CLASS"), a.get("CKA_KEY_TYPE")
    if tab in (CIPH, MACS):
        return c == "CKO_SECRET_KEY" and k == "CKK_AES"
    if tab is HM:
        return c == "CKO_SECRET_KEY" and k == "CKK_GENERIC_SECRET"
    pub = kind in ("enc", "ver", "versig")
    want = "CKO_PUBLIC_KEY" if pub else "CKO_PRIVATE_KEY"
    return c == want and k == ("CKK_EC" if tab is ECS else "CKK_RSA")


UATTR = {"enc": "CKA_ENCRYPT", "dec": "CKA_DECRYPT", "sign": "CKA_SIGN", "ver": "CKA_VERIFY", "versig": "CKA_VERIFY", "menc": "CKA_ENCRYPT",
         "mdec": "CKA_DECRYPT", "wrap": "CKA_WRAP", "unwrap": "CKA_UNWRAP", "derive": "CKA_DERIVE"}


WRAPA = ["CKM_AES_KEY_WRAP", "CKM_AES_KEY_WRAP_KWP", "CKM_AES_GCM", "CKM_AES_CBC", "CKM_AES_CBC_PAD", "CKM_AES_CTR", "CKM_AES_ECB", "CKM_AES_CCM"]
DERG = ["CKM_CONCATENATE_BASE_AND_DATA", "CKM_CONCATENATE_DATA_AND_BASE", "CKM_XOR_BASE_AND_DATA", "CKM_CONCATENATE_BASE_AND_KEY", "CKM_EXTRACT_KEY_FROM_KEY",
        "CKM_SHA256_KEY_DERIVATION"]


class Crypto:
    """mixed into Gen"""

    def cinit(self):
        self.results = []        # what was produced: (kind that consumes it, mechanism, par, key object, data, product)
        self.katted = set()
        self.pool = [bytes(self.r.getrandbits(8) for _ in range(220)) for _ in range(2)]
        for k in keys.EC:
            self.w.kat("pub|v:" + k["v"], "ec:" + k["pt"])
        self.blobs = []

    def data(self, sizes):
        n = self.r.choice(sizes)
        return self.r.choice(self.pool)[:n]

    def mat(self, name):
        o = self.objs.get(name)
        if not o:
            return ""
        if o["a"].get("CKA_KEY_TYPE") == "CKK_RSA":
            return "rsa:" + o["a"].get("CKA_MODULUS", "")
        return "v:" + o["v"] if o.get("v") else ""

    def katfor(self, kind, m, par, o, data):
        if not self.ch(self.p.get("kat", 0.35)):
            return
        mat = self.mat(o) if o else ""
        if kind != "dig" and not mat:
            return
        from kx import canon
        k = "%s|%s|%s|%s|%s" % ({"sign": "sig"}.get(kind, kind), m, canon(par), mat, hx(data))
        if k in self.katted:
            return
        self.katted.add(k)
        v = known(kind, m, par, mat, data)
        if v is not None:
            self.w.kat(k, hx(v))

    # ------------------------------------------------------------ one operation
    def opobj(self, kind, tab, slot):
        a = UATTR[kind]
        want = self.aobj(lambda x: fits(x, kind, tab) and x.get(a) == "T", slot)
        if want and self.ch(0.93):
            return want
        return self.aobj(lambda x: fits(x, kind, tab), slot) or want

    TABS = {"enc": [CIPH, CIPH, CIPH, RSAE], "dec": [CIPH, RSAE], "sign": [MACS, HM, RSAS, ECS], "ver": [MACS, HM, RSAS, ECS]}

    def out(self, p=0.3):
        """buffer for an output: usually plenty"""
        x = self.r.random()
        if x < p * 0.4:
            return "null"
        if x < p:
            return self.r.choice([0, 1, 7, 8, 15, 16, 17, 20, 31, 32, 40, 64, 128])
        return 4096

    def step(self, s, c, k, **kw):
        """one call with output; retried with what the library asked for"""
        tries = 0
        while True:
            o = self.out(self.p.get("buf", 0.25)) if tries < 3 else 4096
            if tries and last is not None and self.ch(0.8):
                o = last
            e = self.do(c=c, s=s, k=k, out=o, **kw)
            last = e.get("len")
            if e["rv"] == "OK" and o != "null":
                return e
            if e["rv"] not in ("OK", "BUFFER_TOO_SMALL"):
                return e
            tries += 1
            if tries > 6 or s not in self.sess:
                return e

    def feed(self, n):
        """how to split n bytes"""
        if n == 0:
            return [0] if self.ch(0.3) else []
        r = []
        while n > 0:
            x = min(n, self.r.choice([1, 3, 7, 8, 15, 16, 17, 31, 32, 33, 64, 100, n]))
            r.append(x)
            n -= x
            if self.ch(0.08):
                r.append(0)
        if len(r) > 9:
            r = r[:8] + [sum(r[8:])]
        return r

    def a_crypt(self):
        s = self.asess()
        if not s:
            return
        kind = self.r.choice(["enc", "enc", "sign", "sign", "dig", "dec", "ver"])
        self.flows.append((s, self.f_op(s, kind)))
        self.run_flow()

    def f_op(self, s, kind, again=None):
        sl = self.sess[s]["slot"]
        sig = None
        par = None
        if kind == "dig":
            m, o = self.r.choice(list(HASH)), None
            data = self.data(ANY)
        elif kind in ("dec", "ver") and self.results and (again or self.ch(0.92)):
            kd, m, par, src, data, prod = again or self.r.choice(self.results[-40:])
            kind = kd if again or self.ch(0.5) else kind
            if kd != ("dec" if kind == "dec" else "ver"):
                kind = kd
            tab = next(t for t in (CIPH, RSAE, MACS, HM, RSAS, ECS) if m in t and (kind == "dec") == (t in (CIPH, RSAE)))
            mat = self.mat(src) if src in self.objs else None
            a = UATTR[kind]
            o = None
            if src in self.objs and fits(self.objs[src]["a"], kind, tab) and self.objs[src]["a"].get(a) == "T" and self.ch(.8):
                o = src
            else:
                same = [n for n in self.objs if self.objs[n]["slot"] == sl and fits(self.objs[n]["a"], kind, tab) and self.twin(src, n)
                        and self.objs[n]["a"].get(a) == "T"]
                o = self.r.choice(same) if same else self.opobj(kind, tab, sl)
            if kind == "dec":
                data = prod
            else:
                sig = prod
            data, sig, par = self.tamper(kind, data, sig, par)
        else:
            if kind in ("dec", "ver"):
                kind = "enc" if kind == "dec" else "sign"
            tab = self.r.choice(self.TABS[kind])
            only = self.p.get("mechs")
            ms = [m for m in tab if not only or m in only]
            if not ms:
                return
            m = self.r.choice(ms)
            pars, sizes = tab[m]
            par = self.r.choice(pars) if pars else None
            data = self.data(sizes)
            o = self.opobj(kind, tab, sl)
            if m in FULLN:
                data = b"\0" + self.pool[0][:127]
        if kind != "dig" and not o:
            return
        if m == "CKM_AES_CCM":
            par = {"ccm": dict(par["ccm"], dlen=len(data) - (par["ccm"]["mac"] if kind == "dec" else 0))}
        yield from self.f_run(s, kind, m, par, o, data, sig)

    def twin(self, a, b):
        """do two objects have matching key material?"""
        x, y = self.objs.get(a), self.objs.get(b)
        if not x or not y:
            return False
        x, y = x["a"], y["a"]
        if x.get("CKA_KEY_TYPE") == "CKK_EC":
            return x.get("CKA_ID") is not None and x.get("CKA_ID") == y.get("CKA_ID") or b == self.objs[a].get("peer")
        return (self.mat(a) == self.mat(b) and self.mat(a) != "") or self.objs[a].get("peer") == b

    def tamper(self, kind, data, sig, par):
        if not self.ch(self.p.get("tamper", 0.3)):
            return data, sig, par
        def flip(b):
            if not b:
                return b
            b = bytearray(b)
            b[self.r.choice([0, len(b) - 1, self.r.randrange(len(b))])] ^= 1 << self.r.randrange(8)
            return bytes(b)
        x = self.r.random()
        if kind == "ver" and x < .4:
            return data, flip(sig), par
        if x < .7:
            return flip(data), sig, par
        if x < .8 and len(data) > 1:
            return data[:-1], sig, par
        if x < .85 and sig:
            return data, sig[:-1], par
        if par:
            for n in ("gcm", "ccm"):
                if n in par:
                    d = dict(par[n])
                    f = self.r.choice([y for y in d if y in ("iv", "aad", "nonce")])
                    d[f] = hx(flip(unx(d[f])) or b"\1")
                    return data, sig, {n: d}
        return data + b"\0", sig, par

    def f_run(self, s, kind, m, par, o, data, sig):
        ev = dict(c="opinit", s=s, k=kind, m=m)
        if par is not None:
            ev["par"] = par
        if o:
            ev["o"] = o
        if kind == "ver" and self.ch(0.15) and m not in ("CKM_HOTP",):
            ev["k"] = kind = "versig"
            ev["sig"] = hx(sig) if sig is not None else hx(b"\1" * 32)
        if kind in ("enc", "sign", "dig"):
            self.katfor(kind, m, par, o, data)
        e = self.do(**ev)
        if e["rv"] != "OK":
            return
        yield
        if s not in self.sess:
            return
        x = self.r.random()
        if x < self.p.get("abandon", 0.06):
            yield
            if self.ch(0.5) and s in self.sess:
                if self.ch(0.5):
                    self.do(c="opinit", s=s, k=kind, cancel=True)
                else:
                    self.do(c="scancel", s=s, ks=[kind if kind != "versig" else "ver"])
            return
        if x < 0.12:
            self.do(**ev)           # a second start
            if s not in self.sess:
                return
        kw = {}
        if kind == "ver":
            kw["sig"] = hx(sig) if sig is not None else hx(b"\1" * 32)
        outk = kind in ("enc", "dec", "sign", "dig")
        multi = self.ch(0.6) if m not in ONESHOT else self.ch(0.05)
        prod = b""
        if not multi:
            if outk:
                e = self.step(s, "op", kind, din=hx(data))
                prod = unx(e.get("dout", "x")) if e["rv"] == "OK" else b""
            else:
                e = self.do(c="op", s=s, k=kind, din=hx(data), **kw)
        else:
            at = 0
            for n in self.feed(len(data)):
                part = data[at:at + n]
                if s not in self.sess:
                    return
                if kind in ("enc", "dec"):
                    e = self.step(s, "upd", kind, din=hx(part))
                    if e["rv"] == "OK":
                        prod += unx(e.get("dout", "x"))
                else:
                    e = self.do(c="upd", s=s, k=kind, din=hx(part))
                if e["rv"] != "OK":
                    if self.ch(0.5) and s in self.sess:
                        self.do(c="fin", s=s, k=kind, **kw)
                    return
                at += n
                if self.ch(0.6):
                    yield
                if s not in self.sess:
                    return
                if self.ch(0.02):
                    e = self.do(c="op", s=s, k=kind, din="x00", **kw)    # one-shot in the middle
                    return
            if outk:
                e = self.step(s, "fin", kind)
                if e["rv"] == "OK":
                    prod += unx(e.get("dout", "x"))
            else:
                e = self.do(c="fin", s=s, k=kind, **kw)
        if self.ch(0.06) and s in self.sess:
            # steps after the end
            c = self.r.choice(["op", "upd", "fin"])
            if not (kind == "versig" and c == "op"):
                self.do(c=c, s=s, k=kind, din="x00", **kw) if c != "fin" else self.do(c="fin", s=s, k=kind, **kw)
        if e["rv"] == "OK" and kind in ("enc", "sign"):
            self.results.append(("dec" if kind == "enc" else "ver", m, par, o, data, prod))
            if self.ch(0.5) and s in self.sess:
                yield
                if s in self.sess:
                    yield from self.f_op(s, "dec" if kind == "enc" else "ver", again=self.results[-1])

    # ------------------------------------------------------------ wrong starts
    ALLM = list(CIPH) + list(RSAE) + list(MACS) + list(HM) + list(RSAS) + list(ECS) + list(HASH) + [
        "CKM_HOTP", "CKM_AES_KEY_GEN", "CKM_ECDH1_DERIVE", "CKM_HKDF_DERIVE", "CKM_GENERIC_SECRET_KEY_GEN", "CKM_SHA256_KEY_DERIVATION",
        "CKM_RSA_PKCS_KEY_PAIR_GEN"]

    def parfor(self, m):
        for t in (CIPH, RSAE, MACS, HM, RSAS, ECS):
            if m in t and t[m][0]:
                par = self.r.choice(t[m][0])
                if "ccm" in par:
                    par = {"ccm": dict(par["ccm"], dlen=16)}
                return par
        return None

    def a_start(self):
        """any mechanism with any key: mostly refused"""
        s = self.asess()
        if not s:
            return
        kind = self.r.choice(["enc", "dec", "sign", "ver", "dig", "versig", "menc", "mdec"])
        m = self.r.choice(self.ALLM)
        if self.ch(0.5):
            tabs = {"enc": [CIPH, RSAE], "dec": [CIPH, RSAE], "menc": [{"CKM_AES_GCM": 0}], "mdec": [{"CKM_AES_GCM": 0}], "dig": [HASH]}.get(kind, [MACS, HM, RSAS, ECS])
            m = self.r.choice(list(self.r.choice(tabs)))
        if kind in ("menc", "mdec") and m != "CKM_AES_GCM" and self.ch(.7):
            m = "CKM_AES_GCM"
        only = self.p.get("mechs")
        if only and self.ch(.6):
            m = self.r.choice(list(only))
        o = self.anyname(self.sess[s]["slot"])
        if not o and kind != "dig":
            return
        ev = dict(c="opinit", s=s, k=kind, m=m)
        if kind != "dig":
            ev["o"] = o
        par = self.parfor(m)
        if kind in ("menc", "mdec"):
            par = None
        if par:
            ev["par"] = par
        if kind == "versig":
            ev["sig"] = hx(b"\1" * 32)
        e = self.do(**ev)
        k = kind
        if e["rv"] == "OK":
            if kind in ("menc", "mdec"):
                if self.ch(.8):
                    self.do(c="fin", s=s, k=k)
            elif self.ch(.8):
                self.do(c="opinit", s=s, k=k, cancel=True)
        elif self.ch(0.5):
            # nothing must be active now, except what was before
            kw = {"sig": "x" + "01" * 32} if kind == "ver" else {}
            c = self.r.choice(["upd", "fin"])
            if kind in ("menc", "mdec"):
                c = "fin"
            if c == "upd":
                self.do(c="upd", s=s, k=k, din="x" + "00" * 16)
            else:
                self.do(c="fin", s=s, k=k, **kw)

    def a_stray(self):
        """steps without a start, or of whatever is active"""
        s = self.asess()
        if not s:
            return
        k = self.r.choice(["enc", "dec", "sign", "ver", "dig", "versig"])
        c = self.r.choice(["op", "upd", "fin"])
        ev = dict(c=c, s=s, k=k)
        if c != "fin":
            ev["din"] = self.r.choice(["x", "x" + "00" * 16, "x0102"])
        if k == "ver" and c != "upd":
            ev["sig"] = "x" + "02" * 32
        if self.ch(.3):
            ev["out"] = self.out(.9)
        self.do(**ev)

    # ------------------------------------------------------------ two at once
    def a_dual(self):
        s = self.asess()
        if not s:
            return
        self.flows.append((s, self.f_dual(s)))
        self.run_flow()

    def f_dual(self, s):
        sl = self.sess[s]["slot"]
        m = self.r.choice(["CKM_AES_CBC", "CKM_AES_CTR", "CKM_AES_CBC_PAD", "CKM_AES_ECB", "CKM_AES_GCM"])
        pars, sizes = CIPH[m]
        par = self.r.choice(pars) if pars else None
        data = self.data([16, 32, 48, 64])
        kind = self.r.choice(["digenc", "digenc", "signenc"])
        o = self.opobj("enc", CIPH, sl)
        if not o:
            return
        ev = dict(c="opinit", s=s, k="enc", m=m, o=o)
        if par:
            ev["par"] = par
        if kind == "digenc":
            first, k2 = dict(c="opinit", s=s, k="dig", m=self.r.choice(list(HASH))), "dig"
        else:
            o2 = self.opobj("sign", HM, sl)
            if not o2:
                return
            first, k2 = dict(c="opinit", s=s, k="sign", m=self.r.choice(list(HMAC)), o=o2), "sign"
        if self.do(**first)["rv"] != "OK":
            return
        yield
        if s not in self.sess:
            return
        if self.do(**ev)["rv"] != "OK":
            if s in self.sess:
                self.do(c="opinit", s=s, k=k2, cancel=True)
            return
        prod, at = b"", 0
        for n in self.feed(len(data)):
            e = self.step(s, "upd", kind, din=hx(data[at:at + n]))
            if e["rv"] != "OK" or s not in self.sess:
                return
            prod += unx(e.get("dout", "x"))
            at += n
            if self.ch(.4):
                yield
            if s not in self.sess:
                return
        e = self.step(s, "fin", "enc")
        if e["rv"] != "OK" or s not in self.sess:
            return
        prod += unx(e.get("dout", "x"))
        e2 = self.step(s, "fin", k2)
        if s not in self.sess or not self.ch(.7):
            return
        # and back
        dk = o if self.objs.get(o, {"a": {}})["a"].get("CKA_DECRYPT") == "T" else None
        if not dk or e2["rv"] != "OK":
            return
        ev = dict(c="opinit", s=s, k="dec", m=m, o=dk)
        if par:
            ev["par"] = par
        if kind == "digenc":
            b = dict(first)
            k = "decdig"
        else:
            if self.objs.get(o2, {"a": {}})["a"].get("CKA_VERIFY") != "T":
                return
            b = dict(first, k="ver")
            k = "decver"
        if self.do(**b)["rv"] != "OK" or self.do(**ev)["rv"] != "OK":
            return
        at = 0
        for n in self.feed(len(prod)):
            e = self.step(s, "upd", k, din=hx(prod[at:at + n]))
            if e["rv"] != "OK" or s not in self.sess:
                return
            at += n
            if self.ch(.3):
                yield
            if s not in self.sess:
                return
        self.step(s, "fin", "dec")
        if s not in self.sess:
            return
        if kind == "digenc":
            self.step(s, "fin", "dig")
        else:
            self.do(c="fin", s=s, k="ver", sig=e2.get("dout", "x"))

    def a_digkey(self):
        s = self.asess()
        n = s and self.anyname(self.sess[s]["slot"])
        if not n:
            return
        if self.do(c="opinit", s=s, k="dig", m=self.r.choice(list(HASH)))["rv"] != "OK":
            return
        if self.ch(.4):
            self.do(c="upd", s=s, k="dig", din="x0102")
        e = self.do(c="upd", s=s, k="digkey", o=n)
        if e["rv"] == "OK" or self.ch(.3):
            self.step(s, "fin", "dig")

    # ------------------------------------------------------------ messages
    def a_message(self):
        s = self.asess()
        if not s:
            return
        self.flows.append((s, self.f_message(s)))
        self.run_flow()

    def f_message(self, s):
        sl = self.sess[s]["slot"]
        o = self.aobj(lambda x: fits(x, "enc", CIPH) and x.get("CKA_ENCRYPT") == "T" and x.get("CKA_DECRYPT") == "T", sl)
        if not o:
            return
        if self.do(c="opinit", s=s, k="menc", m="CKM_AES_GCM", o=o)["rv"] != "OK":
            return
        yield
        made = []
        gen = self.r.choice(["CKG_GENERATE", "CKG_GENERATE_COUNTER_XOR", "CKG_GENERATE_COUNTER", "CKG_GENERATE_RANDOM", "CKG_NO_GENERATE", "CKG_GENERATE_COUNTER_XOR"])
        fixed = self.r.choice([0, 32, 64]) if gen != "CKG_NO_GENERATE" else 0
        iv = self.r.choice(["x" + "11" * 12, "x" + "22" * 12])
        for j in range(self.r.choice([1, 3, 6])):
            if s not in self.sess:
                return
            if gen == "CKG_NO_GENERATE":
                iv = self.hexs(12)
            d = self.data(ANY[1:])
            aad = self.r.choice(["x", "x0102"])
            e = self.do(c="msg", s=s, k="menc", iv=iv, fixed=fixed, gen=gen, aad=aad, din=hx(d))
            if e["rv"] == "OK":
                made.append((e["ivout"], e["tagout"], aad, e["dout"]))
                if gen != "CKG_NO_GENERATE" and self.ch(.6):
                    iv = e["ivout"]     # hand back what was returned
            if self.ch(.4):
                yield
        if s not in self.sess:
            return
        self.do(c="fin", s=s, k="menc")
        if s not in self.sess or self.do(c="opinit", s=s, k="mdec", m="CKM_AES_GCM", o=o)["rv"] != "OK":
            return
        for iv, tag, aad, ct in made:
            if s not in self.sess:
                return
            if self.ch(.3):
                f = self.r.randrange(4)
                def fl(x):
                    b = bytearray(unx(x))
                    if not b:
                        return "x01"
                    b[self.r.randrange(len(b))] ^= 1 << self.r.randrange(8)
                    return hx(bytes(b))
                iv, tag, aad, ct = [fl(x) if f == i else x for i, x in enumerate((iv, tag, aad, ct))]
            self.do(c="msg", s=s, k="mdec", iv=iv, fixed=0, gen="CKG_NO_GENERATE", aad=aad, tag=tag, din=ct)
            if self.ch(.3):
                yield
        if s in self.sess:
            self.do(c="fin", s=s, k="mdec")

    def a_random(self):
        s = self.asess()
        if s:
            self.do(c="random", s=s, n=self.r.choice([8, 16, 32, 64]))

    # ------------------------------------------------------------ always authenticate
    def a_aauth(self):
        s = self.asess()
        if not s:
            return
        self.flows.append((s, self.f_aauth(s)))
        self.run_flow()

    def f_aauth(self, s):
        sl = self.sess[s]["slot"]
        aa = lambda x: x.get("CKA_CLASS") == "CKO_PRIVATE_KEY" and x.get("CKA_ALWAYS_AUTHENTICATE") == "T"
        o = self.aobj(lambda x: aa(x) and (x.get("CKA_SIGN") == "T" or x.get("CKA_DECRYPT") == "T"), sl)
        if not o:
            if self.login[sl] != "user":
                return
            self.create(s, self.r.choice(["rsapriv", "ecpriv", "rsapriv"]), CKA_ALWAYS_AUTHENTICATE="T", CKA_SIGN="T")
            return
        a = self.objs[o]["a"]
        kind = "sign" if a.get("CKA_SIGN") == "T" and (a.get("CKA_DECRYPT") != "T" or self.ch(.7)) else "dec"
        tab = (ECS if a.get("CKA_KEY_TYPE") == "CKK_EC" else RSAS) if kind == "sign" else {"CKM_RSA_PKCS": (None, [1])}
        m = self.r.choice(list(tab))
        par = self.r.choice(tab[m][0]) if tab[m][0] else None
        data = self.data(tab[m][1])
        if kind == "dec":
            x = [z for z in self.results if z[1] == m and z[0] == "dec"]
            data = x[-1][5] if x else b"\2" * 128
        pin = self.pins[sl].get("user") or "user1234"
        def ctx(p):
            self.do(c="login", s=s, user="ctx", pin=p)
        if self.ch(.2):
            ctx(pin)                                    # too early
        ev = dict(c="opinit", s=s, k=kind, m=m, o=o)
        if par:
            ev["par"] = par
        if s not in self.sess or self.do(**ev)["rv"] != "OK":
            return
        yield
        way = self.r.random()
        n = 0
        while n < 4:
            n += 1
            if s not in self.sess:
                return
            x = self.r.random()
            if x < .2:
                ctx(self.r.choice(["wrong0000", "user123"]))
            elif x < .5:
                ctx(pin)
            elif x < .6:
                # something else done in the session, or a login elsewhere
                t = self.asess(sl)
                if t and t != s:
                    self.do(c="login", s=t, user="ctx", pin=pin)
                else:
                    self.do(c="login", s=s, user="user", pin=pin)
            elif x < .68:
                k2 = "dec" if kind == "sign" else "sign"
                if a.get(UATTR[k2]) == "T":
                    if self.do(c="opinit", s=s, k=k2, m=m if m == "CKM_RSA_PKCS" else "CKM_RSA_PKCS" if a.get("CKA_KEY_TYPE") == "CKK_RSA" else "CKM_ECDSA", o=o)["rv"] == "OK" and self.ch(.7):
                        ctx(pin)
                        if self.ch(.5):
                            self.step(s, "op", k2, din=hx(data))
            elif x < .75:
                self.do(c="upd", s=s, k=kind, din=hx(data[:8]))
            else:
                if self.ch(.5):
                    yield
                if s not in self.sess:
                    return
                if m not in ONESHOT and self.ch(.4) and kind == "sign":
                    self.do(c="upd", s=s, k=kind, din=hx(data[:3]))
                    if s in self.sess:
                        self.step(s, "fin", kind)
                else:
                    self.step(s, "op", kind, din=hx(data))
                if self.ch(.4):
                    # again without another login
                    if s in self.sess and self.do(**ev)["rv"] == "OK":
                        self.step(s, "op", kind, din=hx(data))
            if self.ch(.4):
                yield
        if s in self.sess and self.ch(.5):
            self.do(c="opinit", s=s, k=kind, cancel=True)

    # ------------------------------------------------------------ one-time passwords
    def otpkat(self, v, c, n=8):
        for i in range(-2, n):
            x = c + i
            if 0 <= x < 1 << 64:
                k = "otp|v:%s|x%016x" % (v, x)
                if k not in self.katted:
                    self.katted.add(k)
                    self.w.kat(k, "x" + hotp(unx(v), x).encode().hex())

    def a_hotp(self):
        s = self.asess()
        if not s:
            return
        sl = self.sess[s]["slot"]
        o = self.aobj(lambda x: x.get("CKA_CLASS") == "CKO_OTP_KEY", sl)
        if not o or self.ch(.04):
            self.create(s, "hotp", CKA_SIGN="T", CKA_VERIFY="T")
            return
        ob = self.objs[o]
        v = ob.get("v")
        if not v:
            return
        e = self.do(c="get", s=s, o=o, a=[["CKA_OTP_COUNTER", 64]])
        try:
            c = int(e["out"][0]["v"][1:], 16)
        except Exception:
            return
        if e["rv"] != "OK":
            return
        self.otpkat(v, c)
        par = None
        x = self.r.random()
        if self.ch(.15):
            par = {"otp": "x%016x" % self.r.choice([c, c + 1, max(0, c - 1)])} if self.p.get("otppar") else None
        if x < .55:
            ev = dict(c="opinit", s=s, k="sign", m="CKM_HOTP", o=o)
            if self.do(**ev)["rv"] != "OK":
                return
            y = self.r.random()
            if y < .2:
                # two operations at the same counter
                t = self.asess(sl)
                if t and t != s and self.do(c="opinit", s=t, k="sign", m="CKM_HOTP", o=o)["rv"] == "OK":
                    self.do(c="op", s=t, k="sign", din="x", otp=True)
            elif y < .3:
                self.do(c="op", s=s, k="sign", din="x", out="null", otp=True)
            elif y < .4:
                self.do(c="op", s=s, k="sign", din="x", out=self.r.choice([0, 3, 16]), otp=True)
            if s in self.sess:
                self.do(c="op", s=s, k="sign", din="x", otp=True)
        else:
            k = self.r.choice([0, 0, 1, 2, 4, 5, -1, -2, 6])
            if c + k < 0 or c + k >= 1 << 64:
                k = 0
            ev = dict(c="opinit", s=s, k="ver", m="CKM_HOTP", o=o)
            if self.do(**ev)["rv"] != "OK":
                return
            sig = "x" + hotp(unx(v), c + k).encode().hex()
            if self.ch(.1):
                sig = self.r.choice(["x303030303030", sig[:-2], sig + "30"])
            e = self.do(c="op", s=s, k="ver", din="x", sig=sig)
            if e["rv"] != "OK" and s in self.sess:
                self.do(c="opinit", s=s, k="ver", cancel=True)
            elif self.ch(.4) and s in self.sess and self.do(**ev)["rv"] == "OK":
                self.do(c="op", s=s, k="ver", din="x", sig=sig)          # once more
                if s in self.sess:
                    self.do(c="opinit", s=s, k="ver", cancel=True)
        if self.ch(.3) and s in self.sess:
            self.do(c="read", s=s, o=o)

    # ------------------------------------------------------------ key generation
    def novalue(self, t, drop=("CKA_VALUE",)):
        return [x for x in t if x[0] not in drop]

    def a_genkey(self):
        s = self.asess()
        if not s:
            return
        l = self.name("o")
        m = self.r.choice(["CKM_AES_KEY_GEN", "CKM_AES_KEY_GEN", "CKM_GENERIC_SECRET_KEY_GEN", "CKM_HKDF_KEY_GEN", "CKM_HOTP_KEY_GEN", "CKM_PKCS5_PBKD2"])
        par = None
        if m == "CKM_AES_KEY_GEN":
            t = self.novalue(self.t_aes(l)) + [("CKA_VALUE_LEN", self.r.choice(["16", "24", "32"]))]
        elif m in ("CKM_GENERIC_SECRET_KEY_GEN", "CKM_PKCS5_PBKD2"):
            t = self.novalue(self.t_gen(l)) + [("CKA_VALUE_LEN", self.r.choice(["16", "20", "32", "64"]))]
            if m == "CKM_PKCS5_PBKD2":
                par = {"pbkd2": {"salt": self.r.choice(["x0102030405060708", "x1112131415161718"]), "pw": self.r.choice(["x70617373", "x7061737332"]), "iter": self.r.choice([1000, 1001])}}
        elif m == "CKM_HKDF_KEY_GEN":
            t = self.novalue(self.t_gen(l, "CKK_HKDF")) + ([("CKA_VALUE_LEN", "32")] if self.ch(.8) else [])
        else:
            t = self.novalue(self.t_hotp(l)) + ([("CKA_VALUE_LEN", "20")] if self.ch(.5) else [])
        if self.ch(self.p.get("spoil", .1)):
            t = self.spoil(t)
        ev = dict(c="genkey", s=s, m=m, o=l, t=t)
        if par:
            ev["par"] = par
        e = self.do(**ev)
        self.reg(s, e)
        if e["rv"] == "OK":
            self.objs[l]["v"] = e["attrs"].get("CKA_VALUE") if not str(e["attrs"].get("CKA_VALUE", "!")).startswith("!") else None
        return e

    def a_genpair(self):
        s = self.asess()
        if not s:
            return
        l, l2 = self.name("o"), self.name("o")
        m = self.r.choice(["CKM_EC_KEY_PAIR_GEN"] * 5 + ["CKM_EC_MONTGOMERY_KEY_PAIR_GEN"] * 2 + ["CKM_RSA_PKCS_KEY_PAIR_GEN", "CKM_DH_PKCS_KEY_PAIR_GEN"])
        mat = ("CKA_MODULUS", "CKA_PUBLIC_EXPONENT", "CKA_EC_POINT", "CKA_VALUE", "CKA_PRIVATE_EXPONENT", "CKA_PRIME_1", "CKA_PRIME_2", "CKA_EXPONENT_1",
               "CKA_EXPONENT_2", "CKA_COEFFICIENT", "CKA_EC_PARAMS", "CKA_KEY_TYPE")
        if m == "CKM_RSA_PKCS_KEY_PAIR_GEN":
            a, b = self.novalue(self.t_rsapub(l), mat), self.novalue(self.t_rsapriv(l2), mat)
            a += [("CKA_MODULUS_BITS", "1024")] + ([("CKA_PUBLIC_EXPONENT", "x010001")] if self.ch(.6) else [])
        else:
            a, b = self.novalue(self.t_ecpub(l), mat), self.novalue(self.t_ecpriv(l2), mat)
            if m == "CKM_EC_KEY_PAIR_GEN":
                a.append(("CKA_EC_PARAMS", keys.P256))
            elif m == "CKM_EC_MONTGOMERY_KEY_PAIR_GEN":
                a.append(("CKA_EC_PARAMS", keys.X25519))
                a = [x for x in a if x[0] != "CKA_VERIFY"]
                b = [x for x in b if x[0] != "CKA_SIGN"]
            else:
                a = [x for x in a if x[0] != "CKA_VERIFY"] + [("CKA_PRIME", keys.FFDHE2048), ("CKA_BASE", "x02")]
                b = [x for x in b if x[0] != "CKA_SIGN"]
        if self.ch(self.p.get("spoil", .1)):
            if self.ch(.5):
                a = self.spoil(a)
            else:
                b = self.spoil(b)
        e = self.do(c="genpair", s=s, m=m, o=l, o2=l2, t=a, t2=b)
        self.reg(s, e, "o", "attrs")
        self.reg(s, e, "o2", "attrs2")
        if e["rv"] == "OK":
            for x, y in ((l, l2), (l2, l)):
                self.objs[x]["peer"] = y
                self.objs[x]["v"] = None
        return e

    # ------------------------------------------------------------ wrapping
    WRAPM = ["CKM_AES_KEY_WRAP", "CKM_AES_KEY_WRAP_KWP", "CKM_AES_KEY_WRAP_KWP", "CKM_AES_CBC_PAD", "CKM_AES_CBC_PAD", "CKM_AES_GCM", "CKM_AES_CBC", "CKM_RSA_PKCS", "CKM_RSA_PKCS_OAEP",
             "CKM_AES_CTR", "CKM_AES_ECB", "CKM_AES_CCM"]

    def wpar(self, m):
        if m in CIPH:
            return self.r.choice(CIPH[m][0]) if CIPH[m][0] else None
        return self.r.choice(OAEP) if m == "CKM_RSA_PKCS_OAEP" else None

    def a_wrap(self, s=None, m=None, fwk=None, fko=None):
        s = s or self.asess()
        if not s:
            return
        sl = self.sess[s]["slot"]
        m = m or self.r.choice(self.WRAPM)
        cls = "CKO_PUBLIC_KEY" if m.startswith("CKM_RSA") else "CKO_SECRET_KEY"
        wk = self.aobj(lambda x: x.get("CKA_CLASS") == cls and x.get("CKA_WRAP") == "T" and x.get("CKA_KEY_TYPE") in ("CKK_AES", "CKK_RSA"), sl)
        ko = self.aobj(lambda x: x.get("CKA_CLASS") in ("CKO_SECRET_KEY", "CKO_PRIVATE_KEY") and x.get("CKA_EXTRACTABLE") == "T", sl)
        if not wk or self.ch(.1):
            wk = self.anyname(sl)
        if not ko or self.ch(.15):
            ko = self.anyname(sl)
        wk, ko = fwk or wk, fko or ko
        if not wk or not ko:
            return
        par = self.wpar(m)
        if m == "CKM_AES_CCM":
            par = {"ccm": dict(par["ccm"], dlen=len(unx(self.objs[ko]["v"])) if ko in self.objs and self.objs[ko].get("v") else 32)}
        ev = dict(c="wrap", s=s, m=m, wk=wk, ko=ko)
        if par:
            ev["par"] = par
            if m == "CKM_AES_CCM" and not (ko in self.objs and self.objs[ko].get("v")):
                ev["may"] = True        # the length it has to declare is not known here
        last = None
        for i in range(4):
            o = self.out(self.p.get("buf", .25)) if i < 3 else 4096
            if last is not None and self.ch(.6):
                o = last
            e = self.do(out=o, **ev)
            last = e.get("len")
            if e["rv"] == "OK" and o != "null":
                self.wraps.append((m, par, wk, e["dout"], ko, dict(self.objs[ko]["a"]) if ko in self.objs else {}))
                if self.ch(.5) and s in self.sess:
                    self.unwrap(s, self.wraps[-1])
                return
            if e["rv"] not in ("OK", "BUFFER_TOO_SMALL"):
                return

    def a_unwrap(self):
        s = self.asess()
        if s and self.wraps:
            self.unwrap(s, self.r.choice(self.wraps[-15:]))

    def unwrap(self, s, w):
        m, par, wk, blob, src, a = w
        sl = self.sess[s]["slot"]
        l = self.name("o")
        if m.startswith("CKM_RSA"):
            cand = [n for n in self.objs if self.objs[n]["slot"] == sl and self.objs[n]["a"].get("CKA_CLASS") == "CKO_PRIVATE_KEY" and self.twin(wk, n) and self.objs[n]["a"].get("CKA_UNWRAP") == "T"]
            uk = self.r.choice(cand) if cand else None
        else:
            uk = wk
        if not uk or self.ch(.1):
            uk = self.aobj(lambda x: x.get("CKA_UNWRAP") == "T", sl) or uk
        if self.ch(.04) or not uk:
            uk = self.anyname(sl)
        if not uk:
            return
        if self.ch(self.p.get("tamper", .25)):
            b = bytearray(unx(blob))
            x = self.r.random()
            if x < .7 and b:
                b[self.r.choice([0, len(b) - 1, self.r.randrange(len(b))])] ^= 1 << self.r.randrange(8)
            elif x < .85:
                b = b[:-1]
            else:
                b += b"\0"
            blob = hx(bytes(b))
        c, kt = a.get("CKA_CLASS", "CKO_SECRET_KEY"), a.get("CKA_KEY_TYPE", "CKK_AES")
        if self.ch(.08):
            c, kt = "CKO_SECRET_KEY", "CKK_GENERIC_SECRET"
        if c == "CKO_PRIVATE_KEY":
            t = [x for x in (self.t_rsapriv(l) if kt == "CKK_RSA" else self.t_ecpriv(l)) if x[0] not in (
                "CKA_MODULUS", "CKA_PUBLIC_EXPONENT", "CKA_VALUE", "CKA_PRIVATE_EXPONENT", "CKA_PRIME_1", "CKA_PRIME_2", "CKA_EXPONENT_1", "CKA_EXPONENT_2",
                "CKA_COEFFICIENT", "CKA_EC_PARAMS")]
        else:
            t = self.novalue(self.t_aes(l) if kt == "CKK_AES" else self.t_gen(l, kt))
        if self.ch(self.p.get("spoil", .1)):
            t = self.spoil(t)
        ev = dict(c="unwrap", s=s, m=m, wk=uk, din=blob, o=l, t=t)
        if m == "CKM_AES_CCM":
            par = {"ccm": dict(par["ccm"], dlen=max(0, (len(blob) - 1) // 2 - par["ccm"]["mac"]))}
        if par:
            ev["par"] = par
        e = self.do(**ev)
        self.reg(s, e)
        if e["rv"] == "OK":
            v = e["attrs"].get("CKA_VALUE", "!")
            same = blob == w[3] and m in ("CKM_AES_GCM", "CKM_AES_KEY_WRAP_KWP", "CKM_AES_KEY_WRAP", "CKM_RSA_PKCS_OAEP") and "CKA_VALUE_LEN" not in dict(t)
            self.objs[l]["v"] = v if not v.startswith("!") else (self.objs.get(src) or {}).get("v") if same else None
            if same and src in self.objs and self.objs[src].get("peer"):
                self.objs[l]["peer"] = self.objs[src]["peer"]
        return e

    # ------------------------------------------------------------ derivation
    def a_derive(self, s=None, m=None, key=None):
        s = s or self.asess()
        if not s:
            return
        sl = self.sess[s]["slot"]
        l = self.name("o")
        m = m or self.r.choice(["CKM_CONCATENATE_BASE_AND_DATA", "CKM_CONCATENATE_DATA_AND_BASE", "CKM_XOR_BASE_AND_DATA", "CKM_CONCATENATE_BASE_AND_KEY",
                           "CKM_EXTRACT_KEY_FROM_KEY", "CKM_SHA256_KEY_DERIVATION", "CKM_AES_ECB_ENCRYPT_DATA", "CKM_AES_CBC_ENCRYPT_DATA", "CKM_ECDH1_DERIVE",
                           "CKM_HKDF_DERIVE", "CKM_HKDF_DERIVE", "CKM_PUB_KEY_FROM_PRIV_KEY", "CKM_HKDF_DATA", "CKM_SHA1_KEY_DERIVATION"])
        ev = dict(c="derive", s=s, m=m, o=l)
        sec = lambda x: x.get("CKA_CLASS") == "CKO_SECRET_KEY" and x.get("CKA_DERIVE") == "T"
        f = sec
        n = self.r.choice([16, 24, 32])
        if m in ("CKM_CONCATENATE_BASE_AND_DATA", "CKM_CONCATENATE_DATA_AND_BASE", "CKM_XOR_BASE_AND_DATA"):
            ev["par"] = {"strdata": self.r.choice(["x0102030405060708", "x" + "a5" * 16, "x" + "5a" * 32])}
        elif m == "CKM_EXTRACT_KEY_FROM_KEY":
            ev["par"] = {"ulong": self.r.choice([0, 8, 16, 4, 13, 64])}
            n = 8
        elif m.startswith("CKM_AES_ECB"):
            ev["par"] = {"strdata": "x" + "01" * self.r.choice([16, 32])}
            f = lambda x: sec(x) and x.get("CKA_KEY_TYPE") == "CKK_AES"
            n = 16
        elif m.startswith("CKM_AES_CBC"):
            ev["par"] = {"aescbcd": ["x" + "02" * 16, "x" + "03" * self.r.choice([16, 32])]}
            f = lambda x: sec(x) and x.get("CKA_KEY_TYPE") == "CKK_AES"
            n = 16
        elif m == "CKM_ECDH1_DERIVE":
            pubs = [k["pt"] for k in keys.EC] + [o["a"]["CKA_EC_POINT"] for o in self.objs.values() if o["a"].get("CKA_EC_POINT") and o["a"].get("CKA_EC_PARAMS") == keys.P256]
            ev["par"] = {"ecdh": self.r.choice(pubs)}
            if self.ch(.3):
                ev["par"] = {"ecdh": "x" + ev["par"]["ecdh"][5:]}
            f = lambda x: x.get("CKA_CLASS") == "CKO_PRIVATE_KEY" and x.get("CKA_KEY_TYPE") == "CKK_EC" and x.get("CKA_DERIVE") == "T"
        elif m.startswith("CKM_HKDF"):
            ev["par"] = {"hkdf": {"salt": self.r.choice(["x", "x0102"]), "info": self.r.choice(["x", "x696e666f"]), "extract": True, "expand": True, "prf": self.r.choice(["CKM_SHA256", "CKM_SHA512"])}}
            if self.ch(.15):
                ev["par"]["hkdf"]["expand"] = False
            f = lambda x: sec(x) and x.get("CKA_KEY_TYPE") in ("CKK_GENERIC_SECRET", "CKK_HKDF")
        elif m == "CKM_PUB_KEY_FROM_PRIV_KEY":
            f = lambda x: x.get("CKA_CLASS") == "CKO_PRIVATE_KEY" and x.get("CKA_DERIVE") == "T"
        ko = key or self.aobj(f, sl)
        if not ko or not key and self.ch(.08):
            ko = self.anyname(sl)
        if not ko:
            return
        ev["ko"] = ko
        if m == "CKM_CONCATENATE_BASE_AND_KEY":
            k2 = self.aobj(lambda x: x.get("CKA_CLASS") == "CKO_SECRET_KEY", sl)
            if not k2:
                return
            ev["k2"] = k2
            ev["par"] = {"okey": k2}
        if m == "CKM_PUB_KEY_FROM_PRIV_KEY":
            kt = self.objs[ko]["a"].get("CKA_KEY_TYPE", "CKK_RSA") if ko in self.objs else "CKK_RSA"
            t = [("CKA_CLASS", "CKO_PUBLIC_KEY"), ("CKA_KEY_TYPE", kt)]
            self.storage(t, label=l)
            self.usage(t, self.PUBUSE)
        elif m == "CKM_HKDF_DATA":
            t = [("CKA_CLASS", "CKO_DATA")]
            self.storage(t, label=l)
            t.append(("CKA_VALUE_LEN", str(n)))
        else:
            kt = self.r.choice(["CKK_GENERIC_SECRET", "CKK_GENERIC_SECRET", "CKK_AES"])
            t = self.novalue(self.t_aes(l) if kt == "CKK_AES" else self.t_gen(l))
            if kt == "CKK_AES" and n not in (16, 24, 32):
                n = 16
            if self.ch(.9) or kt == "CKK_AES":
                t.append(("CKA_VALUE_LEN", str(n)))
        if self.ch(self.p.get("spoil", .1)):
            t = self.spoil(t)
        v = self.derkat(ev, n if dict(t).get("CKA_VALUE_LEN") == str(n) else None)
        if v is None or v == b"" or m != "CKM_HKDF_DATA" and not {"CKA_CLASS", "CKA_KEY_TYPE"} <= set(dict(t)) or m.startswith("CKM_AES_") and n != len(unx(ev["par"]["strdata"] if "strdata" in ev["par"] else ev["par"]["aescbcd"][1])) \
                or m.startswith("CKM_HKDF") and (ev["par"]["hkdf"]["salt"] == "x" or not ev["par"]["hkdf"]["expand"]):
            ev["may"] = True
        ev["t"] = t
        e = self.do(**ev)
        self.reg(s, e)
        if e["rv"] == "OK":
            w = str(e["attrs"].get("CKA_VALUE", "!"))
            self.objs[l]["v"] = w if not w.startswith("!") else hx(v) if v and m != "CKM_PUB_KEY_FROM_PRIV_KEY" else None
        return e

    def derkat(self, ev, n):
        """the value the derived key must have, if the values it is made of are known here; None otherwise"""
        if n is None:
            return None
        b = self.objs.get(ev["ko"]) or {}
        v, par = b.get("v"), ev.get("par")
        other = (self.objs.get(ev.get("k2")) or {}).get("v")
        if v:
            r = derived(ev["m"], par, n, unx(v), unx(other) if other else None)
        elif ev["m"] == "CKM_ECDH1_DERIVE":
            pts = {k["pt"]: k["v"] for k in keys.EC}
            q, d = (self.objs.get(b.get("peer")) or {}).get("a", {}).get("CKA_EC_POINT"), pts.get(par["ecdh"], pts.get("x0441" + par["ecdh"][1:]))
            r = derived(ev["m"], {"ecdh": q}, n, unx(d)) if q and d else None
        else:
            r = None
        if r:
            from kx import canon
            k = "der|%s|%s|%d|@%s|@%s" % (ev["m"], "" if other else canon(par), n, ev["ko"], ev.get("k2", ""))
            if k not in self.katted:
                self.katted.add(k)
                self.w.kat(k, hx(r))
        return r

    # --------------------------------------------- keys that lack just one thing
    NEAR = [("enc", "aes", CIPH), ("dec", "aes", CIPH), ("enc", "rsapub", RSAE), ("dec", "rsapriv", RSAE), ("sign", "aes", MACS), ("ver", "aes", MACS),
            ("sign", "gen", HM), ("ver", "gen", HM), ("sign", "rsapriv", RSAS), ("ver", "rsapub", RSAS), ("sign", "ecpriv", ECS), ("ver", "ecpub", ECS),
            ("menc", "aes", {"CKM_AES_GCM": None}), ("mdec", "aes", {"CKM_AES_GCM": None}),
            ("wrap", "aes", {m: None for m in WRAPA}), ("wrap", "rsapub", RSAE), ("unwrap", "aes", {m: None for m in WRAPA}), ("unwrap", "rsapriv", RSAE),
            ("derive", "gen", {m: None for m in DERG}), ("derive", "gen", {"CKM_HKDF_DERIVE": None, "CKM_HKDF_DATA": None}),
            ("derive", "aes", {"CKM_AES_ECB_ENCRYPT_DATA": None, "CKM_AES_CBC_ENCRYPT_DATA": None}), ("derive", "ecpriv", {"CKM_ECDH1_DERIVE": None, "CKM_PUB_KEY_FROM_PRIV_KEY": None})]
    KUSE = {"aes": "ENCRYPT DECRYPT SIGN VERIFY WRAP UNWRAP DERIVE", "gen": "SIGN VERIFY DERIVE", "rsapub": "ENCRYPT VERIFY WRAP", "rsapriv": "DECRYPT SIGN UNWRAP",
            "ecpub": "VERIFY", "ecpriv": "SIGN DERIVE"}

    def a_near(self):
        s = self.asess()
        if not s:
            return
        op, kind, tab = self.r.choice(self.NEAR)
        m = self.r.choice(list(tab))
        dev = self.r.choice(["none", "usage", "other", "other", "same", "type", "usages", "late"])
        over = {"CKA_" + u: "T" for u in self.KUSE[kind].split()}
        if not self.sess[s]["rw"]:
            over["CKA_TOKEN"] = "F"
        if self.login[self.sess[s]["slot"]] != "user":
            over["CKA_PRIVATE"] = "F"
        u = UATTR[op]
        if dev == "usage":
            over[u] = "F"
        elif dev == "usages":
            over = {a: ("F" if a == u or a not in ("CKA_PRIVATE", "CKA_TOKEN") and self.ch(.4) else v) for a, v in over.items()}
        elif dev in ("other", "same"):
            fam = [x for x in list(tab) + ["CKM_SHA256_HMAC", "CKM_AES_CBC", "CKM_SHA256_RSA_PKCS"] if x != m]
            l = self.r.sample(fam, min(len(fam), self.r.choice([1, 1, 2, 3])))
            if dev == "same":
                l = l[:-1] + [m]
                self.r.shuffle(l)
            over["CKA_ALLOWED_MECHANISMS"] = "+".join(l)
        elif dev == "type":
            kind = {"aes": "gen", "gen": "aes", "rsapub": "ecpub", "ecpub": "rsapub", "rsapriv": "ecpriv", "ecpriv": "rsapriv"}[kind]
            over.update({"CKA_" + u: "T" for u in self.KUSE[kind].split()})
            over = {a: v for a, v in over.items() if a in ("CKA_PRIVATE", "CKA_TOKEN") or a[4:] in self.KUSE[kind].split() or a == u and self.ch(.3)}
        over.setdefault("CKA_WRAP_WITH_TRUSTED", "F") if kind in ("aes", "gen", "rsapriv", "ecpriv") else None
        e = self.create(s, kind, **over)
        if not e or e["rv"] != "OK":
            return
        o = e["o"]
        if dev == "late":
            self.do(c="set", s=s, o=o, t=[(u, "F")])
            self.objs[o]["a"] = dict(self.objs[o]["a"], **{u: "F"})
        par = self.r.choice(tab[m][0]) if tab[m] and tab[m][0] else None
        if op in ("enc", "dec", "sign", "ver"):
            n = self.r.choice(tab[m][1])
            if m == "CKM_AES_CCM":
                par = {"ccm": dict(par["ccm"], dlen=n)}
            self.flows.append((s, self.f_run(s, op, m, par, o, self.data([n]), bytes(32) if op == "ver" else None)))
            self.run_flow()
        elif op in ("menc", "mdec"):
            if self.do(c="opinit", s=s, k=op, m=m, o=o)["rv"] == "OK":
                self.do(c="fin", s=s, k=op)
        elif op == "derive":
            self.a_derive(s, m, o)
        elif op == "wrap":
            k = self.create(s, "aes", **{"CKA_EXTRACTABLE": "T", "CKA_WRAP_WITH_TRUSTED": "F", "CKA_TOKEN": "F", "CKA_PRIVATE": over.get("CKA_PRIVATE", "T")})
            if k and k["rv"] == "OK":
                self.a_wrap(s, m, o, k["o"])
        else:
            w = [w for w in self.wraps if w[0] == m]
            m, par, _, blob, src, a = self.r.choice(w) if w else (m, self.wpar(m), None, "x" + "00" * 32, "", {})
            if m != "CKM_AES_CCM":
                l = self.name("o")
                ev = dict(c="unwrap", s=s, m=m, wk=o, din=blob, o=l, t=self.novalue(self.t_gen(l)))
                if par:
                    ev["par"] = par
                self.reg(s, self.do(**ev))

    CACTS = {"near": a_near, "crypt": a_crypt, "start": a_start, "stray": a_stray, "dual": a_dual, "digkey": a_digkey, "message": a_message, "random": a_random,
             "aauth": a_aauth, "hotp": a_hotp, "genkey": a_genkey, "genpair": a_genpair, "wrap": a_wrap, "unwrap": a_unwrap, "derive": a_derive}
