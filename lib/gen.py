"""Chooses calls.  Nothing here decides whether an answer is right."""
import base64, hashlib, hmac, os, random, sqlite3, struct
from kx import World, Died, Crashed
import keys
from crypto import Crypto
from conc import Conc

SOPIN, UPIN = "sopin123", "user1234"
PINS = ["alpha1111", "beta22222", "gamma3333", "delta4444"]
BADPINS = ["wrong0000", "user123", "user12345", "sopin1234", "x"]


class Gen(Crypto, Conc):
    def __init__(self, rng, w, prof=None):
        self.r, self.w = rng, w
        self.n = 0
        self.sess, self.login, self.pins, self.objs = {}, {}, {}, {}
        self.dead_sess, self.dead_objs = [], []
        self.flows = []
        self.p = prof or {}
        self.wraps = []       # (m, par, wrapping key name, blob, kind of key)
        self.ids = ["x01", "x0202", "x03"]
        if self.p.get("fewids"):
            self.ids = ["x01", "x0202"]
        if self.p.get("oneid"):
            self.ids = ["x01"]
        self.up = False
        self.cinit()

    # ---------------------------------------------------------------- helpers
    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def ch(self, p):
        return self.r.random() < p

    def hexs(self, n):
        return "x" + bytes(self.r.getrandbits(8) for _ in range(n)).hex()

    def slot(self):
        return self.r.choice(list(self.login))

    def asess(self, slot=None, rw=None):
        c = [s for s, v in self.sess.items() if (slot is None or v["slot"] == slot) and (rw is None or v["rw"] == rw)]
        return self.r.choice(c) if c else None

    def do(self, **ev):
        return self.w.do(ev)

    # -------------------------------------------------------------- lifecycle
    def begin(self, inits=True):
        w = self.w
        w.init()
        self.up = True
        for i in range(len(w.slots)):
            sl = str(i)
            self.login[sl] = "none"
            self.pins[sl] = {"so": None, "user": None}
            if inits:
                self.token(sl)

    def token(self, sl, user=True):
        self.do(c="inittoken", slot=sl, pin=SOPIN, label="tok" + sl)
        self.pins[sl] = {"so": SOPIN, "user": None}
        if user:
            s = self.open(sl, True)
            self.do_login(s, "so", SOPIN)
            e = self.do(c="initpin", s=s, pin=UPIN)
            if e["rv"] == "OK":
                self.pins[sl]["user"] = UPIN
            self.do_logout(s)
            if self.ch(0.3):
                self.do_close(s)

    def open(self, sl, rw, noserial=False):
        s = self.name("s")
        ev = dict(c="open", s=s, slot=sl, rw=rw)
        if noserial:
            ev["noserial"] = True
        e = self.do(**ev)
        if e["rv"] == "OK":
            self.sess[s] = {"slot": sl, "rw": rw, "ops": {}}
        return s

    def do_close(self, s):
        e = self.do(c="close", s=s)
        if e["rv"] == "OK" and s in self.sess:
            sl = self.sess[s]["slot"]
            del self.sess[s]
            self.dead_sess.append(s)
            self.kill(lambda o: o["sess"] == s)
            if not any(v["slot"] == sl for v in self.sess.values()):
                self.loggedout(sl)
        return e

    def do_closeall(self, sl):
        e = self.do(c="closeall", slot=sl)
        if e["rv"] == "OK":
            for s in [s for s, v in self.sess.items() if v["slot"] == sl]:
                del self.sess[s]
                self.dead_sess.append(s)
                self.kill(lambda o: o["sess"] == s)
            self.loggedout(sl)

    def loggedout(self, sl):
        self.login[sl] = "none"
        self.kill(lambda o: o["slot"] == sl and o["sess"] and o["a"].get("CKA_PRIVATE") == "T")

    def kill(self, f):
        for n in [n for n, o in self.objs.items() if f(o)]:
            del self.objs[n]
            self.dead_objs.append(n)

    def do_login(self, s, user, pin):
        e = self.do(c="login", s=s, user=user, pin=pin)
        if e["rv"] == "OK" and user in ("so", "user") and s in self.sess:
            self.login[self.sess[s]["slot"]] = user
        return e

    def do_logout(self, s):
        e = self.do(c="logout", s=s)
        if e["rv"] == "OK" and s in self.sess:
            self.loggedout(self.sess[s]["slot"])
        return e

    def ensure_user(self, sl=None, rw=True):
        """a session of a slot with the user logged in"""
        sl = sl or self.slot()
        s = self.asess(sl, rw) or self.open(sl, rw)
        if s not in self.sess:
            return None
        if self.login[sl] == "so":
            self.do_logout(s)
        if self.login[sl] == "none" and self.pins[sl]["user"]:
            self.do_login(s, "user", self.pins[sl]["user"])
        return s

    def snap(self, sl=None, bind=False, tinfo=True):
        sl = sl or self.slot()
        s = self.asess(sl) or self.open(sl, True)
        if s not in self.sess:
            return
        e = self.do(c="snap", s=s, t=[], bind=bind)
        if bind and e["rv"] == "OK":
            for n in e["objs"]:
                if n in self.dead_objs:
                    self.dead_objs.remove(n)
                if n not in self.objs:
                    self.objs[n] = {"slot": sl, "a": e["objs"][n], "sess": None}
        if tinfo:
            self.do(c="tinfo", slot=sl)
        return e

    def down(self, kind):
        """finalize or lose the process, then come back"""
        if kind == "fini":
            self.do(c="fini")
        else:
            self.w.restart()
        self.away()

    def away(self):
        self.sess, self.flows = {}, []
        self.dead_sess, self.dead_objs = [], []
        self.kill(lambda o: o["sess"])
        self.dead_objs = []
        for sl in self.login:
            self.login[sl] = "none"
        self.up = False
        if self.p.get("scan"):
            self.scan()

    def back(self, look=True):
        self.w.init()
        self.up = True
        if self.w.faults:
            self.w.tag("C21")
            self.w.faults = []
        if look:
            self.look()

    def look(self):
        """take stock of all slots, logged out and logged in"""
        for sl in self.login:
            s = self.open(sl, True)
            self.do(c="tinfo", slot=sl)
            if self.ch(0.4):
                self.do(c="snap", s=s, t=[], bind=False)
            if self.pins[sl]["user"]:
                e = self.do_login(s, "user", self.pins[sl]["user"])
                if e["rv"] == "OK":
                    self.snap(sl, bind=True, tinfo=False)

    def badconf(self):
        """a configuration that cannot be used"""
        d, n = self.w.dir, self.name("c")
        good = open(d + "/conf").read()
        sl = len(self.w.slots)
        more = "[[slots]]\nslot=%d\n" % sl
        k = self.r.choice(["missing", "garbage", "dbtype", "dupslot", "path", "mech", "denymech", "nodb", "dir", "trunc"])
        f = d + "/" + n
        if k == "missing":
            return k, "kryoptic_conf=" + d + "/not_there"
        if k == "dir":
            return k, "kryoptic_conf=" + d
        txt = {"garbage": good + "\n[[[slots\n", "trunc": good[:good.index("dbargs")] + 'dbargs="',
               "dbtype": good + more + 'dbtype="nosuchstore"\ndbargs="%s/x.sql"\n' % d,
               "dupslot": good + '[[slots]]\nslot=0\ndbtype="sqlite"\ndbargs="%s/dup.sql"\n' % d,
               "path": good + more + 'dbtype="sqlite"\ndbargs="%s/no/such/dir/x.sql"\n' % d,
               "mech": good + more + 'dbtype="sqlite"\ndbargs="%s/y.sql"\nmechanisms=["CKM_NO_SUCH_MECHANISM"]\n' % d,
               "denymech": good + more + 'dbtype="sqlite"\ndbargs="%s/y.sql"\nmechanisms=["DENY","CKM_NOPE"]\n' % d,
               "nodb": good + more + "description=\"nothing\"\n"}[k]
        with open(f, "w") as h:
            h.write(txt)
        return k, "kryoptic_conf=" + f

    def badinit(self):
        k, c = self.badconf()
        e = self.w.init(bad=c)
        e["how"] = k
        if e["rv"] == "OK":
            self.do(c="fini")

    # ------------------------------------------------- the files behind the library's back
    SECATTR = (0x11, 0x123, 0x124, 0x125, 0x126, 0x127, 0x128)
    SECNAME = ("CKA_VALUE", "CKA_PRIVATE_EXPONENT", "CKA_PRIME_1", "CKA_PRIME_2", "CKA_EXPONENT_1", "CKA_EXPONENT_2", "CKA_COEFFICIENT")

    def scan(self):
        """look for secrets in the files"""
        need = {}
        for sl in self.pins:
            for who, p in self.pins[sl].items():
                if p and len(p) >= 6:
                    need["PIN of %s" % who] = p.encode()
        for n, o in list(self.objs.items()):
            a = o["a"]
            if o["sess"] or a.get("CKA_CLASS") not in ("CKO_SECRET_KEY", "CKO_PRIVATE_KEY", "CKO_OTP_KEY") or a.get("CKA_PRIVATE") != "T":
                continue
            vs = {x: a.get(x) for x in self.SECNAME}
            vs["given value"] = o.get("v")
            if o.get("v") is None and a.get("CKA_CLASS") == "CKO_PRIVATE_KEY" and a.get("CKA_KEY_TYPE") == "CKK_RSA":
                for k in keys.RSA:
                    if k["n"] == a.get("CKA_MODULUS"):
                        vs["prime"] = k["p"]
            for x, v in vs.items():
                if isinstance(v, str) and v[:1] == "x" and len(v) >= 33:
                    need["%s of %s" % (x, n)] = bytes.fromhex(v[1:])
        found = []
        for f in os.listdir(self.w.dir):
            p = self.w.dir + "/" + f
            for q in ([p] if os.path.isfile(p) else [p + "/" + y for y in os.listdir(p)]):
                if q.endswith("conf"):
                    continue
                d = open(q, "rb").read()
                low = d.lower()
                for w, b in need.items():
                    if b in d or b[::-1] in d or b.hex().encode() in low or base64.b64encode(b)[:-4] in d:
                        found.append("%s in %s" % (w, os.path.basename(q)))
        self.w.ev.append({"c": "scan", "found": found, "needles": len(need)})

    def records(self, sl):
        """protected values of the objects in the database: (id, attr, name, value)"""
        db = sqlite3.connect("%s/t%s.sql" % (self.w.dir, sl))
        lab = {i: v for i, v in db.execute("select id,val from objects where attr=3")}
        rows = db.execute("select id,attr,val from objects where attr in (%s)" % ",".join(map(str, self.SECATTR))).fetchall()
        res = []
        for i, a, v in rows:
            l = lab.get(i)
            l = l.decode(errors="replace") if isinstance(l, bytes) else l
            ns = [n for n, o in self.objs.items() if o["slot"] == sl and not o["sess"] and o["a"].get("CKA_LABEL") == l]
            if isinstance(v, bytes) and len(v) > 90 and v[:1] == b"0" and len(ns) == 1:
                res.append((i, a, ns[0], v))
        return db, res

    def damage(self, v, others):
        b = bytearray(v)
        k = self.r.choice(["flip", "flip", "end", "tag", "cut", "swap", "swap", "plain", "empty", "ver", "zero"])
        if k == "flip":
            b[self.r.randrange(len(b))] ^= 1 << self.r.randrange(8)
        elif k == "end":
            b[-1 - self.r.randrange(16)] ^= 1 << self.r.randrange(8)
        elif k == "tag":
            i = bytes(b).find(b"\x04\x08")
            b[i + 2 + self.r.randrange(8)] ^= 0x11
        elif k == "cut":
            b = b[:-self.r.randint(1, 20)]
        elif k == "swap" and others:
            b = self.r.choice(others)
        elif k == "plain":
            b = bytes(self.r.getrandbits(8) for _ in range(self.r.choice([16, 32])))
        elif k == "empty":
            b = b""
        elif k == "zero":
            b[-16:] = bytes(16)
        else:
            i = bytes(b).find(b"\x02\x01\x01")
            b[i + 2] = self.r.choice([0, 2, 3])
        return bytes(b)

    def corrupt(self):
        """alter protected values in the database while the library is away"""
        sl = self.slot()
        if self.w.slots[int(sl)] != "sqlite" or not self.pins[sl]["user"]:
            return self.corrupt_nss(sl)
        self.snap(sl, bind=True)
        self.down(self.r.choice(["kill", "fini"]))
        db, recs = self.records(sl)
        if recs:
            bad = set()
            for i, a, n, v in self.r.sample(recs, min(len(recs), self.r.choice([1, 1, 2, 3]))):
                db.execute("update objects set val=? where id=? and attr=?", (self.damage(v, [x[3] for x in recs if x[0] != i]), i, a))
                bad.add(n)
            db.commit()
            self.w.ev.append({"c": "tamper", "slot": sl, "n": sorted(bad)})
        db.close()
        self.back()
        if not recs:
            return
        s = self.ensure_user(sl)
        if not s:
            return
        for n in sorted(bad):
            if n in self.objs and s in self.sess:
                self.do(c="read", s=s, o=n)
                for _ in range(3):
                    self.use(s, n)

    # attributes of an NSS database that are signed
    NSSSIG = (0x120, 0x122, 0x4A, 0x5A)

    def corrupt_nss(self, sl):
        """alter signed attributes, or their signatures, while the library is away"""
        if not self.pins[sl]["user"]:
            return
        self.snap(sl, bind=True)
        self.down("fini")
        save = {f: open("%s/n%s/%s" % (self.w.dir, sl, f), "rb").read() for f in os.listdir("%s/n%s" % (self.w.dir, sl))}
        recs, bad = [], set()
        for f, tab, kind in (("cert9.db", "nssPublic", "cert"), ("key4.db", "nssPrivate", "key")):
            path = "%s/n%s/%s" % (self.w.dir, sl, f)
            if not os.path.exists(path):
                continue
            db = sqlite3.connect(path)
            for t in self.NSSSIG:
                try:
                    rows = db.execute("select id,a%x,a3 from %s where a%x is not null" % (t, tab, t)).fetchall()
                except sqlite3.OperationalError:
                    continue
                for i, v, l in rows:
                    ns = [n for n, o in self.objs.items() if o["slot"] == sl and not o["sess"] and o["a"].get("CKA_LABEL") == (l or b"").decode(errors="replace")]
                    if len(ns) == 1 and len(v) > 3:
                        recs.append((f, tab, kind, i, t, v, ns[0]))
            db.close()
        for f, tab, kind, i, t, v, n in self.r.sample(recs, min(len(recs), self.r.choice([1, 1, 2]))):
            b = bytearray(v)
            k = self.r.choice(["flip", "flip", "cut", "swap", "sig"])
            if k == "flip":
                b[self.r.randrange(len(b))] ^= 1 << self.r.randrange(8)
            elif k == "cut":
                b = b[:-1]
            elif k == "swap":
                b = bytearray(self.r.choice([x[5] for x in recs]))
            if k == "sig":
                db = sqlite3.connect("%s/n%s/key4.db" % (self.w.dir, sl))
                name = "sig_%s_%08x_%08x" % (kind, i, t)
                sig = db.execute("select item1 from metaData where id=?", (name,)).fetchall()
                if sig:
                    d = bytearray(sig[0][0])
                    d[-1 - self.r.randrange(32)] ^= 1 << self.r.randrange(8)
                    db.execute("update metaData set item1=? where id=?", (bytes(d), name))
            else:
                db = sqlite3.connect("%s/n%s/%s" % (self.w.dir, sl, f))
                db.execute("update %s set a%x=? where id=?" % (tab, t), (bytes(b), i))
            db.commit()
            db.close()
            bad.add(n)
        e = self.w.init()
        if e["rv"] == "OK" and bad:
            # (the signatures can only be checked once the user has logged in)
            self.w.raw({"c": "open", "s": "zz", "slot": int(sl), "rw": False})
            if self.w.raw({"c": "login", "s": "zz", "user": "user", "pin": "s:" + self.pins[sl]["user"]})["rv"] == "OK":
                r = self.w.raw({"c": "snap", "s": "zz", "t": []})
                self.w.ev.append({"c": "forgedobj", "slot": sl, "n": sorted(bad), "objs": r.get("objs", {}), "rv": r["rv"]})
        self.up = True
        self.down("fini")
        for f in os.listdir("%s/n%s" % (self.w.dir, sl)):
            os.unlink("%s/n%s/%s" % (self.w.dir, sl, f))
        for f, d in save.items():
            with open("%s/n%s/%s" % (self.w.dir, sl, f), "wb") as o:
                o.write(d)
        self.back()

    def use(self, s, n):
        """the key of an object through an operation"""
        a = self.objs[n]["a"] if n in self.objs else {}
        kt, c = a.get("CKA_KEY_TYPE"), a.get("CKA_CLASS")
        if c == "CKO_SECRET_KEY" and kt == "CKK_AES":
            k, m, p = self.r.choice([("enc", "CKM_AES_ECB", None), ("sign", "CKM_AES_CMAC", None)])
        elif c == "CKO_SECRET_KEY":
            k, m, p = "sign", "CKM_SHA256_HMAC", None
        elif c == "CKO_PRIVATE_KEY" and kt == "CKK_RSA":
            k, m, p = "sign", "CKM_SHA256_RSA_PKCS", None
        else:
            return
        if kt not in ("CKK_AES", "CKK_GENERIC_SECRET", "CKK_SHA256_HMAC", "CKK_RSA"):
            return
        e = self.do(c="opinit", s=s, k=k, m=m, o=n)
        if e["rv"] == "OK":
            self.do(c="op", s=s, k=k, din="x" + "00112233445566778899aabbccddeeff")

    def forge(self):
        """alter PIN records while the library is away; the files are put back afterwards"""
        sl = self.slot()
        if self.w.slots[int(sl)] != "sqlite" or not self.pins[sl]["user"]:
            return
        self.down("kill")
        path = "%s/t%s.sql" % (self.w.dir, sl)
        for x in os.listdir(self.w.dir):
            if x.startswith("t%s.sql-" % sl):       # a journal left by the killed process
                self.w.init()
                self.down("fini")
                break
        save = open(path, "rb").read()
        db = sqlite3.connect(path)
        recs = dict(db.execute("select value,data from meta where name='USER DATA'"))
        who = self.r.choice(["USER", "SO"])
        if {"USER", "SO"} <= set(recs):
            new = self.damage(recs[who], [recs["SO" if who == "USER" else "USER"]])
            db.execute("update meta set data=? where name='USER DATA' and value=?", (new, who))
            if self.ch(.3):
                db.execute("update meta set data=? where name='USER DATA' and value=?", (recs[who], "SO" if who == "USER" else "USER"))
            db.commit()
        db.close()
        e = self.w.init()
        if e["rv"] == "OK":
            self.w.raw({"c": "open", "s": "zz", "slot": int(sl), "rw": True})
            for _ in range(4):
                u, p = self.r.choice(["user", "so"]), self.r.choice([self.pins[sl]["so"], self.pins[sl]["user"], "wrongpin1", ""])
                r = self.w.raw({"c": "login", "s": "zz", "user": u, "pin": "s:" + p})
                self.w.ev.append({"c": "forged", "slot": sl, "user": u, "pin": p, "rv": r["rv"]})
                if r["rv"] == "OK":
                    self.w.raw({"c": "logout", "s": "zz"})
        self.up = True
        self.down("kill")
        for x in os.listdir(self.w.dir):
            if x.startswith("t%s.sql-" % sl):
                os.unlink(self.w.dir + "/" + x)
        with open(path, "wb") as f:
            f.write(save)
        self.back()

    # ------------------------------------------------------------------ failing storage
    FACTS = {"w": dict(create=5, copy=3, set=4, destroy=3, genkey=2, genpair=2, unwrap=1, derive=1, setpin=4, initpin=2, inittoken=1.2, hotp=3, badpins=1, login=3),
             "r": dict(set=2, destroy=2, setpin=2, login=3, logout=2, size=1, get=3, find=3, tinfo=1, open=1, start=2, hotp=1)}

    def fault(self):
        """storage fails, or the process dies, in the middle of a call"""
        mode = self.r.choice(self.p.get("fmodes", ["kill", "tear", "eio", "enospc", "eiostick", "read", "readstick"]))
        names = self.FACTS["r" if mode[:4] == "read" else "w"]
        a = self.r.choices(list(names), list(names.values()))[0]
        sl = self.slot()
        if mode in ("kill", "tear") or self.ch(.6):
            self.snap(self.ensure_user(sl) and sl)
        if a not in ("setpin", "initpin", "inittoken", "login", "open", "logout"):
            self.ensure_user(sl)
        if a == "login" and self.ch(.7):                # a login that has attempts to forget
            s = self.asess(sl, True) or self.open(sl, True)
            if s in self.sess and self.pins[sl]["user"]:
                if self.login[sl] != "none":
                    self.do_logout(s)
                for _ in range(self.r.choice([1, 6, 7, 8])):
                    self.do_login(s, "user", "wrong0000")
                self.w.plan = (mode, self.r.randint(1, 8), 1)
                try:
                    self.do_login(s, "user", self.pins[sl]["user"] if self.ch(.8) else "wrong0000")
                except Crashed:
                    self.crashed(self.pins)
                    return
                self.w.plan = None
                self.reboot()
                self.do(c="tinfo", slot=sl)
                return
        m = self.r.choice([6, 14, 25]) if a != "inittoken" else self.r.choice([12, 40, 90])
        self.w.plan = (mode, self.r.randint(1, m), self.r.choice([1, 1, 2, 4]) if mode in ("eio", "enospc", "eiostick", "readstick") else 1)
        before = {x: dict(p) for x, p in self.pins.items()}
        try:
            self.act(a)
        except Crashed:
            self.crashed(before)
            return
        self.w.plan = None
        if self.w.faults and self.w.faults[-1][2] in ("setpin", "initpin", "inittoken"):
            self.trypins(before)
        if self.ch(.7):
            self.a_tinfo()
            s = self.ensure_user(sl)
            if s:
                self.snap(sl)
                if self.ch(.5):
                    self.create(s)
        if self.ch(.25):
            self.reboot()

    def crashed(self, before):
        last = self.w.ev[-1]["inner"]
        self.away()
        self.w.init()
        self.up = True
        self.trypins(before, last)
        self.look()

    def trypins(self, before, last=None):
        """find out which PIN is in force"""
        last = last or self.w.ev[-1].get("inner", self.w.ev[-1])
        new = last.get("new") or last.get("pin")
        for sl in self.login:
            s = self.asess(sl, True) or self.open(sl, True)
            if s not in self.sess:
                continue
            self.do(c="tinfo", slot=sl)
            if self.login[sl] != "none":
                self.do_logout(s)
            for who in ("so", "user"):
                c = [before[sl][who], self.pins[sl][who], new if last["c"] in ("setpin", "initpin", "inittoken") else None]
                for pin in dict.fromkeys(x for x in c if x):
                    if who == "so":
                        for x in [x for x, v in self.sess.items() if v["slot"] == sl and not v["rw"]]:
                            self.do_close(x)
                    if self.do_login(s, who, pin)["rv"] == "OK":
                        self.pins[sl][who] = pin
                        if who == "user":
                            self.snap(sl)
                        self.do_logout(s)
                        break
                else:
                    if who == "user":
                        self.pins[sl][who] = None

    def a_mechs(self):
        full = self.p.get("full", [])
        if self.ch(.3):
            self.do(c="mechs", slot=self.slot(), full=full)
        else:
            for _ in range(3):
                self.do(c="minfo", slot=self.slot(), m=self.r.choice(full) if self.ch(.5) else self.r.choice(self.ALLM))

    def life(self):
        """initialisation and finalisation, repeated, out of order and failing"""
        x = self.r.random()
        if x < 0.3:                                 # initialise again
            e = self.w.init()
            if self.ch(0.3):
                e = self.w.init()
            for sl in self.login:
                self.do(c="tinfo", slot=sl)
            for s in list(self.sess)[:4]:
                self.do(c="sinfo", s=s)
            if self.ch(0.4):
                self.snap()
            return
        for sl in self.login:
            if self.login[sl] == "user" or self.ch(0.3):
                self.snap(sl)
        old = list(self.sess)
        oldo = list(self.objs)
        self.down(self.r.choice(["fini", "fini", "fini", "kill"]))
        for _ in range(self.r.randint(1, 4)):
            y = self.r.random()
            if y < .3:
                self.do(c="probe")
            elif y < .4:
                self.do(c="fini")
            elif y < .75:
                self.badinit()
                if self.ch(.7):
                    self.do(c="probe")
            elif y < .85 and old:
                self.do(c="sinfo", s=self.r.choice(old))
            elif y < .9:
                self.do(c="slots")
            elif y < .95:
                self.do(c="tinfo", slot=self.slot())
            elif old:
                self.do(c="search", s=self.r.choice(old), t=[])
        self.back(look=False)
        self.do(c="slots")
        self.look()

    def reboot(self):
        kind = self.r.choice(["fini", "kill", "kill"])
        for sl in self.login:
            if self.login[sl] == "user" or self.ch(0.3):
                self.snap(sl)
        self.down(kind)
        if kind == "fini" and self.ch(0.2):
            self.do(c="fini")
        self.back()

    # ------------------------------------------------------------- templates
    def opt(self, t, n, v, p):
        if self.ch(p):
            t.append((n, v))

    def tf(self, p=0.5):
        return "T" if self.ch(p) else "F"

    def storage(self, t, tok=None, priv=None, label=None):
        tok = self.p.get("tok", 0.5) if tok is None else tok
        if self.ch(0.9):
            t.append(("CKA_TOKEN", self.tf(tok)))
        if self.ch(0.7):
            t.append(("CKA_PRIVATE", self.tf(0.6) if priv is None else priv))
        t.append(("CKA_LABEL", label))
        q = self.p.get("ctl", 0.12)
        for n in ("CKA_MODIFIABLE", "CKA_COPYABLE", "CKA_DESTROYABLE"):
            if self.ch(q):
                t.append((n, self.tf(0.35)))

    USAGE = ["CKA_ENCRYPT", "CKA_DECRYPT", "CKA_SIGN", "CKA_VERIFY", "CKA_WRAP", "CKA_UNWRAP", "CKA_DERIVE"]
    PRIVUSE = ["CKA_DECRYPT", "CKA_SIGN", "CKA_UNWRAP", "CKA_DERIVE"]
    PUBUSE = ["CKA_ENCRYPT", "CKA_VERIFY", "CKA_WRAP"]

    def usage(self, t, names):
        full = self.p.get("fulluse", 0.6)
        mode = self.r.random()
        for n in names:
            if mode < full:
                t.append((n, "T"))
            elif self.ch(0.6):
                t.append((n, self.tf()))

    def prot(self, t):
        self.opt(t, "CKA_SENSITIVE", self.tf(self.p.get("sens", 0.5)), 0.75)
        self.opt(t, "CKA_EXTRACTABLE", self.tf(0.65), 0.75)
        self.opt(t, "CKA_WRAP_WITH_TRUSTED", self.tf(), self.p.get("wwt", 0.08))
        self.opt(t, "CKA_ID", self.r.choice(self.ids), 0.6)
        self.opt(t, "CKA_START_DATE", "x" + b"20200101".hex(), 0.08)
        if self.ch(self.p.get("allow", 0.06)):
            t.append(("CKA_ALLOWED_MECHANISMS", self.r.choice(
                ["CKM_AES_CBC", "CKM_AES_CBC+CKM_AES_GCM", "CKM_SHA256_HMAC", "CKM_AES_ECB+CKM_AES_CTR+CKM_AES_CMAC",
                 "CKM_RSA_PKCS", "CKM_AES_KEY_WRAP", "CKM_AES_CBC_PAD"])))

    def t_data(self, l):
        t = [("CKA_CLASS", "CKO_DATA")]
        self.storage(t, label=l)
        self.opt(t, "CKA_APPLICATION", self.r.choice(["app1", "app2"]), 0.6)
        self.opt(t, "CKA_VALUE", self.r.choice(["x01", "xaabb", "x"]) if self.ch(0.5) else self.hexs(self.r.randrange(0, 60)), 0.8)
        self.opt(t, "CKA_OBJECT_ID", "x2a03", 0.2)
        return t

    def t_cert(self, l):
        t = [("CKA_CLASS", "CKO_CERTIFICATE"), ("CKA_CERTIFICATE_TYPE", "0")]
        self.storage(t, label=l, priv="F" if self.ch(0.8) else None)
        t += [("CKA_SUBJECT", self.r.choice(["x3000", "x300101"])), ("CKA_VALUE", self.r.choice(["x3003020101", self.hexs(20)]))]
        self.opt(t, "CKA_ID", self.r.choice(self.ids), 0.6)
        self.opt(t, "CKA_ISSUER", self.r.choice(["x3001", "x3002"]), self.p.get("issuer", 0.5))
        self.opt(t, "CKA_SERIAL_NUMBER", self.r.choice(["x020101", "x020102"]), self.p.get("issuer", 0.5))
        self.opt(t, "CKA_URL", "x68", 0.1)
        return t

    def t_trust(self, l):
        t = [("CKA_CLASS", "CKO_TRUST")]
        self.storage(t, label=l, priv="F")
        t += [("CKA_ISSUER", self.r.choice(["x3001", "x3002"])), ("CKA_SERIAL_NUMBER", self.r.choice(["x020101", "x020102"]))]
        self.opt(t, "CKA_HASH_OF_CERTIFICATE", self.hexs(20), 0.7)
        self.opt(t, "CKA_NAME_HASH_ALGORITHM", "544", 0.7)
        self.opt(t, self.r.choice(["CKA_TRUST_SERVER_AUTH", "CKA_TRUST_CLIENT_AUTH", "CKA_TRUST_EMAIL_PROTECTION"]), self.r.choice(["1", "2", "3", "0"]), 0.6)
        return t

    def t_aes(self, l, n=None):
        t = [("CKA_CLASS", "CKO_SECRET_KEY"), ("CKA_KEY_TYPE", "CKK_AES")]
        self.storage(t, label=l)
        t.append(("CKA_VALUE", self.hexs(n or self.r.choice([16, 24, 32]))))
        self.usage(t, self.USAGE)
        self.prot(t)
        return t

    def t_gen(self, l, kt="CKK_GENERIC_SECRET"):
        t = [("CKA_CLASS", "CKO_SECRET_KEY"), ("CKA_KEY_TYPE", kt)]
        self.storage(t, label=l)
        t.append(("CKA_VALUE", self.hexs(self.r.choice([16, 20, 24, 32, 33, 40]))))
        self.usage(t, ["CKA_SIGN", "CKA_VERIFY", "CKA_DERIVE"])
        self.prot(t)
        return t

    def t_hotp(self, l):
        t = [("CKA_CLASS", "CKO_OTP_KEY"), ("CKA_KEY_TYPE", "CKK_HOTP")]
        self.storage(t, label=l)
        t.append(("CKA_VALUE", self.hexs(20)))
        self.opt(t, "CKA_OTP_COUNTER", self.r.choice(["x0000000000000007", "x00000000000000ff", "x00000000ffffffff", "xfffffffffffffffd"]), 0.6)
        self.opt(t, "CKA_SENSITIVE", self.tf(), 0.5)
        self.opt(t, "CKA_EXTRACTABLE", self.tf(), 0.5)
        return t

    def t_rsapub(self, l, i=0):
        t = [("CKA_CLASS", "CKO_PUBLIC_KEY"), ("CKA_KEY_TYPE", "CKK_RSA")]
        self.storage(t, label=l)
        t += [("CKA_MODULUS", keys.RSA[i]["n"]), ("CKA_PUBLIC_EXPONENT", keys.RSA[i]["e"])]
        self.usage(t, self.PUBUSE)
        self.opt(t, "CKA_ID", self.r.choice(self.ids), 0.6)
        return t

    def t_rsapriv(self, l, i=0):
        k = keys.RSA[i]
        t = [("CKA_CLASS", "CKO_PRIVATE_KEY"), ("CKA_KEY_TYPE", "CKK_RSA")]
        self.storage(t, label=l)
        t += [("CKA_MODULUS", k["n"]), ("CKA_PUBLIC_EXPONENT", k["e"]), ("CKA_PRIVATE_EXPONENT", k["d"]), ("CKA_PRIME_1", k["p"]),
              ("CKA_PRIME_2", k["q"]), ("CKA_EXPONENT_1", k["dp"]), ("CKA_EXPONENT_2", k["dq"]), ("CKA_COEFFICIENT", k["qi"])]
        self.usage(t, self.PRIVUSE)
        self.prot(t)
        self.opt(t, "CKA_ALWAYS_AUTHENTICATE", self.tf(0.7), self.p.get("aauth", 0.08))
        return t

    def t_ecpub(self, l, i=0):
        t = [("CKA_CLASS", "CKO_PUBLIC_KEY"), ("CKA_KEY_TYPE", "CKK_EC")]
        self.storage(t, label=l)
        t += [("CKA_EC_PARAMS", keys.P256), ("CKA_EC_POINT", keys.EC[i]["pt"])]
        self.usage(t, ["CKA_VERIFY"])
        self.opt(t, "CKA_ID", self.r.choice(self.ids), 0.6)
        return t

    def t_ecpriv(self, l, i=0):
        t = [("CKA_CLASS", "CKO_PRIVATE_KEY"), ("CKA_KEY_TYPE", "CKK_EC")]
        self.storage(t, label=l)
        t += [("CKA_EC_PARAMS", keys.P256), ("CKA_VALUE", keys.EC[i]["v"])]
        self.usage(t, ["CKA_SIGN", "CKA_DERIVE"])
        self.prot(t)
        self.opt(t, "CKA_ALWAYS_AUTHENTICATE", self.tf(0.7), self.p.get("aauth", 0.08))
        return t

    KINDS = {"data": t_data, "cert": t_cert, "trust": t_trust, "aes": t_aes, "gen": t_gen, "hotp": t_hotp,
             "rsapub": t_rsapub, "rsapriv": t_rsapriv, "ecpub": t_ecpub, "ecpriv": t_ecpriv}

    def spoil(self, t):
        """make a template wrong"""
        t = list(t)
        k = self.r.randrange(8)
        if k == 0 and len(t) > 3:
            x = self.r.choice(t)
            if self.ch(0.5):
                x = (x[0], {"T": "F", "F": "T"}.get(x[1], x[1]))
            t.append(x)
        elif k == 1:
            t.append((self.r.choice(["CKA_PRIME", "CKA_OTP_COUNTER", "CKA_URL", "CKA_MODULUS", "CKA_EC_POINT"]), "x01"))
        elif k == 2:
            req = [x for x in t if x[0] in ("CKA_VALUE", "CKA_KEY_TYPE", "CKA_MODULUS", "CKA_EC_PARAMS", "CKA_SUBJECT", "CKA_CERTIFICATE_TYPE", "CKA_ISSUER", "CKA_CLASS")]
            if req:
                t.remove(self.r.choice(req))
        elif k == 3:
            t.append(self.r.choice([("CKA_LOCAL", "T"), ("CKA_LOCAL", "F"), ("CKA_ALWAYS_SENSITIVE", "T"), ("CKA_NEVER_EXTRACTABLE", "T"),
                                    ("CKA_UNIQUE_ID", "x3939"), ("CKA_KEY_GEN_MECHANISM", "CKM_AES_KEY_GEN"), ("CKA_TRUSTED", "T")]))
        elif k == 4:
            b = [i for i, x in enumerate(t) if x[1] in ("T", "F")]
            if b:
                i = self.r.choice(b)
                t[i] = (t[i][0], "!bad")
        elif k == 5:
            for i, x in enumerate(t):
                if x == ("CKA_KEY_TYPE", "CKK_AES"):
                    t = [(n, self.hexs(self.r.choice([15, 17, 1, 33])) if n == "CKA_VALUE" else v) for n, v in t]
                    break
        elif k == 6:
            t.append(("CKA_TRUSTED", "F"))
        else:
            self.r.shuffle(t)
            t.append(self.r.choice([("CKA_ENCRYPT", "!bad"), ("CKA_APPLICATION", "zz"), ("CKA_SUBJECT", "x30")]))
        return t

    # ---------------------------------------------------------------- objects
    def reg(self, s, e, o="o", ak="attrs"):
        if e["rv"] == "OK":
            a = e.get(ak, {})
            self.objs[e[o]] = {"slot": self.sess[s]["slot"], "a": a, "sess": None if a.get("CKA_TOKEN") == "T" else s,
                               "v": e.get("t", {}).get("CKA_VALUE")}

    def create(self, s=None, kind=None, **over):
        s = s or self.asess()
        if not s:
            return
        kind = kind or self.r.choice(self.p.get("kinds", list(self.KINDS)))
        l = self.name("o")
        t = self.KINDS[kind](self, l)
        d = dict(over)
        t = [(n, d.pop(n, v)) for n, v in t]
        t += list(d.items())
        if self.ch(self.p.get("spoil", 0.1)):
            t = self.spoil(t)
        e = self.do(c="create", s=s, o=l, t=t)
        self.reg(s, e)
        return e

    def aobj(self, f=None, slot=None):
        c = [n for n, o in self.objs.items() if (slot is None or o["slot"] == slot) and (f is None or f(o["a"]))]
        return self.r.choice(c) if c else None

    def anyname(self, slot):
        """mostly a living object of the slot; sometimes a dead or foreign one"""
        x = self.r.random()
        if x < 0.05 and self.dead_objs:
            return self.r.choice(self.dead_objs[-12:])
        if x < 0.08 and self.objs:
            return self.r.choice(list(self.objs))
        return self.aobj(slot=slot)

    def copy(self, s=None, n=None):
        s = s or self.asess()
        if not s:
            return
        n = n or self.anyname(self.sess[s]["slot"])
        if not n:
            return
        a = self.objs.get(n, {"a": {}})["a"]
        l = self.name("o")
        t = [("CKA_LABEL", l)]
        self.opt(t, "CKA_TOKEN", self.tf(), 0.5)
        self.opt(t, "CKA_PRIVATE", self.tf(), 0.2)
        for _ in range(self.r.choice([0, 0, 1, 1, 2])):
            x = self.change(a)
            if x[0] not in dict(t):
                t.append(x)
        e = self.do(c="copy", s=s, src=n, o=l, t=t)
        self.reg(s, e)
        return e

    def change(self, a):
        """an attribute change, sensible or not"""
        c = a.get("CKA_CLASS", "CKO_DATA")
        sec = c in ("CKO_SECRET_KEY", "CKO_PRIVATE_KEY", "CKO_OTP_KEY")
        opts = [("CKA_ID", self.r.choice(self.ids)), ("CKA_MODIFIABLE", self.tf(0.7)), ("CKA_COPYABLE", self.tf(0.6)), ("CKA_DESTROYABLE", self.tf(0.7))]
        if c == "CKO_DATA":
            opts += [("CKA_APPLICATION", self.r.choice(["app1", "app2", "a longer application name"])), ("CKA_VALUE", self.hexs(self.r.randrange(0, 30)))] * 2
        elif c == "CKO_CERTIFICATE":
            opts += [("CKA_ID", self.r.choice(self.ids)), ("CKA_TRUSTED", "T"), ("CKA_SUBJECT", "x3009"), ("CKA_VALUE", "x3003020109"), ("CKA_ISSUER", "x3001")]
        elif c != "CKO_TRUST":
            opts += [(n, self.tf()) for n in ("CKA_ENCRYPT", "CKA_DECRYPT", "CKA_SIGN", "CKA_DERIVE", "CKA_WRAP", "CKA_UNWRAP")]
        if sec:
            opts += [("CKA_SENSITIVE", self.tf()), ("CKA_EXTRACTABLE", self.tf()), ("CKA_WRAP_WITH_TRUSTED", self.tf())] * 2
        if self.ch(0.18):
            opts = [("CKA_CLASS", self.r.choice(["CKO_DATA", "CKO_SECRET_KEY"])), ("CKA_KEY_TYPE", "CKK_AES"), ("CKA_TOKEN", self.tf()), ("CKA_PRIVATE", self.tf()),
                    ("CKA_LOCAL", self.tf()), ("CKA_ALWAYS_SENSITIVE", self.tf()), ("CKA_NEVER_EXTRACTABLE", self.tf()), ("CKA_UNIQUE_ID", "x3939"),
                    ("CKA_VALUE", self.hexs(16)), ("CKA_TRUSTED", self.tf()), ("CKA_KEY_GEN_MECHANISM", "CKM_AES_KEY_GEN"), ("CKA_MODULUS", "x0102"),
                    ("CKA_EC_POINT", "x0403040506"), ("CKA_PUBLIC_EXPONENT", "x03"), ("CKA_URL", "x41"), ("CKA_VALUE_LEN", "16"), ("CKA_PRIVATE_EXPONENT", "x05"),
                    ("CKA_EC_PARAMS", keys.P256), ("CKA_OTP_COUNTER", "x0000000000000001")]
        return self.r.choice(opts)

    def setattr(self, s=None, n=None):
        s = s or self.asess()
        if not s:
            return
        n = n or self.anyname(self.sess[s]["slot"])
        if not n:
            return
        o = self.objs.get(n, {"a": {}})
        t, seen = [], set()
        for _ in range(self.r.choice([1, 1, 1, 2, 3])):
            x = self.change(o["a"])
            if x[0] not in seen:
                seen.add(x[0])
                t.append(x)
        if self.ch(0.04) and t:
            t.append((self.r.choice(["CKA_MODIFIABLE", "CKA_DESTROYABLE"]), "!bad"))
        e = self.do(c="set", s=s, o=n, t=t)
        if "attrs" in e and "rv" not in e["attrs"] and n in self.objs:
            o["a"] = e["attrs"]
        return e

    def destroy(self, s=None, n=None):
        s = s or self.asess()
        if not s:
            return
        n = n or self.anyname(self.sess[s]["slot"])
        if not n:
            return
        e = self.do(c="destroy", s=s, o=n)
        if e["rv"] == "OK":
            self.kill(lambda o: o is self.objs.get(n))
        return e

    def read(self):
        s = self.asess()
        n = s and self.anyname(self.sess[s]["slot"])
        if n:
            self.do(c="read", s=s, o=n)

    def size(self):
        s = self.asess()
        n = s and self.anyname(self.sess[s]["slot"])
        if n:
            self.do(c="size", s=s, o=n)

    GETPOOL = ["CKA_CLASS", "CKA_TOKEN", "CKA_PRIVATE", "CKA_LABEL", "CKA_ID", "CKA_VALUE", "CKA_SENSITIVE", "CKA_EXTRACTABLE", "CKA_KEY_TYPE",
               "CKA_ENCRYPT", "CKA_MODULUS", "CKA_PRIVATE_EXPONENT", "CKA_PRIME_1", "CKA_COEFFICIENT", "CKA_APPLICATION", "CKA_SUBJECT", "CKA_ISSUER",
               "CKA_EC_PARAMS", "CKA_EC_POINT", "CKA_UNIQUE_ID", "CKA_MODIFIABLE", "CKA_VALUE_LEN", "CKA_ALWAYS_SENSITIVE", "CKA_CHECK_VALUE",
               "CKA_OTP_COUNTER", "CKA_LOCAL"]

    def get(self):
        s = self.asess()
        n = s and self.anyname(self.sess[s]["slot"])
        if not n:
            return
        k = self.r.choice([1, 2, 3, 4, 6])
        l = [[self.r.choice(self.GETPOOL), self.r.choice(["null", 2048, 2048, 2048, 0, 1, 4, 8])] for _ in range(k)]
        self.do(c="get", s=s, o=n, a=l)

    def nearly(self, x):
        """almost the value an object has"""
        n, v = x
        k = self.r.choice(["cut", "cut", "more", "empty", "flip", "half", "tail"])
        if v[:1] == "x":
            b = bytes.fromhex(v[1:])
            b = {"cut": b[:-1], "more": b + b"\0", "empty": b"", "flip": b[:-1] + bytes([b[-1] ^ 1]) if b else b, "half": b[:len(b) // 2],
                 "tail": b[1:]}[k]
            return n, "x" + b.hex()
        v = {"cut": v[:-1], "more": v + "0", "flip": v[:-1] + "A", "half": v[:max(1, len(v) // 2)], "tail": v[1:]}.get(k, v)
        return (n, v) if v and v[0] not in "x!" else x

    def stmpl(self, sl):
        t = []
        if self.ch(0.2):
            return t
        for _ in range(self.r.choice([1, 1, 2, 2, 3])):
            if self.ch(0.6):
                n = self.aobj(slot=sl)
                if n:
                    a = self.objs[n]["a"]
                    cand = [(x, v) for x, v in a.items() if not str(v).startswith("!") and v != "UNAVAIL" and x != "CKA_ALLOWED_MECHANISMS"]
                    if cand:
                        x = self.r.choice(cand)
                        if self.ch(.2):
                            byt = [c for c in cand if str(c[1])[:1] == "x" and "DATE" not in c[0] or c[0] in ("CKA_LABEL", "CKA_APPLICATION")]
                            x = self.nearly(self.r.choice(byt)) if byt else x
                        if x[0] not in dict(t):
                            t.append(x)
                        if self.ch(0.15) and self.objs[n].get("v") and "CKA_VALUE" not in dict(t):
                            t.append(("CKA_VALUE", self.objs[n]["v"]))
                        continue
            x = self.r.choice([("CKA_CLASS", self.r.choice(["CKO_DATA", "CKO_SECRET_KEY", "CKO_PUBLIC_KEY", "CKO_PRIVATE_KEY", "CKO_CERTIFICATE"])),
                               ("CKA_TOKEN", self.tf()), ("CKA_PRIVATE", self.tf()), ("CKA_ID", self.r.choice(self.ids)), ("CKA_KEY_TYPE", "CKK_AES"),
                               ("CKA_SENSITIVE", self.tf()), ("CKA_APPLICATION", "app1"), ("CKA_VALUE", "xaabb"), ("CKA_LABEL", "nosuch"), ("CKA_ENCRYPT", self.tf())])
            if x[0] not in dict(t):
                t.append(x)
        return t

    def search(self):
        s = self.asess()
        if s:
            self.do(c="search", s=s, t=self.stmpl(self.sess[s]["slot"]), chunk=self.r.choice([1, 2, 3, 7, 64]))

    def find(self):
        """piecewise search, other things happen in between"""
        s = self.asess()
        if not s:
            return
        def flow():
            e = self.do(c="findinit", s=s, t=self.stmpl(self.sess[s]["slot"]))
            yield
            for _ in range(self.r.randrange(1, 8)):
                if s not in self.sess:
                    return
                n = self.r.choice([1, 2, 3, 50])
                e = self.do(c="find", s=s, n=n)
                if e["rv"] != "OK" or (len(e.get("hs", [])) < n and self.ch(0.8)):
                    break
                yield
            if s in self.sess:
                self.do(c="findfinal", s=s)
        self.flows.append((s, flow()))

    def run_flow(self):
        self.flows = [f for f in self.flows if f[0] in self.sess]
        if not self.flows:
            return False
        f = self.r.choice(self.flows)
        try:
            next(f[1])
        except StopIteration:
            if f in self.flows:
                self.flows.remove(f)
        return True

    # ----------------------------------------------------------- session acts
    def a_open(self):
        if len(self.sess) < self.p.get("maxsess", 5):
            self.open(self.slot(), not self.ch(self.p.get("ro", 0.35)), noserial=self.ch(0.03))
        else:
            self.a_close()

    def a_close(self):
        s = self.asess()
        if s and self.ch(0.1) and self.dead_sess:
            s = self.r.choice(self.dead_sess)
        if s:
            self.do_close(s)

    def a_closeall(self):
        self.do_closeall(self.slot())

    def a_sinfo(self):
        for s in list(self.sess)[:6]:
            self.do(c="sinfo", s=s)
        if self.dead_sess and self.ch(0.3):
            self.do(c=self.r.choice(["sinfo", "logout"]), s=self.r.choice(self.dead_sess[-6:]))

    def a_tinfo(self):
        self.do(c="tinfo", slot=self.slot())

    def a_login(self):
        s = self.asess()
        if not s:
            return
        sl = self.sess[s]["slot"]
        u = "user" if self.ch(0.7) else "so"
        pin = self.pins[sl][u] or UPIN
        if self.ch(self.p.get("badpin", 0.12)):
            pin = self.r.choice(BADPINS + PINS)
        if self.ch(0.03):
            u = "ctx"
        e = self.do_login(s, u, pin)
        if e["rv"] == "OK" and self.p.get("sinfo", 0.3) and self.ch(self.p.get("sinfo", 0.3)):
            self.a_sinfo()

    def a_relogin(self):
        """make sure that the user is in"""
        sl = self.slot()
        if self.login[sl] != "user":
            self.ensure_user(sl, self.ch(0.7))

    def a_badpins(self):
        """a series of wrong attempts"""
        s = self.asess()
        if not s:
            return
        sl = self.sess[s]["slot"]
        for _ in range(self.r.choice([1, 2, 3, 7, 9, 10, 11])):
            way = self.r.choice(["login", "login", "login", "setpin"])
            if way == "login" and self.login[sl] != "none":
                self.do_logout(s)
            if way == "login":
                self.do_login(s, self.p.get("lockwho", "user") if self.ch(0.85) else "so", self.r.choice(BADPINS))
            else:
                self.setpin(s, old=self.r.choice(BADPINS), new=self.r.choice(PINS))
            if self.ch(0.4):
                self.do(c="tinfo", slot=sl)
        if self.ch(0.5):
            self.do_login(s, "user", self.pins[sl]["user"] or UPIN)
            self.do(c="tinfo", slot=sl)

    def a_logout(self):
        s = self.asess()
        if s:
            self.do_logout(s)
            if self.ch(0.2):
                self.a_sinfo()

    def setpin(self, s, old=None, new=None):
        sl = self.sess[s]["slot"]
        who = "so" if self.login[sl] == "so" else "user"
        old = old if old is not None else (self.pins[sl][who] or UPIN)
        new = new if new is not None else self.r.choice(PINS)
        wasnone = self.login[sl] == "none"
        e = self.do(c="setpin", s=s, old=old, new=new)
        if e["rv"] == "OK":
            self.pins[sl][who] = new
        if wasnone:
            self.kill(lambda o: o["slot"] == sl and o["sess"] and o["a"].get("CKA_PRIVATE") == "T")
        return e

    def a_setpin(self):
        s = self.asess()
        if not s:
            return
        sl = self.sess[s]["slot"]
        if self.login[sl] == "user":
            self.snap(sl, tinfo=False)
        old = None
        if self.ch(0.15):
            old = self.r.choice(BADPINS + [""])
        e = self.setpin(s, old, "" if self.ch(0.05) else None)
        if e["rv"] == "OK" and self.ch(0.7):
            if self.login[sl] == "user":
                self.snap(sl, tinfo=False)
            elif self.login[sl] == "none":
                self.do_login(s, "user", self.pins[sl]["user"] or UPIN)
                self.snap(sl)

    def a_initpin(self):
        sl = self.slot()
        s = self.asess(sl, True)
        if not s:
            return
        if self.ch(0.8):
            if self.login[sl] == "user":
                self.do_logout(s)
            if self.login[sl] == "none":
                for x in [x for x, v in self.sess.items() if v["slot"] == sl and not v["rw"]]:
                    self.do_close(x)
                self.do_login(s, "so", self.pins[sl]["so"])
        pin = self.r.choice(PINS + [UPIN])
        e = self.do(c="initpin", s=s, pin=pin)
        if e["rv"] == "OK":
            self.pins[sl]["user"] = pin
        if self.ch(0.8) and self.login[sl] == "so":
            self.do_logout(s)
            self.do_login(s, "user", self.pins[sl]["user"] or UPIN)
            self.snap(sl)

    def a_inittoken(self):
        sl = self.slot()
        if self.ch(0.8):
            if any(v["slot"] == sl for v in self.sess.values()):
                if self.ch(0.3):
                    self.do(c="inittoken", slot=sl, pin=self.pins[sl]["so"] or SOPIN, label="nope")
                self.do_closeall(sl)
        pin = self.pins[sl]["so"] or SOPIN
        if self.ch(0.25):
            pin = self.r.choice(BADPINS)
        busy = any(v["slot"] == sl for v in self.sess.values())
        lab = self.r.choice(["relabel", "tok" + sl, "a label"])
        e = self.do(c="inittoken", slot=sl, pin=pin, label=lab)
        if e["rv"] == "OK":
            self.pins[sl] = {"so": pin, "user": None}
            self.kill(lambda o: o["slot"] == sl)
            self.dead_objs = [x for x in self.dead_objs]
        self.do(c="tinfo", slot=sl)
        s = self.open(sl, True)
        if s in self.sess:
            self.do(c="snap", s=s, t=[], bind=False)
            if e["rv"] == "OK":
                old = self.r.choice([UPIN] + PINS)
                self.do_login(s, "user", old)
                self.do_login(s, "so", pin)
                if self.ch(0.85):
                    e = self.do(c="initpin", s=s, pin=UPIN)
                    if e["rv"] == "OK":
                        self.pins[sl]["user"] = UPIN
                if self.ch(0.8):
                    self.do_logout(s)
                    self.do_login(s, "user", UPIN)
            elif self.pins[sl]["user"]:
                self.do_login(s, "user", self.pins[sl]["user"])
            self.snap(sl)
        for o in self.login:
            if o != sl and self.ch(0.7):
                self.snap(o)

    # --------------------------------------------------------------- main loop
    ACTS = {"open": a_open, "close": a_close, "closeall": a_closeall, "sinfo": a_sinfo, "tinfo": a_tinfo, "login": a_login, "relogin": a_relogin,
            "badpins": a_badpins, "logout": a_logout, "setpin": a_setpin, "initpin": a_initpin, "inittoken": a_inittoken,
            "create": create, "copy": copy, "set": setattr, "destroy": destroy, "read": read, "size": size, "get": get, "search": search,
            "find": find, "snap": snap, "reboot": reboot, "life": life, "mechs": a_mechs, "scan": scan, "tamper": corrupt, "forge": forge, "fault": fault, "par": Conc.a_par}

    def act(self, name):
        (self.ACTS.get(name) or self.CACTS[name])(self)

    def live(self):
        """sessions to work with"""
        if not self.sess:
            self.open(self.slot(), True)
        return bool(self.sess)

    def loop(self, weights, steps):
        names, ws = list(weights), list(weights.values())
        for _ in range(steps):
            if not self.live():
                self.a_open()
                continue
            if self.flows and self.ch(0.45):
                self.run_flow()
                continue
            self.act(self.r.choices(names, ws)[0])

    def end(self):
        for sl in list(self.login):
            self.snap(sl)
