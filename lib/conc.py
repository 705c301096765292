"""Concurrent calls: several threads, interleaved at the library's locks by the harness's scheduler."""
from crypto import hotp, unx
import keys


class Conc:
    """mixed into Gen"""

    def schedule(self):
        x = self.r.random()
        d = {"seed": self.r.randrange(1, 1 << 30)}
        if x < .35:
            d["p"] = self.r.choice([25, 50, 90])
        else:
            d.update(p=0, d=self.r.choice([1, 1, 2, 3]), span=self.r.choice([5, 8, 8, 14, 30]))
        return d

    def two(self, sl, n=2, rw=True):
        """n sessions of a slot"""
        c = [s for s, v in self.sess.items() if v["slot"] == sl and (rw is None or v["rw"] == rw)]
        self.r.shuffle(c)
        while len(c) < n:
            s = self.open(sl, True if rw is None else rw)
            if s not in self.sess:
                return None
            c.append(s)
        return c[:n]

    def split(self, calls, most=3):
        """deal calls to threads"""
        k = self.r.choice([2, 2, 3]) if len(calls) > 2 else len(calls)
        ls = [[] for _ in range(min(k, most))]
        for i, c in enumerate(calls):
            ls[i if i < len(ls) else self.r.randrange(len(ls))].append(c)
        return [l for l in ls if l]

    # ------------------------------------------------------------------ scenes
    def p_auth(self, sl):
        ss = self.two(sl, 2, None if self.ch(.3) else True)
        if not ss:
            return
        up, so = self.pins[sl]["user"], self.pins[sl]["so"]
        if not up:
            return
        s = lambda: self.r.choice(ss)
        pool = [lambda: dict(c="login", s=s(), user="user", pin=up), lambda: dict(c="login", s=s(), user="user", pin="wrongpin"),
                lambda: dict(c="login", s=s(), user="so", pin=so), lambda: dict(c="logout", s=s()), lambda: dict(c="sinfo", s=s()), lambda: dict(c="tinfo", slot=sl),
                lambda: dict(c="login", s=s(), user="user", pin="wrongpin"), lambda: dict(c="open", s=self.name("s"), slot=sl, rw=False),
                lambda: dict(c="open", s=self.name("s"), slot=sl, rw=True), lambda: dict(c="close", s=s()), lambda: dict(c="setpin", s=s(), old="wrongpin", new="otherpin1")]
        x = self.r.choice([None, "setpin", "initpin", "wrong", "closeall", "so"])
        calls = [self.r.choice(pool)() for _ in range(self.r.choice([1, 2, 2, 3]))]
        if x == "setpin":
            who = "so" if self.login[sl] == "so" else "user"
            calls.append(dict(c="setpin", s=s(), old=self.pins[sl][who], new=self.r.choice(["newpin%d" % i for i in range(4)])))
        elif x == "initpin":
            if self.login[sl] != "so":
                if self.login[sl] == "user":
                    self.do_logout(ss[0])
                self.do_login(ss[0], "so", so)
            calls.append(dict(c="initpin", s=s(), pin=self.r.choice(["newpin%d" % i for i in range(4)])))
            calls.append(self.r.choice([dict(c="logout", s=s()), dict(c="login", s=s(), user="user", pin=up), dict(c="closeall", slot=sl)]))
        elif x == "wrong":
            if self.login[sl] != "none":
                self.do_logout(ss[0])
            calls = [dict(c="login", s=s(), user="user", pin="wrongpin") for _ in range(self.r.choice([2, 3]))] + calls[:1]
        elif x == "closeall":
            calls.append(dict(c="closeall", slot=sl))
        elif x == "so":
            if self.login[sl] != "none":
                self.do_logout(ss[0])
            calls = [dict(c="login", s=s(), user="so", pin=so), dict(c="open", s=self.name("s"), slot=sl, rw=False)] + calls[:1]
        return calls

    def p_obj(self, sl):
        ss = self.two(sl, 2)
        if not ss or not self.ensure_user(sl):
            return
        e = self.create(ss[0], self.r.choice(["data", "data", "aes", "gen", "cert"]), CKA_MODIFIABLE="T", CKA_DESTROYABLE="T", CKA_COPYABLE="T",
                        CKA_TOKEN=self.r.choice("TTTF"), CKA_PRIVATE=self.r.choice("TF"))
        if not e or e["rv"] != "OK":
            return
        o, n = e["o"], 0
        key = self.objs[o]["a"].get("CKA_CLASS") == "CKO_SECRET_KEY"
        s = lambda: self.r.choice(ss)
        two = "CKA_ID" if self.objs[o]["a"].get("CKA_CLASS") != "CKO_DATA" else "CKA_APPLICATION"
        v = ["xaa", "xbb", "xcc"] if two == "CKA_ID" else ["aa", "bb", "cc"]
        def cp():
            l = self.name("o")
            return dict(c="copy", s=s(), src=o, o=l, t=[("CKA_LABEL", l)] + ([("CKA_TOKEN", self.r.choice("TF"))] if self.ch(.4) else []))
        def st():
            x = self.r.choice(v)
            return dict(c="set", s=s(), o=o, t=[(two, x)] + ([("CKA_PRIVATE", "T")] if False else []))
        def pair():
            x = self.r.randrange(3)
            return dict(c="set", s=s(), o=o, t=[(two, v[x]), ("CKA_OBJECT_ID", ["x01", "x02", "x03"][x])] if two == "CKA_APPLICATION" else
                        [(two, v[x]), ("CKA_START_DATE", "x" + [b"20200101", b"20210101", b"20220101"][x].hex())])
        def gt():
            return dict(c="get", s=s(), o=o, a=[[two, 2048], ["CKA_OBJECT_ID" if two == "CKA_APPLICATION" else "CKA_START_DATE", 2048], ["CKA_LABEL", 2048]])
        pool = [lambda: dict(c="destroy", s=s(), o=o), lambda: dict(c="destroy", s=s(), o=o), cp, st, pair, pair, gt, gt, lambda: dict(c="size", s=s(), o=o),
                lambda: dict(c="logout", s=s()), lambda: dict(c="close", s=s())]
        if key:
            pool += [lambda: dict(c="set", s=s(), o=o, t=[("CKA_SENSITIVE", "T")]), lambda: dict(c="set", s=s(), o=o, t=[("CKA_EXTRACTABLE", "F")]),
                     lambda: dict(c="get", s=s(), o=o, a=[["CKA_SENSITIVE", 2048], ["CKA_EXTRACTABLE", 2048], ["CKA_VALUE", 2048]])]
        return [self.r.choice(pool)() for _ in range(self.r.choice([2, 2, 3, 3, 4]))]

    def p_make(self, sl):
        ss = self.two(sl, 2)
        if not ss or not self.ensure_user(sl):
            return
        calls = []
        for _ in range(self.r.choice([2, 3])):
            l = self.name("o")
            k = self.r.choice(["data", "aes", "trust", "trust", "genkey", "cert"])
            if k == "genkey":
                calls.append(dict(c="genkey", s=self.r.choice(ss), m="CKM_AES_KEY_GEN", o=l, t=[("CKA_LABEL", l), ("CKA_VALUE_LEN", "16"), ("CKA_TOKEN", self.r.choice("TF"))]))
                continue
            t = self.KINDS[k](self, l)
            if k == "trust":
                t = [(n, {"CKA_ISSUER": "x3001", "CKA_SERIAL_NUMBER": "x020101", "CKA_TOKEN": "T"}.get(n, v)) for n, v in t]
                if self.ch(.7) and not any(n == "CKA_TOKEN" for n, v in t):
                    t.append(("CKA_TOKEN", "T"))
            calls.append(dict(c="create", s=self.r.choice(ss), o=l, t=t))
        if self.ch(.3):
            calls.append(self.r.choice([dict(c="logout", s=ss[0]), dict(c="close", s=ss[1]), dict(c="closeall", slot=sl)]))
        return calls

    def p_hotp(self, sl):
        ss = self.two(sl, self.r.choice([2, 2, 3]))
        if not ss or not self.ensure_user(sl):
            return
        o = self.aobj(lambda x: x.get("CKA_CLASS") == "CKO_OTP_KEY" and x.get("CKA_SIGN", "T") == "T", sl) if self.ch(.6) else None
        if not o:
            e = self.create(ss[0], "hotp", CKA_SIGN="T", CKA_VERIFY="T", CKA_TOKEN=self.r.choice("TTF"))
            if not e or e["rv"] != "OK":
                return
            o = e["o"]
        v = self.objs[o].get("v")
        e = self.do(c="get", s=ss[0], o=o, a=[["CKA_OTP_COUNTER", 64]])
        try:
            c = int(e["out"][0]["v"][1:], 16)
        except Exception:
            return
        if not v or c > (1 << 64) - 20:
            return
        for j in range(8):
            self.otpkat(v, c + j)
        ls = []
        ver = self.ch(.25)
        for s in ss:
            self.do(c="opinit", s=s, k="sign", cancel=True)
            if ver:
                self.do(c="opinit", s=s, k="ver", cancel=True)
                if self.do(c="opinit", s=s, k="ver", m="CKM_HOTP", o=o)["rv"] != "OK":
                    return
                ls.append([dict(c="op", s=s, k="ver", din="x", sig="x" + hotp(unx(v), c).encode().hex())])
            else:
                if self.do(c="opinit", s=s, k="sign", m="CKM_HOTP", o=o)["rv"] != "OK":
                    return
                ls.append([dict(c="op", s=s, k="sign", din="x", otp=True)])
                if self.ch(.3):
                    ls[-1] += [dict(c="opinit", s=s, k="sign", m="CKM_HOTP", o=o), dict(c="op", s=s, k="sign", din="x", otp=True)]
        return ls

    def p_ops(self, sl):
        ss = self.two(sl, 2)
        if not ss or not self.ensure_user(sl) or not self.pins[sl]["user"]:
            return
        s, t = ss
        e = self.create(s, "aes", CKA_ENCRYPT="T", CKA_DECRYPT="T", CKA_SIGN="T", CKA_TOKEN=self.r.choice("TF"), CKA_PRIVATE=self.r.choice("TF"))
        if not e or e["rv"] != "OK":
            return
        o = e["o"]
        k, m, par = self.r.choice([("enc", "CKM_AES_ECB", None), ("enc", "CKM_AES_CTR", {"ctr": {"cb": "x" + "00" * 16, "bits": 128}}), ("sign", "CKM_AES_CMAC", None), ("dig", "CKM_SHA256", None)])
        for kk in ("enc", "sign", "dig"):
            self.do(c="opinit", s=s, k=kk, cancel=True)
        ini = dict(c="opinit", s=s, k=k, m=m)
        if k != "dig":
            ini["o"] = o
        if par:
            ini["par"] = par
        if self.ch(.7):
            if self.do(**ini)["rv"] != "OK":
                return
        d = "x" + "ab" * 16
        pool = [lambda: dict(c="upd", s=s, k=k, din=d), lambda: dict(c="op", s=s, k=k, din=d), lambda: dict(c="fin", s=s, k=k), lambda: dict(ini),
                lambda: dict(c="destroy", s=t, o=o), lambda: dict(c="logout", s=t), lambda: dict(c="close", s=s), lambda: dict(c="scancel", s=s, ks=[k]),
                lambda: dict(c="set", s=t, o=o, t=[("CKA_ENCRYPT", "F")]), lambda: dict(c="sinfo", s=s), lambda: dict(c="opinit", s=s, k="dig", m="CKM_SHA_1")]
        return [self.r.choice(pool[:4])()] + [self.r.choice(pool)() for _ in range(self.r.choice([1, 2, 2, 3]))]

    def p_life(self, sl):
        ss = self.two(sl, 2, None)
        if not ss:
            return
        s = lambda: self.r.choice(ss)
        other = self.slot()
        k = self.r.choice(["inittoken", "fini", "fini", "sess"])
        pool = [lambda: dict(c="open", s=self.name("s"), slot=self.r.choice([sl, other]), rw=self.tf() == "T"), lambda: dict(c="close", s=s()), lambda: dict(c="sinfo", s=s()),
                lambda: dict(c="tinfo", slot=sl), lambda: dict(c="closeall", slot=self.r.choice([sl, other])), lambda: dict(c="random", s=s(), n=16)]
        calls = [self.r.choice(pool)() for _ in range(self.r.choice([1, 2, 3]))]
        if k == "inittoken":
            if self.ch(.7):
                self.do_closeall(sl)
            calls.append(dict(c="inittoken", slot=sl, pin=self.pins[sl]["so"], label="tok" + sl))
        elif k == "fini":
            calls.append(dict(c="fini"))
        else:
            calls += [self.r.choice(pool)()]
        return calls

    def p_close(self, sl):
        """a session ends while others use it"""
        ss = self.two(sl, 2)
        if not ss or not self.ensure_user(sl) or not self.pins[sl]["user"]:
            return
        s, t = ss
        if self.ch(.5):
            self.create(s, self.r.choice(["data", "aes"]), CKA_TOKEN="F")
        end = self.r.choice([dict(c="close", s=s), dict(c="close", s=s), dict(c="closeall", slot=sl), dict(c="logout", s=t)])
        def mk(k):
            l = self.name("o")
            if k == "genkey":
                return dict(c="genkey", s=s, m="CKM_AES_KEY_GEN", o=l, t=[("CKA_LABEL", l), ("CKA_VALUE_LEN", "16"), ("CKA_TOKEN", self.r.choice("TFF"))])
            tm = [(n, v) for n, v in self.KINDS[k](self, l) if n not in ("CKA_TOKEN", "CKA_PRIVATE")]
            return dict(c="create", s=s, o=l, t=tm + [("CKA_TOKEN", self.r.choice("TFFF")), ("CKA_PRIVATE", self.r.choice("TFF"))])
        ls = [[end], [mk(self.r.choice(["data", "aes", "genkey"])) for _ in range(self.r.choice([1, 1, 2]))]]
        if self.ch(.3):
            ls[0].append(self.r.choice([dict(c="open", s=self.name("s"), slot=sl, rw=True), dict(c="login", s=t, user="user", pin=self.pins[sl]["user"])]))
        if self.ch(.25):
            ls.append([self.r.choice([dict(c="close", s=t), dict(c="sinfo", s=s), dict(c="open", s=self.name("s"), slot=sl, rw=False)])])
        return ls

    def p_pair(self, sl):
        """any two calls about the same session and object"""
        ss = self.two(sl, 2)
        if not ss or not self.ensure_user(sl) or not self.pins[sl]["user"]:
            return
        s, t = ss
        e = self.create(s, "aes", CKA_ENCRYPT="T", CKA_DECRYPT="T", CKA_WRAP="T", CKA_DERIVE="T", CKA_EXTRACTABLE="T", CKA_SENSITIVE="F", CKA_MODIFIABLE="T", CKA_DESTROYABLE="T",
                        CKA_COPYABLE="T", CKA_TOKEN=self.r.choice("TTF"), CKA_PRIVATE=self.r.choice("TTF"))
        if not e or e["rv"] != "OK":
            return
        o, up = e["o"], self.pins[sl]["user"]
        for k in ("enc", "dig"):
            self.do(c="opinit", s=s, k=k, cancel=True)
        if self.ch(.4):
            self.do(c="opinit", s=s, k="enc", m="CKM_AES_ECB", o=o)
        b = lambda: self.r.choice([s, s, t])
        d = "x" + "ab" * 16
        def lab(f):
            return f(self.name("o"))
        pool = {
            "close": lambda: dict(c="close", s=s), "closeall": lambda: dict(c="closeall", slot=sl), "open": lambda: dict(c="open", s=self.name("s"), slot=sl, rw=self.ch(.5)),
            "logout": lambda: dict(c="logout", s=b()), "login": lambda: dict(c="login", s=b(), user="user", pin=up), "wrong": lambda: dict(c="login", s=b(), user="user", pin="wrongpin"),
            "setpin": lambda: dict(c="setpin", s=b(), old=up, new="newpin%d" % self.r.randrange(4)), "sinfo": lambda: dict(c="sinfo", s=b()), "tinfo": lambda: dict(c="tinfo", slot=sl),
            "create": lambda: lab(lambda l: dict(c="create", s=b(), o=l, t=[(n, v) for n, v in self.KINDS["data"](self, l) if n not in ("CKA_TOKEN", "CKA_PRIVATE")]
                                                 + [("CKA_TOKEN", self.r.choice("TF")), ("CKA_PRIVATE", self.r.choice("TF"))])),
            "copy": lambda: lab(lambda l: dict(c="copy", s=b(), src=o, o=l, t=[("CKA_LABEL", l), ("CKA_TOKEN", self.r.choice("TF"))])),
            "genkey": lambda: lab(lambda l: dict(c="genkey", s=b(), m="CKM_AES_KEY_GEN", o=l, t=[("CKA_LABEL", l), ("CKA_VALUE_LEN", "16"), ("CKA_TOKEN", self.r.choice("TF"))])),
            "destroy": lambda: dict(c="destroy", s=b(), o=o), "set": lambda: dict(c="set", s=b(), o=o, t=[self.r.choice([("CKA_ENCRYPT", "F"), ("CKA_SENSITIVE", "T"), ("CKA_EXTRACTABLE", "F"), ("CKA_ID", "xaa")])]),
            "get": lambda: dict(c="get", s=b(), o=o, a=[["CKA_ID", 64], ["CKA_ENCRYPT", 8], ["CKA_SENSITIVE", 8], ["CKA_VALUE", 64]]), "size": lambda: dict(c="size", s=b(), o=o),
            "findinit": lambda: dict(c="findinit", s=t, t=[("CKA_CLASS", "CKO_SECRET_KEY")]),
            "opinit": lambda: dict(c="opinit", s=s, k="enc", m="CKM_AES_ECB", o=o), "op": lambda: dict(c="op", s=s, k="enc", din=d), "upd": lambda: dict(c="upd", s=s, k="enc", din=d),
            "fin": lambda: dict(c="fin", s=s, k="enc"), "scancel": lambda: dict(c="scancel", s=s, ks=["enc"]), "dig": lambda: dict(c="opinit", s=s, k="dig", m="CKM_SHA256"),
        }
        n = list(pool)
        ls = [[pool[self.r.choice(n)]()] + ([pool[self.r.choice(n)]()] if self.ch(.25) else []) for _ in range(self.r.choice([2, 2, 2, 3]))]
        for l in ls:
            if l[-1]["c"] == "findinit":
                l.append(dict(c="find", s=t, n=50))
        return ls

    SCENES = [("p_close", 5), ("p_pair", 9), ("p_auth", 5), ("p_obj", 6), ("p_make", 3), ("p_hotp", 3), ("p_ops", 4), ("p_life", 2)]

    def a_par(self):
        sl = self.slot()
        n = self.p.get("scenes") or self.SCENES
        calls = getattr(self, self.r.choices([x for x, _ in n], [y for _, y in n])[0])(sl)
        if not calls or not isinstance(calls[0], list) and len(calls) < 2:
            return
        self.par(calls if isinstance(calls[0], list) else self.split(calls), sl)

    def par(self, lists, sl):
        evs = self.w.par(lists, self.schedule())
        self.w.pp = True
        try:
            self.after_par(evs, sl)
        finally:
            self.w.pp = False
        if self.pins[sl]["user"] is None and self.sess:
            s = self.asess(sl, True) or self.open(sl, True)
            if s in self.sess and self.login[sl] == "none" and self.do_login(s, "so", self.pins[sl]["so"])["rv"] == "OK":
                if self.do(c="initpin", s=s, pin="user1234")["rv"] == "OK":
                    self.pins[sl]["user"] = "user1234"
                self.do_logout(s)

    def after_par(self, evs, sl):
        for e in sorted(evs, key=lambda e: e["res"]):
            c = e["c"]
            if c == "fini" and e["rv"] == "OK":
                self.away()
                self.back()
                return
            if e["rv"] != "OK":
                continue
            if c == "open":
                self.sess[e["s"]] = {"slot": e["slot"], "rw": e["rw"], "ops": {}}
            elif c == "setpin":
                self.pins[sl]["so" if self.pins[sl]["so"] == e["old"] else "user"] = e["new"]
            elif c == "initpin":
                self.pins[sl]["user"] = e["pin"]
            elif c == "inittoken":
                self.pins[sl]["user"] = None
                self.kill(lambda o: o["slot"] == sl)
            elif c in ("create", "copy", "genkey"):
                self.objs[e["o"]] = {"slot": sl, "a": dict(e.get("t") or {}), "sess": None if (e.get("t") or {}).get("CKA_TOKEN") == "T" else e["s"], "v": None}
            elif c == "destroy":
                self.kill(lambda o: o is self.objs.get(e["o"]))
        # what is there now?
        for s in list(self.sess):
            e = self.do(c="sinfo", s=s)
            if e["rv"] != "OK":
                del self.sess[s]
                self.dead_sess.append(s)
                self.kill(lambda o: o["sess"] == s)
            else:
                self.login[self.sess[s]["slot"]] = {0: "none", 2: "none", 1: "user", 3: "user"}.get(self.num(e["state"]), "so")
        for x in self.login:
            if not any(v["slot"] == x for v in self.sess.values()):
                self.loggedout(x)
        e = self.snap(sl)
        if e and e["rv"] == "OK":
            for n in [n for n, o in self.objs.items() if o["slot"] == sl and not o["sess"]]:
                if n in e["objs"]:
                    if "rv" not in e["objs"][n]:
                        self.objs[n]["a"] = e["objs"][n]
                elif self.login[sl] == "user" or self.objs[n]["a"].get("CKA_PRIVATE") == "F":
                    self.kill(lambda o: o is self.objs.get(n))
            for n in [n for n, o in self.objs.items() if o["slot"] == sl and o["sess"]]:
                if n in e["objs"] and "rv" not in e["objs"][n]:
                    self.objs[n]["a"] = e["objs"][n]

    def num(self, st):
        try:
            return int(st)
        except ValueError:
            return {"RO_PUBLIC": 0, "RO_USER": 1, "RW_PUBLIC": 2, "RW_USER": 3}.get(st, 4)
