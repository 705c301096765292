"""Drives kexec and records normalised events for the specification.  No verdicts here."""
import json, os, shutil, signal, subprocess, select, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEXEC = os.path.join(VERIF, ".build", "target", "debug", "kexec")

BOOLS = set("""CKA_TOKEN CKA_PRIVATE CKA_TRUSTED CKA_SENSITIVE CKA_ENCRYPT CKA_DECRYPT CKA_WRAP CKA_UNWRAP CKA_SIGN
CKA_SIGN_RECOVER CKA_VERIFY CKA_VERIFY_RECOVER CKA_DERIVE CKA_EXTRACTABLE CKA_LOCAL CKA_NEVER_EXTRACTABLE
CKA_ALWAYS_SENSITIVE CKA_MODIFIABLE CKA_COPYABLE CKA_DESTROYABLE CKA_ALWAYS_AUTHENTICATE CKA_WRAP_WITH_TRUSTED
CKA_ENCAPSULATE CKA_DECAPSULATE""".split())
NUMS = set("""CKA_CLASS CKA_CERTIFICATE_TYPE CKA_CERTIFICATE_CATEGORY CKA_KEY_TYPE CKA_MODULUS_BITS CKA_VALUE_LEN
CKA_KEY_GEN_MECHANISM CKA_OTP_LENGTH CKA_OTP_FORMAT CKA_OTP_COUNTER_REQUIREMENT CKA_NAME_HASH_ALGORITHM
CKA_TRUST_SERVER_AUTH CKA_TRUST_CLIENT_AUTH CKA_TRUST_CODE_SIGNING CKA_TRUST_EMAIL_PROTECTION""".split())


def hattr(n, v):
    """specification form -> harness form of an attribute value"""
    if v == "!bad":
        return "x0101" if n in BOOLS else "x010203"
    if n in BOOLS:
        return v == "T"
    if n in NUMS:
        return int(v) if v.isdigit() else v
    if n == "CKA_ALLOWED_MECHANISMS":
        return [x for x in v.split("+") if x]
    if n in ("CKA_LABEL", "CKA_APPLICATION"):
        return "s:" + v
    return v


def htmpl(t):
    return [[n, hattr(n, v)] for n, v in t]


def canon(par):
    if par is None:
        return ""
    def f(x):
        if isinstance(x, dict):
            return "(" + ",".join(k + "=" + f(x[k]) for k in sorted(x) if k != "dlen") + ")"
        if isinstance(x, (list, tuple)):
            return "[" + ",".join(f(y) for y in x) + "]"
        return str(x)
    return f(par)


class Died(Exception):
    pass


class Crashed(Exception):
    """the process was made to die at a storage operation"""


SHIM = os.path.join(VERIF, ".build", "faultshim.so")
# calls during which storage is made to fail
WCALLS = {"create", "copy", "set", "destroy", "genkey", "genpair", "unwrap", "derive", "setpin", "initpin", "inittoken", "login", "op"}
RCALLS = {"destroy", "setpin", "initpin", "login", "logout", "size", "get", "findinit", "tinfo", "open", "close", "op", "opinit", "set"}


class Proc:
    def __init__(self, env=None):
        e = dict(os.environ)
        e.pop("KRYOPTIC_CONF", None)
        e.update(env or {})
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([KEXEC, "-"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e,
                                  bufsize=0)
        self.buf = b""

    def send(self, cmd, timeout=60):
        try:
            self.p.stdin.write((json.dumps(cmd) + "\n").encode())
        except BrokenPipeError:
            raise Died("exit")
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0.01, end - time.time()))
            if not r:
                if time.time() >= end:
                    raise Died("hang")
                continue
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                raise Died("exit")
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode(errors="replace")[-1500:]

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except Exception:
                pass


class World:
    """One library instance on a scratch directory, and the trace of what happened to it."""

    def __init__(self, slots=("sqlite",), env=None, trace=None, opts=None):
        """opts: per slot {dedup, denied, allowed}"""
        self.pp = False  # looking at what concurrent calls left
        self.lk = None
        self.dir = tempfile.mkdtemp(prefix="kv_")
        self.slots = list(slots)
        self.env = env
        self.ev = trace if trace is not None else []
        self.cfg = {}
        for i, k in enumerate(self.slots):
            o = (opts or {}).get(i, {})
            self.cfg[str(i)] = {"dedup": o.get("dedup", "none"), "kind": k, "denied": o.get("denied", []),
                                "allowed": o.get("allowed", [])}
        self.write_conf()
        self.proc = None
        self.crashed = None
        self.plan = None
        self.faults = []
        self.ev.append({"c": "reset"})

    def write_conf(self):
        out = ""
        for i, k in enumerate(self.slots):
            c = self.cfg[str(i)]
            out += "[[slots]]\nslot=%d\n" % i
            if k == "sqlite":
                out += 'dbtype="sqlite"\ndbargs="%s/t%d.sql"\n' % (self.dir, i)
            else:
                os.makedirs("%s/n%d" % (self.dir, i), exist_ok=True)
                out += 'dbtype="nssdb"\ndbargs="configDir=\'%s/n%d\' flags=passwordRequired"\n' % (self.dir, i)
            if c["denied"]:
                out += "mechanisms=[%s]\n" % ",".join('"%s"' % x for x in ["DENY"] + c["denied"])
            elif c["allowed"]:
                out += "mechanisms=[%s]\n" % ",".join('"%s"' % x for x in c["allowed"])
            if c["dedup"] != "none":
                out += 'objects_dedup="%s"\n' % c["dedup"]
        with open(self.dir + "/conf", "w") as f:
            f.write(out)

    # -- process ------------------------------------------------------------
    def start(self):
        e = dict(self.env or {})
        if e.pop("KV_SHIM", None):
            e["LD_PRELOAD"] = SHIM
            e["KV_FAULT_DIR"] = self.dir
        self.proc = Proc(e)

    def close(self):
        if self.proc:
            self.proc.kill()
            self.proc = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def raw(self, cmd, timeout=60):
        if self.proc is None:
            self.start()
        return self.proc.send(cmd, timeout)

    def died(self, why, ev):
        err = self.proc.stderr()
        self.crashed = (why, err)
        self.ev.append({"c": "issue", "tags": CRASHTAGS(why, ev),
                        "why": "%s during %s: %s" % ("no answer" if why == "hang" else "process died",
                                                     describe(ev), err[-300:].replace("\n", " "))})
        self.proc.kill()
        self.proc = None

    # -- events ----------------------------------------------------------------
    def init(self, bad=None):
        conf = "kryoptic_conf=" + self.dir + "/conf" if bad is None else bad
        ev = {"c": "init", "slots": [str(i) for i in range(len(self.slots))], "bad": bad is not None}
        if bad is None:
            ev["cfg"] = self.cfg
        try:
            r = self.raw(dict({"c": "init", "conf": conf}, **({} if self.lk is None else {"lk": True})))
            if "lk" in r:
                self.lk.append(("init", r["lk"]))
        except Died as d:
            self.died(str(d), {"c": "init", "bad": str(bad)})
            raise
        ev["rv"] = r["rv"]
        self.ev.append(ev)
        if ev["rv"] == "OK":
            self.raw({"c": "forget"})
            self.ev.append({"c": "forget"})
        return ev

    def restart(self):
        """the process goes away while idle"""
        if self.proc:
            self.proc.kill()
        self.proc = None
        self.ev.append({"c": "restart"})

    def do(self, ev, record=True):
        """plan: (mode, number of the storage operation, for how many calls), for the next calls that store or read"""
        if self.plan and ev["c"] in (RCALLS if self.plan[0].startswith("read") else WCALLS) and not (ev["c"] == "op" and not ev.get("otp") and ev.get("k") != "ver"):
            return self.do_fault(ev)
        cmd = to_cmd(ev)
        if self.lk is not None:
            cmd.update(lk=True)
        try:
            r = self.raw(cmd)
        except Died as d:
            self.died(str(d), ev)
            raise
        if "lk" in r:
            self.lk.append((ev["c"], r["lk"]))
        e = norm(ev, r)
        if self.pp:
            e["pp"] = True
        if record:
            self.ev.append(e)
        return e

    def do_fault(self, ev):
        mode, n, k = self.plan
        self.plan = (mode, n if mode in ("kill", "tear") else 1, k - 1) if k > 1 else None
        self.raw({"c": "arm", "mode": mode, "n": n})
        try:
            r = self.raw(to_cmd(ev))
        except Died as d:
            if mode in ("kill", "tear") and str(d) == "exit" and self.proc.p.wait() == -signal.SIGKILL:
                self.proc.kill()
                self.proc = None
                self.ev.append({"c": "crash", "inner": norm(ev, {"rv": "CRASH"}), "at": n, "mode": mode})
                self.plan = None
                raise Crashed()
            self.died(str(d), dict(ev, c="fault"))
            raise
        hit = self.raw({"c": "arm", "mode": "none", "n": -1})["count"] >= n or r.get("hit", False)
        e = norm(ev, r)
        if mode in ("kill", "tear") or not hit:
            self.ev.append(e)
        else:
            self.ev.append({"c": "fault", "rv": e["rv"], "inner": e, "mode": mode, "at": n})
            self.faults.append((mode, n, e["c"]))
        return e

    def par(self, lists, sched, timeout=60):
        """calls of several threads at the same time, interleaved at the library's locks as sched says"""
        for l in lists:
            for e in l:
                e["rb"] = False
        cmd = {"c": "par", "threads": [[to_cmd(e) for e in l] for l in lists], "sched": sched}
        what = " || ".join("; ".join(e["c"] for e in l) for l in lists)
        try:
            r = self.raw(cmd, timeout)
        except Died as d:
            self.died(str(d), {"c": "par", "calls": what})
            raise
        if "deadlock" in r or any(x["rv"] == "PANIC" for x in r["evs"]):
            why = "deadlock: " + r["deadlock"] if "deadlock" in r else "a call panicked"
            self.ev.append({"c": "issue", "tags": ["C24"] if "deadlock" in r else ["C25", "C24"], "why": "%s during %s (schedule %s)" % (why, what, json.dumps(sched))})
            self.ev[-1]["lists"] = json.dumps([[e for e in l] for l in lists])
            self.proc.kill()
            self.proc = None
            raise Died("deadlock")
        its = [iter(l) for l in lists]
        evs = []
        for x in sorted(r["evs"], key=lambda x: x["inv"]):
            src = next(its[x["th"]])
            e = norm(src, x)
            e["inv"], e["res"], e["th"] = x["inv"], x["res"], x["th"]
            evs.append(e)
        self.ev.append({"c": "par", "evs": evs, "sched": json.dumps(sched), "steps": r["steps"]})
        return evs

    def kat(self, key, val):
        self.ev.append({"c": "kat", "key": key, "val": val})

    def tag(self, *tags):
        self.ev.append({"c": "tag", "tags": list(tags)})


def describe(ev):
    return json.dumps({k: v for k, v in ev.items() if k not in ("attrs",)})[:400]


OPTAGS = {"create": ["C26"], "copy": ["C26", "C10"], "set": ["C26", "C10"], "destroy": ["C26", "C07"], "read": ["C27"],
          "get": ["C27", "C09"], "search": ["C08"], "findinit": ["C08"], "find": ["C08"], "snap": ["C08", "C19"],
          "derive": ["C18"], "unwrap": ["C18", "C17"], "wrap": ["C17", "C15"], "genkey": ["C18"], "genpair": ["C18"],
          "op": ["C14", "C15", "C16", "C13"], "upd": ["C14", "C15", "C16"], "fin": ["C14", "C15", "C16"],
          "opinit": ["C12", "C14", "C16"], "msg": ["C16", "C34"], "login": ["C02", "C03"], "setpin": ["C04"],
          "initpin": ["C04"], "inittoken": ["C22"], "init": ["C33", "C19"], "fini": ["C33"], "probe": ["C33"], "slots": ["C33"], "par": ["C24", "C25"],
          "open": ["C01"], "close": ["C01"], "closeall": ["C01"], "logout": ["C02"], "mechs": ["C30"], "minfo": ["C30"],
          "tinfo": ["C22", "C03"], "size": ["C27"], "random": ["C34"], "scancel": ["C14"]}


def CRASHTAGS(why, ev):
    c = ev["c"]
    if c == "fault":
        return ["C21"]
    t = list(OPTAGS.get(c, ["C26"]))
    if why == "hang":
        t.append("C24")
    if ev.get("m") == "CKM_HOTP":
        t.append("C31")
    return t + (["C25"] if c == "par" else [])


def hmech(ev):
    m, p = ev["m"], ev.get("par")
    return m if p is None else [m, p]


def to_cmd(ev):
    c = ev["c"]
    d = {"c": c}
    if "s" in ev:
        d["s"] = ev["s"]
    if "slot" in ev:
        d["slot"] = int(ev["slot"])
    for k in ("rw", "noserial", "user", "o", "o2", "src", "label", "n", "chunk", "bind", "k", "wk", "ks", "out", "otp",
              "iv", "gen", "fixed", "aad", "tag", "rb", "a"):
        if k in ev:
            d[k] = ev[k]
    for k in ("pin", "old", "new"):
        if k in ev:
            d[k] = "s:" + ev[k]
    if "t" in ev:
        d["t"] = htmpl(ev["t"])
    if "t2" in ev:
        d["t2"] = htmpl(ev["t2"])
    if c == "minfo":
        d["m"] = int(ev["m"]) if ev["m"].isdigit() else ev["m"]
    elif "m" in ev:
        d["m"] = hmech(ev)
    elif c == "opinit":
        d["m"] = None
    if c in ("op", "upd", "fin", "msg", "unwrap"):
        d["data"] = ev.get("din", "x")
    if "sig" in ev:
        d["sig"] = ev["sig"]
    if c == "wrap":
        d["k"] = ev["ko"]
    if c == "derive":
        d["k"] = ev["ko"]
    return d


def rec(t):
    d = {}
    for n, v in t:
        d[n] = v
    return d


def dups(t):
    n = len(t)
    return "no" if len(rec(t)) == n else "same" if len(set(map(tuple, t))) == len(rec(t)) else "differ"


DROP = {"par", "otp", "rb"}


def norm(ev, r):
    e = {k: v for k, v in ev.items() if k not in DROP}
    c = e["c"]
    e["rv"] = r["rv"]
    if "t" in ev:
        e["t"] = rec(ev["t"])
        e["td"] = dups(ev["t"])
    if "t2" in ev:
        e["t2"] = rec(ev["t2"])
        e["td2"] = dups(ev["t2"])
    if "m" in ev and c != "minfo":
        p = ev.get("par")
        e["mp"] = "" if isinstance(p, dict) and "okey" in p else canon(p)
        if isinstance(p, dict) and "ccm" in p:
            e["dlen"] = p["ccm"].get("dlen", 0)
    if c in ("op", "upd", "fin", "msg", "wrap"):
        e.setdefault("din", "x")
        e.setdefault("sig", "x")
        out = ev.get("out")
        e["null"] = out == "null"
        e["cap"] = 0 if out == "null" else (out if isinstance(out, int) else 4096)
        e["len"] = r.get("len", 0)
        e["canary"] = r.get("canary", "ok")
        e.pop("out", None)
        if r["rv"] == "OK" and not e["null"] and "len" in r:
            e["dout"] = r.get("data", "x")
        if c == "msg":
            for k in ("ivout", "tagout"):
                if k in r:
                    e[k] = r[k]
            e.setdefault("tag", "x")
    if c == "sinfo" and r["rv"] == "OK":
        e["state"], e["slotid"], e["rwf"] = r["state"], str(r["slot"]), r["rwf"]
    if c == "slots" and "ids" in r:
        e["ids"] = [str(x) for x in r["ids"]]
    if c == "get":
        e.pop("a", None)
    for k in ("h", "h2", "attrs", "attrs2", "flags", "label", "serial", "nsess", "nrw", "list", "nnull", "small", "minfo", "out", "hs",
              "names", "okfns", "oh", "objs", "dups", "found"):
        if k in r and k not in ("label",) and not (k == "out" and c != "get"):
            e[k] = r[k]
    if c == "tinfo" and "label" in r:
        e["label"] = r["label"]
    if c == "random" and "data" in r:
        e["data"] = r["data"]
    if c == "search":
        e.pop("hs", None)
    return e
