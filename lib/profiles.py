"""Which executions are produced for which property.  The specification decides about them."""
import json, os, random, re, time
from collections import Counter
from kx import World, Died
from gen import Gen, SOPIN, UPIN, PINS, BADPINS
from validate import tlc, validate, TraceError

W_SESS = dict(open=10, close=6, closeall=1.5, sinfo=8, tinfo=2, login=9, relogin=2, logout=5, create=3, copy=.5, set=.5, destroy=.3,
              read=1, search=1.5, find=.5, snap=1, reboot=.7, setpin=1, initpin=1, inittoken=.4, badpins=.3)
W_PIN = dict(open=4, close=2, closeall=.5, sinfo=1.5, tinfo=5, login=8, relogin=3, logout=4, create=2, snap=1, reboot=1.2, setpin=5,
             initpin=3, inittoken=.5, badpins=3)
W_OBJ = dict(open=4, close=2, closeall=.5, sinfo=1, tinfo=1, login=4, relogin=5, logout=1.5, create=14, copy=7, set=9, destroy=4, read=3,
             size=1, get=4, search=5, find=2, snap=2, reboot=1, setpin=.7, initpin=.4, inittoken=.3, badpins=.1)
W_SEARCH = dict(W_OBJ, search=16, find=8, create=14, logout=2.5, get=1)
W_READ = dict(W_OBJ, get=16, read=8, search=4, set=6)
W_LIFE = dict(W_OBJ, open=7, close=5, closeall=1.2, login=6, logout=4, destroy=6, find=3)
W_SET = dict(W_OBJ, set=18, copy=12, create=12, read=4)
W_LOCK = dict(W_PIN, badpins=8, tinfo=5, reboot=1.5, initpin=2.5)
W_PERS = dict(W_OBJ, reboot=4, setpin=1.5, create=12, set=8, destroy=5)
W_INIT = dict(W_OBJ, inittoken=4, reboot=1.5, tinfo=3, closeall=2)
W_FAIL = dict(W_OBJ, set=14, copy=9, create=14, destroy=5, snap=4)

W_CRY = dict(open=4, close=1.5, closeall=.15, sinfo=.3, login=3, relogin=5, logout=.4, create=12, copy=2, set=2, destroy=1, read=.5, snap=.6, reboot=.3,
             crypt=26, start=3, stray=1.5, dual=3, digkey=1.5, message=3, random=1, genkey=2, genpair=1)
W_USE = dict(W_CRY, near=34, start=14, set=6, create=14, crypt=14, wrap=4, unwrap=2, derive=4)
W_OPS = dict(W_CRY, start=6, stray=7, dual=6, digkey=3, message=5, find=3, crypt=22, create=9)
W_BUF = dict(W_CRY, wrap=4, dual=5, get=2)
W_KEYS = dict(W_OBJ, genkey=8, genpair=4, wrap=8, unwrap=8, derive=10, create=12, set=4, copy=4, destroy=1, search=2, crypt=3, get=1, find=.3, size=.2)
W_WRAP = dict(W_KEYS, wrap=20, unwrap=14, derive=1, genpair=2, genkey=3, logout=.5)
W_DERIVE = dict(W_KEYS, derive=26, genkey=8, genpair=6, unwrap=7, wrap=5, logout=.5)
W_AA = dict(W_CRY, aauth=20, crypt=12, dual=4, create=10, logout=1, login=6, setpin=.4)
W_HOTP = dict(W_CRY, hotp=24, create=12, crypt=1, dual=0, message=0, reboot=1.5, copy=2, set=2, genkey=2, logout=.8, login=4)
W_FRESH = dict(W_CRY, random=8, message=12, genkey=10, genpair=6, reboot=1.5)
W_REST = dict(W_OBJ, create=16, tamper=5, forge=2, scan=2, setpin=1.5, reboot=.6, genkey=3, genpair=2, crypt=4, copy=4, set=4, unwrap=2, wrap=2, derive=2)
W_MECH = dict(W_CRY, mechs=12, start=14, crypt=14, genkey=5, genpair=2, wrap=5, unwrap=4, derive=8, create=14)
W_DUP = dict(W_OBJ, create=26, search=6, copy=1, destroy=7, set=3, relogin=6, logout=1.2)
W_FAULT = dict(W_OBJ, fault=30, create=10, genkey=2, genpair=1, hotp=2, crypt=1, setpin=.7, snap=1, reboot=.4)
W_ALL = dict(W_CRY, find=2, search=2, get=2, size=1, set=3, copy=2, destroy=2, wrap=3, unwrap=2, derive=4, hotp=3, sinfo=2, tinfo=2, setpin=1, initpin=1,
             inittoken=.7, closeall=.7, close=3, mechs=1, aauth=1, crypt=8, start=2, create=6, genkey=3, genpair=.6, login=5, logout=2)
W_PAR = dict(par=30, open=1, close=.3, create=1, relogin=1, search=.5, snap=.3)
W_NSS = dict(W_OBJ, create=14, genkey=2, genpair=1, set=8, destroy=4, search=6, reboot=2, setpin=2, badpins=.7, inittoken=.3, crypt=4, initpin=.4)
W_UP = dict(W_SESS, life=7, create=5, reboot=1, search=1, read=1, setpin=1)


def stats(ev, r):
    c = Counter(e["c"] for e in ev)
    r["calls"] = dict(c)
    for e in ev:
        for x in e.get("evs", [e]):
            if "rv" in x:
                r["accepted" if x["rv"] == "OK" else "refused"] = r.get("accepted" if x["rv"] == "OK" else "refused", 0) + 1
    return r


def brief(e):
    d = {}
    for k, v in e.items():
        s = json.dumps(v)
        d[k] = v if len(s) < 120 else s[:100] + "..."
    return d


def decide(ev, tmp, tag):
    """validate a recorded history; job result"""
    path = os.path.join(tmp, "tr_%s.ndjson" % tag)
    issues, end = validate(ev, path)
    os.unlink(path)
    start = 0
    res = []
    for b in issues[:40]:
        k = b["k"]
        st = max([i for i in range(k) if ev[i]["c"] == "reset"] or [0])
        b["ev"] = ev[k - 1]
        b["trace"] = ev[st:k]
        res.append(b)
    mid = [e for e in ev if e["c"] not in ("reset", "forget", "kat", "note")]
    r = {"issues": res, "traces": sum(1 for e in ev if e["c"] == "reset"), "events": len(ev), "states": end.get("states", len(ev)),
         "transitions": end.get("trans", len(ev)), "sample": [brief(e) for e in mid[len(mid) // 2:len(mid) // 2 + 3]]}
    return stats(ev, r)


_FULL = []


def fullmechs():
    """the mechanisms of an unrestricted slot"""
    if not _FULL:
        w = World()
        try:
            w.init()
            w.do(dict(c="inittoken", slot="0", pin="12345678", label="x"))
            _FULL.extend(w.do(dict(c="mechs", slot="0"))["list"])
        finally:
            w.close()
    return _FULL


def options(o, rng, prof):
    """configuration of the slots"""
    if o in ("deny", "allow", "denyallow"):
        prof["full"] = fullmechs()
        full = [m for m in prof["full"] if m[:4] == "CKM_"]
        if o == "denyallow":
            return {0: {"denied": rng.sample(full, 12)}, 1: {"allowed": rng.sample(full, len(full) * 3 // 4)}}
        if o == "deny":
            return {0: {"denied": rng.sample(full, rng.choice([1, 5, 20, len(full) // 3, len(full) // 2]))}}
        return {0: {"allowed": rng.sample(full, rng.choice([len(full) * 3 // 4, len(full) // 2, len(full) // 3]))}}
    if o == "dedupall":
        return {i: {"dedup": "All"} for i in range(2)}
    if o == "dedup":
        return {i: {"dedup": rng.choice(["TrustOnly", "TrustAndCertificates", "All", "All"])} for i in range(2)}
    return o


def k_hist(pid, p, seed, tmp, deadline):
    """random histories chosen adaptively"""
    rng = random.Random(seed)
    ev = []
    for _ in range(p.get("worlds", 4)):
        prof = dict(p.get("prof", {}))
        w = World(slots=p.get("slots", ("sqlite",)), opts=options(p.get("opts"), rng, prof), env=p.get("env"))
        g = Gen(rng, w, prof)
        try:
            g.begin()
            g.loop(p["w"], p.get("steps", 130))
            g.end()
        except Died:
            pass
        finally:
            w.close()
        ev += w.ev
    return decide(ev, tmp, "%x" % seed)


def segments(lk):
    """what calls do between points at which they hold nothing; repetitions of what is done under a lock are dropped"""
    out = {}
    for call, l in lk:
        held, cur = [], []
        for a, i, what in l:
            n = "%s%d" % (what, i)
            if a == "u":
                cur.append(("u", n, tuple(held)))
                k = max((j for j, h in enumerate(held) if h[1:] == n), default=None)
                if k is not None:
                    held.pop(k)
                # taking and releasing the same thing again under the same locks adds nothing
                if len(cur) >= 4 and cur[-2:] == cur[-4:-2]:
                    del cur[-2:]
            else:
                cur.append((a, n, tuple(held)))
                held.append(a + n)
            if not held:
                out.setdefault(tuple(cur), set()).add(call)
                cur = []
        if cur:
            out.setdefault(tuple(cur), set()).add(call)      # a lock that is never released
    return out


def k_locks(pid, p, seed, tmp, deadline):
    """record how calls take locks; TLC explores all interleavings of any two and three of them"""
    rng = random.Random(seed)
    w = World(slots=p.get("slots", ("sqlite", "sqlite")), opts=options(p.get("opts"), rng, {}))
    w.lk = []
    g = Gen(rng, w, dict(p.get("prof", {}), full=fullmechs()))
    issues, st, tr = [], 0, 0
    try:
        g.begin()
        g.loop(p["w"], p.get("steps", 250))
        w.do(dict(c="fini"))
        w.init()
    except Died:
        issues = [e for e in w.ev if e["c"] == "issue"]
    finally:
        w.close()
    segs = segments(w.lk)
    progs = sorted(segs, key=lambda s: (len(s), s))
    deep = [s for s in progs if any(len(h) for _, _, h in s)]
    res = {"pairs": len(progs), "triples": 0, "calls": sorted({c for c, _ in w.lk})}
    def shape(s):
        m = {}
        return tuple((a, m.setdefault(n, "%s.%d" % (n.rstrip("0123456789"), sum(x.rstrip("0123456789") == n.rstrip("0123456789") for x in m))), len(h)) for a, n, h in s)
    few = {}
    for s in deep:
        few.setdefault(shape(s), s)
    few = list(few.values())
    rng.shuffle(few)
    bad = []
    for n, ps in ((2, progs), (3, few[:p.get("three", 14)])):
        if not ps:
            continue
        path = os.path.join(tmp, "locks-%x-%d.json" % (seed, n))
        with open(path, "w") as f:
            json.dump({"threads": n, "progs": [[{"a": a, "l": l, "h": list(h)} for a, l, h in s] for s in ps]}, f)
        rc, out = tlc("Locks.tla", "Locks.cfg", {"PROGS": path}, timeout=max(60, deadline - time.time()))
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if m:
            tr, st = tr + int(m.group(1)), st + int(m.group(2))
        if n == 3:
            res["triples"] = len(ps)
        d = re.search(r'"DEADLOCK (.*)"', out)
        if d:
            x = json.loads(d.group(1).replace('\\"', '"'))
            bad.append("; ".join("a thread in %s (%s) waits at %s" % ("/".join(sorted(segs[ps[y["p"] - 1]])[:4]), " ".join(a + l for a, l, _ in ps[y["p"] - 1]),
                                 "the end" if y["at"] > len(ps[y["p"] - 1]) else "".join(ps[y["p"] - 1][y["at"] - 1][:2])) for y in x))
        elif rc != 0 or not m:
            raise TraceError("TLC on Locks.tla: %d %s" % (rc, out[-600:]))
    iss = [{"k": 0, "c": "locks", "i": [{"t": ["C24"], "r": "deadlock: " + x}], "ev": {"c": "locks"}, "trace": []} for x in bad]
    iss += [{"k": 0, "c": "issue", "i": [{"t": e["tags"], "r": e["why"]}], "ev": {"c": "issue"}, "trace": w.ev} for e in issues]
    r = {"issues": iss, "traces": 1, "events": len(w.ev), "states": st, "transitions": tr,
         "mc": {"module": "Locks", "programs": len(progs), "pairs": len(progs) * (len(progs) + 1) // 2, "programs_in_triples": res["triples"], "states": st,
                "calls": len(res["calls"])}}
    return stats(w.ev, r)


KINDS = {"hist": k_hist, "locks": k_locks}


def H(w, n=8, **k):
    return ("hist", dict(w=w, **k)), n


P = {
    "C01": [H(W_SESS, 6), H(W_SESS, 4, slots=("sqlite", "sqlite"), prof=dict(maxsess=7)), H(W_OBJ, 2)],
    "C02": [H(W_SESS, 6, prof=dict(badpin=.25)), H(W_SESS, 3, slots=("sqlite", "sqlite"), prof=dict(maxsess=7)), H(W_PIN, 3)],
    "C03": [H(W_LOCK, 8), H(W_LOCK, 3, prof=dict(lockwho="so")), H(W_PIN, 3)],
    "C04": [H(W_PIN, 9), H(dict(W_PIN, create=8, setpin=7, badpins=1), 5)],
    "C05": [H(dict(W_OBJ, logout=5, get=6, size=4, read=4), 8), H(dict(W_KEYS, logout=5, start=5), 4), H(dict(W_CRY, logout=5), 3)],
    "C06": [H(dict(W_OBJ, logout=4, open=8, close=6), 7, prof=dict(tok=.75)), H(dict(W_KEYS, open=7, close=3, genpair=10, logout=2), 7, prof=dict(tok=.6, ro=.5))],
    "C07": [H(W_LIFE, 8), H(dict(W_KEYS, close=2, closeall=.4, logout=2, destroy=6), 3), H(dict(W_CRY, close=2, logout=2, destroy=5), 3)],
    "C08": [H(W_SEARCH, 12)],
    "C09": [H(dict(W_READ, search=10, copy=10), 9, prof=dict(kinds=["aes", "gen", "hotp", "rsapriv", "ecpriv", "aes", "rsapriv"], ctl=.05)),
            H(dict(W_KEYS, get=10, read=5, search=6, copy=6, set=6), 5)],
    "C10": [H(W_SET, 12, prof=dict(ctl=.35))],
    "C11": [H(W_SET, 8), H(W_KEYS, 6)],
    "C12": [H(W_USE, 14)],
    "C13": [H(W_AA, 14, prof=dict(aauth=.5))],
    "C14": [H(W_OPS, 14, prof=dict(abandon=.15))],
    "C15": [H(W_BUF, 14, prof=dict(buf=.7))],
    "C16": [H(W_CRY, 16, prof=dict(fulluse=.9))],
    "C17": [H(W_WRAP, 14)],
    "C18": [H(W_DERIVE, 14)],
    "C31": [H(W_HOTP, 14)],
    "C34": [H(W_FRESH, 10)],
    "C19": [H(W_PERS, 12, prof=dict(tok=.75))],
    "C22": [H(W_INIT, 8), H(W_INIT, 5, slots=("sqlite", "sqlite"))],
    "C26": [H(W_FAIL, 12, prof=dict(spoil=.35))],
    "C27": [H(W_READ, 12)],
    "C20": [H(W_FAULT, 12, env={"KV_SHIM": "1"}, prof=dict(tok=.8, fmodes=["kill", "tear"]))],
    "C21": [H(W_FAULT, 12, env={"KV_SHIM": "1"}, prof=dict(tok=.8, fmodes=["eio", "enospc", "eiostick", "read", "readstick", "eio"]))],
    "C23": [H(W_REST, 12, prof=dict(tok=.85, scan=True, kinds=["aes", "gen", "hotp", "rsapriv", "ecpriv", "aes", "gen"]))],
    "C29": [H(W_DUP, 8, opts="dedup", prof=dict(tok=.85, issuer=.97, fewids=True)),
            H(dict(W_DUP, create=34), 5, opts="dedupall", prof=dict(tok=.9, spoil=.02, ctl=.02, oneid=True, kinds=["aes", "gen", "rsapriv", "ecpriv", "rsapub", "ecpub", "cert", "data"])),
            H(W_DUP, 3, prof=dict(tok=.8, issuer=.97, kinds=["trust", "trust", "cert", "aes", "trust"]))],
    "C30": [H(W_MECH, 8, opts="deny"), H(W_MECH, 5, opts="allow"), H(W_MECH, 3, opts="denyallow", slots=("sqlite", "sqlite"))],
    "C24": [(("locks", dict(w=W_ALL, slots=("sqlite", "sqlite"), prof=dict(maxsess=4))), 4), H(W_PAR, 9, steps=60, slots=("sqlite", "sqlite"))],
    "C25": [H(W_PAR, 12, opts=None, steps=60)],
    "C32": [H(W_NSS, 6, slots=("nssdb",), prof=dict(tok=.8)),
            H(dict(W_NSS, tamper=5, setpin=3, scan=1), 4, slots=("nssdb",), prof=dict(tok=.9, kinds=["rsapriv", "rsapub", "ecpriv", "trust", "cert", "aes", "gen"])),
            H(dict(W_KEYS, setpin=1.5, reboot=1.5), 4, slots=("nssdb",), prof=dict(tok=.8)),
            H(dict(W_CRY, setpin=1, reboot=1), 2, slots=("nssdb",), prof=dict(tok=.8)),
            H(dict(W_PERS, relogin=6), 3, slots=("nssdb", "sqlite"), prof=dict(tok=.8, maxsess=7))],
    "C33": [H(W_UP, 8), H(W_UP, 5, slots=("sqlite", "sqlite"), prof=dict(maxsess=6))],
    "C28": [H(W_OBJ, 7, slots=("sqlite", "sqlite"), prof=dict(maxsess=7)), H(dict(W_PIN, create=6, badpins=2), 5, slots=("sqlite", "sqlite", "sqlite"), prof=dict(maxsess=8))],
}

LEVEL = {}
ASSUME = {"*": [
    "the library is driven through C_GetFunctionList of a build of /repo with the features of /opt/vp/env.sh (no eddsa: OpenSSL 3.0)",
    "the specification represents cryptographic results as uninterpreted functions plus known answers; the primitives are OpenSSL's"]}


def jobs(pid, tier):
    res = []
    for (kind, params), n in P[pid]:
        k = n if tier == "quick" else n * 12
        for _ in range(k):
            res.append((kind, params))
    # interleave so that long jobs do not end up last
    return res


HOOKS = {"guard": "--cfg kryoptic_locktrace",
         "enable": "RUSTFLAGS='--cfg kryoptic_locktrace' (set by lib/build.sh when it builds the library for the checks)",
         "source_commits": ["5ec1e9a5b37a44d05446ecce47fb853564608401"]}
TECH = {
    "C24": "TLA+ model of the lock programs recorded from the real calls, all interleavings of pairs and of sampled triples explored by TLC; "
           "controlled scheduling of the real library at its lock operations with deadlock detection",
    "C25": "TLA+ specification checked with TLC: overlapping calls of the real library, scheduled at its lock operations, have to have a "
           "linearization the specification accepts",
}
NA = {}
NOTE = {}


def note(i):
    return NOTE.get(i, "random histories of the real library, chosen adaptively with a seed, each validated call by call against the "
                       "TLA+ specification by TLC; bounded by the number and length of the histories")
