"""check.sh ID quick|thorough: runs the jobs of a property in parallel, has TLC decide, writes the evidence."""
import glob, json, multiprocessing, os, re, shutil, subprocess, sys, tempfile, time, traceback, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))


def work(args):
    pid, jn, kind, params, seed, tmp, deadline = args
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    import profiles
    from validate import TraceError
    t0 = time.time()
    try:
        r = profiles.KINDS[kind](pid, params, seed, tmp, deadline)
        r.update(job=jn, kind=kind, seed=seed, wall=time.time() - t0)
        return r
    except TraceError as e:
        return {"job": jn, "kind": kind, "seed": seed, "error": "trace not validated: " + str(e)[-2500:]}
    except Exception:
        return {"job": jn, "kind": kind, "seed": seed, "error": traceback.format_exc()[-2500:]}


def known(pid):
    """[(entry, predicate)]"""
    res = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        l = l.strip()
        m = re.match(r"known: property=(\S+) match=(\{.*?\}) (.*)$", l)
        if m and m.group(1) == pid:
            res.append((json.loads(m.group(2)), m.group(3)))
    return res


def matches(pat, ev, issue):
    """pat: field -> exact value in the event, or "why" -> regular expression on the text"""
    for k, v in pat.items():
        if k == "why":
            if not re.search(v, issue["r"]):
                return False
        else:
            cur = ev
            for x in k.split("."):
                cur = cur.get(x) if isinstance(cur, dict) else None
            if cur != v:
                return False
    return True


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="kvrun_")
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        code = go(pid, tier, seed, t0, tmp, rdir)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code


def go(pid, tier, seed, t0, tmp, rdir):
    import profiles
    deadline = t0 + (560 if tier == "quick" else 3600)
    jobs = profiles.jobs(pid, tier)
    todo = []
    for i, (kind, params) in enumerate(jobs):
        sd = random.Random("%s/%d/%d" % (pid, seed, i)).getrandbits(48)
        todo.append((pid, i, kind, params, sd, tmp, deadline))
    errors, viol, kn, others = [], [], {}, {}
    cov = dict(states=0, transitions=0, traces=0, events=0, calls={}, mc=[], samples=[], accepted=0, refused=0, extra={})
    kf = known(pid)
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(work, todo):
            if "error" in r:
                errors.append(r)
                continue
            for k in ("states", "transitions", "traces", "events", "accepted", "refused"):
                cov[k] += r.get(k, 0)
            for k, v in r.get("calls", {}).items():
                cov["calls"][k] = cov["calls"].get(k, 0) + v
            for k, v in r.get("extra", {}).items():
                cov["extra"][k] = cov["extra"].get(k, 0) + v
            if r.get("mc"):
                cov["mc"].append(r["mc"])
            if r.get("sample") and len(cov["samples"]) < 4:
                cov["samples"].append(r["sample"])
            for b in r.get("issues", []):
                mine = [i for i in b["i"] if pid in i["t"]]
                if not mine:
                    others[b["c"]] = others.get(b["c"], 0) + 1
                    if os.environ.get("KV_ALL"):
                        print("OTHER", json.dumps(b["i"])[:600], "\n   ", json.dumps({k: v for k, v in b["ev"].items() if k not in ("attrs", "objs", "evs", "attrs2")})[:500])
                        with open("/tmp/other-%s-%d.ndjson" % (pid, sum(others.values())), "w") as f:
                            for e in b["trace"]:
                                f.write(json.dumps(e) + "\n")
                    continue
                rest = []
                for i in mine:
                    hit = next((t for p, t in kf if matches(p, b["ev"], i)), None)
                    if hit is None:
                        rest.append(i)
                    else:
                        kn[hit] = kn.get(hit, 0) + 1
                if rest:
                    viol.append((r, b, rest))
    wall = time.time() - t0
    for t, n in kn.items():
        print("KNOWN-FINDING: property=%s %s (%d times)" % (pid, t, n))
    for _, t in kf:
        if t not in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, t))
    code = 0
    for n, (r, b, rest) in enumerate(viol[:5]):
        path = os.path.join(rdir, "%s-%d-%d.ndjson" % (pid, seed, n))
        with open(path, "w") as f:
            f.write(json.dumps({"property": pid, "job": r["kind"], "seed": r["seed"], "event": b["k"], "issues": rest,
                                "how": "the recorded calls follow, one per line; the last one contradicts the specification; "
                                       "validate with lib/replay.py"}) + "\n")
            for e in b.get("trace", []):
                f.write(json.dumps(e) + "\n")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        for i in rest[:4]:
            print("   %s: %s" % (b["c"], i["r"][:400]))
        print("   call: %s" % json.dumps({k: v for k, v in b["ev"].items() if k not in ("attrs", "objs", "evs", "attrs2")})[:700])
        code = 1
    if len(viol) > 5:
        print("   ... and %d more" % (len(viol) - 5))
    if others:
        print("note: contradictions that concern other properties only: %s" % json.dumps(others))
    for e in errors[:3]:
        print("ERROR job %s %s seed %s: %s" % (e["job"], e["kind"], e["seed"], e["error"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": profiles.LEVEL.get(pid, "model_checking"),
          "coverage": {"states": cov["states"], "transitions": cov["transitions"],
                       "traces_validated_against_impl": cov["traces"], "calls_validated": cov["events"],
                       "calls_by_kind": dict(sorted(cov["calls"].items())), "calls_accepted": cov["accepted"],
                       "calls_refused": cov["refused"], "models": cov["mc"], "other": cov["extra"],
                       "samples": cov["samples"]},
          "assumptions": profiles.ASSUME.get(pid, []) + profiles.ASSUME["*"], "wall_s": round(wall, 1),
          "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d traces, %d calls validated, %d model states, %.0f s, %s" % (
        pid, tier, cov["traces"], cov["events"], cov["states"], wall, "VIOLATED" if code else "ok" if not errors else "INCOMPLETE"))
    if code == 0 and errors:
        return 2
    return code


r = main()
sys.exit(10 if r == 1 else r)
