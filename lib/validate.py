"""Runs TLC on recorded traces."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def tlc(module, cfg, env=None, timeout=600, workers="1", heap="3g", extra=(), cwd=None):
    meta = tempfile.mkdtemp(prefix="kvtlc_")
    e = dict(os.environ)
    e.update(env or {})
    cp = JAR + ":" + ":".join(sorted(os.path.join("/opt/veriftools/tla", f) for f in os.listdir("/opt/veriftools/tla")
                                     if f.endswith(".jar") and f != "tla2tools.jar"))
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC" if workers != "1" else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta,
           "-cp", cp, "tlc2.TLC", "-deadlock", "-noGenerateSpecTE", "-workers", workers, "-metadir", meta,
           "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as t:
        return 124, (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


class TraceError(Exception):
    pass


def validate(events, path, timeout=600, heap="3g"):
    """-> list of {k, c, i:[{t,r}]}; raises TraceError if TLC could not read the whole trace"""
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    rc, out = tlc("Trace.tla", "Trace.cfg", {"TRACE": path}, timeout, heap=heap)
    bads, end = [], None
    for l in out.splitlines():
        m = re.match(r'^"(BAD|END) (.*)"$', l)
        if m:
            d = json.loads(m.group(2).replace('\\"', '"').replace("\\\\", "\\"))
            if m.group(1) == "BAD":
                bads.append(d)
            else:
                end = d
    if end is None or end["n"] != len(events):
        why = [l for l in out.splitlines() if re.search("Attempted|Error:|EXCEPT|rror was|not in|No |java", l)][:8]
        raise TraceError("TLC did not finish (%d): %s\n%s" % (rc, " / ".join(why), "\n".join(x for x in out.splitlines() if not re.match(r"\d+\. Line", x) and not x.startswith(
            ("Linting", "Semantic", "Parsing")))[-1500:]))
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    if m:
        end["trans"], end["states"] = int(m.group(1)), int(m.group(2))
    seen, res = set(), []
    for d in bads:
        if d["k"] not in seen:
            seen.add(d["k"])
            res.append(d)
    return res, end
