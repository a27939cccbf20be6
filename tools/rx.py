"""Building the harness, running traces in it and validating them with TLC."""
import json, os, re, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
BTARGET = os.path.join(VERIF, "btarget")


class ToolError(Exception):
    pass


def build(features=()):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    cmd = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s; cargo build --offline -q" % TARGET
    if features:
        cmd += " --features " + ",".join(features)
    p = subprocess.run(["bash", "-c", cmd], cwd=os.path.join(VERIF, "harness"), env=env,
                       capture_output=True, text=True, timeout=800)
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stderr[-4000:])
    return os.path.join(TARGET, "debug", "rxh")


def build_bevy():
    """The harness around a Bevy app; it has its own lock file and so its own target directory."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    cmd = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s; cargo build --offline -q" % BTARGET
    p = subprocess.run(["bash", "-c", cmd], cwd=os.path.join(VERIF, "bevy_harness"), env=env,
                       capture_output=True, text=True, timeout=800)
    if p.returncode != 0:
        raise ToolError("bevy harness build failed:\n" + p.stderr[-4000:])


def run_traces(traces, jobs=8, timeout=600, hang_ms=8000, bevy=False):
    """Runs the traces in the real library; returns them with what was observed."""
    exe = os.path.join(BTARGET, "debug", "rxb") if bevy else os.path.join(TARGET, "debug", "rxh")
    chunks = [traces[i::jobs] for i in range(jobs)]
    procs = []
    for c in chunks:
        if not c:
            continue
        f = tempfile.TemporaryFile("w+")
        for t in c:
            f.write(json.dumps(t) + "\n")
        f.seek(0)
        out = tempfile.TemporaryFile("w+")
        procs.append((subprocess.Popen([exe, "run", str(hang_ms)], stdin=f, stdout=out, stderr=subprocess.DEVNULL), out, c))
    res = {}
    for p, out, c in procs:
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("harness run timed out")
        out.seek(0)
        for line in out:
            o = json.loads(line)
            res[o["id"]] = o
        if p.returncode != 0 or any(t["id"] not in res for t in c):
            missing = [t["id"] for t in c if t["id"] not in res]
            # a crash of the process (abort, stack overflow) is an observation of the first missing trace
            if missing and p.returncode != 0:
                res[missing[0]] = {"id": missing[0], "steps": [{"ev": [[11]]}]}
    out = []
    for t in traces:
        o = res.get(t["id"])
        if o is None:
            continue
        out.append(dict(t, steps=o["steps"]))
    return out


def tlc(module, env, workers=4, heap="3g", timeout=800, extra=(), cfg=None):
    e = dict(os.environ, **env)
    md = tempfile.mkdtemp(prefix="tlc")
    jar = "/opt/veriftools/tla"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-cp", TLC_CP, "tlc2.TLC", "-workers", str(workers),
           "-metadir", md, "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        subprocess.run(["rm", "-rf", md])
    return p.returncode, p.stdout + p.stderr


def _cp():
    s = open("/usr/local/bin/tlc").read() if os.path.exists("/usr/local/bin/tlc") else ""
    if not s:
        from shutil import which
        s = open(which("tlc")).read()
    m = re.search(r"-cp\s+\"?([^\s\"]+)", s)
    return m.group(1) if m else "/opt/veriftools/tla/tla2tools.jar"


TLC_CP = _cp()


def validate(traces, workers=8, timeout=800, module="Trace", per=4000):
    """Trace validation. Returns (accepted ids, {id: rejection}, distinct states, states generated)."""
    acc, rej, states, gen = set(), {}, 0, 0
    for k in range(0, len(traces), per):
        part = traces[k:k + per]
        f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False)
        for t in part:
            f.write(json.dumps(t) + "\n")
        f.close()
        rc, out = tlc(module, {"TRACE_FILE": f.name}, workers=workers, timeout=timeout)
        os.unlink(f.name)
        text = re.sub(r"\n\s+", " ", out)
        for m in re.finditer(r'<<\s*"ACCEPT", ("[^"]*"|\d+)\s*>>', text):
            acc.add(json.loads(m.group(1)))
        for m in re.finditer(r'<<\s*"REJECT", ("[^"]*"|\d+), (\d+), "((?:[^"\\]|\\.)*)"\s*>>', text):
            d = json.loads('"' + m.group(3) + '"')
            rej[json.loads(m.group(1))] = dict(json.loads(d), step=int(m.group(2)))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            gen += int(m[-1][0])
            states += int(m[-1][1])
        missing = [t["id"] for t in part if t["id"] not in acc and t["id"] not in rej]
        if rc != 0 or missing:
            raise ToolError("TLC failed (rc %s, %d traces undecided, first %s):\n%s" % (rc, len(missing), missing[:3], out[-3000:]))
    return acc, rej, states, gen


def canon(o):
    return json.dumps({"st": o["st"], "log": o["log"]}, sort_keys=True)


def outcomes(programs, run, timeout=600):
    """Every outcome the specification allows for each of the programs."""
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    for p in programs:
        f.write(json.dumps({k: p[k] for k in ("id", "n", "pre", "react", "thr")}) + "\n")
    f.close()
    try:
        rc, out = tlc("Conc", {"PROGRAMS": f.name}, workers=8, heap="8g", timeout=timeout)
    finally:
        os.unlink(f.name)
    if "No error has been found" not in out:
        raise ToolError("the specification of concurrent use does not hold itself:\n" + out[-3000:])
    m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
    run.states += int(m.group(2))
    run.transitions += int(m.group(1))
    reach = {p["id"]: set() for p in programs}
    for i, o in re.findall(r'<<"OUT", "([^"]+)", "((?:[^"\\]|\\.)*)">>', out):
        reach[i].add(canon(json.loads(json.loads('"%s"' % o))))
    for p in programs:
        if not reach[p["id"]]:
            raise ToolError("no outcome was explored for " + p["id"])
    return reach


def run_threads(programs, jobs=2, timeout=800):
    exe = os.path.join(TARGET, "debug", "rxh")
    procs, res = [], {}
    for c in [programs[i::jobs] for i in range(jobs)]:
        f = tempfile.TemporaryFile("w+")
        f.writelines(json.dumps(p) + "\n" for p in c)
        f.seek(0)
        out = tempfile.TemporaryFile("w+")
        procs.append((subprocess.Popen([exe, "threads"], stdin=f, stdout=out, stderr=subprocess.DEVNULL), out, c))
    for p, out, c in procs:
        try:
            p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("running the threads timed out")
        out.seek(0)
        for line in out:
            o = json.loads(line)
            res[o["id"]] = o
        left = [x["id"] for x in c if x["id"] not in res]
        if left and p.returncode != 3:
            res[left[0]] = {"id": left[0], "rounds": 0, "out": [["crash", 1]]}
        for x in left:       # one that hangs ends the process
            res.setdefault(x, {"id": x, "rounds": 0, "out": []})
    return res
