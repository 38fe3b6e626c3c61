"""Runs proof units: one unit = one harness over a real source file of /repo, with jobs
(compile-time parameters). Everything is rebuilt from /repo's working tree on every run."""
import json, os, re, subprocess, sys, time, hashlib, shutil, tempfile, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HAR = os.path.join(VERIF, "harness")
INC = ["-I" + os.path.join(REPO, "filehash"), "-I" + HAR]
TAG = re.compile(r"^\[([A-Z0-9,]+)\]")

class Job:
    def __init__(self, unit, name, defs, opts=None, unwind=None, timeout=None, mode="cbmc", weight=1, dfcc=None, props=None, shard="0/1", src=None, bounded=False):
        self.unit, self.name, self.defs = unit, name, defs
        self.opts = opts or []
        self.unwind = unwind; self.timeout = timeout; self.mode = mode; self.weight = weight
        self.dfcc = dfcc; self.props = props; self.shard = shard; self.src = src; self.bounded = bounded or mode == "native"

def limit_mem(gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f

def sh(cmd, timeout, mem=12, env=None):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit_mem(mem), env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate(); rc = "timeout"
    return rc, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t

BASE = ["--unwinding-assertions", "--no-standard-checks", "--bounds-check", "--pointer-check",
        "--object-bits", "16", "--no-malloc-may-fail", "--max-field-sensitivity-array-size", "1100"]

def cbmc_cmd(job, trace_prop=None):
    u = job.unit
    if job.mode == "goto":       # a goto binary prepared by prepare()
        cmd = ["cbmc", job.goto] + list(job.opts)
        cmd += ["--unwinding-assertions", "--no-standard-checks", "--pointer-check", "--bounds-check", "--no-malloc-may-fail"]
        if job.unwind or u.unwind: cmd += ["--unwind", str(job.unwind or u.unwind)]
    else:
        cmd = ["cbmc", os.path.join(HAR, u.file)] + getattr(job, "inc", []) + INC + ["-D" + d for d in job.defs] + BASE + list(job.opts)
        cmd += ["--unwind", str(job.unwind or u.unwind)]
    if trace_prop:
        cmd += ["--property", trace_prop, "--trace"]
    elif "--cvc5" not in cmd and "--z3" not in cmd and job.mode != "goto":
        cmd += ["--slice-formula"]
    return cmd + ["--json-ui", "--verbosity", "8"]

def prepare(job, tmp):
    """contract instrumentation: goto-cc, then goto-instrument --dfcc"""
    d = job.dfcc; u = job.unit
    a = os.path.join(tmp, job.name + ".a.gb"); b = os.path.join(tmp, job.name + ".b.gb")
    cmd = ["goto-cc", "-o", a, os.path.join(HAR, u.file)] + INC + ["-D" + x for x in job.defs] + ["--function", d["harness"]]
    rc, o, e, t = sh(cmd, 120)
    if rc != 0: return "goto-cc: " + (o + e)[-800:]
    cmd = ["goto-instrument", "--dfcc", d["harness"]]
    for f in d.get("enforce", []): cmd += ["--enforce-contract", f]
    for f in d.get("replace", []): cmd += ["--replace-call-with-contract", f]
    if d.get("loops"): cmd += ["--apply-loop-contracts"]
    if d.get("loopfile"):
        cmd += ["--loop-contracts-file", os.path.join(HAR, d["loopfile"])]
    cmd += d.get("instr", [])
    cmd += [a, b]
    rc, o, e, t = sh(cmd, 300)
    if rc != 0: return "goto-instrument: " + (o + e)[-1500:]
    job.goto = b
    return None

def parse(out):
    try: j = json.loads(out)
    except Exception:
        return None, None, None
    props, msgs, status = [], [], None
    for x in j:
        if "result" in x: props = x["result"]
        if "messageText" in x: msgs.append(x["messageText"])
        if "cProverStatus" in x: status = x["cProverStatus"]
    return props, msgs, status

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow,shift,null,vptr", "-fno-sanitize-recover=undefined"]
def run_native(job, tmp, prop):
    """contract execution: the harness and the real sources compiled, scenarios enumerated (bounded)"""
    u = job.unit
    r = dict(unit=u.name, job=job.name, error=None, failed=[], obligations=0, discharged=0, vccs=0, solver_s=0.0, wall=0.0, reach=0, scenarios=0, native=True)
    t0 = time.time()
    exe = os.path.join(tmp, "g_%s_%s" % (u.name, re.sub(r"\W", "_", job.name)))
    srcs = [os.path.join(HAR, u.file), os.path.join(VERIF, "vp", "native.c")] + [os.path.join(REPO, x) for x in (job.src or [])]
    cmd = ["gcc", "-g", "-O1", "-w", "-DVP_NATIVE_GRID"] + SAN + ["-o", exe] + srcs + INC + ["-D" + d for d in job.defs] + list(job.opts) + ["-lpthread"]
    r["cmd"] = " ".join(cmd)
    rc, o, e, t = sh(cmd, 200, mem=64)
    if rc != 0:
        r["error"] = "native build failed: " + (o + e)[-800:]; r["wall"] = time.time() - t0; return r
    d = exe + ".d"; os.makedirs(d, exist_ok=True)
    env = dict(os.environ, VP_GRID=job.shard, VP_PROP=prop, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1", TMPDIR=d)
    env.pop("VP_INPUT", None)
    p = subprocess.Popen([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d, start_new_session=True)
    try:
        o, e = p.communicate(timeout=job.timeout or u.timeout); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, e = p.communicate(); rc = "timeout"
    shutil.rmtree(d, ignore_errors=True)
    o, e = o.decode("utf8", "replace"), e.decode("utf8", "replace")
    r["wall"] = time.time() - t0
    g = re.search(r"VP-RAN (\d+)", o)
    r["scenarios"] = int(g.group(1)) if g else 0
    if rc == "timeout": r["error"] = "contract execution timed out"; return r
    if rc == 0 and r["scenarios"] > 0: return r
    m = re.search(r"VP-(FAIL|CRASH) (.*)", o)
    if not m: r["error"] = "contract execution gave no result (rc=%s): %s" % (rc, (o + e)[-500:]); return r
    desc = m.group(2)
    san = re.search(r"(ERROR: AddressSanitizer.*|runtime error:.*|Assertion .*failed.*)", e)
    r["failed"].append(dict(id="execution", desc=desc + (" | " + san.group(1) if san else ""), file=u.file, line="", fn=""))
    r["output"] = o[-3000:] + "\n--- stderr (end)\n" + e[-5000:]
    return r

def run_job(job, tmp, prop=None):
    if job.mode == "native": return run_native(job, tmp, prop)
    u = job.unit
    r = dict(unit=u.name, job=job.name, error=None, failed=[], obligations=0, discharged=0, vccs=0, solver_s=0.0, wall=0.0, reach=0)
    t0 = time.time()
    if job.mode == "goto":
        err = prepare(job, tmp)
        if err:
            r["error"] = err; r["wall"] = time.time() - t0; return r
    if u.gen: job.inc = u.gen(REPO, tmp)
    cmd = cbmc_cmd(job); r["cmd"] = " ".join(cmd)
    rc, o, e, t = sh(cmd, job.timeout or u.timeout, mem=u.mem)
    r["wall"] = time.time() - t0
    if rc == "timeout":
        r["error"] = "timeout after %ds" % (job.timeout or u.timeout); return r
    props, msgs, status = parse(o)
    if props is None or status is None or not props:
        r["error"] = "cbmc gave no result (rc=%s): %s" % (rc, (o[-600:] + e[-300:])); return r
    for m in msgs:
        g = re.match(r"Generated (\d+) VCC\(s\)", m)
        if g: r["vccs"] = int(g.group(1))
        g = re.match(r"Runtime Solver: ([\d.e+-]+)s", m)
        if g: r["solver_s"] += float(g.group(1))
    seen_reach = 0
    nobody = [p["property"].split(".")[-1] for p in props if ".no-body." in p["property"] and p["status"] == "FAILURE"]
    if nobody: r["error"] = "a function with neither contract nor body here: " + " ".join(nobody); return r
    for p in props:
        if ".no-body." in p["property"]: continue
        d, s = p.get("description", ""), p["status"]
        if d.startswith("REACH "):
            seen_reach += 1
            if s != "FAILURE": r["error"] = "vacuous: %s is unreachable" % d
            continue
        if s not in ("SUCCESS", "FAILURE"):
            if d.startswith("unwinding") or u.allow_unknown: continue
            r["error"] = "obligation %s: %s" % (p["property"], s); continue
        r["obligations"] += 1
        if s == "SUCCESS": r["discharged"] += 1
        else:
            l = p.get("sourceLocation", {})
            r["failed"].append(dict(id=p["property"], desc=d, file=l.get("file", ""), line=l.get("line", ""), fn=l.get("function", "")))
    r["reach"] = seen_reach
    if seen_reach == 0 and not u.no_reach: r["error"] = r["error"] or "no reachability witness"
    if r["failed"] and r["error"] and r["error"].startswith("vacuous"): r["error"] = None
    if r["obligations"] == 0: r["error"] = r["error"] or "no obligations"
    if job.mode == "goto" and r["failed"]:
        # a loop contract names the loop's variables, so another correct loop may not fit it: no alarm, the bounded
        # twin of this obligation decides
        r["error"] = "loop contract does not fit: " + "; ".join(f["id"] + " " + f["desc"] for f in r["failed"][:3]); r["failed"] = []
    return r

def tags(desc):
    g = TAG.match(desc)
    return set(g.group(1).split(",")) if g else None

def is_unwind(f): return f["desc"].startswith("unwinding assertion") or ".unwind." in f["id"]

def get_inputs(job, f):
    cmd = cbmc_cmd(job, trace_prop=f["id"])
    rc, o, e, t = sh(cmd, 240, mem=12)
    props, msgs, st = parse(o) if rc != "timeout" else (None, None, None)
    if not props: return None, "no trace (rc=%s)" % rc
    for p in props:
        if p["property"] == f["id"] and "trace" in p:
            vals = []
            for s in p["trace"]:
                if s.get("stepType") == "assignment" and s.get("lhs") == "vp_nd" and not s.get("hidden"):
                    d = s.get("value", {}).get("data")
                    try: vals.append(int(re.sub(r"[uUlL]+$", "", d)))
                    except Exception: vals.append(0)
            return vals, None
    return None, "no trace in the verifier's output"

def native(job, tmp, vals, tag="x"):
    """compile the same harness and the same /repo source natively and run it on the inputs"""
    u = job.unit
    if not u.native: return None, "this unit has no native reading"
    exe = os.path.join(tmp, "n_%s_%s_%s" % (u.name, re.sub(r"\W", "_", job.name), tag))
    cmd = ["gcc", "-g", "-O0", "-w", "-fsanitize=address,undefined", "-fno-sanitize=alignment,pointer-overflow,shift,null,vptr", "-fno-sanitize-recover=undefined",
           "-o", exe, os.path.join(HAR, u.file), os.path.join(VERIF, "vp", "native.c")] + INC + ["-D" + d for d in job.defs] + ["-lpthread"]
    rc, o, e, t = sh(cmd, 120, mem=16)
    if rc != 0: return None, "native build failed: " + e[-500:]
    inp = exe + ".in"
    open(inp, "w").write("\n".join(str(v) for v in vals) + "\n")
    env = dict(os.environ, VP_INPUT=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
    p = subprocess.Popen([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=tmp, start_new_session=True)
    try:
        o, e = p.communicate(timeout=20); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, e = p.communicate(); rc = "hang"
    return rc, (o.decode("utf8", "replace")[-1500:] + e.decode("utf8", "replace")[-2500:])

def replay(prop, job, f, r, tmp):
    d = os.path.join(VERIF, "replay", "%s-%s-%s" % (prop, job.unit.name, re.sub(r"\W+", "_", job.name)))
    os.makedirs(d, exist_ok=True)
    if job.mode == "native":
        path = os.path.join(d, "replay.json")
        json.dump(dict(property=prop, unit=job.unit.name, job=job.name, obligation=f, harness="harness/" + job.unit.file, defines=job.defs, shard=job.shard,
                       seed=os.environ.get("VERIF_SEED", "1"), build=r.get("cmd"), how="build as given, run with VP_GRID=%s VP_PROP=%s" % (job.shard, prop),
                       confirmed_natively=True, output=r.get("output")), open(path, "w"), indent=1)
        return True, path
    vals, err = get_inputs(job, f)
    confirmed = False; note = err or ""
    if vals is not None:
        open(os.path.join(d, "inputs.txt"), "w").write("\n".join(map(str, vals)) + "\n")
        rc, out = native(job, tmp, vals)
        note = "native run of the same harness on these inputs: rc=%s\n%s" % (rc, out)
        # a failed obligation (91), a sanitizer report, an abort or a hang in the real code
        confirmed = rc == 91 or rc == "hang" or (isinstance(rc, int) and rc not in (0, 92))
    path = os.path.join(d, "replay.json")
    json.dump(dict(property=prop, unit=job.unit.name, job=job.name, obligation=f, harness="harness/" + job.unit.file,
                   defines=job.defs, functions=job.unit.functions, verifier_cmd=r.get("cmd"), all_failed=r["failed"],
                   inputs=None if vals is None else len(vals), confirmed_natively=confirmed, note=note), open(path, "w"), indent=1)
    return confirmed, path
