#!/usr/bin/env python3
"""Contract checker.  check.py <property> [--tier quick|thorough] [--unit NAME] [-v]

Every unit (units/<property>/*.c) states the contract of functions of /repo's current source.  The unit and
the real source files are compiled with goto-cc, instrumented (goto-instrument --dfcc enforces a function
contract / replaces callees by theirs / applies loop contracts) and handed to cbmc, which must discharge every
generated obligation.  See DESIGN.md for the verdict rules."""
import sys, os, re, json, subprocess, time, shutil, threading, argparse, resource, hashlib, tempfile, ctypes
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CHECKS = ["--no-standard-checks", "--pointer-check", "--bounds-check", "--div-by-zero-check",
          "--no-malloc-may-fail", "--drop-unused-functions", "--object-bits", "10", "--max-field-sensitivity-array-size", "300"]
INC = ["-I%s/include" % REPO, "-I%s/src/rtmessage" % REPO, "-I%s/src/core" % REPO, "-I%s/src/rbus" % REPO,
       "-I%s/src/session_manager" % REPO, "-I%s/vlib" % V, "-I/usr/include/cjson"]
DEFS = ["-DRBUS_ALWAYS_ON", "-D_TIME_BITS=64", "-D_FILE_OFFSET_BITS=64", "-DBUILD_FOR_DESKTOP", "-DMSG_ROUNDTRIP_TIME"]
NATIVE_CC = ["gcc", "-g", "-O0", "-fno-inline", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-DV_NATIVE",
             "-fcommon", "-Wl,--allow-multiple-definition"]
MEM_LIMIT = 12 << 30
DEADLINE = None
STOP = threading.Event()      # a violation is confirmed on the real code: no need to go on
LIBC = ctypes.CDLL(None)
VERBOSE = False

def log(*a):
    if VERBOSE: print(*a, file=sys.stderr, flush=True)

def run(cmd, timeout, cwd=None, env=None, out=None):
    """-> (rc, stdout, stderr); rc None on timeout"""
    left = DEADLINE - time.time()
    timeout = max(1, min(timeout, left))
    if STOP.is_set(): return None, "", "stopped: a violation is confirmed already"
    def lim(): LIBC.prctl(1, 9); resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    def die(): LIBC.prctl(1, 9)
    pre = die if "a.out" in cmd[0] else lim
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre, start_new_session=True)
        end = time.time() + timeout
        while True:
            try:
                o, e = p.communicate(timeout=max(0.1, min(2, end - time.time()))); break
            except subprocess.TimeoutExpired:
                if time.time() < end and not STOP.is_set(): continue
                try: os.killpg(p.pid, 9)
                except OSError: pass
                p.communicate()
                return None, "", "stopped: a violation is confirmed already" if STOP.is_set() else "timeout after %ds" % timeout
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except OSError as ex:
        return 127, "", str(ex)

class Unit:
    pass

def parse_units(prop):
    units = []
    d = os.path.join(V, "units", prop)
    if not os.path.isdir(d): return units
    for f in sorted(os.listdir(d)):
        if not f.endswith(".c"): continue
        kv, variants = {}, []
        for line in open(os.path.join(d, f)):
            m = re.match(r"//@\s*([\w-]+):\s*(.*?)\s*$", line)
            if not m: continue
            k, v = m.groups()
            if k == "variant":
                name, _, rest = v.partition(" ")
                variants.append((name, rest.strip()))
            else:
                kv[k] = (kv[k] + " " + v) if k in kv else v
        for name, rest in (variants or [("", "")]):
            u = Unit()
            u.file = os.path.join(d, f); u.prop = prop
            u.name = f[:-2] + ("." + name if name else "")
            u.kv = dict(kv)
            o = {}
            # variant options: -Dflags, plus key=value overrides
            u.vdefs = []
            for t in rest.split():
                if t.startswith("-D"): u.vdefs.append(t)
                elif "=" in t:
                    k, _, v2 = t.partition("="); u.kv[k] = v2.replace(",", " ")
            g = lambda k, dflt="": u.kv.get(k, dflt)
            u.desc = g("desc"); u.kind = g("kind", "proof"); u.bound = g("bound")
            u.enforce_rec = g("enforce-rec").split()  # recursive: inner calls are checked against the contract
            u.enforce = g("enforce").split(); u.replace = g("replace").split()
            u.stub = g("stub").split(); u.fptr = g("fptr").split()
            u.loops = g("loops")                      # loop-contracts file
            u.sources = g("sources").split(); u.nsources = g("nsources").split(); u.nlibs = g("nlibs").split()
            u.unwind = g("unwind"); u.unwindset = g("unwindset"); u.flags = g("flags").split()
            u.defs = g("defs").split(); u.functions = g("functions").split()
            u.timeout = int(g("timeout", "300")); u.tier = g("tier", "quick")
            u.fallback = g("fallback")                # "unwind=N -DX ..." bounded configuration
            u.trusted = [x.strip() for x in g("trusted").split(";") if x.strip()]
            u.solver = g("solver"); u.cost = int(g("cost", "10"))
            units.append(u)
    return units

class Res:
    def __init__(s): s.status = "error"; s.props = []; s.msg = ""; s.secs = 0.0; s.nobody = []; s.cmds = []

def has_flag(u, f): return any(x.startswith(f) for x in u.flags)

def build_goto(u, wd, tag, defs, mode_proof):
    r = Res()
    gb = os.path.join(wd, tag + ".gb")
    srcs = [os.path.join(V, "vlib", f) for f in ("vf_common.c", "vf_libc.c")] + [os.path.join(REPO, s) if not s.startswith("vlib/") else os.path.join(V, s) for s in u.sources]
    if u.stub:
        # the callees in u.stub are replaced by their contract in executable form (given in the unit): drop their bodies
        objs = []
        for s in srcs:
            ob = os.path.join(wd, tag + "." + os.path.basename(s) + ".o")
            c1 = ["goto-cc", "-c"] + DEFS + INC + u.defs + u.vdefs + defs + [s, "-o", ob]
            rc, o, e = run(c1, 120); r.cmds.append(c1)
            if rc != 0: r.msg = "goto-cc: " + (e + o)[-1500:]; return r, None
            ob2 = ob + ".2"
            c2 = ["goto-instrument"] + [x for f in u.stub for x in ("--remove-function-body", f)] + [ob, ob2]
            rc, o, e = run(c2, 60); r.cmds.append(c2)
            if rc != 0: r.msg = "goto-instrument: " + (e + o)[-1500:]; return r, None
            objs.append(ob2)
        srcs = objs
    cmd = ["goto-cc", "--function", "vf_harness"] + DEFS + INC + u.defs + u.vdefs + defs + [u.file] + srcs + ["-o", gb]
    rc, o, e = run(cmd, 120); r.cmds.append(cmd)
    if rc != 0:
        r.msg = "goto-cc: " + (e + o)[-1500:]; return r, None
    dfcc = mode_proof and (u.enforce or u.enforce_rec or u.replace or u.loops)
    if dfcc:
        gb2 = os.path.join(wd, tag + ".dfcc.gb")
        if u.fptr:  # dfcc cannot find a loop whose body calls through a pointer; the restriction is itself an obligation
            gbp = os.path.join(wd, tag + ".fp.gb")
            cmd = ["goto-instrument"] + [x for f in u.fptr for x in ("--restrict-function-pointer", f)] + [gb, gbp]
            rc, o, e = run(cmd, 60); r.cmds.append(cmd)
            if rc == 0: gb = gbp
        cmd = ["goto-instrument", "--no-malloc-may-fail", "--dfcc", "vf_harness"]
        for f in u.enforce: cmd += ["--enforce-contract", f]
        for f in u.enforce_rec: cmd += ["--enforce-contract-rec", f]
        for f in u.replace: cmd += ["--replace-call-with-contract", f]
        if u.loops:
            if u.loops != "inplace": cmd += ["--loop-contracts-file", os.path.join(os.path.dirname(u.file), u.loops)]
            cmd += ["--apply-loop-contracts"]
        cmd += [gb, gb2]
        rc, o, e = run(cmd, 180); r.cmds.append(cmd)
        if rc != 0:
            r.msg = "goto-instrument: " + (e + o)[-1500:]; return r, None
        gb = gb2
    return r, gb

def cbmc_cmd(u, gb, unwind, unwindset, extra):
    base = list(CHECKS)
    for f in ("--object-bits", "--max-field-sensitivity-array-size"):
        if has_flag(u, f):
            i = base.index(f); del base[i:i + 2]
    cmd = ["cbmc", gb] + base + u.flags
    if unwind: cmd += ["--unwind", unwind]
    if unwindset: cmd += ["--unwindset", unwindset]
    if unwind or unwindset: cmd += ["--unwinding-assertions"]
    if u.solver: cmd += ["--" + u.solver]
    return cmd + ["--json-ui"] + extra

def parse_json(o):
    try: return json.loads(o)
    except Exception: return None

def solve(u, wd, tag, defs, mode_proof, unwind, unwindset, timeout):
    t0 = time.time()
    r, gb = build_goto(u, wd, tag, defs, mode_proof)
    if gb is None:
        r.secs = time.time() - t0; return r, None
    cmd = cbmc_cmd(u, gb, unwind, unwindset, [])
    r.cmds.append(cmd)
    rc, o, e = run(cmd, timeout)
    r.secs = time.time() - t0
    if rc is None: r.status = "timeout"; r.msg = e; return r, gb
    j = parse_json(o)
    if j is None: r.msg = "cbmc rc=%s %s %s" % (rc, o[-800:], e[-800:]); return r, gb
    res = None
    for x in j:
        if isinstance(x, dict):
            if "result" in x: res = x["result"]
            if x.get("messageText", "").startswith("**** WARNING: no body for function"):
                r.nobody.append(x["messageText"].split()[-1])
    if res is None:
        r.msg = "cbmc gave no result: " + "; ".join(x.get("messageText", "") for x in j if isinstance(x, dict) and x.get("messageType") in ("ERROR", "WARNING"))[-800:]
        return r, gb
    r.props = res
    r.status = "done"
    return r, gb

def classify(r):
    reach_ok, vac, failed, other = [], [], [], []
    for p in r.props:
        d = p.get("description", "")
        if d.startswith("REACH "):
            (reach_ok if p["status"] == "FAILURE" else vac).append(p)
        elif p["status"] == "FAILURE": failed.append(p)
        elif p["status"] == "SUCCESS": other.append(p)
        else: failed.append(p)
    return reach_ok, vac, failed, other

def solve_grow(u, wd, tag, defs, mode_proof, unwind, unwindset, timeout):
    """like solve, but a loop that needs more iterations than configured gets them (a rewritten loop must not end the check)"""
    uws = dict(x.rsplit(":", 1) for x in unwindset.split(",") if x)
    secs = 0.0
    for attempt in range(4):
        r, gb = solve(u, wd, tag, defs, mode_proof, unwind, ",".join("%s:%s" % kv for kv in uws.items()), timeout)
        secs += r.secs; r.secs = secs
        if r.status != "done": return r, gb
        reach, vac, failed, ok = classify(r)
        open_loops = [p["property"].replace(".unwind.", ".") for p in failed if ".unwind." in p["property"]]
        if not open_loops or len(failed) != len(open_loops): return r, gb
        for l in open_loops:
            old = int(uws.get(l, unwind or "4"))
            if old >= 2000: return r, gb
            uws[l] = str(old * 4 + 4)
        u.unwindset_used = ",".join("%s:%s" % kv for kv in uws.items())
    return r, gb

def trace_inputs(tr):
    vals = []
    for s in tr:
        if s.get("stepType") == "assignment" and s.get("lhs", "").startswith("vf_input") and not s.get("hidden"):
            v = s.get("value", {})
            b = v.get("binary")
            if b is None: continue
            vals.append((int(s.get("sourceLocation", {}).get("line", "0")), int(b, 2), s))
    last = max((l for (l, _, _) in vals), default=0)     # drop the declaration steps
    return [v for v in vals if v[0] == last]

def get_traces(u, gb, unwind, unwindset, failed, timeout):
    """one counterexample (list of input words) per failing obligation"""
    out = []
    pr = sorted(failed, key=lambda p: (0 if "assertion" in p["property"] or "postcondition" in p["property"] else 1, "unwind" in p["property"]))
    for p in pr[:6]:
        rc, o, e = run(cbmc_cmd(u, gb, unwind, unwindset, ["--trace", "--property", p["property"]]), timeout)
        if rc is None: continue
        j = parse_json(o)
        if not j: continue
        for x in j:
            if isinstance(x, dict) and "result" in x:
                for q in x["result"]:
                    if q.get("status") == "FAILURE" and "trace" in q:
                        iv = [v for (_, v, s) in trace_inputs(q["trace"])]
                        out.append((q, iv))
    return out

_lib_lock = threading.Lock()
_lib = {}
def native_lib(base):
    """the real libraries, compiled natively, for the replay programs (only members a unit does not bring itself are linked)"""
    with _lib_lock:
        if "a" in _lib: return _lib["a"]
        wd = os.path.join(base, "nativelib"); os.makedirs(wd, exist_ok=True)
        jobs = []
        for d in ("rtmessage", "core", "rbus"):
            sd = os.path.join(REPO, "src", d)
            names = re.findall(r"^\s+(\w+\.c)\b", open(os.path.join(sd, "CMakeLists.txt")).read(), re.M) + (["rtRoutingTree.c"] if d == "rtmessage" else [])
            for n in dict.fromkeys(names):
                if os.path.exists(os.path.join(sd, n)): jobs.append((os.path.join(sd, n), os.path.join(wd, n[:-2] + ".o")))
        cc = [x for x in NATIVE_CC if not x.startswith("-Wl")]
        def one(j): return run(cc + DEFS + INC + ["-c", j[0], "-o", j[1]], 120)[0] == 0
        with ThreadPoolExecutor(8) as ex: ok = list(ex.map(one, jobs))
        a = os.path.join(wd, "libvf.a")
        run(["ar", "rcs", a] + [j[1] for j, k in zip(jobs, ok) if k], 60)
        _lib["a"] = a
        return a

def native_sources(u):
    return list(u.sources) + [s for s in u.nsources if s != "@all"]

def native_build(u, wd, defs):
    exe = os.path.join(wd, "replay.a.out")
    srcs = [u.file, os.path.join(V, "vlib", "vf_common.c")] + [os.path.join(REPO, s) if not s.startswith("vlib/") else os.path.join(V, s) for s in native_sources(u)]
    cmd = NATIVE_CC + DEFS + INC + u.defs + u.vdefs + defs + srcs + ["-o", exe, native_lib(os.path.dirname(wd)), "-lpthread", "-lm", "-lmsgpackc", "-lcjson", "-ldl"] + u.nlibs
    rc, o, e = run(cmd, 120)
    return (exe, cmd) if rc == 0 else (None, (e + o)[-1500:])

def replay(exe, inputs, wd, n, leaks=False):
    f = os.path.join(wd, "inputs%d.txt" % n)
    open(f, "w").write("".join("%x\n" % v for v in inputs))
    env = dict(os.environ, VF_REPLAY=f, ASAN_OPTIONS="detect_leaks=%d:exitcode=99:allocator_may_return_null=1" % leaks)
    rc, o, e = run([exe], 20, cwd=wd, env=env)
    bad = rc is None or (rc not in (0, 77))
    if rc is not None and rc != 0 and ("PRECONDITION NOT MET" in e or "LeakSanitizer has encountered a fatal error" in e): bad = False
    return bad, rc, (e + o)[-3000:], f

def fb_config(u):
    unwind, uws, defs = u.unwind or "6", u.unwindset, []
    for t in u.fallback.split():
        if t.startswith("unwind="): unwind = t[7:]
        elif t.startswith("unwindset="): uws = t[10:]
        elif t.startswith("-D"): defs.append(t)
    return unwind, uws, defs

def check_unit(u, base):
    wd = os.path.join(base, u.name); os.makedirs(wd, exist_ok=True)
    t0 = time.time()
    out = {"unit": u.name, "desc": u.desc, "kind": u.kind, "bound": u.bound, "functions": u.functions, "enforced": u.enforce + u.enforce_rec,
           "replaced": u.replace + u.stub, "loops": u.loops, "trusted": u.trusted, "verdict": "undecided", "obligations": 0, "discharged": 0,
           "reach_points": 0, "msg": "", "replay": None, "confirmed": False}
    try: nat_only = u.kv.get("native-only") == "yes"
    except Exception: nat_only = False
    r, gb = solve_grow(u, wd, "proof", [], True, u.unwind, u.unwindset, u.timeout)
    u.unwindset = getattr(u, "unwindset_used", u.unwindset)
    out["solver_s"] = round(r.secs, 2); out["nobody"] = sorted(set(r.nobody))
    out["cmd"] = [" ".join(c) for c in r.cmds]
    cex = []
    failed = vac = []
    if r.status == "done":
        reach, vac, failed, ok = classify(r)
        out["obligations"] = len(ok) + len(failed); out["discharged"] = len(ok); out["reach_points"] = len(reach)
        if not failed and not vac and len(ok) > 0:
            out["verdict"] = "held"; out["wall"] = round(time.time() - t0, 2); return out
        unwind_only = failed and all(".unwind." in p["property"] for p in failed) and not vac
        if failed and gb: cex = get_traces(u, gb, u.unwind, u.unwindset, failed, u.timeout)
        out["failed"] = [{"obligation": p["property"], "description": p.get("description"), "at": p.get("sourceLocation", {})} for p in failed[:20]] + \
                        [{"obligation": p["property"], "description": p.get("description") + " (no longer reachable)"} for p in vac]
    else:
        unwind_only = False
        out["msg"] = r.status + ": " + r.msg
    log(u.name, r.status, r.msg[-600:], [p["property"] + ": " + p.get("description", "") for p in failed], "VACUOUS" if vac else "")
    # replay against the real code
    fu, fs, fd = fb_config(u)
    tried = []
    def try_replay(cexs, defs):
        exe, cmd = native_build(u, wd, defs)
        if exe is None:
            out["msg"] += " | native build failed: " + cmd; return False
        for i, (q, iv) in enumerate(cexs):
            bad, rc, txt, f = replay(exe, iv, wd, i, has_flag(u, "--memory-leak-check"))
            tried.append((q["property"], rc, txt[-300:]))
            if bad:
                out["confirmed"] = True; out["verdict"] = "violated"
                out["replay_info"] = {"obligation": q["property"], "description": q.get("description"), "inputs": ["%x" % v for v in iv],
                                      "native_cmd": " ".join(cmd), "native_rc": rc, "native_output": txt}
                return True
        return False
    if cex and try_replay(cex, []):
        out["wall"] = round(time.time() - t0, 2); return out
    # bounded stand-in: no contract replacement, no loop contract, loops unwound
    need_fb = (r.status != "done") or failed or vac
    same = not (u.enforce or u.enforce_rec or u.replace or u.loops) and not fd and fu == u.unwind and fs == u.unwindset
    fbok = None
    if need_fb and not same:
        r2, gb2 = solve(u, wd, "bounded", fd + ["-DV_BOUNDED"], False, fu, fs, u.timeout)
        out["fallback"] = {"status": r2.status, "msg": r2.msg[-300:], "unwind": fu, "secs": round(r2.secs, 2)}
        if r2.status == "done":
            reach2, vac2, failed2, ok2 = classify(r2)
            hard2 = [p for p in failed2 if ".unwind." not in p["property"]]
            log(u.name, "bounded", [p["property"] + ": " + p.get("description", "") for p in failed2], "VAC" if vac2 else "")
            if failed2:
                c2 = get_traces(u, gb2, fu, fs, failed2, u.timeout)
                if try_replay(c2, fd + ["-DV_BOUNDED"]):
                    out["wall"] = round(time.time() - t0, 2); return out
            fbok = not hard2 and not vac2
            out["fallback"]["clean"] = bool(fbok); out["fallback"]["obligations"] = len(ok2) + len(failed2); out["fallback"]["discharged"] = len(ok2)
    out["tried"] = tried
    out["wall"] = round(time.time() - t0, 2)
    if r.status != "done":
        # the tool could not state the obligations on this source: the bounded stand-in decides, if it ran
        if fbok: out["verdict"] = "held-bounded"; out["bound"] = "fallback, loops unwound %s times" % fu
        elif fbok is False: out["verdict"] = "violated"
        return out
    hard = [p for p in failed if ".unwind." not in p["property"]]
    if any(".no-body." in p["property"] for p in failed):
        out["verdict"] = "undecided"; out["msg"] = "calls a function the verifier has no body for: " + ", ".join(p["property"].split(".")[-1] for p in failed if ".no-body." in p["property"])
        return out
    if not hard and vac and failed:
        out["verdict"] = "undecided"; out["msg"] = "loop bounds too small for this source, nothing beyond them was explored"
        return out
    if not hard and not vac:
        # only the unwinding bound is too small for this source: nothing failed up to the bound
        out["verdict"] = "held-bounded"; out["bound"] = "loops unwound %s times (unwinding assertion open)" % u.unwind
        return out
    out["verdict"] = "violated"
    return out

def known_findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) unit=(\S+) obligation=\"(.*?)\" (.*)$", l.strip())
            if m: out.append(m.groups())
    return out

def main():
    global DEADLINE, VERBOSE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--unit"); ap.add_argument("-v", action="store_true"); ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--native", action="store_true", help="only build and run the replay programs, with all-zero inputs")
    a = ap.parse_args()
    VERBOSE = a.v
    t0 = time.time()
    budget = 800 if a.tier == "quick" else 7200
    DEADLINE = t0 + budget
    units = parse_units(a.prop)
    if a.tier == "quick": units = [u for u in units if u.tier == "quick"]
    if a.unit: units = [u for u in units if u.name == a.unit or u.name.startswith(a.unit + ".") or u.name.startswith(a.unit)]
    if not units: print("no units for", a.prop); sys.exit(2)
    base = os.path.join(V, "build", "%s.%d" % (a.prop, os.getpid())); shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    units.sort(key=lambda u: -u.cost)
    if a.native:
        def nat(u):
            wd = os.path.join(base, u.name); os.makedirs(wd)
            exe, cmd = native_build(u, wd, [])
            if not exe: return u.name, "BUILD FAILED " + cmd
            if os.environ.get("VF_KEEP"): print(" ".join(cmd))
            bad, rc, txt, f = replay(exe, [], wd, 0, has_flag(u, "--memory-leak-check"))
            return u.name, ("BAD rc=%s %s" % (rc, txt)) if bad else "ok rc=%s" % rc
        with ThreadPoolExecutor(a.j) as ex:
            for x in ex.map(nat, units): print("%-34s %s" % x)
        if not os.environ.get("VF_KEEP"): shutil.rmtree(base, ignore_errors=True)
        sys.exit(0)
    kf = known_findings()
    def known(r):
        fl = r.get("failed", [])
        for (p, un, ob, txt) in kf:
            if p == a.prop and un == r["unit"] and fl and all(ob in (x["description"] or "") for x in fl): return txt
    def job(u):
        r = check_unit(u, base)
        if r["verdict"] == "violated" and r["confirmed"] and not known(r): STOP.set()
        elif STOP.is_set() and r["verdict"] == "violated": r["verdict"] = "undecided"; r["msg"] += " | stopped: a violation of another unit is confirmed already"
        return r
    with ThreadPoolExecutor(a.j) as ex: results = list(ex.map(job, units))
    viol, undecided = [], []
    for r in results:
        print("%-34s %-12s %4d/%-4d obligations %7.1fs %s" % (r["unit"], r["verdict"], r["discharged"], r["obligations"], r.get("wall", 0), r["bound"] if r["kind"] != "proof" or r["verdict"] == "held-bounded" else ""))
        if r["verdict"] == "undecided": undecided.append(r)
        if r["verdict"] == "undecided" and not STOP.is_set(): print("  UNDECIDED:", r["msg"][-700:].replace("\n", " "))
        if r["verdict"] == "violated":
            hit = known(r)
            if hit: print("KNOWN-FINDING: property=%s %s" % (a.prop, hit)); r["verdict"] = "known-finding"
            else: viol.append(r)
    proof = [r for r in results if r["kind"] == "proof" and r["verdict"] == "held"]
    bounded = [r for r in results if (r["kind"] != "proof" and r["verdict"] == "held") or r["verdict"] == "held-bounded"]
    trusted = sorted(set(t for r in results for t in r["trusted"]))
    nobody = sorted(set(f for r in results for f in r.get("nobody", [])))
    level = "proof" if any(u.kind == "proof" for u in units) else "other"
    isb = lambda r: r["kind"] != "proof" or r["verdict"] == "held-bounded"
    ev = {"property": a.prop, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": {"explanation": "contracts on the real functions, every obligation discharged by cbmc; obligations/discharged count only units that hold for all inputs and all iterations, bounded stand-ins are counted separately under bounded_obligations",
                       "obligations": sum(r["obligations"] for r in results if not isb(r)), "discharged": sum(r["discharged"] for r in results if not isb(r)),
                       "bounded_obligations": sum(r["obligations"] for r in results if isb(r)), "bounded_discharged": sum(r["discharged"] for r in results if isb(r)),
                       "checker_cmd": "python3 check.py %s --tier %s  (goto-cc; goto-instrument --dfcc; cbmc 6.11, SAT back end unless a unit says otherwise)" % (a.prop, a.tier),
                       "trusted_base": ["goto-cc/goto-instrument/cbmc 6.11 and its SAT solver", "CBMC's models of libc functions", "malloc does not fail (the code aborts when it does)"] + trusted +
                                       (["functions without a body, treated as returning an arbitrary value and changing nothing: " + ", ".join(nobody)] if nobody else []),
                       "functions_under_contract": sorted(set(f for r in results if r["verdict"] in ("held",) for f in r["functions"])),
                       "contracts_enforced_by_dfcc": sorted(set(f for r in results for f in r["enforced"])),
                       "callees_replaced_by_contract": sorted(set(f for r in results for f in r["replaced"])),
                       "bounded_units": [{"unit": r["unit"], "bound": r["bound"]} for r in bounded],
                       "undecided_units": [{"unit": r["unit"], "why": r["msg"][-300:]} for r in undecided],
                       "reachability_points": sum(r["reach_points"] for r in results),
                       "back_end": {"cbmc-sat": sum(1 for u in units if not u.solver), "smt": sum(1 for u in units if u.solver)},
                       "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
                       "units": [{k: r.get(k) for k in ("unit", "desc", "kind", "bound", "verdict", "obligations", "discharged", "reach_points", "solver_s", "cmd", "failed", "fallback")} for r in results]},
          "assumptions": trusted + ["machine integers are modelled bit-precisely (no mathematical-integer abstraction)"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    if not a.unit: json.dump(ev, open(os.path.join(V, "evidence", a.prop + ".json"), "w"), indent=1)
    rd = os.path.join(V, "replays", a.prop)
    viol.sort(key=lambda r: not r["confirmed"])
    for r in viol:
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, r["unit"] + ".json")
        json.dump({"property": a.prop, "unit": r["unit"], "contract": r["desc"], "functions": r["functions"], "failed_obligations": r.get("failed"),
                   "replay_on_real_code": r.get("replay_info"), "verifier": r.get("cmd"), "fallback": r.get("fallback"), "attempted_replays": r.get("tried"), "msg": r["msg"][-2000:]}, open(p, "w"), indent=1)
        for x in r.get("failed", [])[:4]: print("  failed obligation: %s: %s" % (x["obligation"], x["description"]))
        if r["confirmed"]: print("  replayed on the real code: " + r["replay_info"]["native_output"].strip().split("\n")[0][:200])
        print("VIOLATION property=%s replay=%s%s" % (a.prop, p, "" if r["confirmed"] else " no-failing-input-found"))
    if not os.environ.get("VF_KEEP"): shutil.rmtree(base, ignore_errors=True)
    if viol: sys.exit(1)
    if len(undecided) == len(results): sys.exit(2)
    sys.exit(0)
main()
