#!/usr/bin/env python3
"""Contract checker driver.

usage: check.py PROPERTY|all [--tier quick|thorough] [--unit NAME] [-v]

For every unit attached to the property:
  goto-cc           compiles the contract file, which #includes the real
                    source files of /repo/src (current working tree)
  goto-instrument   --dfcc: turns the contracts into obligations
                    (enforce on the unit's function, replace on its callees)
  cbmc              discharges every obligation
A failed obligation is replayed natively (same contract file, gcc + ASan/UBSan,
nondeterministic inputs read back from CBMC's trace).
Exit: 0 all obligations discharged, 1 violation, 2 undecided / tool error.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CCS_REPO", "/repo")
CDIR = os.path.join(VERIF, "contracts")
INC = [f"-I{VERIF}/include", f"-I{CDIR}", f"-I{REPO}/include", f"-I{REPO}/src"]
DEFS = ["-DHAVE_CONFIG_H=0", "-D_GNU_SOURCE"]
VERBOSE = False


class Unit:
    pass


def parse_units():
    units, files = [], {}
    for path in sorted(glob.glob(os.path.join(CDIR, "*.c"))):
        props, fmeta = [], {"assume": [], "funcs": []}
        base = os.path.basename(path)
        for line in open(path):
            m = re.match(r"\s*//@property\s+(.*)", line)
            if m:
                props = m.group(1).split()
                continue
            m = re.match(r"\s*//@assume\s+(.*)", line)
            if m:
                fmeta["assume"].append(m.group(1).strip())
                continue
            m = re.match(r"\s*//@unit\s+(.*)", line)
            if m:
                u = Unit()
                toks = re.findall(r'(\w+)="([^"]*)"|(\w+)=(\S+)|(\S+)', m.group(1))
                u.name, kv = None, {}
                for a, b, c, d, e in toks:
                    if a:
                        kv[a] = b
                    elif c:
                        kv[c] = d
                    else:
                        u.name = e
                u.path, u.base, u.props = path, base, kv.get("prop", ",".join(props)).split(",")
                if len(u.props) == 1 and " " in u.props[0]:
                    u.props = u.props[0].split()
                u.enforce = kv.get("enforce")
                u.replace = [x for x in kv.get("replace", "").split(",") if x]
                u.keep = [x for x in kv.get("keep", "").split(",") if x]
                u.unwind = kv.get("unwind")
                u.unwindset = kv.get("unwindset")
                u.bounded = kv.get("bounded")
                u.loops = kv.get("loops") == "1"
                u.solver = kv.get("solver")
                u.tier = kv.get("tier", "quick")
                u.timeout = int(kv.get("timeout", "600"))
                u.flags = kv.get("flags", "").split()
                u.defs = ["-D" + x for x in kv.get("defs", "").split(",") if x]
                u.tdefs = ["-D" + x for x in kv.get("tdefs", "").split(",") if x]
                u.tunwind = kv.get("tunwind")
                u.funcs = [x for x in kv.get("funcs", "").split(",") if x] or ([u.enforce] if u.enforce else [])
                u.fallback = kv.get("fallback")
                u.only_fallback = kv.get("role") == "fallback"
                u.meta = fmeta
                u.harness = "h_" + u.name
                # cases=N: the harness is split into N runs, -DV_CASE=0..N-1
                cases = int(kv.get("cases", "0"))
                if not cases:
                    units.append(u)
                for k in range(cases):
                    w = Unit()
                    w.__dict__.update(u.__dict__)
                    w.name = "%s.%d" % (u.name, k)
                    w.defs = u.defs + ["-DV_CASE=%d" % k]
                    if "bcases" in kv and str(k) not in kv["bcases"].split(","):
                        w.bounded = None
                    units.append(w)
    return units


def run(cmd, timeout, cwd=None, env=None):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd, env=env, errors="replace")
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired:
        return None, "", "timeout after %ss: %s" % (timeout, " ".join(cmd)), time.time() - t


def run_hedged(cmd, timeout, scratch, hedge=150):
    """cbmc, output to files.  Rarely a cbmc process here does not end on an
    input that another one decides in seconds: one that has not answered after
    `hedge` seconds gets a second process, and the first answer is taken."""
    t = time.time()
    procs = []
    def start():
        o = tempfile.NamedTemporaryFile(dir=scratch, delete=False)
        procs.append((subprocess.Popen(cmd, stdout=o, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL), o.name))
        o.close()
    try:
        start()
        nap = 0.02
        while True:
            for p, name in procs:
                rc = p.poll()
                if rc is not None:
                    with open(name, errors="replace") as f:
                        return rc, f.read(), "", time.time() - t
            el = time.time() - t
            if el > timeout:
                return None, "", "timeout after %ds: %s" % (timeout, " ".join(cmd)), el
            if el > hedge and len(procs) == 1:
                start()
            time.sleep(nap)
            nap = min(0.5, nap * 1.3)
    finally:
        for p, name in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            try:
                os.unlink(name)
            except OSError:
                pass


COMPILE_LOCK = threading.Lock()
COMPILED = {}


def compile_file(u, scratch, tier):
    defs = list(u.defs)
    if tier == "thorough":
        over = {d.split("=")[0] for d in u.tdefs}
        defs = [d for d in defs if d.split("=")[0] not in over] + u.tdefs
    key = (u.base, tuple(defs))
    with COMPILE_LOCK:
        if key not in COMPILED:
            out = os.path.join(scratch, "%s.%d.gb" % (u.base, len(COMPILED)))
            COMPILED[key] = (cf.Future(), out)
            todo = True
        else:
            todo = False
    fut, out = COMPILED[key]
    if todo:
        rc, so, se, dt = run(["goto-cc", "-c", "-DV_CBMC", "-I" + headers(scratch), *INC, *DEFS, *defs, u.path, "-o", out], 300)
        fut.set_result((rc, so + se))
    rc, log = fut.result()
    return out, rc, log, defs


HDR_LOCK = threading.Lock()
T_START = time.time()
BUDGET = {"quick": 780, "thorough": 6 * 3600}
REPLAYED = threading.Event()   # one confirmed counterexample is enough


def left(tier, want):
    return max(5, min(want, BUDGET.get(tier, 780) - (time.time() - T_START)))


def headers(scratch):
    """The public headers with the union members reordered, floating point last.

    CBMC converts a union through its first member, and an address does not
    survive a trip through a double (sound, but nothing simplifies any more).
    The order of union members changes neither layout nor meaning; the only
    positional initialiser of these unions in the tree is {0}."""
    d = os.path.join(scratch, "hdr")
    with HDR_LOCK:
        if not os.path.isdir(d):
            shutil.copytree(os.path.join(REPO, "include"), d)
            p = os.path.join(d, "cconfigspace", "base.h")
            t = open(p).read()
            t = re.sub(r"(union ccs_\w+ \{\n(?:[^}#]*\n)?)([ \t]*ccs_float_t\s+\w+;[ \t]*\n)((?:[ \t]*(?:/\*.*\*/|[\w* ]+;)[ \t]*\n)+)", r"\1\3\2", t)
            with open(p, "w") as f:
                f.write(t)
    return d


def parse_json(text):
    try:
        return json.loads(text)
    except Exception:
        return None


def ops_tables(path, seen=None):
    """method tables of the included sources: DFCC must keep their initialisers"""
    out = set()
    for inc in re.findall(r'#include "(\w+\.[ch])"', open(path).read()):
        p = os.path.join(REPO, "src", inc)
        if os.path.exists(p):
            out |= set(re.findall(r"^(?:static\s+)?\w+_ops_t\s+(\w+)\s*=", open(p).read(), re.M))
    return out


class Result:
    def __init__(self, u):
        self.u = u
        self.status = "error"      # ok | violated | error
        self.obligations = self.discharged = 0
        self.failed, self.reach, self.missing_reach = [], [], []
        self.msg, self.solver_s, self.wall, self.cmds = "", 0.0, 0.0, []
        self.bounded = u.bounded
        self.trace_inputs, self.native_log, self.replayed = None, "", False
        self.fallback_used = False


def cbmc_cmd(u, gb, tier, extra, mult=1):
    cmd = ["cbmc", gb, "--json-ui"] + ([] if "--trace" in extra else ["--slice-formula"])
    unw = (u.tunwind if tier == "thorough" and u.tunwind else u.unwind)
    if unw:
        cmd += ["--unwind", str(int(unw) * mult)]
    if u.unwindset:
        cmd += ["--unwindset", u.unwindset]
    if u.solver:
        cmd += ["--" + u.solver]
    if "--object-bits" not in u.flags:
        cmd += ["--object-bits", "11"]
    text = open(u.path).read()
    for inc in re.findall(r'#include "(\w+\.inc)"', text):
        text += open(os.path.join(os.path.dirname(u.path), inc)).read()
    if '"valloc.h"' in text:
        cmd += ["--no-malloc-may-fail"]  # failure is modelled by valloc.h
    cmd += u.flags + extra
    return cmd


def check_unit(u, scratch, tier):
    r = Result(u)
    t0 = time.time()
    try:
        _check_unit(u, r, scratch, tier)
    except Exception as e:  # driver failure is an error, never a verdict
        r.status, r.msg = "error", "driver exception: %r" % e
    r.wall = time.time() - t0
    return r


def _check_unit(u, r, scratch, tier):
    gb, rc, log, defs = compile_file(u, scratch, tier)
    if rc != 0:
        r.msg = "goto-cc failed: " + "\n".join([l for l in log.splitlines() if "error" in l.lower() or "CONVERSION" in l][:6])[:900]
        return
    h = u.harness
    a = os.path.join(scratch, u.name + ".a.gb")
    b = os.path.join(scratch, u.name + ".b.gb")
    rc, so, se, _ = run(["goto-cc", "--function", h, gb, "-o", a], 300)
    if rc != 0:
        r.msg = "goto-cc link failed: " + (so + se)[-600:]
        return
    if u.enforce or u.replace or u.loops:
        repl = list(u.replace)
        while True:
            cmd = ["goto-instrument", "--dfcc", h]
            if u.enforce:
                cmd += ["--enforce-contract", u.enforce]
            for x in repl:
                cmd += ["--replace-call-with-contract", x]
            for x in sorted(set(u.keep) | ops_tables(u.path)):
                cmd += ["--nondet-static-exclude", x]
            if u.loops:
                cmd += ["--apply-loop-contracts"]
            cmd += [a, b]
            rc, so, se, _ = run(cmd, 300)
            if rc == 0:
                break
            m = re.search(r"Function to replace '(\w+)'|[Cc]ontract .*'(?:contract::)?(\w+)' not found", so + se)
            bad = m and (m.group(1) or m.group(2))
            if bad in repl:
                repl.remove(bad)
                continue
            r.msg = "goto-instrument failed: " + (so + se)[-600:]
            return
        r.cmds.append(" ".join(cmd))
        a = b
    else:
        rc, so, se, _ = run(["goto-instrument", "--drop-unused-functions", a, b], 300)
        if rc != 0:
            r.msg = "goto-instrument failed: " + (so + se)[-600:]
            return
        a = b
    for mult in (1, 2, 4):
        cmd = cbmc_cmd(u, a, tier, [], mult)
        r.cmds.append(" ".join(cmd))
        r.obligations = r.discharged = 0
        r.failed, r.reach, r.missing_reach, r.msg = [], [], [], ""
        rc, so, se, dt = run_hedged(cmd, left(tier, u.timeout * (3 if tier == "thorough" else 1)), scratch)
        r.solver_s += dt
        js = parse_json(so) if rc is not None else None
        if js is None:
            r.msg = "cbmc gave no answer: " + (se or so)[-2000:]
            return
        res = None
        msgs = []
        for e in js:
            if "result" in e:
                res = e["result"]
            if e.get("messageType") == "ERROR":
                msgs.append(e.get("messageText", ""))
        if res is None:
            r.msg = "cbmc error: " + "; ".join(msgs)[-2000:]
            return
        hit, cover = set(), {}
        for e in res:
            d = e.get("description", "")
            if d.startswith("V_COVER "):
                if e.get("sourceLocation", {}).get("function") == h:
                    cover.setdefault(d, []).append(e)
            elif d.startswith("V_REACH "):
                if e.get("sourceLocation", {}).get("function") != h:
                    continue
                r.reach.append(d)
                if e["status"] == "FAILURE":
                    hit.add(d)
            else:
                r.obligations += 1
                if e["status"] == "SUCCESS":
                    r.discharged += 1
                elif e["status"] == "FAILURE":
                    r.failed.append(e)
                else:
                    r.msg += " %s=%s" % (e["property"], e["status"])
        r.missing_reach = sorted(set(r.reach) - hit)
        uncovered = []
        for d, es in sorted(cover.items()):
            r.obligations += 1
            if any(e["status"] == "FAILURE" for e in es):
                r.discharged += 1
            else:
                uncovered.append(dict(es[0], status="FAILURE"))
        hard = [e for e in r.failed if not is_unwinding(e)]
        if hard or not r.failed:
            break
    if r.failed and not hard:
        # the loop bound of this unit no longer suffices: more iterations than
        # tried, or no end at all; only an execution that hangs is a verdict
        names = ", ".join(e["property"] for e in r.failed)
        explain(u, r, a, scratch, tier, defs)
        if r.replayed:
            r.status = "violated"
        else:
            r.failed = []
            r.msg = "unwinding bound exceeded: " + names
            r.status = "error"
        return
    if hard:
        r.status = "violated"
        nobody = sorted(set(e["property"].split(".no-body.")[1] for e in hard if ".no-body." in e["property"]))
        r.failed = [e for e in hard if ".no-body." not in e["property"]]
        explain(u, r, a, scratch, tier, defs, "REPLAY: FAILED" if nobody else "")
        if nobody and not r.replayed:
            # the code now calls a function this unit has neither code nor
            # contract for: what follows that call decides nothing
            r.status, r.failed = "error", []
            r.msg = "calls without contract: " + ", ".join(nobody)
        return
    if r.msg:
        return
    if r.missing_reach:
        r.msg = "vacuity guard: not reachable: " + ", ".join(r.missing_reach)
        return
    if uncovered:
        # an outcome the property promises to be possible cannot happen; there
        # is no single failing input to show
        r.status, r.failed = "violated", uncovered
        r.native_log = "no execution reaches: " + "; ".join(e["description"] for e in uncovered)
        return
    if not r.reach or not r.obligations:
        r.msg = "vacuous: no reachability guard or no obligation"
        return
    r.status = "ok"


def rank(e):
    p, d = e["property"], e.get("description", "")
    if "assertion" in p:
        return 0
    if "postcondition" in p or "ensures" in d.lower():
        return 1
    if "precondition" in p:
        return 2
    return 3


def is_unwinding(e):
    return "unwinding assertion" in e.get("description", "") or "recursion unwinding" in e.get("description", "")


def explain(u, r, gb, scratch, tier, defs, must=""):
    """counterexample -> native replay"""
    for e in sorted(r.failed, key=rank)[:3]:
        if REPLAYED.is_set():
            r.native_log = "not replayed: another unit already has a confirmed counterexample"
            r.skipped = True
            return
        cmd = cbmc_cmd(u, gb, tier, ["--trace", "--property", e["property"]])
        rc, so, se, dt = run(cmd, left(tier, min(u.timeout, 150)))
        js = parse_json(so) if rc is not None else None
        if js is None:
            continue
        vals, shown = [], []
        for blk in js:
            for p in blk.get("result", []):
                for s in p.get("trace", []) or []:
                    if s.get("stepType") == "assignment":
                        v = s.get("value", {})
                        if s.get("lhs") in ("vnd_u", "vnd_d") and s.get("sourceLocation", {}).get("function", "").startswith("nd_"):
                            bits = v.get("binary")
                            if bits:
                                vals.append(int(bits, 2))
                                shown.append("%s=%s" % (s["lhs"], v.get("data")))
        if not vals and not js:
            continue
        r.trace_inputs = shown
        exe = os.path.join(scratch, u.name + ".native")
        rc, so, se, _ = run(["gcc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                             "-fno-sanitize=alignment,float-cast-overflow",
                             *INC, *DEFS, *defs, "-DV_HARNESS=" + u.harness, u.path, "-o", exe,
                             "-Wl,--unresolved-symbols=ignore-all", "-lgsl", "-lgslcblas", "-lm", "-lpthread"], 300)
        if rc != 0:
            r.native_log = "native build failed: " + se[-2000:]
            return
        inp = os.path.join(scratch, u.name + ".inputs")
        with open(inp, "w") as f:
            f.write("".join("%x\n" % x for x in vals))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=%d:allocator_may_return_null=1:abort_on_error=0" % ("memory-leak" in e["property"]))
        rc, so, se, _ = run([exe, inp], 30, env=env)
        r.native_log = "obligation %s: native exit %s\n%s\n%s" % (e["property"], rc, so[-2000:], se[-3000:])
        r.native_inputs = vals
        if (rc is None and is_unwinding(e)) or rc not in (0, 77, None) and ("REPLAY: FAILED" in so or "runtime error" in se or "AddressSanitizer" in se or "LeakSanitizer: detected" in se) and must in so:
            r.replayed = True
            REPLAYED.set()
            r.failed.sort(key=lambda x: x is not e)
            return


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    global VERBOSE
    av = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    args = []
    i = 0
    while i < len(av):
        if av[i] == "--tier":
            tier = av[i + 1]; i += 1
        elif av[i] == "--unit":
            only = av[i + 1].split(","); i += 1
        elif av[i] == "-v":
            VERBOSE = True
        else:
            args.append(av[i])
        i += 1
    prop = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    units = parse_units()
    sel = [u for u in units if (prop == "all" or prop in u.props)
           and (only is None or u.name in only or u.name.split(".")[0] in only) and not u.only_fallback
           and (tier == "thorough" or u.tier == "quick")]
    byname = {u.name: u for u in units}
    if not sel:
        print("no unit for", prop)
        return 2
    # the longest first (times of an earlier run; order only)
    try:
        with open(os.path.join(VERIF, "bin", "weights.json")) as f:
            w = json.load(f)
    except (OSError, ValueError):
        w = {}
    sel.sort(key=lambda u: -w.get(u.name, 0))
    scratch = tempfile.mkdtemp(prefix="ccsverif.")
    t0 = time.time()
    try:
        with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            results = list(ex.map(lambda u: check_unit(u, scratch, tier), sel))
        # a loop-contract proof that no longer goes through is not a verdict:
        # the bounded unit named as its fallback decides instead (reported as bounded)
        for k, r in enumerate(results):
            if r.status != "ok" and r.u.fallback:
                fb = check_unit(byname[r.u.fallback], scratch, tier)
                fb.fallback_used = True
                fb.msg = "fallback for %s (%s %s); %s" % (r.u.name, r.status, r.msg[:300], fb.msg)
                results[k] = fb
        return report(prop, tier, seed, results, time.time() - t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(prop, tier, seed, results, wall):
    known = load_known()
    viol, errs, knownhit = [], [], []
    for r in results:
        if VERBOSE or r.status != "ok":
            print("[%s] unit %-34s %4d/%-4d obligations %6.1fs %s %s" % (
                r.status, r.u.name, r.discharged, r.obligations, r.wall,
                ("bounded: " + r.bounded) if r.bounded else "", r.msg[:700]))
        if r.status == "violated":
            new = []
            for e in r.failed:
                k = [f for f in known if f.get("status") == "known" and f.get("unit") == r.u.name and
                     f.get("obligation") == e.get("description")]
                if k:
                    knownhit.append((k[0], r))
                else:
                    new.append(e)
            if new:
                viol.append((r, new))
        elif r.status == "error":
            errs.append(r)
    for k, r in {id(k): (k, r) for k, r in knownhit}.values():
        print("KNOWN-FINDING: property=%s %s" % (k["property"], k["what"]))
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    rc = 0
    viol.sort(key=lambda x: not x[0].replayed)
    for r, new in viol:
        path = os.path.join(edir, "replay_%s_%s.txt" % (prop, r.u.name))
        with open(path, "w") as f:
            f.write("property %s\nunit %s (contracts/%s)\n" % (prop, r.u.name, r.u.base))
            for e in new:
                f.write("failed obligation %s: %s at %s\n" % (e["property"], e.get("description"), json.dumps(e.get("sourceLocation", {}))))
            f.write("\ncommands:\n" + "\n".join(r.cmds) + "\n")
            f.write("\ncounterexample inputs (in call order):\n" + "\n".join(r.trace_inputs or ["(none)"]) + "\n")
            f.write("\nnative replay (gcc -fsanitize=address,undefined -DV_HARNESS=%s %s contracts/%s; inputs on argv[1] as hex, one per line):\n" % (r.u.harness, " ".join(r.u.defs), r.u.base))
            f.write("\n".join("%x" % x for x in getattr(r, "native_inputs", [])) + "\n" + r.native_log + "\n")
        for e in new[:6]:
            print("  failed obligation [%s] %s: %s" % (r.u.name, e["property"], e.get("description")))
        if r.replayed or not viol[0][0].replayed:
            print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if r.replayed else " no-failing-input-found"))
        rc = 1
    if rc == 0 and errs:
        # "held on everything explored": a unit that gave no answer explored
        # nothing and is listed as such, here and in the evidence
        for r in errs:
            print("UNDECIDED [%s]: %s" % (r.u.name, r.msg[:300]))
        if 2 * len(errs) > len(results):
            rc = 2
    proved = [r for r in results if not r.bounded]
    bnd = [r for r in results if r.bounded]
    assume = []
    for r in results:
        for a in r.u.meta["assume"]:
            if a not in assume:
                assume.append(a)
    gen = ["thread-local error stack reduced to no-ops (its content is not part of the property)",
           "pointers handed to a contract are either NULL or valid, as the harness builds them",
           "CBMC's C semantics: x86-64 LP64, IEEE-754 binary64, round-to-nearest"]
    repl = sorted({x for r in results for x in r.u.replace})
    ev = {
        "property": prop if prop != "all" else "C01", "tier": tier, "seed": seed,
        "level": "proof",
        "coverage": {
            "obligations": sum(r.obligations for r in results),
            "discharged": sum(r.discharged for r in results),
            "checker_cmd": "goto-cc; goto-instrument --dfcc h --enforce-contract f [--replace-call-with-contract g] [--apply-loop-contracts]; cbmc (SAT/MiniSat unless the unit says cvc5)",
            "trusted_base": ["goto-cc/goto-instrument/cbmc 6.11.0", "MiniSat 2.2.1 / cvc5 1.1.2", "CBMC built-in models of libc (malloc, memcpy, strlen, ...)"],
            "proved_units": [{"unit": r.u.name, "functions": r.u.funcs, "enforced_contract": r.u.enforce, "replaced": r.u.replace, "obligations": r.obligations, "discharged": r.discharged, "solver": r.u.solver or "sat", "solver_s": round(r.solver_s, 2), "status": r.status, "reach_guards": len(r.reach)} for r in proved],
            "bounded_units": [{"unit": r.u.name, "functions": r.u.funcs, "enforced_contract": r.u.enforce, "replaced": r.u.replace, "bound": r.bounded, "obligations": r.obligations, "discharged": r.discharged, "solver": r.u.solver or "sat", "solver_s": round(r.solver_s, 2), "status": r.status, "fallback": r.fallback_used, "reach_guards": len(r.reach)} for r in bnd],
            "undecided_units": [{"unit": r.u.name, "reason": r.msg[:500]} for r in errs],
            "obligations_proved_unbounded": sum(r.discharged for r in proved),
            "obligations_bounded": sum(r.discharged for r in bnd),
            "callees_replaced_by_contract": repl,
            "solver_seconds": round(sum(r.solver_s for r in results), 2),
        },
        "assumptions": gen + assume,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if prop != "all":
        with open(os.path.join(edir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if rc == 0:
        print("OK property=%s units=%d (%d unbounded, %d bounded) obligations=%d discharged=%d wall=%.1fs" % (
            prop, len(results), len(proved), len(bnd), ev["coverage"]["obligations"], ev["coverage"]["discharged"], wall))
    return rc


if __name__ == "__main__":
    sys.exit(main())
