#!/usr/bin/env python3
"""Decide one property: generate and discharge the contract obligations of its units from /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--unit SUBSTR] [--keep]
exit 0: every obligation discharged; 1: VIOLATION printed; 2: the check could not decide.
"""
import sys, os, json, re, signal, subprocess, time, threading, shutil, tempfile, fcntl, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, ".build"))
LLVM = "/usr/lib/llvm-18/bin"
EVID = os.environ.get("VF_EVID", os.path.join(HERE, "evidence"))
CPUS = int(os.environ.get("VF_CPUS", str(min(8, os.cpu_count() or 4))))
sys.path.insert(0, HERE)
from checks.units import PROPS  # noqa: E402

PRIVATE = ("bt_ops.cpp", "bt_iter.cpp", "bt_life.cpp", "bt_fault.cpp")

TRUSTED = [
    "clang 18 front end and its -O0 LLVM IR (plus sroa/early-cse/simplifycfg) faithfully represent the C++ source",
    "/verif/engine: the IR interpreter, the order-graph implication layer and the memory model (SC, flat byte-addressed objects)",
    "z3 4.8.12 (answers to bit-vector queries the order graph does not settle)",
    "libstdc++ 14 header code is executed as source; the C++ runtime (operator new/delete, exceptions), LLVM/AVX2 intrinsics and, for the pools, mmap/munmap/madvise are modelled by their documented contracts",
]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_engine():
    d = os.path.join(BUILD, "engine")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j8", "-C", os.path.join(HERE, "engine"), "B=" + d])
    if r.returncode:
        print(r.stdout)
        print("check error: the verifier does not build")
        sys.exit(2)
    return os.path.join(d, "vfengine")

BASEFL = ["-std=c++23", "-fno-access-control", "-w"]

def flags(u):
    return BASEFL + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")] + (["-I" + u["_gen"]] if "_gen" in u else []) + list(u.get("defs", []))

# The data members the contracts over arbitrary trees build and read: any other set of members (renamed, added, removed)
# means the class invariant is stated over other state, and the public-interface stand-in decides instead.
MEMBERS = {
    "btree": {"leaf_alloc_", "internal_alloc_", "root_is_leaf_", "(union)", "leaf_root_", "internal_root_", "size_", "leftmost_leaf_", "rightmost_leaf_", "comp_"},
    "btree::leaf_node": {"data", "next_leaf", "prev_leaf", "parent"},
    "btree::internal_node": {"(union)", "leaf_children", "internal_children", "children_are_leaves", "parent"},
    "dense_map": {"keys_", "values_", "size_", "comp_"},
}
NS = "kressler::fast_containers::"

def bare(t):
    """Type name without template arguments."""
    out, depth = "", 0
    for c in t:
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif depth == 0: out += c
    return out

def layout_diff(dump):
    """First difference between the members of the tree classes in clang's record-layout dump and MEMBERS, or None."""
    for rec in dump.split("*** Dumping AST Record Layout")[1:]:
        lines = [l.split("|", 1)[1] for l in rec.splitlines() if "|" in l]
        if not lines or "(empty)" in lines[0]: continue
        name = bare(lines[0].strip())
        name = name.split(" ", 1)[-1]
        if not name.startswith(NS) or name[len(NS):] not in MEMBERS: continue
        want = MEMBERS[name[len(NS):]]
        got, inunion = set(), False
        for l in lines[1:]:
            ind = len(l) - len(l.lstrip())
            if l.strip().startswith("["): break
            if ind == 3:
                inunion = l.strip().startswith("union ")
            elif not (inunion and ind == 5): continue
            if "(base)" in l: got.add("(base)"); continue
            if ind == 3 and inunion: got.add("(union)"); continue
            got.add(re.sub(r" \(empty\)$", "", l.strip()).split(" ")[-1])
        if got != want: return f"{name[len(NS):]} has the members {sorted(got)}, expected {sorted(want)}"
    return None

def compile_bc(u, d):
    src = os.path.join(HERE, "harness", u["src"])
    bc0, bc = d + "/u.0.bc", d + "/u.bc"
    r = sh([LLVM + "/clang++", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-ffp-contract=off", "-include", os.path.join(HERE, "harness", "rt.h"), *flags(u), "-emit-llvm", "-c", src, "-o", bc0, *(["-Xclang", "-fdump-record-layouts"] if u["src"] in PRIVATE else [])])
    if r.returncode:
        return None, re.sub(r"(?s)\*\*\* Dumping AST Record Layout.*?\n\n", "", r.stdout)
    if u["src"] in PRIVATE and (diff := layout_diff(r.stdout)):
        return None, "layout: " + diff
    r = sh([LLVM + "/opt", "-passes=sroa,early-cse,simplifycfg", bc0, "-o", bc])
    if r.returncode:
        return None, r.stdout
    return bc, ""

class Native:
    """Lazy native build of a unit for replay (g++-14 with ASan+UBSan, then plain)."""
    def __init__(self, u, d):
        self.u, self.d, self.exe, self.lock, self.err = u, d, None, threading.Lock(), ""
    def get(self):
        with self.lock:
            if self.exe is None:
                self.exe = ""
                for tag, san in (("asan", ["-fsanitize=address", "-fno-sanitize-recover=all"]), ("plain", [])):
                    out = f"{self.d}/native.{tag}"
                    r = sh(["g++-14", "-O1", "-g", "-fpermissive", *san, *flags(self.u), *self.u.get("native", []), os.path.join(HERE, "harness", self.u["src"]), os.path.join(HERE, "harness", "native.cpp"), "-o", out])
                    if r.returncode == 0:
                        self.exe = out
                        break
                    self.err = r.stdout[-2000:]
        return self.exe
    def replay(self, f):
        e = self.get()
        if not e:
            return 12, "native build failed: " + self.err
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:alloc_dealloc_mismatch=0")
        try:
            r = sh([e, f], timeout=60, env=env, errors="replace")
        except subprocess.TimeoutExpired:
            return 10, "REPLAY failed does not terminate"
        return (10 if r.returncode < 0 else r.returncode), r.stdout[-3000:]

def parse_viol(f):
    kind = what = ""
    where = []
    mode = 0
    for line in open(f, errors="replace"):
        line = line.rstrip("\n")
        if line.startswith("KIND "): kind = line[5:]
        elif line.startswith("WHAT "): what = line[5:]
        elif line.startswith("WHERE"): mode = 1
        elif line.startswith("    at ") and mode == 1: where.append(line[7:])
        else: mode = 0
    return kind, what, where

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    prop = None
    while args:
        a = args.pop(0)
        if a == "--tier": tier = args.pop(0)
        elif a == "--unit": only = args.pop(0)
        elif a == "--keep": keep = True
        elif a == "--setup":
            build_engine()
            return
        else: prop = a
    P = PROPS[prop]
    units = [u for u in P["units"] if tier == "thorough" or u.get("tier", "quick") == "quick"]
    if only: units = [u for u in units if only in u["name"]]
    t0 = time.time()
    eng = build_engine()
    work = tempfile.mkdtemp(prefix="vf-" + prop + "-")
    limit = P.get("limit", 780 if tier == "quick" else 7200)
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]
    problems, skipped = [], []
    viols, knownhit = [], {}
    pool_units = min(len(units), max(1, CPUS // 2))
    jobs = CPUS if len(units) <= 4 else max(2, CPUS // 2)

    stopping, running, timers = threading.Event(), set(), []
    def stop_all():
        stopping.set()
        for pr in list(running):
            try: os.killpg(pr.pid, signal.SIGKILL)
            except OSError: pass
    def known_hit(u, f):
        kind, what, where = parse_viol(f)
        for k in known:
            if re.search(k.get("unit", "."), u["name"]) and re.search(k["what"], what) and any(re.search(k.get("where", "."), w) for w in (where or [""])): return k
        return None

    def one(u):
        d = os.path.join(work, re.sub(r"[^A-Za-z0-9_.-]", "_", u["name"]))
        os.makedirs(d)
        if u.get("gen"):
            u["_gen"] = d
            if not u["gen"](REPO, d):
                return u, d, None, "SKIP the source text does not have the form the extraction handles"
        bc, err = compile_bc(u, d)
        if not bc and u.get("optional"):
            return u, d, None, "SKIP the extracted text does not compile: " + err[-500:]
        if not bc and P.get("fallback") and u["src"] in PRIVATE:
            return u, d, None, "PRIVATE " + err[-600:]
        if not bc:
            return u, d, None, "COMPILE " + err
        if stopping.is_set(): return u, d, None, "STOP"
        left = max(5, limit - (time.time() - t0))
        cmd = [eng, bc, "--out", d + "/run", "--jobs", str(u.get("jobs", jobs)), "--time", str(int(left))]
        if u.get("steps"): cmd += ["--steps", str(u["steps"])]
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        running.add(pr)
        o, _ = pr.communicate()
        running.discard(pr)
        r = subprocess.CompletedProcess(cmd, pr.returncode, o, "")
        try:
            res = json.load(open(d + "/run/result.json"))
        except Exception:
            if stopping.is_set(): return u, d, None, "STOP"
            return u, d, None, "ENGINE rc=%d %s" % (r.returncode, r.stdout[-3000:])
        res["rc"] = r.returncode
        # A violation decides the check: give the other units a little longer, then stop them.
        if any(not known_hit(u, os.path.join(d, "run", v)) for v in os.listdir(d + "/run") if v.startswith("viol.")) and not timers:
            t = threading.Timer(20, stop_all)
            t.daemon = True
            timers.append(t)
            t.start()
        return u, d, res, ""

    with cf.ThreadPoolExecutor(pool_units) as ex:
        done = list(ex.map(one, units))
        # Contracts that name private members no longer compile: decide on the public interface instead (bounded stand-in).
        lost = [x for x in done if x[2] is None and x[3].startswith("PRIVATE ")]
        if lost:
            for u, d, res, err in lost: skipped.append(f"{u['name']}: the contract names private members the source no longer has; replaced by the bounded stand-in: {err[8:]}")
            done = [x for x in done if x not in lost] + list(ex.map(one, P["fallback"]))
    tot = {}
    funcs, labels, covers = {}, {}, {}
    per_unit = []
    for u, d, res, err in done:
        if res is None and err == "STOP":
            skipped.append(f"{u['name']}: stopped, another unit had already found a violation")
            continue
        if res is None and err.startswith("SKIP "):
            skipped.append(f"{u['name']}: {err[5:]}")
            continue
        if res is None:
            problems.append(f"{u['name']}: {err[:3000]}")
            continue
        c = res["counts"]
        for k, v in c.items():
            tot[k] = max(tot.get(k, 0), v) if k == "terms" else tot.get(k, 0) + v
        for f in res["functions"]:
            g = funcs.setdefault(f["name"], {"calls": 0, "hit": 0, "blocks": 0})
            g["calls"] += f["calls"]; g["hit"] = max(g["hit"], f["hit"]); g["blocks"] = max(g["blocks"], f["blocks"])
        for k, v in res["labels"].items(): labels[k] = labels.get(k, 0) + v
        for k, v in res["covers"].items(): covers[k] = covers.get(k, 0) + v
        per_unit.append({"unit": u["name"], "what": u.get("what", ""), "bounded": u.get("bounded"), "paths": c.get("paths", 0), "obligations": c.get("ob_fold", 0) + c.get("ob_order", 0) + c.get("ob_z3", 0) + c.get("ob_fail", 0), "failed": c.get("ob_fail", 0), "wall_s": round(res["wall_s"], 2)})
        vs = sorted(x for x in os.listdir(d + "/run") if x.startswith("viol."))
        for e, n in res["errors"].items():
            problems.append(f"{u['name']}: {e} (x{n})")
        nat = Native(u, d)
        group = []
        for v in vs:
            f = os.path.join(d, "run", v)
            kind, what, where = parse_viol(f)
            hit = known_hit(u, f)
            if hit: knownhit[hit["id"]] = hit
            else: group.append((f, kind, what, where))
        for n, (f, kind, what, where) in enumerate(group):
            rc, out = (12, "not replayed (another counterexample of this unit already was)")
            if n < 8 and not any(x["confirmed"] for x in viols if x["unit"] == u["name"]):
                rc, out = nat.replay(f)
            viols.append({"unit": u["name"], "file": f, "kind": kind, "what": what, "where": where, "confirmed": rc == 10, "replay": out, "u": u})
        # vacuity guards
        if not vs and not res["errors"]:
            for cv in u.get("covers", []):
                if not res["covers"].get(cv): problems.append(f"{u['name']}: vacuous: cover '{cv}' not reached")
            nob = c.get("ob_fold", 0) + c.get("ob_order", 0) + c.get("ob_z3", 0)
            if nob < u.get("min_obligations", 1): problems.append(f"{u['name']}: vacuous: only {nob} obligations generated")
    if not viols and not problems and not only and not lost:
        for l in P.get("labels", []):
            if not any(re.search(l, x) for x in labels): problems.append(f"vacuous: no obligation labelled /{l}/ was generated")

    obl = sum(tot.get(k, 0) for k in ("ob_fold", "ob_order", "ob_z3", "ob_fail"))
    dis = obl - tot.get("ob_fail", 0)
    under = sorted(f"{n} [{g['calls']} calls, {g['hit']}/{g['blocks']} blocks]" for n, g in funcs.items() if "kressler::fast_containers::" in n)
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": f"python3 /verif/check.py {prop} --tier {tier}",
        "trusted_base": TRUSTED + P.get("trusted", []),
        "discharged_by": {"term rewriting": tot.get("ob_fold", 0), "order-graph implication": tot.get("ob_order", 0), "z3": tot.get("ob_z3", 0)},
        "implicit_safety_obligations_with_symbolic_operands": tot.get("ob_implicit", 0),
        "paths": tot.get("paths", 0), "ir_instructions": tot.get("instrs", 0), "forks": tot.get("forks", 0),
        "z3_queries": tot.get("z3_queries", 0), "z3_seconds": round(tot.get("z3_us", 0) / 1e6, 3), "order_models": tot.get("order_models", 0),
        "named_obligations": {k: labels[k] for k in sorted(labels)},
        "reachability_covers": {k: covers[k] for k in sorted(covers)},
        "functions_executed_from_repo": len(under), "functions": under[:400],
        "units": per_unit,
        "undecided": problems, "not_applied": skipped,
    }
    if P["level"] == "other":
        cov["explanation"] = P.get("explanation") or ("Deductive verification of contracts on the compiled source: every obligation of every execution path of every operation is discharged for all contents, arguments and admissible shapes; " + P.get("note", "") + f" This run discharged {dis} of {obl} obligations on {tot.get('paths', 0)} symbolic paths.")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    if not only:
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    for k in known:
        if k["id"] in knownhit:
            print(f"KNOWN-FINDING: property={prop} {k['title']}")
    rc = 0
    if viols:
        rc = 1
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        viols.sort(key=lambda v: not v["confirmed"])
        shown = [v for v in viols if v["confirmed"]][:5] or viols[:3]
        for i, v in enumerate(shown):
            rf = os.path.join(rd, f"{prop}.{i}.txt")
            with open(rf, "w") as o:
                o.write(f"property {prop}\nunit {v['unit']}\nfailed obligation: [{v['kind']}] {v['what']}\n")
                o.write("native replay: " + ("CONFIRMED on the real code compiled with g++-14\n" if v["confirmed"] else "not confirmed\n"))
                o.write("replay output:\n" + v["replay"] + "\n")
                o.write("reproduce: " + " ".join(["g++-14 -O1 -g -fpermissive -fsanitize=address", *flags(v["u"]), *v["u"].get("native", []), os.path.join(HERE, "harness", v["u"]["src"]), os.path.join(HERE, "harness/native.cpp"), "-o /tmp/replay && /tmp/replay", rf]) + "\n\n")
                o.write(open(v["file"], errors="replace").read())
            print(f"failed obligation: [{v['kind']}] {v['what']}  (unit {v['unit']})" + ("; at " + v["where"][0] if v["where"] else ""))
            tail = "" if v["confirmed"] else " no-failing-input-found"
            print(f"VIOLATION property={prop} replay={rf}{tail}")
        if any(v["confirmed"] for v in viols): pass
    elif problems:
        rc = 2
        for p in problems: print("check error:", p)
    print(f"{prop} [{tier}]: {dis}/{obl} obligations discharged, {tot.get('paths', 0)} paths, {len(units)} units, {len(viols)} violations, {len(problems)} undecided, {time.time() - t0:.1f} s")
    if keep: print("work dir:", work)
    else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

main()
