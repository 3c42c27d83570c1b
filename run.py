#!/usr/bin/env python3-vt
"""Decide one property:  python3-vt run.py C01 [--tier quick|thorough] [--only INSTANCE] [-j N]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a counterexample
found by the solver and reproduced on the unmodified code.  Exit 2: no answer.
"""
import sys, os, json, time, argparse, hashlib, importlib, multiprocessing, queue, random, signal, \
    subprocess, traceback, io
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = sys.executable

REPO = "/repo"
PATH_SECONDS = 60


class PathTimeout(BaseException):
    pass


def _alarm(*a):
    raise PathTimeout()


class Native:
    def __init__(self, check, tier):
        self.args = [PY, os.path.join(HERE, "sx", "native.py"), "serve", check, tier]
        self.p = None

    def ask(self, req):
        if self.p is None:
            self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True)
            if self.p.stdout.readline().strip() != "ready":
                return {"status": "error", "msg": "native server failed to start", "obs": []}
        try:
            self.p.stdin.write(json.dumps(req) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        if not line:
            self.p = None
            return {"status": "error", "msg": "native server died", "obs": []}
        return json.loads(line)


class Worker:
    def __init__(self, check, tier, insts, seed):
        from sx import engine, loader
        self.eng, self.loader = engine, loader
        self.check, self.tier, self.insts = check, tier, insts
        self.e = engine.Engine()
        self.native = Native(check, tier)
        self.seen_fn = {}
        self.count = {}
        self.snap = SNAP
        self.rng = random.Random("%s-%s-%d" % (seed, check, os.getpid() % 97))
        signal.signal(signal.SIGALRM, _alarm)

    def path(self, inst, prefix, out):
        from sx.ctx import SymCtx, freeze
        e, eng = self.e, self.eng
        self.snap.restore()
        self.loader.OPEN_HOOK[0] = None
        e.stdout = None
        e.max_branches = inst.max_branches
        e.reset_path(prefix)
        c = SymCtx(e)
        funcs = out["functions"]
        prof = self.seen_fn.get(inst.name, 0) < 3
        self.seen_fn[inst.name] = self.seen_fn.get(inst.name, 0) + 1
        if prof:
            def tr(frame, event, arg):
                if event == "call":
                    co = frame.f_code
                    if co.co_filename.startswith(REPO + "/"):
                        funcs.add(co.co_filename[len(REPO) + 1:] + ":" + co.co_qualname)
            sys.setprofile(tr)
        fail = None
        signal.setitimer(signal.ITIMER_REAL, PATH_SECONDS)
        try:
            inst.fn(c, **inst.params)
        except eng.Violation as v:
            fail = (v.msg, v.inputs)
        except eng.PathLimit as x:
            if e.aborted not in ("assume", "infeasible"):
                e.stats.limit_paths += 1
                out["notes"].append("%s: path abandoned: %s" % (inst.name, e.aborted))
            return
        except PathTimeout:
            fail = ("no result within %d s" % PATH_SECONDS, None)
        except eng.SymHash:
            e.stats.limit_paths += 1
            out["notes"].append("%s: symbolic hash escaped" % inst.name)
            return
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            fail = ("unexpected %s: %s at %s" % (type(x).__name__, str(x)[:200],
                                                 ";".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                                                          for f in tb[-4:])), None)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            if prof:
                sys.setprofile(None)
        if fail and fail[1] is None:
            ok = e.ensure_model()
            if ok is False:
                return
            if ok is None:
                e.stats.limit_paths += 1
                return
            fail = (fail[0], e.model_inputs(e.model))
        if fail:
            r = self.native.ask({"instance": inst.name, "inputs": fail[1]})
            if r["status"] in ("fail", "exc", "hang"):
                out["violations"].append({"instance": inst.name, "inputs": fail[1], "symbolic": fail[0],
                                          "native": r["status"], "msg": r["msg"]})
            else:
                e.stats.spurious += 1
                out["notes"].append("%s: counterexample did not reproduce (%s): %s inputs %s"
                                    % (inst.name, r["status"] + " " + r["msg"], fail[0], fail[1]))
            return
        ok = e.ensure_model()
        if ok is False:
            return
        if ok is None:
            e.stats.limit_paths += 1
            return
        e.stats.paths += 1
        out["labels"] |= e.labels
        n = self.count[inst.name] = self.count.get(inst.name, 0) + 1
        if n <= 4 or (n < 4000 and self.rng.random() < 12.0 / n):
            self.validate(inst, out)

    def validate(self, inst, out):
        from sx.ctx import freeze
        e = self.e
        m = e.model
        inputs = e.model_inputs(m)
        r = self.native.ask({"instance": inst.name, "inputs": inputs})
        mine = json.loads(json.dumps([freeze(o, lambda x: e.eval(x, m)) for o in e.obs]))
        if r["status"] == "ok" and r["obs"] == mine:
            e.stats.validated += 1
            if len(out["samples"]) < 2:
                out["samples"].append({"instance": inst.name, "inputs": inputs, "observed": mine})
        elif r["status"] in ("fail", "exc", "hang"):
            # the symbolic run saw no failure, the real code fails: still a real failure
            out["violations"].append({"instance": inst.name, "inputs": inputs,
                                      "symbolic": "(found while validating a path)",
                                      "native": r["status"], "msg": r["msg"]})
        else:
            e.stats.mismatch += 1
            out["notes"].append("%s: symbolic and native runs differ (%s): %s vs %s inputs %s"
                                % (inst.name, r["status"], mine, r["obs"], inputs))

    def run(self, task):
        name, prefixes, secs = task
        inst = self.insts[name]
        e = self.e
        e.stats = self.eng.Stats()
        e.work = prefixes
        e.cross_left = 6
        out = {"instance": name, "labels": set(), "violations": [], "notes": [], "samples": [],
               "functions": set()}
        t0 = time.time()
        while e.work and not out["violations"]:
            self.path(inst, e.work.pop(), out)
            if time.time() - t0 > secs:
                break
        out["remaining"] = e.work
        out["stats"] = e.stats.asdict()
        out["wall"] = time.time() - t0
        return out


def worker_main(check, tier, insts, seed, tq, rq):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        sys.setrecursionlimit(20000)
        w = Worker(check, tier, insts, seed)
        while True:
            t = tq.get()
            if t is None:
                return
            rq.put(w.run(t))
    except BaseException:
        rq.put({"error": traceback.format_exc()})


def repo_digest():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, "hrdc")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]


def load_known():
    p = os.path.join(HERE, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip().startswith("{")]


def main():
    global SNAP
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="keep going after the first violation")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cid = a.check.upper()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    import warnings
    warnings.simplefilter("ignore")

    from sx import engine, loader
    finder = loader.install(REPO)
    engine.Engine()
    try:
        loader.import_all(REPO)
    except Exception:
        traceback.print_exc()
        print("ERROR cannot load the package from %s" % REPO)
        return 2
    SNAP = loader.Snapshot("hrdc")
    mod = importlib.import_module("checks." + cid.lower())
    insts = {i.name: i for i in mod.instances(tier)}
    if a.only:
        import fnmatch
        insts = {n: i for n, i in insts.items() if fnmatch.fnmatch(n, a.only)}
    budget = a.budget or getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 3000)

    tq, rq = multiprocessing.Queue(), multiprocessing.Queue()
    procs = [multiprocessing.Process(target=worker_main, args=(cid, tier, insts, seed, tq, rq), daemon=True)
             for _ in range(a.j)]
    agg = {n: {"stats": engine.Stats(), "labels": set(), "left": 0, "pending": 0, "wall": 0.0} for n in insts}
    for p in procs:
        p.start()
    outstanding = 0
    for n in insts:
        tq.put((n, [[]], 0.5))
        agg[n]["pending"] += 1
        outstanding += 1
    viol, notes, samples, funcs, errors = [], [], [], set(), []
    known = [k for k in load_known() if k.get("property") == cid and k.get("status") == "known"]
    known_hit = set()
    while outstanding:
        try:
            r = rq.get(timeout=max(1.0, budget - (time.time() - t0) + PATH_SECONDS * 2))
        except queue.Empty:
            errors.append("workers stopped answering")
            break
        outstanding -= 1
        if "error" in r:
            errors.append(r["error"])
            break
        g = agg[r["instance"]]
        g["pending"] -= 1
        g["stats"].add(r["stats"])
        g["labels"] |= r["labels"]
        g["wall"] += r["wall"]
        notes += r["notes"]
        if len([s for s in samples if s["instance"] == r["instance"]]) < 2:
            samples += r["samples"]
        funcs |= r["functions"]
        newv = []
        for v in r["violations"]:
            for k in known:
                if k["instance"] == v["instance"] and all(v["inputs"].get(x) == y for x, y in k.get("inputs", {}).items()):
                    known_hit.add(k["what"])
                    break
            else:
                newv.append(v)
        viol += newv
        if a.v:
            for v in newv:
                print("  viol", v, flush=True)
            for x in r["notes"]:
                print("  note", x, flush=True)
        if newv and not a.all:
            g["left"] += len(r["remaining"])
            break
        rem = r["remaining"]
        if newv:
            g["left"] += len(rem)
            rem = []
        if rem:
            if time.time() - t0 > budget:
                g["left"] += len(rem)
            else:
                room = max(1, min(len(rem), 3 * a.j - outstanding, a.j))
                for k in range(room):
                    ch = rem[k::room]
                    if ch:
                        tq.put((r["instance"], ch, 2.0))
                        g["pending"] += 1
                        outstanding += 1
    for p in procs:
        tq.put(None)
    for p in procs:
        p.terminate()

    tot = engine.Stats()
    incomplete, vac = [], []
    for n, g in agg.items():
        tot.add(g["stats"])
        s = g["stats"]
        if g["left"] or g["pending"] or s.limit_paths or s.spurious or s.mismatch or s.diverged or s.unknown:
            incomplete.append(n)
        if not viol and not g["left"] and not (s.limit_paths or s.spurious or s.mismatch or s.diverged):
            miss = [l for l in insts[n].reach if l not in g["labels"]]
            if s.paths == 0 or s.checks == 0 or miss:
                vac.append("%s (paths %d, checks %d, not reached %s)" % (n, s.paths, s.checks, miss))
        if a.v:
            print("%-40s %6.1fs paths %d dec %d q %d solver %.1fs checks %d left %d limit %d spur %d val %d labels %s" % (
                n, g["wall"], s.paths, s.decisions, s.queries, s.solver_s, s.checks, g["left"], s.limit_paths, s.spurious,
                s.validated, sorted(g["labels"])))
    wall = time.time() - t0
    bad = tot.spurious + tot.mismatch + tot.diverged + tot.limit_paths
    code = 0
    if viol:
        code = 1
    elif errors or vac or tot.paths == 0 or bad > tot.paths:
        code = 2
    rdir = os.path.join(HERE, "replays")
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for k, v in enumerate(viol[:5]):
            v.update(property=cid, tier=tier)
            rp = os.path.join(rdir, "%s-%d.json" % (cid, k))
            with open(rp, "w") as f:
                json.dump(v, f, indent=1)
            print("counterexample: instance %s: %s\n  inputs: %s" % (v["instance"], v["msg"], v["inputs"]))
            print("VIOLATION property=%s replay=%s" % (cid, rp))
    for w in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (cid, w))
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.paths,
            "transitions": tot.decisions,
            "traces_validated_against_impl": tot.validated,
            "samples": samples[:24] or [{"none": "stopped before a path was sampled"}],
            "exhaustive": not incomplete and code == 0,
            "explanation": "states: feasible paths of the real code explored symbolically (each stands for every "
                           "input satisfying its path condition); transitions: branch decisions taken on "
                           "symbolic conditions; validated: paths whose solver model was re-run on the "
                           "unmodified code with identical observations",
            "instances": len(insts),
            "instances_complete": len(insts) - len(incomplete),
            "instances_incomplete": incomplete,
            "bounds": {n: i.bounds for n, i in insts.items()},
            "per_instance": {n: {"paths": g["stats"].paths, "assertions": g["stats"].checks,
                                 "queries": g["stats"].queries, "unexplored_prefixes": g["left"],
                                 "reached": sorted(g["labels"])} for n, g in agg.items()},
            "functions_encoded": sorted(funcs),
            "assertions_checked": tot.checks,
            "assertions_decided_by_simplification": tot.trivial_checks,
            "solver": "z3 " + __import__("z3").get_version_string() + " (quantifier-free bit-vectors)",
            "solver_queries": tot.queries,
            "solver_seconds": round(tot.solver_s, 3),
            "solver_unknown": tot.unknown,
            "verdicts_confirmed_by_cvc5": tot.cross_agree,
            "verdicts_disputed_by_cvc5": tot.cross_disagree,
            "invalid_models_discarded": tot.bad_models,
            "forks": tot.forks,
            "case_splits": tot.concretizations,
            "paths_abandoned": tot.limit_paths,
            "counterexamples_not_reproduced": tot.spurious,
            "validation_mismatches": tot.mismatch,
            "unexplored_prefixes": sum(g["left"] for g in agg.values()),
            "source_digest": repo_digest(),
            "notes": notes[:40],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if a.only is None:
        with open(os.path.join(HERE, "evidence", cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for x in errors:
        print("ERROR", x)
    for x in vac:
        print("VACUOUS", x)
    if bad:
        for x in notes[:10]:
            print("INCONCLUSIVE", x[:600])
    print("%s %s: %d paths, %d decisions, %d assertions, %d queries (%.1f s in solver), %d validated natively, "
          "%d/%d instances complete, %.1f s, exit %d" % (
              cid, tier, tot.paths, tot.decisions, tot.checks, tot.queries, tot.solver_s, tot.validated,
              len(insts) - len(incomplete), len(insts), wall, code))
    return code


COMMON_ASSUMPTIONS = [
    "CPython executes the package's own code; symbolic integers are bit-vector terms widened to their exact "
    "interval, so they never wrap",
    "dict/set displays, item access, % formatting, join, match statements and the builtins int, bool, str, bytes, bytearray, memoryview, set, frozenset, dict, "
    "len, range, sorted, min, max, type, hex, chr, ord, print, open and the modules struct, math, re, io, functools, codecs, binascii, "
    "array are replaced by equivalents that accept symbolic operands "
    "(validated against the unmodified code on the sampled paths)",
    "assert statements are enabled (python without -O)",
]

if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
