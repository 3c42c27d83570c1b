"""Runs harnesses against the unmodified package in /repo (no proxies, no
source transformation).  One forked child per request, so module state never
leaks from one replay to the next.

Used by run.py as a server (JSON lines on stdin/stdout), and by people:
    python3-vt sx/native.py replay FILE
"""
import sys, os, json, importlib, select, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, "/repo")
    import warnings
    warnings.simplefilter("ignore")
    import pkgutil, hrdc
    for m in pkgutil.walk_packages(hrdc.__path__, "hrdc."):
        if m.name != "hrdc.usage.arcade":
            try:
                importlib.import_module(m.name)
            except ImportError:
                pass


def run_one(inst, inputs):
    from sx.ctx import ConcCtx, Failure, Skip, freeze
    c = ConcCtx(inputs)
    r = {"status": "ok", "msg": ""}
    try:
        inst.fn(c, **inst.params)
    except Skip as e:
        r = {"status": "skip", "msg": str(e)}
    except Failure as e:
        r = {"status": "fail", "msg": str(e)}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/repo/" in f.filename] or tb
        r = {"status": "exc", "msg": "%s: %s at %s:%d" % (type(e).__name__, e, where[-1].filename, where[-1].lineno),
             "exc": type(e).__name__, "inrepo": any("/repo/" in f.filename for f in tb)}
    r["obs"] = [freeze(o) for o in c.obs]
    r["nchecks"] = c.nchecks
    return r


def child(inst, inputs, w):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    try:
        out = json.dumps(run_one(inst, inputs))
    except BaseException as e:
        out = json.dumps({"status": "error", "msg": repr(e), "obs": []})
    with os.fdopen(w, "w") as f:
        f.write(out)
    os._exit(0)


def request(insts, req):
    inst = insts[req["instance"]]
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(inst, req["inputs"], w)
    os.close(w)
    buf, end = b"", time.time() + req.get("timeout", 20)
    while True:
        left = end - time.time()
        ok = left > 0 and select.select([r], [], [], left)[0]
        if not ok:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            os.close(r)
            return {"status": "hang", "msg": "no result within %s s" % req.get("timeout", 20), "obs": []}
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return {"status": "error", "msg": "child died", "obs": []}


def load_insts(check, tier):
    m = importlib.import_module("checks." + check.lower())
    return {i.name: i for i in m.instances(tier)}


def serve(check, tier):
    setup()
    insts = load_insts(check, tier)
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        out.write(json.dumps(request(insts, json.loads(line))) + "\n")
        out.flush()


def main():
    if sys.argv[1] == "serve":
        serve(sys.argv[2], sys.argv[3])
    elif sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            case = json.load(f)
        setup()
        r = request(load_insts(case["property"], case.get("tier", "quick")), case)
        print(json.dumps(r, indent=1))
        sys.exit(0 if r["status"] == "ok" else 1)


if __name__ == "__main__":
    main()
