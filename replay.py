#!/opt/venv/bin/python
"""Replays recorded inputs against the real, unmodified code of /repo.

  replay.py FILE.json      run one recording and say what happened
  replay.py --serve        requests on stdin, one JSON per line (used by check.py)

Every run happens in a forked child that has dropped to an unprivileged user and works in a
scratch folder of its own, so nothing the code does can reach real files.
"""
import importlib
import json
import os
import pwd
import resource
import shutil
import signal
import sys
import tempfile
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("SX_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [REPO, os.path.join(REPO, "wiggle_shell"), HERE]
NOBODY = 65534


def observations(obs):
    return json.loads(json.dumps(obs, default=repr))


def raised_inside(e, scratch):
    """Whether the code under test raised it, and not because a harness called it in a way it does not know."""
    if not isinstance(e, Exception) or isinstance(e, (TypeError, AttributeError, ImportError, NameError)):
        return False
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    last = max((i for i, f in enumerate(files) if f.startswith(HERE + "/")), default=-1)
    return any(f.startswith((REPO + "/", scratch + "/repo/")) for f in files[last + 1:])


def run_child(req, scratch, w):
    from sx import concrete
    mod = importlib.import_module(f"props.{req['module']}")
    if mod.CASES[req["case"]].get("copy"):
        own_copy(scratch, req["module"])
        mod = importlib.import_module(f"props.{req['module']}")
    os.chdir(scratch)
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    signal.alarm(int(req.get("timeout", 20)))
    fn = mod.CASES[req["case"]]["fn"]
    h = concrete.Concrete(req["tier"], [tuple(v) for v in req["values"]], scratch + "/s")
    res = {}
    try:
        fn(h)
        res["status"] = "ok"
    except concrete.Violation as v:
        res = {"status": "violation", "msg": v.msg, "key": v.key}
    except concrete.Assumed:
        res["status"] = "assumed"
    except concrete.Stop as e:
        res = {"status": "stop", "msg": str(e)}
    except BaseException as e:
        res = {"status": "error", "msg": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:]}
        if raised_inside(e, scratch):
            res.update(status="violation", msg=f"a step that has to succeed fails: {type(e).__name__}: {e}"[:300], key=None)
    try:
        res["obs"] = observations(h.obs)
    except Exception as e:
        res["obs"] = [["unserialisable", str(e)]]
    res["left"] = len(h.values)
    os.write(w, json.dumps(res).encode())


def own_copy(scratch, module):
    """Run from a copy of the repository: the shell keeps its DBMS folder beside the code."""
    dst = scratch + "/repo"
    shutil.copytree(REPO, dst, ignore=shutil.ignore_patterns(".*", "dbms", "__pycache__", "tests"), symlinks=True)
    for d, ds, fs in os.walk(dst):
        for x in [d] + [os.path.join(d, f) for f in fs]:
            if os.getuid() == 0:
                os.chown(x, NOBODY, NOBODY, follow_symlinks=False)
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None) or next(iter(getattr(m, "__path__", [])), None)
        if f and f.startswith(REPO + "/"):
            del sys.modules[n]
    import pydantic.class_validators
    pydantic.class_validators._FUNCS.clear()       # pydantic refuses to see a validator twice
    sys.path[:2] = [dst, dst + "/wiggle_shell"]
    importlib.invalidate_caches()
    preload(module)


def run(req):
    scratch = tempfile.mkdtemp(prefix="wgreplay-")
    os.mkdir(scratch + "/s")
    if os.getuid() == 0:
        os.chown(scratch, NOBODY, NOBODY)
        os.chown(scratch + "/s", NOBODY, NOBODY)
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            devnull = os.open("/dev/null", os.O_WRONLY)
            os.dup2(devnull, 1)
            run_child(req, scratch, w)
        except BaseException:
            try:
                os.write(w, json.dumps({"status": "error", "msg": traceback.format_exc()[-1500:], "obs": []}).encode())
            except OSError:
                pass
            code = 1
        os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if not data:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            return {"status": "hang", "msg": "did not end within the time limit", "obs": []}
        return {"status": "error", "msg": f"child ended with {st}", "obs": []}
    return json.loads(data)


def preload(module):
    """Import everything as root, before a child drops its privileges."""
    devnull = os.open("/dev/null", os.O_WRONLY)
    saved = os.dup(1)
    os.dup2(devnull, 1)
    try:
        for m in ("wiggle_shell.core.query.query", "wiggle_shell.core.select_gdbms", "wiggle_shell.wiggleshell",
                  "core.query.query", f"props.{module}"):
            try:
                importlib.import_module(m)
            except Exception:
                if m.startswith("props."):
                    raise
        import logging
        logging.disable(logging.CRITICAL)
    finally:
        sys.stdout.flush()
        os.dup2(saved, 1)
        os.close(saved)
        os.close(devnull)


def main():
    if sys.argv[1:] == ["--serve"]:
        err = None
        loaded = set()
        for line in sys.stdin:
            req = json.loads(line)
            try:
                if req["module"] not in loaded:
                    preload(req["module"])
                    loaded.add(req["module"])
                res = run(req)
            except Exception as e:
                res = {"status": "error", "msg": f"import: {type(e).__name__}: {e}", "obs": []}
            sys.stdout.write(json.dumps(res) + "\n")
            sys.stdout.flush()
        return 0
    req = json.load(open(sys.argv[1]))
    preload(req["module"])
    print("inputs:")
    for k, n, v in req["values"]:
        print("  ", k, n, repr(v))
    res = run(req)
    print(json.dumps(res, indent=1, ensure_ascii=True))
    return 0 if res["status"] == "ok" else 1


if __name__ == "__main__":
    sys.exit(main())
