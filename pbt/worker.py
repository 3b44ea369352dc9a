"""Runs cases against the real code.  One JSON request per line on stdin, one JSON reply per line on the reply fd."""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PBT_REPO", "/repo")


class Ctx(object):
    def __init__(self, tmp):
        self.tmp = tmp
        self.repo = REPO
        self.stats = {}

    def data_dir(self):
        return self.conf.DATA_DIR


def main():
    prop, tmp = sys.argv[1], sys.argv[2]
    reply = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)          # whatever the code prints must not reach the protocol
    os.dup2(devnull, 2)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    os.environ["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    for d in ("mpl", "data/tikz", "data/simulations_output/plot_data", "cwd"):
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
    os.chdir(os.path.join(tmp, "cwd"))
    warnings.filterwarnings("ignore")
    from pbt.common import Violation, Discard, HarnessError
    ctx = Ctx(tmp)
    try:
        import numpy as np
        np.seterr(all="ignore")
        import conf.conf as cc
        from pathlib import Path
        if not os.path.abspath(cc.__file__).startswith(os.path.abspath(REPO)):
            raise HarnessError("conf imported from " + cc.__file__)
        cc.DATA_DIR = Path(tmp) / "data"
        cc.SIM_DIR = cc.DATA_DIR / "simulations_output"
        ctx.conf = cc
        mod = importlib.import_module("props." + prop.lower())
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        warnings.filterwarnings("ignore")
        reply.write(json.dumps({"ready": True}) + "\n")
    except BaseException:
        reply.write(json.dumps({"ready": False, "msg": traceback.format_exc()}) + "\n")
        reply.flush()
        return
    reply.flush()
    for line in sys.stdin:
        req = json.loads(line)
        out = {}
        try:
            np.random.seed(12345)
            np.seterr(all="ignore")
            res = mod.check(req["case"], ctx) or {}
            out = {"status": "ok", "labels": list(res.get("labels", [])), "nontrivial": bool(res.get("nontrivial", True)),
                   "known": list(res.get("known", []))}
        except Discard as e:
            out = {"status": "discard", "msg": str(e)}
        except Violation as e:
            out = {"status": "violation", "msg": str(e), "key": e.key}
        except (HarnessError, MemoryError):
            out = {"status": "error", "msg": traceback.format_exc()}
        except BaseException as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            frames = ["%s:%d %s" % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else
                                    os.path.basename(f.filename), f.lineno or 0, f.name) for f in tb][-6:]
            out = {"status": "violation", "key": None,
                   "msg": "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], " <- ".join(reversed(frames)))}
            if isinstance(e, (KeyboardInterrupt,)):
                raise
        reply.write(json.dumps(out) + "\n")
        reply.flush()


if __name__ == "__main__":
    main()
