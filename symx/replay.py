"""Replay of recorded inputs on the plain, unmodified code.

usage: python replay.py FILE.json          (one case or a list of cases)
       VERIF_REPO selects the tree (default /repo)

Prints one JSON line per case; exit 1 when any case violates its property.
"""
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)

from symx import plainhook  # noqa
from symx.session import ConcreteSession, CheckFailed, Discard  # noqa


class Hang(BaseException):
    pass


_installed = [None]


def load(module, envname):
    if _installed[0] != envname or _installed[0] is None:
        if envname:
            e = importlib.import_module("envs." + envname)
            plainhook.install(*e.concrete())
        else:
            plainhook.install()
        _installed[0] = envname or ""
    return importlib.import_module(module)


def run_case(case, timeout=20):
    mod = load(case["module"], case.get("env"))
    fn = None
    for h in mod.HARNESSES:
        if h.name == case["harness"]:
            fn = h.fn
    S = ConcreteSession(case["inputs"])
    if case.get("env"):
        importlib.import_module("envs." + case["env"]).begin(S)

    def alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 0.5)
    out = sys.stdout
    try:
        sys.stdout = open(os.devnull, "w")
        fn(S, **case["cfg"])
        r = {"ok": True}
    except CheckFailed as e:
        r = {"ok": False, "label": str(e), "kind": "check"}
    except Discard:
        r = {"ok": True, "discarded": True}
    except Hang:
        r = {"ok": False, "label": "no termination within %ds" % timeout, "kind": "hang"}
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        own = not tb.tb_frame.f_code.co_filename.startswith("/repo/")
        if own and isinstance(e, (AttributeError, NameError, ImportError)) and VERIF in tb.tb_frame.f_code.co_filename:
            # the harness itself does not fit this tree: no verdict
            r = {"ok": None, "label": "harness error %s: %s" % (type(e).__name__, str(e)[:300]), "kind": "harness"}
        else:
            r = {"ok": False, "label": "exception %s: %s" % (type(e).__name__, str(e)[:300]), "kind": "exception",
                 "trace": traceback.format_exc()[-1500:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout.close()
        sys.stdout = out
        S.cleanup()
    r["checks"] = sum(S.labels.values())
    return r


def main():
    import logging
    logging.disable(logging.CRITICAL)
    with open(sys.argv[1]) as f:
        data = json.load(f)
    cases = data if isinstance(data, list) else [data]
    rc = 0
    for c in cases:
        r = run_case(c)
        if not r["ok"]:
            rc = 1
        print("REPLAY " + json.dumps(r))
        sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
