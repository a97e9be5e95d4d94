"""Check driver: explores all paths of a property's harnesses, replays
counterexamples on the plain code and writes the evidence file."""
import importlib
import json
import multiprocessing as mp
import os
import select
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROJECT_PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"


def log(*a):
    print(*a)
    sys.stdout.flush()


class Unit:
    def __init__(self, hname, fn, cfg):
        self.hname = hname
        self.fn = fn
        self.cfg = cfg


# ------------------------------------------------------------------- worker
def explore(units, conn, envmod, opts):
    import gc
    from . import core, instr, shims
    from .symsession import SymSession, Candidate
    sys.setrecursionlimit(20000)
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    import logging
    logging.disable(logging.CRITICAL)
    eng = core.Engine()
    core.set_engine(eng)
    gc.freeze()
    while True:
        task = conn.recv()
        if task is None:
            break
        ui, prefix, deadline = task
        unit = units[ui]
        S = SymSession(eng)
        S.cfgkey = lambda: (unit.hname, json.dumps(unit.cfg, sort_keys=True, default=str))
        q0, t0, d0, u0 = eng.queries, eng.solver_s, eng.decisions, eng.unknowns
        start = time.time()
        res = {"unit": ui, "paths": 0, "aborted": 0, "undecided": [], "witness": [], "pending": [], "cands": [], "checked_paths": 0}
        eng.start(prefix)
        floor = len(prefix)
        slice_s = opts["slice"]
        nextw = 1
        try:
            while True:
                eng.begin_path()
                S.begin()
                shims.reset_path()
                for c in shims.PATH_CACHES:
                    c.clear()
                instr.State.loops = 0
                instr.State.yield_hook = None
                if envmod is not None:
                    envmod.begin(S)
                before = sum(S.labels.values())
                reason = None
                ncand = len(S.candidates)
                aborted = False
                try:
                    unit.fn(S, **unit.cfg)
                except core.PathAbort:
                    aborted = True
                    reason = eng.path_incomplete
                except core.Unsupported as e:
                    reason = "unsupported: %s" % e
                    if os.environ.get("VERIF_TRACE"):
                        traceback.print_exc()
                except core.BudgetExceeded:
                    reason = "decision budget"
                except instr.HangSuspected:
                    w = S.witness()
                    if w is not None:
                        S.candidates.append(Candidate("loop bound exceeded", [w], "hang"))
                    else:
                        reason = "loop bound exceeded on a path without a model"
                except (KeyboardInterrupt, SystemExit):
                    raise
                except core.Nondeterminism:
                    raise
                except Exception as e:
                    w = S.witness()
                    if w is not None:
                        c = Candidate("exception %s: %s" % (type(e).__name__, safe_str(e)), [w], "exception")
                        c.trace = traceback.format_exc()[-3000:]
                        S.candidates.append(c)
                    else:
                        reason = "exception %s on a path without a model" % type(e).__name__
                if eng.path_incomplete and reason is None:
                    reason = eng.path_incomplete
                res["paths"] += 1
                if aborted and reason is None and len(S.candidates) == ncand:
                    res["aborted"] += 1
                if sum(S.labels.values()) > before:
                    res["checked_paths"] += 1
                if reason is not None:
                    if len(res["undecided"]) < 40:
                        res["undecided"].append((reason[:300], S.witness()))
                    else:
                        res["undecided"].append((reason[:300], None))
                elif not aborted and res["paths"] >= nextw and len(res["witness"]) < opts["witness"]:
                    w = S.witness()
                    if w is not None:
                        res["witness"].append(w)
                    nextw = res["paths"] * 3
                if len(S.candidates) > 25:
                    res["stopped"] = True
                    break
                now = time.time()
                more = eng.backtrack(floor)
                if not more:
                    break
                if now > deadline:
                    res["pending"] = eng_pending_all(eng, floor)
                    res["timeout"] = True
                    break
                if now - start > slice_s:
                    res["pending"] = eng_pending_all(eng, floor)
                    break
        except core.Nondeterminism as e:
            res["error"] = "nondeterminism: %s" % e
        except BaseException as e:  # engine failure
            res["error"] = "%s\n%s" % (e, traceback.format_exc()[-3000:])
        res["cands"] = [(c.label, c.inputs, c.kind, getattr(c, "trace", "")) for c in S.candidates]
        res["undecided_labels"] = list(S.undecided)
        res["labels"] = dict(S.labels)
        res["proved"] = S.proved
        res["queries"] = eng.queries - q0
        res["solver_s"] = eng.solver_s - t0
        res["decisions"] = eng.decisions - d0
        res["unknowns"] = eng.unknowns - u0
        res["funcs"] = sorted(f for f in instr.FUNCS if f.startswith("elsie"))
        S.cleanup()
        # drop solver state of this task
        eng.start([])
        conn.send(res)


def safe_str(e):
    try:
        return str(e)[:300]
    except BaseException:
        return "<%s>" % type(e).__name__


def eng_pending_all(eng, floor):
    """All unexplored work, including the branch backtrack() just moved to."""
    base = [(e.kind, e.val, e.cand) for e in eng.trail]
    return [base] + eng.pending(floor)


# ------------------------------------------------------------------- replay
def replay_cases(cases, timeout=600):
    """Run cases on the plain code; returns list of results (None: no answer)."""
    if not cases:
        return []
    path = os.path.join(VERIF, "evidence", "replays", ".batch.%d.json" % os.getpid())
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(cases, f)
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env.pop("PYTHONPATH", None)
    out = []
    try:
        p = subprocess.run([PROJECT_PY, os.path.join(VERIF, "symx", "replay.py"), path], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=env, cwd="/tmp")
        text = p.stdout.decode(errors="replace")
        err = p.stderr.decode(errors="replace")[-1500:]
    except subprocess.TimeoutExpired as e:
        text = (e.stdout or b"").decode(errors="replace")
        err = "replay timeout"
    finally:
        os.unlink(path)
    for line in text.splitlines():
        if line.startswith("REPLAY "):
            out.append(json.loads(line[7:]))
    while len(out) < len(cases):
        out.append({"ok": None, "label": "no answer: " + err})
        err = ""
    return out


# ------------------------------------------------------------------ checking
def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k["property"] == pid]


def matches_finding(k, case, label):
    """A listed finding is identified by harness, failing assertion and input predicate."""
    if k.get("harness") not in (None, case["harness"]):
        return False
    if k.get("label") is not None and k["label"] not in label:
        return False
    for key, val in k.get("cfg", {}).items():
        if case["cfg"].get(key) != val:
            return False
    for key, val in k.get("inputs", {}).items():
        if case["inputs"].get(key) != val:
            return False
    return True


def run_property(pid, tier, modules, level="model_checking", budget=None, jobs=8):
    t_start = time.time()
    if SITE not in sys.path:
        sys.path.append(SITE)
    sys.dont_write_bytecode = True
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if budget is None:
        budget = 240 if tier == "quick" else 780
    deadline = t_start + budget
    opts = {"slice": 2.0, "witness": 6 if tier == "quick" else 12}
    total = {"paths": 0, "decisions": 0, "queries": 0, "solver_s": 0.0, "proved": 0, "aborted": 0, "unknowns": 0}
    per_harness = {}
    funcs = set()
    undecided = []
    errors = []
    unconfirmed = []
    known_hits = {}
    violation = None
    wit_cases = []
    replays = 0
    timeout = False
    bounds = []
    assumes = []
    findings = known_findings(pid)

    for modname, envname in modules:
        if violation:
            break
        sys.path.insert(0, VERIF) if VERIF not in sys.path else None
        from . import instr
        envmod = None
        if envname:
            envmod = importlib.import_module("envs." + envname)
            instr.install("symbolic", *envmod.symbolic())
        else:
            instr.install("symbolic")
        mod = importlib.import_module(modname)
        units = []
        for h in mod.HARNESSES:
            cfgs = h.quick if tier == "quick" else h.thorough
            if os.environ.get("VERIF_ONLY") and os.environ["VERIF_ONLY"] not in h.name:
                continue
            bounds.append("%s: %s" % (h.name, h.bounds))
            if h.assumes:
                assumes.append("%s: %s" % (h.name, h.assumes))
            for cfg in cfgs:
                units.append(Unit(h.name, h.fn, cfg))
        tasks = [(i, []) for i in range(len(units))]
        tasks.reverse()
        procs = []
        for _ in range(jobs):
            a, b = mp.Pipe()
            p = mp.Process(target=_child, args=(units, b, a, envmod, opts), daemon=True)
            p.start()
            b.close()
            procs.append([p, a, None])
        confirmed_labels = {}
        try:
            while True:
                for pr in procs:
                    if pr[2] is None and tasks and not violation:
                        t = tasks.pop()
                        pr[1].send((t[0], t[1], deadline))
                        pr[2] = t
                busy = [pr for pr in procs if pr[2] is not None]
                if not busy:
                    break
                ready, _, _ = select.select([pr[1] for pr in busy], [], [], 5.0)
                if time.time() > deadline + 30:
                    # a solver call outlived its time limit: the path stays open
                    timeout = True
                    total["pending"] = total.get("pending", 0) + len(busy)
                    for pr in busy:
                        pr[0].kill()
                    break
                for pr in busy:
                    if pr[1] not in ready:
                        continue
                    try:
                        res = pr[1].recv()
                    except EOFError:
                        errors.append("worker died on %s %s" % (units[pr[2][0]].hname, units[pr[2][0]].cfg))
                        pr[2] = None
                        pr[1].close()
                        procs.remove(pr)
                        continue
                    task, pr[2] = pr[2], None
                    u = units[res["unit"]]
                    ph = per_harness.setdefault(u.hname, {"paths": 0, "checks": 0, "configs": set(), "checked_paths": 0, "undecided": 0, "cands": 0})
                    ph["paths"] += res["paths"]
                    ph["checked_paths"] += res["checked_paths"]
                    ph["checks"] += sum(res["labels"].values())
                    ph["undecided"] += len(res["undecided"])
                    ph["cands"] += len(res["cands"])
                    ph.setdefault("labels", {})
                    for k, v in res["labels"].items():
                        ph["labels"][k] = ph["labels"].get(k, 0) + v
                    ph["configs"].add(res["unit"])
                    for k in ("paths", "decisions", "queries", "solver_s", "proved", "aborted", "unknowns"):
                        total[k] += res[k]
                    funcs.update(res["funcs"])
                    for r, w in res["undecided"]:
                        undecided.append((modname, envname, u, r, w))
                    for lb in res["undecided_labels"]:
                        undecided.append((modname, envname, u, "solver unknown on assertion: " + lb, None))
                    if res.get("error"):
                        errors.append("%s %s: %s" % (u.hname, u.cfg, res["error"]))
                    if res.get("timeout"):
                        timeout = True
                        total["pending"] = total.get("pending", 0) + len(res["pending"])
                    else:
                        for pfx in res["pending"]:
                            tasks.append((res["unit"], pfx))
                    for w in res["witness"]:
                        wit_cases.append(mkcase(pid, modname, envname, u, w))
                    # confirm counterexamples
                    for label, inputs, kind, trace in res["cands"]:
                        if violation:
                            break
                        key = (u.hname, label, kind)
                        if confirmed_labels.get(key, 0) >= (3 if kind == "check" else 2):
                            # enough models of this kind were tried
                            unconfirmed.append((u, label, kind, inputs[0] if inputs else None, trace))
                            continue
                        confirmed_labels[key] = confirmed_labels.get(key, 0) + 1
                        cases = [mkcase(pid, modname, envname, u, w) for w in inputs]
                        rs = replay_cases(cases, timeout=30 * len(cases) + 60)
                        replays += len(cases)
                        hit = False
                        for c, r in zip(cases, rs):
                            if r["ok"] is False:
                                k = [f for f in findings if matches_finding(f, c, r["label"])]
                                if k:
                                    known_hits[k[0]["id"]] = k[0]
                                    hit = True
                                    confirmed_labels[key] = 0 if kind == "check" else confirmed_labels[key]
                                    continue
                                violation = (c, r, label)
                                hit = True
                                break
                        if not hit:
                            unconfirmed.append((u, label, kind, inputs[0] if inputs else None, trace))
                if violation:
                    break
        finally:
            for p, a, _ in procs:
                try:
                    a.send(None)
                except (OSError, BrokenPipeError):
                    pass
            for p, a, _ in procs:
                p.join(0.3)
                if p.is_alive():
                    p.kill()
                    p.join()
    # ------------------------------------------- undecided paths: run concretely
    und_cases = []
    for modname, envname, u, r, w in undecided:
        if w is not None and len(und_cases) < 200:
            und_cases.append(mkcase(pid, modname, envname, u, w))
    sample = wit_cases[:: max(1, len(wit_cases) // (60 if tier == "quick" else 250) + 1)] if not violation else []
    validated = 0
    if not violation:
        by_env = {}
        for c in und_cases + sample:
            by_env.setdefault((c["module"], c["env"]), []).append(c)
        for cs in by_env.values():
            chunks = [cs[i::4] for i in range(4) if cs[i::4]]
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(4) as ex:
                for chunk, rs in zip(chunks, ex.map(_replay_chunk, enumerate(chunks))):
                    for c, r in zip(chunk, rs):
                        if r["ok"] is True:
                            validated += 1
                        elif r["ok"] is False:
                            k = [f for f in findings if matches_finding(f, c, r["label"])]
                            if k:
                                known_hits[k[0]["id"]] = k[0]
                            elif violation is None:
                                violation = (c, r, r["label"])
                        else:
                            errors.append("replay gave no answer: %s" % r["label"])
    # -------------------------------------------------------------- verdict
    rc = 0
    vio_path = None
    if violation:
        c, r, label = violation
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        vio_path = os.path.join(d, "%s.json" % pid)
        with open(vio_path, "w") as f:
            json.dump(dict(c, observed=r, assertion=label), f, indent=1)
        log("counterexample: harness=%s cfg=%s" % (c["harness"], c["cfg"]))
        log("  inputs: %s" % json.dumps(c["inputs"])[:2000])
        log("  observed on the real code: %s" % r["label"])
        if r.get("trace"):
            log(r["trace"])
        log("VIOLATION property=%s replay=%s" % (pid, vio_path))
        rc = 1
    else:
        # a counterexample that the real code does not reproduce decides nothing:
        # its path counts as undecided
        exc_unc = unconfirmed
        for u, label, kind, w, trace in unconfirmed[:10]:
            log("UNCONFIRMED %s %s %s: %s inputs=%s" % (u.hname, u.cfg, kind, label, json.dumps(w)[:600]))
            if trace and os.environ.get("VERIF_DEBUG"):
                log(trace)
        for e in errors[:10]:
            log("ERROR", e[:1500])
        if errors:
            rc = 2
        if not sum(ph["checked_paths"] for ph in per_harness.values()):
            log("VACUOUS: no path reached an assertion")
            rc = 2
        for name, ph in per_harness.items():
            if ph["checked_paths"] == 0 or ph["checked_paths"] <= ph["undecided"] + len([x for x in exc_unc if x[0].hname == name]):
                log("VACUOUS harness %s: %d paths, %d reached an assertion, %d undecided" % (name, ph["paths"], ph["checked_paths"], ph["undecided"]))
                rc = 2
        for k in known_hits.values():
            log("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        # listed findings that were not met by the exploration are still reported
        for k in findings:
            if k["id"] not in known_hits:
                log("note: listed finding %s was not reproduced on this tree" % k["id"])
    wall = time.time() - t_start
    reasons = {}
    for x in undecided:
        reasons[x[3]] = reasons.get(x[3], 0) + 1
    for u, label, kind, w, trace in unconfirmed:
        k = "not reproduced: " + label
        reasons[k] = reasons.get(k, 0) + 1
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "wall_s": round(wall, 2),
        "coverage": {
            "states": total["paths"], "transitions": total["decisions"],
            "traces_validated_against_impl": validated + replays,
            "samples": [{"harness": c["harness"], "cfg": c["cfg"], "inputs": c["inputs"]} for c in sample[:: max(1, len(sample) // 8)][:8]],
            "sampled_paths_replayed": len(sample),
            "explanation": "states = execution paths of the real functions explored symbolically (each path covers all inputs satisfying its path "
                           "condition); transitions = solver-decided branch outcomes; traces_validated = solver models of paths replayed on the plain code.",
            "functions_encoded": sorted(funcs),
            "bounds": bounds,
            "exhausted_within_bounds": not timeout and not undecided and not unconfirmed and not errors and not violation,
            "paths_pending_at_deadline": total.get("pending", 0),
            "undecided_paths": reasons,
            "assertions_proved_or_trivial": total["proved"],
            "queries_discharged": total["queries"], "solver_s": round(total["solver_s"], 2), "solver_unknown": total["unknowns"],
            "harnesses": {n: {"configs": len(p["configs"]), "paths": p["paths"], "paths_reaching_assertions": p["checked_paths"],
                              "assertions_reached": p.get("labels", {}), "undecided": p["undecided"]} for n, p in per_harness.items()},
            "infeasible_or_assumed_away_paths": total["aborted"],
        },
        "assumptions": assumes + [
            "floats are modelled as exact rationals (replays use IEEE doubles with tolerance 1e-6)",
            "library functions are replaced by the shims listed in DESIGN.md",
        ],
        "violations": 1 if violation else 0,
        "violation": None if not violation else {"replay": vio_path, "assertion": violation[1]["label"]},
        "known_findings": [k["what"] for k in known_hits.values()],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    log("%s %s: %d paths, %d decisions, %d queries (%.1fs solver), %d assertions, %d replays, %d undecided%s, %.1fs, exit %d" % (
        pid, tier, total["paths"], total["decisions"], total["queries"], total["solver_s"], sum(p["checks"] for p in per_harness.values()),
        validated + replays, len(undecided), " (deadline reached)" if timeout else "", wall, rc))
    if reasons and not violation:
        for r, n in sorted(reasons.items(), key=lambda x: -x[1])[:8]:
            log("  undecided x%d: %s" % (n, r))
    return rc


def _replay_chunk(a):
    i, cs = a
    return replay_cases_named(cs, i)


def replay_cases_named(cs, i):
    global _batch
    # separate file names for concurrent batches
    path = os.path.join(VERIF, "evidence", "replays", ".batch.%d.%d.json" % (os.getpid(), i))
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(cs, f)
    env = dict(os.environ)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    out = []
    err = ""
    try:
        p = subprocess.run([PROJECT_PY, os.path.join(VERIF, "symx", "replay.py"), path], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300, env=env, cwd="/tmp")
        text, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")[-1500:]
    except subprocess.TimeoutExpired as e:
        text, err = (e.stdout or b"").decode(errors="replace"), "replay timeout"
    finally:
        os.unlink(path)
    for line in text.splitlines():
        if line.startswith("REPLAY "):
            out.append(json.loads(line[7:]))
    while len(out) < len(cs):
        out.append({"ok": None, "label": "no answer: " + err})
    return out


def mkcase(pid, modname, envname, u, w):
    return {"property": pid, "module": modname, "env": envname, "harness": u.hname, "cfg": u.cfg, "inputs": w}


def _child(units, conn, parent_end, envmod, opts):
    parent_end.close()
    try:
        explore(units, conn, envmod, opts)
    except (EOFError, KeyboardInterrupt):
        pass
    os._exit(0)
