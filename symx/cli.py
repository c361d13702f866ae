"""Check driver: runs all scenarios of a property, writes evidence, prints verdicts."""
import argparse
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.path.join(ROOT, "evidence")

SCEN = []
OPTS = {}


def bootstrap():
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.WARNING)
    import torch

    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    torch.backends.mha.set_fastpath_enabled(False)
    torch.backends.mkldnn.enabled = False
    import continual  # noqa
    from . import engine, symtensor

    assert os.path.realpath(continual.__file__).startswith(os.path.realpath(REPO)), continual.__file__
    shadow_type()
    engine.start_monitor(os.path.realpath(REPO).rstrip("/") + "/")


def shadow_type():
    """`type(x) is Tensor` / `type(x) in {Tensor, list}` tests in the library must treat a symbolic
    tensor as the tensor it stands for: the builtin `type` is shadowed in the library's modules."""
    import torch

    from .engine import SymZ
    from .symtensor import SymTensor

    _t = type

    class Meta(_t):
        def __instancecheck__(cls, o):
            return isinstance(o, _t)

        def __eq__(cls, o):
            return o is cls or o is _t

        def __hash__(cls):
            return hash(_t)

    class type_(metaclass=Meta):
        def __new__(cls, *a, **k):
            if len(a) == 1 and not k:
                t = _t(a[0])
                return torch.Tensor if t is SymTensor else int if t is SymZ else t
            return _t(*a, **k)

    for n, m in list(sys.modules.items()):
        if n == "continual" or n.startswith("continual."):
            if "type" not in vars(m):
                m.type = type_


def _worker(i):
    from . import engine

    name, fn, opts = SCEN[i]
    try:
        engine.reset_global_state()
        return i, engine.run_scenario(name, fn, validate=OPTS.get("validate", True), **opts)
    except Exception as e:
        import traceback

        r = engine.Result(name)
        r.status, r.detail = "inconclusive", f"engine error {type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}"
        return i, r


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                body = line[len("finding:"):].strip()
                head, _, text = body.partition("::")
                m = re.match(r"property=(\S+) scenario=(.*?)(?: fails=(.*))?$", head.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2), (m.group(3) or "*").split("|"), text.strip()))
    return out


def load_prop(pid):
    return importlib.import_module(f"props.{pid.lower()}")


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    bootstrap()
    from . import engine, symtensor

    mod = load_prop(a.property)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    if a.replay:
        w = json.load(open(a.replay))
        for name, fn, opts in mod.scenarios(w.get("tier", "thorough")):
            if name == w["scenario"]:
                fails, exc = engine.concrete_outcome(
                    fn, w["witness"]["values"], w["witness"]["decisions"], w["witness"]["seed"], w["witness"]["scale"]
                )
                print("reproduced:" if (fails or exc) else "not reproduced", exc or fails)
                return 1 if (fails or exc) else 0
        print("scenario not found")
        return 2

    seen = set()
    for name, fn, opts in mod.scenarios(tier):
        if name in seen:
            continue
        seen.add(name)
        if a.only and not fnmatch.fnmatch(name, a.only):
            continue
        SCEN.append((name, fn, opts))
    if a.list:
        for s in SCEN:
            print(s[0])
        return 0
    if not SCEN:
        print("no scenarios")
        return 2

    budget = a.budget or (700 if tier == "quick" else 820)
    known = load_known(pid)
    results = []
    stop_early = False
    ctx = mp.get_context("fork")
    jobs = max(1, min(a.jobs, len(SCEN)))
    unfinished = 0
    pool = ctx.Pool(jobs, maxtasksperchild=400)
    try:
        it = pool.imap_unordered(_worker, range(len(SCEN)))
        for _ in range(len(SCEN)):
            left = budget - (time.time() - t0)
            try:
                i, r = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                stop_early = True
                break
            results.append((i, r))
            nviol = sum(1 for _, x in results if x.status == "violation" and _known(known, x) is None)
            if nviol >= 25:
                stop_early = True
                break
    finally:
        pool.terminate()
        pool.join()
    unfinished = len(SCEN) - len(results)
    results.sort(key=lambda t: t[0])
    viol, kn, inc = [], [], []
    for i, r in results:
        if r.status == "violation":
            k = _known(known, r)
            (kn if k is not None else viol).append((r, k))
        elif r.status == "inconclusive":
            inc.append(r)
    for r, text in kn:
        print(f"KNOWN-FINDING: property={pid} scenario={r.name} {text} [{r.detail[:160]}]")
    replays = []
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    for r, _ in viol:
        hh = hashlib.sha1(r.name.encode()).hexdigest()[:10]
        path = os.path.join(EVID, "replays", f"{pid}-{hh}.json")
        json.dump(
            {"property": pid, "tier": tier, "scenario": r.name, "detail": r.detail, "witness": r.witness},
            open(path, "w"), indent=1, default=str,
        )
        replays.append(path)
    for (r, _), path in list(zip(viol, replays))[:10]:
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  scenario: {r.name}\n  real code: {r.detail[:500]}\n  choices: {r.witness['choices']}")
    for r in inc[:10]:
        print(f"UNDECIDED scenario={r.name}: {r.detail[:1500]}")
    wall = time.time() - t0
    tot = lambda f: sum(getattr(r, f) for _, r in results)
    funcs = sorted(set().union(*[r.functions for _, r in results]) if results else [])
    opn = sorted(set().union(*[r.op_names for _, r in results]) if results else [])
    if not a.no_evidence and not a.only:
        names = [r.name for _, r in results]
        step = max(1, len(names) // 12)
        cov = {
            "states": tot("paths"),
            "transitions": tot("ops"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [
                {"scenario": r.name, "paths": r.paths, "obligations": r.obligations, "elements": r.elements,
                 "queries": r.queries, "solver_s": round(r.solver_time, 4)}
                for _, r in results[::step]
            ][:14],
            "explanation": "bounded symbolic execution: states = completed symbolic paths (one per scenario "
            "and per feasible combination of decisions), transitions = ATen operations interpreted "
            "symbolically, traces_validated_against_impl = symbolic paths whose terms were evaluated at a "
            "random point and compared with an ordinary torch run of the same scenario on the real code",
            "scenarios": len(SCEN),
            "scenarios_finished": len(results),
            "scenarios_undecided": {r.name: r.detail[:200] for r in inc},
            "obligations": tot("obligations"),
            "element_equalities": tot("elements"),
            "element_equalities_syntactic": tot("trivial"),
            "queries_discharged": tot("queries"),
            "queries_unsat": tot("unsat"),
            "queries_sat": tot("sat"),
            "queries_unknown": tot("unknown"),
            "vacuity_guards_sat": tot("guards"),
            "solver_time_s": round(tot("solver_time"), 3),
            "solver": "z3 (tactic simplify;som -> smt)",
            "functions_encoded": funcs,
            "aten_ops_encoded": opn,
            "bounds": getattr(mod, "BOUNDS", ""),
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
        }
        ev = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": cov,
            "wall_s": round(wall, 2),
            "assumptions": COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
            "violations": len(viol),
            "violation_details": [{"scenario": r.name, "detail": r.detail[:300], "replay": p} for (r, _), p in zip(viol, replays)],
            "known_findings": [r.name for r, _ in kn],
            "inconclusive": [r.name for r in inc],
        }
        json.dump(ev, open(os.path.join(EVID, f"{pid}.json"), "w"), indent=1, default=str)
    print(
        f"{pid} {tier}: {len(results)}/{len(SCEN)} scenarios, {tot('paths')} paths, {tot('elements')} element equalities, "
        f"{tot('queries')} queries ({tot('unsat')} unsat, {tot('sat')} sat, {tot('unknown')} unknown), "
        f"solver {tot('solver_time'):.1f}s, wall {wall:.1f}s; violations={len(viol)} known={len(kn)} inconclusive={len(inc)}"
    )
    if viol:
        return 1
    if len(inc) > len(results) // 2 or (unfinished and not stop_early):
        return 2  # most of the property could not be decided: no answer
    if inc:
        print(f"not decided (outside what the encoding reaches, listed in the evidence): {len(inc)} of {len(results)} scenarios")
    if unfinished:
        print(f"time budget: {unfinished} scenarios not reached")
        return 0 if tier == "thorough" and len(results) >= len(SCEN) // 2 else 2
    return 0


def _known(known, r):
    """a listed finding: this scenario, failing in nothing but the listed way"""
    for pat, fails, text in known:
        if pat == r.name or ("*" in pat and fnmatch.fnmatchcase(r.name, pat)):
            if all(any(fnmatch.fnmatchcase(l, f) for f in fails) for l in r.labels):
                return text
    return None


COMMON_ASSUMPTIONS = [
    "floating-point arithmetic is modelled as exact real arithmetic; python float constants are read as the "
    "rational (or square root of a rational) they denote",
    "exp/tanh/sigmoid/gelu/sqrt/1/x are opaque functions with exp(a+b)=exp(a)exp(b), x*(1/x)=1 and sign facts; "
    "two applications are identified when their arguments are equal as polynomials over the inputs",
    "ATen operators are encoded by symx/symtensor.py (data movement is executed by torch itself on term ids); the "
    "encoding is compared with an ordinary torch run at a random point for the validated traces",
    "CPU, first derivatives only (P30), no TorchScript/ONNX tracing",
]
