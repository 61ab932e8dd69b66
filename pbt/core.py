"""Engine: sub-checks over generated cases, sharded Hypothesis search, shrinking,
replay files and evidence.

A property module defines SUBS, a list of Sub.  A Sub has a Hypothesis strategy
producing a JSON-able case (a dict) and a function `fn(case)` that runs the code
under test and either raises Violation, or returns a truthy value when the case
was non-trivial by the sub-check's stated rule and a falsy value otherwise.
"""
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "high_order_layers_torch"
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


def bootstrap():
    """Import heavy third party modules, then the package from REPO's sources
    only (no bytecode cache of REPO is read or written)."""
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import numpy  # noqa
    import torch

    # only hypothesis (and sortedcontainers) come from there; the path is taken
    # back so that nothing else of that environment shadows /opt/venv's libraries
    sys.path.append(HYPO)
    import hypothesis  # noqa
    import hypothesis.strategies  # noqa

    sys.path.remove(HYPO)

    torch.set_num_threads(1)


def load_package(heavy):
    import torch  # noqa

    if heavy:
        import lion_pytorch  # noqa
        import omegaconf  # noqa
        import pytorch_lightning  # noqa
        import torchmetrics  # noqa
    sys.pycache_prefix = os.path.join("/nonexistent-pycache", str(os.getpid()))
    sys.path.insert(0, REPO)
    pkg = importlib.import_module(PKG)
    path = os.path.realpath(pkg.__path__[0])
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"package imported from {path}, not from {REPO}")


class Sub:
    def __init__(self, name, strategy, fn, rule, quick=400, plain=False):
        """`quick` is the number of cases of one round over all shards; `plain` sub-checks control
        themselves how modules are evaluated."""
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.rule = rule
        self.quick = quick
        self.plain = plain


def canon(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()


def derive(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def _through_repo(exc):
    root = os.path.realpath(REPO) + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def _hypothesis(exc):
    return type(exc).__module__.split(".")[0] == "hypothesis"


@contextlib.contextmanager
def sut(what, allow=()):
    """Everything that runs code under test on valid input goes in here: an
    exception is a violation, whatever its type."""
    try:
        yield
    except Violation:
        raise
    except allow:
        raise
    except Exception as e:  # noqa
        raise Violation(f"{what} raised {type(e).__name__}: {str(e)[:300]}") from e


CASE_LIMIT = 90.0  # seconds; cases take milliseconds


def _too_long(*_):
    raise Violation(f"a single case did not finish within {CASE_LIMIT:.0f} s")


MODE = "plain"
OMIT = False
MODES = ["plain", "plain", "plain", "grad", "grad_x", "used", "trained", "train", "eval"]


def run_case(sub, case):
    import numpy as np
    import torch

    global MODE, OMIT
    s = derive("case", canon(case)) & 0x7FFFFFFF
    # how util.call evaluates in this case
    MODE = "plain" if sub.plain else MODES[derive("mode", canon(case)) % len(MODES)]
    # whether util.given leaves out arguments that have their default value
    OMIT = derive("omit", canon(case)) % 2 == 1
    torch.manual_seed(s)
    np.random.seed(s)
    random.seed(s)
    torch.set_grad_enabled(True)
    # processor time: a loaded machine is no reason for an alarm
    signal.signal(signal.SIGPROF, _too_long)
    signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
    try:
        with np.errstate(all="ignore"):
            return bool(sub.fn(json.loads(canon(case))))
    except Violation:
        raise
    except Exception as e:  # noqa
        if _through_repo(e):
            raise Violation(
                f"code under test raised {type(e).__name__}: {str(e)[:300]}"
            ) from e
        if isinstance(e, (MemoryError, OSError, ImportError)) or _hypothesis(e):
            raise
        # what the code under test returned cannot be processed (missing gradients, objects of
        # another kind, shapes that do not fit): the oracle's own part runs on every case
        raise Violation(
            f"result cannot be judged: {type(e).__name__}: {str(e)[:300]}"
        ) from e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class _Stop(KeyboardInterrupt):
    pass


def _shard(prop, mod, tier, seed, shard, shards, stop, deadline, shrink_s, q, conn_out):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = {
        sub.name: {"evaluations": 0, "nontrivial": set(), "samples": [], "wall_s": 0.0,
                   "cut": False}
        for sub in mod.SUBS
    }
    failure = None
    error = None
    # a round is one independently seeded search per sub-check: the quick tier runs a fixed
    # number of rounds, the thorough tier as many as its time allows
    rounds = getattr(mod, "QUICK_ROUNDS", 1) if tier == "quick" else 10**6
    for rnd, sub in ((r, s_) for r in range(rounds) for s_ in mod.SUBS):
        st = stats[sub.name]
        total = sub.quick
        n = total // shards + (1 if shard < total % shards else 0)
        if stop.is_set():
            break
        if time.time() > deadline:
            st["cut"] = tier == "quick"
            break
        if n == 0:
            continue
        state = {"best": None, "first": None, "err": None, "msg": None}
        t0 = time.time()

        def body(case):
            now = time.time()
            if state["first"] is None:
                if stop.is_set() or now > deadline:
                    st["cut"] = tier == "quick"
                    raise _Stop()
                st["evaluations"] += 1
            elif now - state["first"] > shrink_s:
                raise _Stop()
            try:
                nt = run_case(sub, case)
            except Violation as e:
                if state["first"] is None:
                    state["first"] = now
                    stop.set()
                state["best"] = json.loads(canon(case))
                state["msg"] = str(e)
                raise
            except Exception:
                state["err"] = (json.loads(canon(case)), traceback.format_exc())
                raise _Stop()
            if state["first"] is None and nt:
                h = case_hash(case)[:16]
                if h not in st["nontrivial"]:
                    st["nontrivial"].add(h)
                    if len(st["samples"]) < 2:
                        st["samples"].append(json.loads(canon(case)))

        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            print_blob=False,
            report_multiple_bugs=False,
        )(given(sub.strategy)(body))
        parts = (seed, prop, sub.name, shard) + ((rnd,) if rnd else ())
        test = hypothesis.seed(derive(*parts))(test)
        try:
            with open(os.devnull, "w") as dn, contextlib.redirect_stderr(dn):
                test()
        except _Stop:
            pass
        except Violation:
            pass
        except BaseException as e:  # hypothesis Flaky and the like
            if state["best"] is None and state["err"] is None:
                error = f"{sub.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
        st["wall_s"] += time.time() - t0
        if state["best"] is not None:
            failure = {"sub": sub.name, "case": state["best"], "message": state["msg"]}
            break
        if state["err"] is not None:
            error = f"{sub.name}: case {canon(state['err'][0])}\n{state['err'][1]}"
            stop.set()
            break
        if error:
            stop.set()
            break
    for st in stats.values():
        st["nontrivial"] = sorted(st["nontrivial"])
    q.send((shard, stats, failure, error))
    q.close()
    conn_out.flush()
    os._exit(0)


def _mod(prop):
    return importlib.import_module(f"pbt.props.{prop.lower()}")


def known_findings(prop):
    """Lines 'known: property=<id> sub=<sub> case=<hash prefix> <what>' suppress
    exactly one recorded failing case each."""
    res = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith(f"known: property={prop} "):
                res.append(line.strip())
    return res


def run_property(prop, tier, seed):
    t0 = time.time()
    bootstrap()
    src = open(os.path.join(VERIF, "pbt", "props", prop.lower() + ".py")).read()
    heavy = "HEAVY = True" in src
    load_package(heavy)
    try:
        mod = _mod(prop)
    except Exception as e:
        if _through_repo(e):
            print(traceback.format_exc(), file=sys.stderr)
            rp = write_replay(prop, {"sub": "import", "case": {}, "message": repr(e)})
            write_evidence(prop, tier, seed, None, {}, 1, time.time() - t0)
            print(f"VIOLATION property={prop} replay={rp}", flush=True)
            return 1
        raise
    shards = int(os.environ.get("VERIF_SHARDS", "8"))
    limit = float(os.environ.get("VERIF_TIME", "240" if tier == "quick" else "700"))
    deadline = t0 + limit
    shrink_s = 20.0 if tier == "quick" else 60.0
    ctx = mp.get_context("fork")
    stop = ctx.Event()
    procs = []
    sys.stdout.flush()
    for i in range(shards):
        r, w = ctx.Pipe(duplex=False)
        p = ctx.Process(
            target=_shard,
            args=(prop, mod, tier, seed, i, shards, stop, deadline, shrink_s, w, sys.stderr),
        )
        p.start()
        w.close()
        procs.append((p, r))
    results, errors, failures = [], [], []
    hard = deadline + shrink_s + 60
    for i, (p, r) in enumerate(procs):
        try:
            if r.poll(max(1.0, hard - time.time())):
                res = r.recv()
                results.append(res)
                if res[2]:
                    failures.append((res[0], res[2]))
                if res[3]:
                    errors.append(res[3])
            else:
                errors.append(f"shard {i} did not finish")
        except EOFError:
            errors.append(f"shard {i} died")
        p.join(5)
        if p.is_alive():
            p.kill()
    failures.sort(key=lambda f: len(canon(f[1]["case"])))
    wall = time.time() - t0
    write_evidence(prop, tier, seed, mod, results, len(failures), wall)
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line[len("known: "):], flush=True)
    if failures:
        shard, f = failures[0]
        sub = next(s for s in mod.SUBS if s.name == f["sub"])
        f["seed"], f["tier"], f["shard"] = seed, tier, shard
        f["confirmed_by_replay"] = False
        with contextlib.redirect_stdout(open(os.devnull, "w")):
            try:
                run_case(sub, f["case"])
            except Violation as e:
                f["confirmed_by_replay"], f["message"] = True, str(e)
            except Exception as e:  # noqa
                f["replay_error"] = repr(e)
        rp = write_replay(prop, f)
        print(f"{prop}/{f['sub']}: {f['message']}")
        print(f"  case: {canon(f['case'])}")
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
        return 1
    if errors:
        print("HARNESS ERROR " + errors[0], file=sys.stderr, flush=True)
        return 2
    ev = sum(st["evaluations"] for r in results for st in r[1].values())
    print(f"{prop}: held on {ev} generated cases in {wall:.1f}s", flush=True)
    return 0


def write_replay(prop, f):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    rp = os.path.join(d, f"{prop}-{f['sub']}-{case_hash(f['case'])[:12]}.json")
    with open(rp, "w") as fh:
        json.dump({"property": prop, **f}, fh, indent=1)
    return rp


def write_evidence(prop, tier, seed, mod, results, violations, wall):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    subs = {}
    if mod is not None:
        for sub in mod.SUBS:
            ev, nt, samples, w, cut = 0, set(), [], 0.0, False
            for _, stats, _, _ in results:
                st = stats.get(sub.name)
                if st is None:
                    continue
                ev += st["evaluations"]
                nt.update(st["nontrivial"])
                samples += st["samples"]
                w = max(w, st["wall_s"])
                cut = cut or st["cut"]
            subs[sub.name] = {
                "evaluations": ev,
                "distinct_nontrivial": len(nt),
                "rule": sub.rule,
                "samples": samples[:2],
                "slowest_shard_s": round(w, 2),
                "cut_short_by_time_limit": cut,
            }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in subs.values()),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs.values()),
            "rule": "Cases are drawn by Hypothesis strategies (configuration, data modes, "
            "operation lists and a seed for the numeric fill), one strategy per sub-check; "
            "a case is counted once per distinct drawn case and only if it met its "
            "sub-check's non-triviality rule: "
            + "; ".join(f"[{k}] {v['rule']}" for k, v in subs.items()),
            "samples": [
                {"sub": k, "case": c} for k, v in subs.items() for c in v["samples"][:1]
            ],
            "subchecks": subs,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    with open(os.path.join(d, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)


def replay(path):
    f = json.load(open(path))
    bootstrap()
    src = open(
        os.path.join(VERIF, "pbt", "props", f["property"].lower() + ".py")
    ).read()
    load_package("HEAVY = True" in src)
    mod = _mod(f["property"])
    sub = next(s for s in mod.SUBS if s.name == f["sub"])
    try:
        nt = run_case(sub, f["case"])
    except Violation as e:
        print(f"reproduced: {f['property']}/{f['sub']}: {e}")
        return 1
    print(f"did not reproduce (nontrivial={nt})")
    return 0
