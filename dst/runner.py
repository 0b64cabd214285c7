"""Driver: generates cases from VERIF_SEED, runs them over worker processes, minimises, reports, writes evidence."""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time

from . import zygote

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


class Zyg:
    def __init__(self, hashseed):
        self.hashseed = hashseed
        a, b = os.pipe()
        c, d = os.pipe()
        env = {"PYTHONHASHSEED": str(hashseed), "PYTHONPATH": VERIF + ":/repo", "PYTHONDONTWRITEBYTECODE": "1",
               "PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": os.environ.get("HOME", "/root"),
               "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"}
        self.p = subprocess.Popen([PY, "-B", "-m", "dst.zygote", str(a), str(d)], env=env, pass_fds=(a, d), cwd=VERIF,
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=None if os.environ.get("DST_DEBUG") else subprocess.DEVNULL)
        os.close(a)
        os.close(d)
        self.w, self.r = b, c
        self.up = False

    def wait_up(self):
        if not self.up:
            out = zygote.recv(self.r, time.monotonic() + 120)
            if not out or out[0] != "ready":
                raise HarnessError(f"zygote did not start: {out}")
            self.up = True

    def call(self, mod, fn, *args, wall=60.0):
        self.wait_up()
        zygote.send(self.w, (mod, fn, args, wall))
        out = zygote.recv(self.r, time.monotonic() + wall + 60)
        if not out:
            raise HarnessError("zygote died")
        if out[0] == "harness":
            raise HarnessError(out[1])
        return out

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        self.p.kill()
        self.p.wait()


class Pool:
    """One worker's zygotes, by hash seed."""

    def __init__(self):
        self.z = {}

    def get(self, hs):
        if hs not in self.z:
            self.z[hs] = Zyg(hs)
        return self.z[hs]

    def start(self, seeds):
        for s in seeds:
            self.get(s)

    def call(self, hs, mod, fn, *args, wall=60.0):
        try:
            return self.get(hs).call(mod, fn, *args, wall=wall)
        except (HarnessError, OSError):
            z = self.z.pop(hs, None)
            if z:
                z.close()
            raise

    def close(self):
        for z in self.z.values():
            z.close()


def hash_seeds(seed, n):
    r = random.Random(f"hashseeds:{seed}")
    return [r.randrange(1, 2 ** 32 - 1) for _ in range(n)]


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def run_case(mod, case, pool):
    """-> dict with: viol (None | [class, message]), stats {name: count}, digest, sig, nontrivial."""
    try:
        out = mod.run(case, pool)
    except HarnessError as e:
        # the harness looks at objects through the library's public names; when the library itself raises there, the object is broken
        text = str(e).rstrip()
        files = [ln for ln in text.split("\n") if ln.lstrip().startswith('File "')]
        if not files or '"/repo/pddl/' not in files[-1] or "injected by the simulator" in text:
            raise
        out = {"viol": ["broken", "looking at an object fails: " + " ".join(text.split("\n")[-3:])[-400:]], "digest": digest(text)}
    out.setdefault("viol", None)
    out.setdefault("stats", {})
    return out


def case_of(mod, prop, seed, i, tier):
    rng = random.Random(f"{prop}:{seed}:{i}")
    c = mod.gen(rng, i, tier, hash_seeds(seed, mod.HS))
    c["prop"], c["seed"], c["i"] = prop, seed, i
    return c


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


def _worker(prop, seed, tier, w, nw, n, deadline, q, keep_digests, first):
    mod = load(prop)
    pool = Pool()
    agg = {"runs": 0, "stats": {}, "sigs": set(), "nontrivial": set(), "digests": {}, "viols": [], "samples": [],
           "err": None, "steps": 0}
    try:
        pool.start(hash_seeds(seed, mod.HS))
        for i in range(w, n, nw):
            if time.monotonic() > deadline:
                agg["cut"] = True
                break
            if first.value and time.monotonic() > first.value + 25:  # enough has been seen
                break
            case = case_of(mod, prop, seed, i, tier)
            t0 = time.monotonic()
            out = run_case(mod, case, pool)
            took = time.monotonic() - t0
            agg["runs"] += 1
            for k, v in out["stats"].items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            agg["sigs"].add(out.get("sig") or out.get("digest"))
            if out.get("nontrivial", True):
                agg["nontrivial"].add(digest({k: v for k, v in case.items() if k not in ("i",)}))
            if keep_digests:
                agg["digests"][i] = out.get("digest")
            if len(agg["samples"]) < 2 and out.get("nontrivial", True):
                agg["samples"].append({"case": case, "log": out.get("log")})
            if out["viol"]:
                agg["viols"].append((case, out["viol"], took))
                first.value = first.value or time.monotonic()
                if len(agg["viols"]) >= 3:
                    break
    except BaseException as e:
        import traceback
        agg["err"] = f"{e}\n{traceback.format_exc()}"
    finally:
        pool.close()
    agg["sigs"] = list(agg["sigs"])
    agg["nontrivial"] = list(agg["nontrivial"])
    q.put(agg)


def sweep(prop, seed, tier, n, workers, wall, keep_digests=False):
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    deadline = time.monotonic() + wall
    first = ctx.Value("d", 0.0)
    ps = [ctx.Process(target=_worker, args=(prop, seed, tier, w, workers, n, deadline, q, keep_digests, first))
          for w in range(workers)]
    for p in ps:
        p.start()
    aggs = []
    while len(aggs) < len(ps):
        try:
            aggs.append(q.get(timeout=wall + 240))
        except Exception:
            for p in ps:
                p.kill()
            raise HarnessError("a worker gave no answer")
    for p in ps:
        p.join()
    tot = {"runs": 0, "stats": {}, "sigs": set(), "nontrivial": set(), "digests": {}, "viols": [], "samples": [],
           "cut": False}
    for a in aggs:
        if a["err"] and not any(b["viols"] for b in aggs):
            raise HarnessError(a["err"])
        tot["runs"] += a["runs"]
        for k, v in a["stats"].items():
            tot["stats"][k] = tot["stats"].get(k, 0) + v
        tot["sigs"].update(a["sigs"])
        tot["nontrivial"].update(a["nontrivial"])
        tot["digests"].update(a["digests"])
        tot["viols"] += a["viols"]
        tot["samples"] += a["samples"]
        tot["cut"] |= a.get("cut", False)
    tot["viols"].sort(key=lambda v: v[0]["i"])
    tot["samples"].sort(key=lambda s: s["case"]["i"])
    return tot


def minimise(mod, case, viol, pool, wall=40.0):
    """Greedy: take any smaller candidate that still shows the same class of violation."""
    end = time.monotonic() + wall
    tried = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in mod.shrink(case):
            if time.monotonic() > end:
                break
            tried += 1
            try:
                out = run_case(mod, cand, pool)
            except Exception:  # not a case any more
                continue
            if out["viol"] and out["viol"][0] == viol[0]:
                case, viol, progress = cand, out["viol"], True
                break
    if "policy" in case:  # the schedule itself: the explicit list of switches, then fewer of them
        def holds(sw):
            out = run_case(mod, dict(case, policy={"switches": sw}), pool)
            return out["viol"] if out["viol"] and out["viol"][0] == viol[0] else None
        sw = case["policy"].get("switches")
        if sw is None:
            sw = run_case(mod, case, pool).get("switches")
        if sw is not None and holds(sw):
            end = max(end, time.monotonic() + 10)
            k = max(1, len(sw) // 2)
            while k and time.monotonic() < end:
                a, smaller = 0, False
                while a < len(sw) and time.monotonic() < end:
                    tried += 1
                    v = holds(sw[:a] + sw[a + k:])
                    if v:
                        sw, smaller = sw[:a] + sw[a + k:], True
                    else:
                        a += k
                k = k if smaller and k > 1 and len(sw) >= k else k // 2
            case = dict(case, policy={"switches": sw})
            viol = holds(sw) or viol
    return case, viol, tried


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {"known": [], "fixed": []}
    with open(p) as f:
        return json.load(f)


def check(prop):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(prop)
    n, wall = mod.RUNS[tier]
    n = int(os.environ.get("DST_RUNS", n))
    workers = int(os.environ.get("DST_WORKERS", 2 * (os.cpu_count() or 4)))
    print(f"{prop} seed={seed} tier={tier} runs={n} workers={workers}", flush=True)
    tot = sweep(prop, seed, tier, n, workers, wall)
    known = [k for k in load_known()["known"] if k["property"] == prop]
    pool = Pool()
    rc = 0
    reported = set()
    try:
        for k in known:
            # a listed finding is re-run from its own recorded history
            case = json.load(open(os.path.join(VERIF, k["replay"])))["case"]
            out = run_case(mod, case, pool)
            if out["viol"] and out["viol"][0] == k["class"]:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")
        for case, viol, took in tot["viols"]:
            if any(getattr(mod, "is_known", lambda *_: False)(k, case, viol) for k in known):
                continue
            if viol[0] in reported:
                continue
            reported.add(viol[0])
            if len(reported) > 3:
                break
            tried = 0
            if took < getattr(mod, "SHRINK_BELOW", 20) and time.monotonic() - t0 < 400:  # else: a run that hangs; every candidate would hang as well
                case, viol, tried = minimise(mod, case, viol, pool, wall=30.0)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{prop}-{digest(case)}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "class": viol[0], "message": viol[1], "case": case,
                           "candidates_tried": tried}, f, indent=1, sort_keys=True)
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            # replay in fresh processes
            fresh = Pool()
            try:
                again = run_case(mod, json.load(open(path))["case"], fresh)["viol"]
            finally:
                fresh.close()
            same = bool(again) and again[0] == viol[0]
            print(f"  class={viol[0]} seed={seed} run={case['i']} reproduced_in_fresh_process={same}")
            print("  " + str(viol[1])[:1500].replace("\n", "\n  "), flush=True)
            rc = 1
    finally:
        pool.close()
    wall_s = time.monotonic() - t0
    st = tot["stats"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall_s, 2),
        "violations": len(reported),
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(tot["nontrivial"]), "rule": mod.RULE,
            "samples": [trim(s) for s in tot["samples"][:3]],
            "runs_per_hour": int(tot["runs"] / max(wall_s, 0.1) * 3600),
            "simulated_library_steps": st.get("steps", 0),
            "simulated_time": f"{st.get('steps', 0)} library source-line (or bytecode) steps; the library has no timers, "
                              f"so steps are the clock",
            "faults_injected": {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault:")},
            "probes": {k[6:]: v for k, v in sorted(st.items()) if k.startswith("probe:")},
            "counts": {k: v for k, v in sorted(st.items()) if not k.startswith(("fault:", "probe:")) and k != "steps"},
            "distinct_executions": len(tot["sigs"]),
            "distinct_measure": mod.MEASURE,
            "real": mod.REAL, "stubbed": mod.STUB, "stopped_early": bool(tot["cut"]),
        },
        "assumptions": getattr(mod, "ASSUME", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print(f"{prop}: {tot['runs']} runs, {len(tot['sigs'])} distinct executions, {len(reported)} violation classes, "
          f"{wall_s:.1f}s", flush=True)
    return rc


def trim(x, n=400):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "..."
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [trim(v, n) for v in x[:12]]
    return x


def replay(path):
    d = json.load(open(path))
    mod = load(d["property"])
    pool = Pool()
    try:
        out = run_case(mod, d["case"], pool)
    finally:
        pool.close()
    print(json.dumps(out.get("log"), indent=1, default=str)[:8000])
    if out["viol"]:
        print(f"VIOLATION property={d['property']} replay={path}")
        print(f"  class={out['viol'][0]}\n  {out['viol'][1]}")
        return 1
    print("no violation")
    return 0


def selftest(prop, n, seed):
    """Determinism: the same cases under different worker counts and order; all digests must agree."""
    a = sweep(prop, seed, "quick", n, 8, 900, True)["digests"]
    b = sweep(prop, seed, "quick", n, 3, 900, True)["digests"]
    bad = [i for i in a if a[i] != b.get(i)]
    print(f"{prop}: {len(a)} runs twice (8 and 3 workers), {len(bad)} differing: {bad[:10]}")
    return 1 if bad else 0
