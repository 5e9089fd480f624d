# -*- coding: utf-8 -*-
"""
Runner:  python -m mc.run C01 [--tier quick|thorough] [--replay FILE] [--scenario NAME]

Exit 0: property held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>" when it is broken;
exit 2: fault of the harness.
"""
import argparse
import importlib
import json
import mmap
import os
import shutil
import signal
import struct
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATUS_SIZE = 1 << 16


def prepare_env():
    """No numba cache, no byte code may survive from an earlier run"""
    from .core import memory_root

    scratch = tempfile.mkdtemp(prefix="verif_mc_", dir=memory_root())
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["MPLBACKEND"] = "agg"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.pop("NUMBA_DISABLE_JIT", None)
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    os.makedirs(os.environ["NUMBA_CACHE_DIR"])
    os.makedirs(os.environ["MPLCONFIGDIR"])
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    sys.dont_write_bytecode = True
    return scratch


def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as h:
        data = json.load(h)
    return [e for e in data.get("findings", []) if e["property"] == prop]


class Status:
    """Shared page, where a worker writes the payload it is running, to be able to name it if process dies"""

    def __init__(self):
        self.mm = mmap.mmap(-1, STATUS_SIZE)

    def write(self, payload):
        from .core import dumps

        raw = dumps(payload).encode()[: STATUS_SIZE - 16]
        n = struct.unpack("<Q", self.mm[:8])[0]
        self.mm[8:16] = struct.pack("<Q", len(raw))
        self.mm[16 : 16 + len(raw)] = raw
        self.mm[:8] = struct.pack("<Q", n + 1)

    def read(self):
        n, size = struct.unpack("<QQ", self.mm[:16])
        return n, self.mm[16 : 16 + size].decode()


def worker(prop, scenario, tier, shard, nshards, known, status, out):
    """Child process: explore a shard of the scenario and dump measures"""
    import gc

    import numpy as np

    from .core import Ctx, dumps, execute, match_known

    ctx = Ctx(prop, scenario.name, tier, known, status.write)
    violation, first = None, None
    nb_payload = 0
    t0 = time.time()
    for i, payload in enumerate(scenario.space(tier)):
        if i % nshards != shard:
            continue
        nb_payload += 1
        # canonical: what a replay file will give
        payload = json.loads(dumps(payload))
        if nb_payload % 500 == 0:
            gc.collect()
        before = ctx.outcomes
        if first is None:
            ctx.outcomes = set()
        r = execute(ctx, scenario, payload)
        if r is None:
            if first is None:
                first = i, payload, ctx.outcomes
                ctx.outcomes = before | ctx.outcomes
            continue
        code, msg, replay = r
        replay = json.loads(dumps(replay))
        entry = match_known(known, scenario.name, code, replay)
        if entry is not None:
            ctx.known_hits[entry["id"]] = ctx.known_hits.get(entry["id"], 0) + 1
            continue
        violation = dict(code=code, msg=msg, payload=replay, index=i)
        break
    if violation is None and first is not None:
        # Same execution after all the other ones: what is explored depends only on the payload
        again = Ctx(prop, scenario.name, tier, known, status.write)
        r = execute(again, scenario, first[1])
        if r is None and again.outcomes != first[2]:
            r = "replay", "outcome is not the one of the first execution of this payload", first[1]
        if r is not None:
            violation = dict(code=r[0], msg="second execution: " + r[1], payload=first[1], index=first[0])
    np.save(out + ".states.npy", np.array(sorted(ctx.states), dtype="u8"))
    np.save(out + ".outcomes.npy", np.array(sorted(ctx.outcomes), dtype="u8"))
    with open(out + ".tmp", "w") as h:
        json.dump(
            dict(
                payloads=nb_payload,
                transitions=ctx.transitions,
                executions=ctx.executions,
                validated=ctx.validated,
                labels=ctx.labels,
                samples=ctx.samples,
                known_hits=ctx.known_hits,
                violation=violation,
                wall=time.time() - t0,
            ),
            h,
        )
    os.rename(out + ".tmp", out)


def run_jobs(jobs, nb_proc, stall, deadline):
    """
    :param jobs: list of dict(scenario, shard, nshards, out, launch)
    """
    todo, running, done = list(jobs), dict(), list()
    stop = False
    while todo or running:
        while todo and len(running) < nb_proc and not stop:
            job = todo.pop(0)
            job["status"] = Status()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    job["launch"](job)
                except BaseException:
                    import traceback

                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            job["last"] = (time.time(), -1)
            running[pid] = job
        if stop:
            todo = []
        time.sleep(0.02)
        now = time.time()
        for pid in list(running):
            job = running[pid]
            rpid, st = os.waitpid(pid, os.WNOHANG)
            if rpid == 0:
                n, _ = job["status"].read()
                if n != job["last"][1]:
                    job["last"] = (now, n)
                elif now - job["last"][0] > stall:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    job["end"] = "hang"
                    done.append(running.pop(pid))
                    stop = True
                    continue
                if now > deadline:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    job["end"] = "deadline"
                    done.append(running.pop(pid))
                    stop = True
                continue
            job = running.pop(pid)
            if os.WIFSIGNALED(st):
                job["end"] = f"crash (signal {os.WTERMSIG(st)})"
                stop = True
            elif os.WEXITSTATUS(st) != 0:
                job["end"] = "harness"
                stop = True
            else:
                job["end"] = "ok"
                with open(job["out"]) as h:
                    job["result"] = json.load(h)
                if job["result"]["violation"] is not None:
                    stop = True
            done.append(job)
    return done


def write_replay(prop, scenario, code, msg, payload):
    import hashlib

    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(payload)
    name = f"{prop}-{scenario}-{hashlib.blake2b(body.encode(), digest_size=5).hexdigest()}.json"
    path = os.path.join(d, name)
    with open(path, "w") as h:
        json.dump(
            dict(
                property=prop,
                scenario=scenario,
                code=code,
                message=msg,
                payload=payload,
                how=f"cd /verif && ./check {prop} --replay {path}",
            ),
            h,
            indent=1,
        )
    return path


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=None)
    parser.add_argument("--replay")
    parser.add_argument("--scenario")
    parser.add_argument("--jobs", type=int, default=os.cpu_count())
    args = parser.parse_args(argv)
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = prepare_env()
    try:
        return _main(args, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(args, tier, seed, scratch):
    t0 = time.time()
    prop = args.prop
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.getLogger("pet").setLevel(logging.CRITICAL)
    if os.environ.get("VERIF_REPO_SRC"):
        # to run machinery against a scratch copy (development only)
        sys.path.insert(0, os.environ["VERIF_REPO_SRC"])
    import numpy as np

    from .core import Ctx, dumps, execute

    np.seterr(all="ignore")
    import py_eddy_tracker  # noqa: F401

    if os.environ.get("VERIF_REPO_SRC"):
        assert py_eddy_tracker.__file__.startswith(os.environ["VERIF_REPO_SRC"])
    module = importlib.import_module(f"checks.{prop}")
    scenarios = {s.name: s for s in module.SCENARIOS}
    known = load_known(prop)

    if args.replay:
        with open(args.replay) as h:
            rec = json.load(h)
        s = scenarios[rec["scenario"]]
        r = execute(Ctx(prop, s.name, tier, known), s, rec["payload"])
        if r is None:
            print("replay: property holds on this execution")
            return 0
        print(f"replay: {r[0]}: {r[1]}")
        return 1

    selected = [s for s in module.SCENARIOS if tier in s.tiers]
    if args.scenario:
        selected = [scenarios[args.scenario]]
    if hasattr(module, "warm"):
        # compilation is done once, before the fork; a fault here will be met again by the executions
        try:
            module.warm()
        except Exception:
            pass
    jobs = list()
    for s in selected:
        n = s.nb_shards(tier)
        for i in range(n):
            out = os.path.join(scratch, f"{s.name}.{i}.json")

            def launch(job):
                worker(prop, job["scenario"], tier, job["shard"], job["nshards"], known, job["status"], job["out"])

            jobs.append(dict(scenario=s, shard=i, nshards=n, out=out, launch=launch))
    stall = float(os.environ.get("VERIF_STALL", 300))
    budget = float(os.environ.get("VERIF_BUDGET", 860 if tier == "quick" else 6 * 3600))
    done = run_jobs(jobs, args.jobs, stall, t0 + budget)

    violations, errors = list(), list()
    states, outcomes = [], []
    tot = dict(transitions=0, executions=0, validated=0, payloads=0)
    per, labels, samples, known_hits = dict(), dict(), list(), dict()
    for job in done:
        s = job["scenario"]
        if job["end"] == "ok":
            r = job["result"]
            for k in tot:
                tot[k] += r[k]
            p = per.setdefault(s.name, dict(executions=0, states=0, transitions=0, wall_s=0, bound=s.bound))
            p["executions"] += r["executions"]
            p["transitions"] += r["transitions"]
            p["wall_s"] = round(max(p["wall_s"], r["wall"]), 2)
            states.append((s.name, np.load(job["out"] + ".states.npy")))
            outcomes.append((s.name, np.load(job["out"] + ".outcomes.npy")))
            for k, v in r["labels"].items():
                labels[f"{s.name}.{k}"] = labels.get(f"{s.name}.{k}", 0) + v
            if job["shard"] == 0:
                samples.extend(f"{s.name}: {i}" for i in r["samples"])
            for k, v in r["known_hits"].items():
                known_hits[k] = known_hits.get(k, 0) + v
            if r["violation"]:
                v = r["violation"]
                violations.append((s.name, v["code"], v["msg"], v["payload"], v["index"]))
        elif job["end"] == "harness":
            errors.append(f"scenario {s.name}: harness fault")
        elif job["end"] == "deadline":
            errors.append(f"scenario {s.name}: time budget of the check is over")
        else:
            _, raw = job["status"].read()
            try:
                payload = json.loads(raw)
            except ValueError:
                payload = raw
            violations.append((s.name, job["end"].split()[0], job["end"], payload, 0))
    nb_states = nb_outcomes = 0
    for s in selected:
        a = [x for n, x in states if n == s.name]
        if a:
            n = int(np.unique(np.concatenate(a)).size)
            per[s.name]["states"] = n
            nb_states += n
            o = int(np.unique(np.concatenate([x for n_, x in outcomes if n_ == s.name])).size)
            per[s.name]["distinct_outcomes"] = o
            nb_outcomes += o
    if not violations and not errors:
        for s in selected:
            for label in s.need:
                if not labels.get(f"{s.name}.{label}"):
                    errors.append(f"scenario {s.name}: vacuous, nothing reached '{label}'")
    wall = time.time() - t0
    if not args.scenario:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as h:
            json.dump(
                dict(
                    property=prop,
                    tier=tier,
                    seed=seed,
                    level="model_checking",
                    coverage=dict(
                        states=nb_states,
                        transitions=tot["transitions"],
                        traces_validated_against_impl=tot["validated"],
                        executions=tot["executions"],
                        distinct_outcomes=nb_outcomes,
                        exhaustive=not violations and not errors,
                        scenarios=per,
                        labels=labels,
                        samples=samples[:12] or ["none"],
                        known_findings_hit=known_hits,
                        rule="every payload of each scenario's finite space is executed on the real code and compared "
                        "with the reference model; a state is a distinct canonical input/reached state, a transition "
                        "is one call of the code under test",
                    ),
                    assumptions=getattr(module, "ASSUMPTIONS", []),
                    wall_s=round(wall, 2),
                    violations=len(violations),
                ),
                h,
                indent=1,
                default=str,
            )
    for name, p in per.items():
        print(f"{prop} {name}: {p}")
    for entry in known:
        if known_hits.get(entry["id"]):
            print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    print(
        f"{prop}: states={nb_states} transitions={tot['transitions']} executions={tot['executions']} "
        f"validated={tot['validated']} distinct_outcomes={nb_outcomes} wall={wall:.1f}s tier={tier}"
    )
    if violations:
        # simplest first
        violations.sort(key=lambda v: (len(json.dumps(v[3])), v[4]))
        for name, code, msg, payload, _ in violations[:3]:
            path = write_replay(prop, name, code, msg, payload)
            print(f"  {name} {code}: {msg[:1500]}\n  payload={json.dumps(payload)[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
