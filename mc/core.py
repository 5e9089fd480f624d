# -*- coding: utf-8 -*-
"""
Small bounded-exhaustive explorer.

A property is decided by one module checks/<ID>.py which declares SCENARIOS.  A scenario is a finite
*space* (a generator of JSON-able payloads: the alphabet, ordered simplest first) and an *execution*
(run one payload on the real py_eddy_tracker code, compare every observable with a boring reference
model; raise Fail when they differ).  `bfs` explores operation sequences when the space is a graph.

Nothing here samples: every payload of every scenario is executed, or the run fails.
"""
import hashlib
import json
import os
import sys
import tempfile
import traceback


def memory_root():
    """Directory in memory when it's possible"""
    shm = "/dev/shm"
    return shm if os.path.isdir(shm) and os.access(shm, os.W_OK) else None


def scratch():
    """New directory; caller removes it"""
    return tempfile.mkdtemp(prefix="vf")


class Fail(Exception):
    """The property is broken on this execution"""

    def __init__(self, code, msg="", replay=None):
        super().__init__(f"{code}: {msg}")
        self.code = code
        self.msg = msg
        self.replay = replay


class HarnessError(Exception):
    """The harness itself is wrong (never reported as a violation)"""


class Scenario:
    """
    :param name: name of the scenario
    :param space: function(tier) -> iterable of payloads
    :param run: function(ctx, payload)
    :param shards: number of processes among which payloads are dealt (payload i goes to i % shards)
    :param tiers: tiers which run it
    :param crash_is_violation: an exception of the code under test on a legal input breaks the property
    """

    def __init__(self, name, space, run, shards=1, tiers=("quick", "thorough"), bound="", need=()):
        self.name = name
        self.space = space
        self.run = run
        self.shards = shards
        self.tiers = tiers
        self.bound = bound
        # labels which must be covered, else the exploration is vacuous
        self.need = tuple(need)

    def nb_shards(self, tier):
        return self.shards(tier) if callable(self.shards) else self.shards


def h64(value):
    if not isinstance(value, (bytes, bytearray)):
        value = repr(value).encode()
    return int.from_bytes(hashlib.blake2b(value, digest_size=8).digest(), "little")


class Ctx:
    """Counters of one shard; every number of the evidence is measured here"""

    def __init__(self, prop, scenario, tier, known, status=None):
        self.prop = prop
        self.scenario = scenario
        self.tier = tier
        self.known = known
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.executions = 0
        self.validated = 0
        self.labels = dict()
        self.samples = list()
        self.known_hits = dict()
        self._status = status

    def state(self, *key):
        """Declare a state of the system (counted once); return True if it is a new one"""
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        """An operation of the code under test was executed"""
        self.transitions += n

    def outcome(self, *key):
        self.outcomes.add(h64(key))

    def cover(self, label, n=1):
        self.labels[label] = self.labels.get(label, 0) + int(n)

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(str(value)[:400])

    def fail(self, code, msg="", replay=None):
        raise Fail(code, msg, replay)

    def check(self, cond, code, msg=""):
        if not cond:
            raise Fail(code, msg() if callable(msg) else msg)

    def beat(self, payload):
        if self._status is not None:
            self._status(payload)


def match_known(known, scenario, code, payload):
    for entry in known:
        if entry.get("scenario") != scenario or entry.get("code") != code:
            continue
        payloads = entry.get("payloads")
        if payloads is not None and payload in payloads:
            return entry
    return None


def execute(ctx, scenario, payload):
    """
    Run one payload, return None or (code, msg, replay payload)
    """
    ctx.beat(payload)
    ctx.executions += 1
    try:
        scenario.run(ctx, payload)
        ctx.validated += 1
        return None
    except Fail as e:
        return e.code, e.msg, (payload if e.replay is None else e.replay)
    except (HarnessError, KeyboardInterrupt):
        raise
    except BaseException as e:
        if is_harness_fault(e):
            raise
        tb = traceback.format_exc(limit=-4)
        return "exception", f"{type(e).__name__}: {e}\n{tb}", payload


def is_harness_fault(e):
    """
    Wrong names used by the harness itself (deepest frame is a line of the harness) are faults of the harness,
    any other exception on a legal input is an observable of the code under test.
    """
    if not isinstance(e, (ImportError, AttributeError, NameError, MemoryError)):
        return False
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    name = tb.tb_frame.f_code.co_filename
    return "/checks/" in name or "/mc/" in name


def bfs(ctx, inits, ops, apply, canon, invariant, depth, max_states=None):
    """
    Explicit state exploration with the real transition function.

    :param inits: list of (label, state)
    :param ops: function(state) -> list of op (JSON-able)
    :param apply: function(state, op) -> new state (real code), or None when op isn't enabled
    :param canon: function(state) -> hashable
    :param invariant: function(state, path)
    :return: number of states
    """
    seen = set()
    frontier = list()
    for label, s in inits:
        invariant(s, (label, ()))
        k = canon(s)
        if k in seen:
            continue
        seen.add(k)
        ctx.state(k)
        frontier.append((s, label, ()))
    for _ in range(depth):
        nxt = list()
        for s, label, path in frontier:
            for op in ops(s):
                ctx.step()
                ctx.beat([label, list(path) + [op]])
                s2 = apply(s, op)
                if s2 is None:
                    continue
                path2 = path + (op,)
                invariant(s2, (label, path2))
                k = canon(s2)
                if k in seen:
                    continue
                seen.add(k)
                ctx.state(k)
                nxt.append((s2, label, path2))
                if max_states is not None and len(seen) > max_states:
                    raise HarnessError("max_states reached: bound must be reduced")
        frontier = nxt
        if not frontier:
            break
    return len(seen)


def dumps(payload):
    return json.dumps(payload, default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, bytes):
        return o.decode("latin1")
    return str(o)


def log(*args):
    print(*args, flush=True)
    sys.stdout.flush()
