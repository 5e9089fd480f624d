# -*- coding: utf-8 -*-
"""
Reference model of a tracking: boring, in plain python.

A history is: number of detections per file, allowed virtual length, and for each step the associations chosen
between candidates and detections of the next file.  A candidate is named by the real eddy (step, i) it continues:
the eddies of the previous file, and the trajectories (2 eddies or more) whose last eddy was seen g files before
the previous one with 1 <= g <= virtual length.
"""
from itertools import combinations, permutations


class Model:
    def __init__(self, sizes, virtual):
        self.sizes = sizes
        self.virtual = virtual
        # list of list of (step, i)
        self.tracks = list()
        self.step = 0

    def copy(self):
        new = Model(self.sizes, self.virtual)
        new.tracks = [list(t) for t in self.tracks]
        new.step = self.step
        return new

    def candidates(self):
        """Candidates to be continued in the next file"""
        k = self.step
        real = [(k, i) for i in range(self.sizes[k])]
        ghosts = [t[-1] for t in self.tracks if 1 <= k - t[-1][0] <= self.virtual]
        return real + sorted(ghosts)

    def advance(self, pairs):
        """pairs: list of (candidate, i of next file)"""
        k = self.step + 1
        ends = {t[-1]: t for t in self.tracks}
        for cand, i in pairs:
            cand = tuple(cand)
            if cand in ends:
                ends[cand].append((k, i))
            else:
                self.tracks.append([cand, (k, i)])
        self.step = k

    def matchings(self):
        cands = self.candidates()
        n = self.sizes[self.step + 1]
        for size in range(min(len(cands), n) + 1):
            for c in combinations(cands, size):
                for cur in permutations(range(n), size):
                    yield [list(p) for p in zip(c, cur)]

    def rows(self, track):
        """Expected rows of a trajectory: (step, i) or (step, None) for virtual"""
        by_step = dict(track)
        return [(s, by_step.get(s)) for s in range(track[0][0], track[-1][0] + 1)]


def histories(sizes, virtual, limit_links=None):
    """All complete histories for these numbers of detections"""
    stack = [(Model(sizes, virtual), [])]
    out = list()

    def rec(m, plan):
        if m.step == len(sizes) - 1:
            out.append(plan)
            return
        for pairs in m.matchings():
            m2 = m.copy()
            m2.advance(pairs)
            rec(m2, plan + [pairs])

    rec(*stack[0])
    return out


def replay(sizes, virtual, plan):
    m = Model(sizes, virtual)
    for pairs in plan:
        m.advance(pairs)
    return m
