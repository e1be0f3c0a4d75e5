"""Covering walks over a transition graph printed by a specification."""
import collections
import json
import random


class Graph:
    def __init__(self, edges):
        """edges: [state, op, state'] as printed"""
        self.ops = {}          # state -> list of op (json)
        self.succ = {}         # (state, op) -> set of states
        for a, op, b in edges:
            ka, kb, ko = key(a), key(b), json.dumps(op, sort_keys=True)
            self.succ.setdefault((ka, ko), set()).add(kb)
            self.ops.setdefault(ka, {})[ko] = op
        self.todo = {s: set(o) for s, o in self.ops.items()}
        self.total = len(self.succ)
        self.visited = 0

    def path(self, s, limit=60):
        """shortest list of ops to a state with work left, using deterministic operations"""
        seen = {s: None}
        q = collections.deque([s])
        while q:
            x = q.popleft()
            if self.todo.get(x):
                p = []
                while seen[x] is not None:
                    x, o = seen[x]
                    p.append(o)
                return p[::-1]
            for o in self.ops.get(x, ()):
                n = self.succ[(x, o)]
                if len(n) == 1:
                    y = next(iter(n))
                    if y not in seen:
                        seen[y] = (x, o)
                        q.append(y)
        return None

    def pick(self, s, rng):
        t = self.todo.get(s)
        if t:
            o = rng.choice(sorted(t))
            t.discard(o)
            self.visited += 1
            return self.ops[s][o]
        p = self.path(s)
        if p is None:
            return None
        return self.ops[s][p[0]]


def key(s):
    return json.dumps({k: sorted(v) if isinstance(v, list) else v for k, v in s.items()}, sort_keys=True)
