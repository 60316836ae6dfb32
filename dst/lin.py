"""Linearizability: is there one order, consistent with real time, in which every operation has the recorded result?

An operation is a sequence of atomic stages; a stage maps a state to the states it may lead to (none: the recorded
result is impossible there).  Wing & Gong's search with Lowe's memoisation of (stages done, state)."""


class Op:
    __slots__ = ("inv", "ret", "stages", "name", "rec")

    def __init__(self, inv, ret, stages, name="", rec=None):
        self.inv = inv
        self.ret = ret      # None: never returned; it may have taken effect, wholly, partly or not at all
        self.stages = stages
        self.name, self.rec = name, rec


class TooHard(Exception):
    pass


def linearize(ops, init, final=None, limit=300_000):
    """Returns an order [(op, stage)] or None.  final(state): is this a possible last state?"""
    n = len(ops)
    ops = sorted(ops, key=lambda o: o.inv)
    need = tuple(len(o.stages) for o in ops)
    # before[i]: operations which must be over before i may begin
    before = [[j for j in range(n) if ops[j].ret is not None and ops[j].ret < ops[i].inv] for i in range(n)]
    seen = set()
    steps = 0
    stack = [((0,) * n, init, ())]
    while stack:
        done, state, path = stack.pop()
        k = (done, state)
        if k in seen:
            continue
        seen.add(k)
        steps += 1
        if steps > limit:
            raise TooHard
        if all(done[i] == need[i] or ops[i].ret is None for i in range(n)) and (final is None or final(state)):
            out = []
            while path:
                path, x = path
                out.append(x)
            return out[::-1]
        # operations in the order of their returns are the likeliest: push them last
        cand = []
        for i in range(n):
            if done[i] < need[i] and (done[i] > 0 or all(done[j] == need[j] for j in before[i])):
                cand.append(i)
        cand.sort(key=lambda i: -(ops[i].ret if ops[i].ret is not None else 1 << 60))
        for i in cand:
            d = done[:i] + (done[i] + 1,) + done[i + 1:]
            for s in ops[i].stages[done[i]](state):
                stack.append((d, s, (path, (ops[i], done[i]))))
    return None
