"""C14: changes to stored attributes are written exactly when there are changes

A stand-in for the storage keeps what it would have written.  After every step
what is written must be what the node knows, except under a lock, where it is
written once, when the last lock is released.
"""
from . import nodes


def copy(state):
    """A copy that does not share anything with the node; empty containers do not count"""
    if isinstance(state, dict):
        out = {}
        for key, value in state.items():
            value = copy(value)
            if isinstance(value, (dict, list)) and not value:
                continue
            out[key] = value
        return out
    if isinstance(state, (list, tuple)):
        return [copy(x) for x in state]
    return state


def state_of(node):
    return {cid: copy(cls.__getstate__()) for cid, cls in node.supported.items()}


class Written:
    def __init__(self, node):
        self.node, self.state, self.count = node, state_of(node), 0

    def nodeUpdated(self, node):
        self.count += 1
        self.state = state_of(node)


def same(env, one, two):
    return one == two


class Boom(Exception):
    pass


OPS = ["lock", "release-first", "release-last", "raise-last", "change"]


def h_locks(env):
    p = env.params
    node, _stub = nodes.node(env, [0x70])
    written = Written(node)
    node.addListener(written)
    open_locks = []
    dirty, expected = False, 0
    changes = 0
    for step in range(p["steps"]):
        op = env.choice("op%d" % step, OPS if open_locks else ["lock", "change"])
        if op == "lock":
            lock = node.storageLock()
            lock.__enter__()
            open_locks.append(lock)
        elif op == "change":
            changes += 1
            body = [0x70, 0x06, step, 1, env.byte("value%d" % step)]
            _res, exc = env.attempt_run(node.handleMessage(nodes.message(env, body), {}))
            env.check(exc is None, "handling a report raises")
            if open_locks:
                dirty = True
            else:
                expected += 1
        else:
            lock = open_locks.pop(0 if op == "release-first" else -1)
            if op == "raise-last":
                error = Boom()
                _res, exc = env.attempt(lock.__exit__, Boom, error, None)
                env.check(exc is error or _res is not True, "the lock swallows the error of the body")
                env.reach("raised")
            else:
                lock.__exit__(None, None, None)
            if not open_locks and dirty:
                expected += 1
                dirty = False
        env.check(written.count == expected, "not announced exactly once at the release of the outermost lock"
                  if open_locks or op != "change" else "a change without a lock is not announced at once")
        if not open_locks:
            env.check(same(env, written.state, state_of(node)), "what is stored is not what the node knows")
    # everything still works afterwards
    while open_locks:
        open_locks.pop().__exit__(None, None, None)
    env.check(written.count == expected + (1 if dirty else 0), "changes are lost")
    env.check(same(env, written.state, state_of(node)), "what is stored is not what the node knows")
    before = written.count
    env.run(node.handleMessage(nodes.message(env, [0x70, 0x06, 1, 1, 7]), {}))
    env.check(written.count == before + 1, "a change after all locks are released is not announced")
    if changes:
        env.reach("changed")


def h_overlap(env):
    """Locks held by tasks that overlap in every way; changes at any time"""
    import asyncio
    node, _stub = nodes.node(env, [0x70])
    written = Written(node)
    node.addListener(written)
    now = env.now()
    spans = []
    for i in range(env.params["tasks"]):
        start, end = env.int("start%d" % i, 1, 2000), env.int("end%d" % i, 1, 2000)
        env.assume(start < end)
        spans.append((start, end))

        async def hold(i=i, end=end):
            with node.storageLock():
                await asyncio.sleep((end - spans[i][0]) / 1000)
                if env.params.get("raises") and i == 0:
                    raise Boom()

        env.at(now + start, lambda hold=hold: env.own.append(env.loop.create_task(hold())))
    changed = []
    for i in range(env.params["changes"]):
        when = env.int("change%d" % i, 1, 2500)
        for s, e in spans:
            env.assume(env.not_(env.or_(when == s, when == e)))
        for other in changed:
            env.assume(env.not_(when == other))
        changed.append(when)
        body = [0x70, 0x06, env.byte("number%d" % i), 1, env.byte("value%d" % i)]
        env.at(now + when, lambda body=body: env.own.append(env.loop.create_task(
            node.handleMessage(nodes.message(env, body), {}))))
    times = []
    for s, e in spans:
        for s2, e2 in spans:
            if s is not s2:
                env.assume(env.not_(env.or_(s == s2, s == e2, e == e2)))
    env.run_until(now + 5000)
    # the instants at which something must have been written
    expected = []
    for when in changed:
        inside = [(s, e) for s, e in spans if env.and_(s < when, when < e)]
        if not inside:
            expected.append(when)
            env.reach("free")
            continue
        end = inside[0][1]
        for _round in spans:
            for s, e in spans:
                if env.and_(s < end, end < e):
                    end = e
            for s, e in inside:
                if e > end:
                    end = e
        if not any(end is x or bool(env.eq(end, x)) for x in times):
            times.append(end)
            expected.append(end)
        env.reach("locked")
    env.check(written.count == len(expected), "not announced once per change or outermost lock")
    env.check(same(env, written.state, state_of(node)), "what is stored is not what the node knows")


def _interview_answers(env, stub, cid):
    """What the node answers; every request may remain unanswered"""
    def maybe(name, fn):
        def answer(body):
            count[name] = count.get(name, 0) + 1
            if count[name] > 3 or not env.choice("%s.%d" % (name, count[name]), [1, 0]):
                return []
            return fn(body, "%s.%d" % (name, count[name]))
        return answer

    count = {}

    def value(name, n):
        return [x for x in env.bytes(name, n)]

    stub.answers.update({
        (0x86, 0x13): maybe("version-class", lambda b, n: [[0x86, 0x14, b[2], env.choice(n + ".v", [5, 0, 1])]]),
        (0x86, 0x11): maybe("version", lambda b, n: [[0x86, 0x12] + value(n, 5)]),
        (0x72, 0x04): maybe("manufacturer", lambda b, n: [[0x72, 0x05] + value(n, 6)]),
        (0x5E, 0x01): maybe("plus", lambda b, n: [[0x5E, 0x02] + value(n, 7)]),
        (0x31, 0x01): maybe("sensors", lambda b, n: [[0x31, 0x02, 0x05]]),
        (0x31, 0x03): maybe("scales", lambda b, n: [[0x31, 0x06, b[2]] + value(n, 1)]),
        (0x85, 0x05): maybe("groupings", lambda b, n: [[0x85, 0x06, 2]]),
        (0x85, 0x02): maybe("group", lambda b, n: [[0x85, 0x03, b[2], env.byte(n + ".max"), 0, 9]]),
        (0x59, 0x03): maybe("info", lambda b, n: [[0x59, 0x04, 0x01, 1, 0] + value(n, 2) + [0, 0, 0]]),
        (0x59, 0x01): maybe("name", lambda b, n: [[0x59, 0x02, b[2], 2, 0x61, 0x62]]),
        (0x59, 0x05): maybe("commands", lambda b, n: [[0x59, 0x06, b[3], 2] + value(n, 2)]),
    })


def h_interview(env):
    """Interviews that are answered or not, with or without a lock: what is stored is what is known"""
    cid = env.params["class"]
    node, stub = nodes.node(env, [cid] + env.params.get("with", []))
    written = Written(node)
    node.addListener(written)
    _interview_answers(env, stub, cid)
    locked = env.choice("locked", [1, 0])
    rounds = env.params.get("rounds", 1)
    for _i in range(rounds):
        before = written.count
        start = state_of(node)
        if locked:
            with node.storageLock():
                env.run(node.interview())
                env.run_until(env.now() + 100)
                env.check(written.count == before, "announced under the lock")
            changed = not bool(same(env, start, state_of(node)))
            if changed:
                env.check(written.count == before + 1, "not announced exactly once after the lock")
        else:
            env.run(node.interview())
            env.run_until(env.now() + 100)
        env.check(same(env, written.state, state_of(node)), "what is stored is not what the node knows")
    env.reach("locked" if locked else "free")


def h_direct(env):
    """Outside of an interview: every change is announced when it is made"""
    cid = env.params["class"]
    node, stub = nodes.node(env, [cid] + env.params.get("with", []))
    cls = node.supported[cid]
    if cid == 0x85:
        cls.groupings.setNumGroups(2)
    written = Written(node)
    node.addListener(written)
    _interview_answers(env, stub, cid)
    for name in env.params["calls"]:
        start, before = state_of(node), written.count
        if name == "lifeline":
            env.attempt_run(cls.setupLifeLine())
        elif name == "version":
            env.attempt_run(cls.requestVersion())
        else:
            env.attempt_run(cls.interviewGrouping(name))
        env.settle()
        env.check(same(env, written.state, state_of(node)), "what is stored is not what the node knows")
        if not bool(same(env, start, state_of(node))):
            env.check(written.count == before + 1, "not announced once")
            env.reach("changed")
        else:
            env.reach("unchanged")


CASES = [
    dict(name="direct-group", prop="C14", fn="h_direct", weight=3, reach=["changed", "unchanged"],
         params={"class": 0x85, "with": [0x5E], "calls": [1, 2, "lifeline"]}),
    dict(name="direct-version", prop="C14", fn="h_direct", weight=1, reach=["changed", "unchanged"],
         params={"class": 0x25, "with": [0x86], "calls": ["version"]}),
    dict(name="locks-3", prop="C14", fn="h_locks", params=dict(steps=3), reach=["changed", "raised"], weight=3,
         bounds="every sequence of 3 operations"),
    dict(name="locks-6", prop="C14", fn="h_locks", params=dict(steps=6), reach=["changed", "raised"], weight=5,
         bounds="every sequence of 6 operations"),
    dict(name="locks-8", prop="C14", fn="h_locks", params=dict(steps=8), tiers=["thorough"], weight=9),
    dict(name="locks-overlap", prop="C14", fn="h_overlap", params=dict(tasks=2, changes=1), reach=["locked", "free"], weight=3),
    dict(name="locks-overlap-raise", prop="C14", fn="h_overlap", params=dict(tasks=2, changes=1, raises=1),
         reach=["locked", "free"], weight=3),
    dict(name="locks-overlap-deep", prop="C14", fn="h_overlap", params=dict(tasks=2, changes=2, raises=1), tiers=["thorough"]),
]
for _name, _cid, _with in (("version", 0x86, []), ("manufacturer", 0x72, []), ("plus", 0x5E, []), ("sensor", 0x31, []),
                           ("association", 0x85, []), ("association-plus", 0x85, [0x5E]), ("groups", 0x59, [])):
    CASES.append(dict(name="stored-" + _name, prop="C14", fn="h_interview", params={"class": _cid, "with": _with},
                      reach=["locked", "free"], weight=4))
    CASES.append(dict(name="stored-%s-twice" % _name, prop="C14", fn="h_interview", tiers=["thorough"],
                      params={"class": _cid, "with": _with, "rounds": 2}))
