"""C12: supervised commands are acknowledged with the outcome of handling

Two nodes with the same classes and listeners: one gets the command alone, the
other one wrapped.  Whatever happens to the first must happen to the second.
"""
import asyncio

from . import layouts, nodes, zipnet

CLASSES = [0x20, 0x25, 0x31, 0x59, 0x70, 0x72, 0x85, 0x86, 0x87, 0x5E, 0x80, 0xEF, 0x32]

# (class, command, payload length)
COMMANDS = {
    "basic": (0x20, 0x01, 1), "switch": (0x25, 0x03, 1), "meter": (0x32, 0x02, 1), "sensor": (0x31, 0x05, 3),
    "configuration": (0x70, 0x06, 3), "group-info": (0x59, 0x04, 8), "group-name": (0x59, 0x02, 3),
    "group-commands": (0x59, 0x06, 4), "version": (0x86, 0x14, 2), "unknown": (0xFE, 0x01, 1), "battery": (0x80, 0x03, 1),
    "supervision-report": (0x6C, 0x02, 3),
}
NONE, TRUE, FALSE, RAISES, ASYNC_TRUE, SLOW_TRUE, ASYNC_RAISES = range(7)


def make_listener(kind, names, log):
    def sync(self, _speaker, message, *_args):
        log.append(message.hid())
        if kind == RAISES:
            raise ValueError("listener")
        return kind == TRUE

    async def coro(self, _speaker, message, *_args):
        log.append(message.hid())
        if kind == SLOW_TRUE:
            await asyncio.sleep(1)
        if kind == ASYNC_RAISES:
            raise ValueError("listener")
        return True

    body = {} if kind == NONE else {n: sync if kind in (TRUE, FALSE, RAISES) else coro for n in names}
    return type("Listener", (), body)()


class World:
    """A node with listeners and possibly a request that waits for the report"""

    def __init__(self, env, kinds, session, endpoint):
        self.log = []
        self.node, self.stub = nodes.node(env, CLASSES)
        if endpoint:
            self.node = nodes.endpoint(env, self.node, endpoint, CLASSES)
            self.stub.node = self.node
        self.node.addListener(make_listener(kinds[0], ["onMessage"], self.log))
        names = ["onSet", "onReport", "onGroupNameReport"]
        for cls in self.node.supported.values():
            cls.addListener(make_listener(kinds[1], names, self.log))
        self.node.supported[0x31]._version = 5
        self.session = None
        if session:
            self.session = self.node.addWaitingSession(env.mod("pyzwave.commandclass.SwitchBinary").Report)
        self.updates = nodes.Updates(env)
        self.node.addListener(self.updates)

    def state(self):
        return [(cid, cls.__getstate__()) for cid, cls in self.node.supported.items()]


def h_supervised(env):
    p = env.params
    cmd_class, cmd, length = COMMANDS[p["command"]]
    if p.get("truncated"):
        length = env.size("length", 0, length)
    kinds = [env.choice("node.listener", p["kinds"]), env.choice("class.listener", p["kinds"])]
    session = env.choice("session", [0, 1]) if p["command"] == "switch" else 0
    endpoint = env.choice("endpoint", [0, 3])
    sends = env.choice("sends", ["ok", "refused", "timeout"]) if p["command"] == "group-info" else "ok"
    body = [cmd_class, cmd] + [x for x in env.bytes("d", length)]
    if p["command"] == "group-info" and length:
        env.assume(body[2] & 0x3F <= p.get("groups", 1))
    flags = env.byte("flags")
    alone, wrapped = World(env, kinds, session, endpoint), World(env, kinds, session, endpoint)
    for world in (alone, wrapped):
        if sends == "refused":
            world.stub.ok = lambda b: b[0] == 0x6C
        elif sends == "timeout":
            def fail(b):
                if b[0] == 0x6C:
                    return True
                raise asyncio.TimeoutError()
            world.stub.ok = fail
    results = []
    for world, data in ((alone, body), (wrapped, [0x6C, 0x01, flags, len(body)] + body)):
        msg, exc = env.attempt(nodes.message, env, data)
        if exc is not None:
            results.append("undecodable")
            continue
        result, exc = env.attempt_run(world.node.handleMessage(msg, {}))
        env.check(exc is None, "handling a message raises")
        env.settle()
        results.append(bool(result))
    env.observe("results", results)
    if results[0] == "undecodable" or results[1] == "undecodable":
        env.check(results[0] == results[1], "only decodable %s supervision" % ("with" if results[0] == "undecodable"
                                                                             else "without"))
        env.check(not wrapped.stub.sends and not alone.stub.sends, "an undecodable message is answered")
        return
    env.check(alone.log == wrapped.log, "listeners hear something else about a supervised command")
    env.check(len(alone.updates.times) == len(wrapped.updates.times), "stored differently")
    for (cid, one), (cid2, two) in zip(alone.state(), wrapped.state()):
        env.check(cid == cid2 and one == two, "a supervised command leaves the node in another state")
    if session:
        env.check(alone.session.done() == wrapped.session.done(), "a supervised report does not answer a request")
    before, after = alone.stub.sends, wrapped.stub.sends
    env.check(all(s[2][0] != 0x6C for s in before), "a report for a command without supervision")
    reports = [s for s in after if env.and_(s[2][0] == 0x6C, s[2][1] == 0x02)]
    env.check(len(reports) == 1, "not exactly one report for a supervised command")
    others = [s for s in after if s is not reports[0]]
    env.check(len(others) == len(before) and all(env.eq(a[2], b[2]) for a, b in zip(before, others)),
              "a supervised command makes the node send something else")
    env.check(after[-1] is reports[0], "reported before the command is handled")
    _when, nid, rep, kwargs = reports[0]
    env.check(len(rep) == 5, "malformed report")
    env.check(nid == 5 and kwargs.get("destEP", 0) == endpoint, "the report is not sent to the sender of the command")
    env.check((rep[2] & 0x3F) == (flags & 0x3F), "another session id is reported")
    env.check((rep[2] & 0x80) == 0, "announces more reports, which never come")
    env.check(rep[3] == (0xFF if results[0] else 0x00), "the reported status is not the outcome of handling")
    env.reach("handled" if results[0] else "unhandled")


def h_outcome(env):
    """It is handled if a request waits for it, or if any of the listeners says so"""
    log = []
    node, stub = nodes.node(env, CLASSES)
    switch = env.choice("switch", [0, 1])
    session = None
    if switch and env.choice("session", [0, 1]):
        session = node.addWaitingSession(env.mod("pyzwave.commandclass.SwitchBinary").Report)
    own = [env.choice("class%d" % i, env.params["kinds"]) for i in range(env.params["class"])]
    outer = [env.choice("node%d" % i, env.params["kinds"]) for i in range(env.params["node"])]
    for kind in own:
        node.supported[0x25 if switch else 0x20].addListener(make_listener(kind, ["onReport", "onSet"], log))
    for kind in outer:
        node.addListener(make_listener(kind, ["onMessage"], log))
    value, sid = env.byte("value"), env.bits("session id", 6)
    body = [0x25, 0x03, value] if switch else [0x20, 0x01, value]
    wrapped = [0x6C, 0x01, sid, 3] + body
    result, exc = env.attempt_run(node.handleMessage(nodes.message(env, wrapped), {}))
    env.check(exc is None, "handling a message raises")
    agrees = (TRUE, ASYNC_TRUE, SLOW_TRUE)
    by_class = any(k in agrees for k in own)
    want = session is not None or by_class or any(k in agrees for k in outer)
    env.check(bool(result) == want, "the outcome is not that of the listeners")
    calls = sum(1 for k in own if k != NONE)
    if session is None and not by_class:
        calls += sum(1 for k in outer if k != NONE)
    env.check(len(log) == calls, "not offered once to each listener")
    if session is not None:
        env.check(session.done(), "the request that waits for it is not completed")
    env.check(len(stub.sends) == 1, "not exactly one report")
    report = stub.sends[0][2]
    env.check(env.eq(report, layouts.to_frame(env, [0x6C, 0x02, sid, 0xFF if want else 0x00, 0])), "another outcome is reported")
    env.reach("handled" if want else "unhandled")


def h_truncated(env):
    """Supervision frames with any length byte and any rest"""
    world = World(env, [TRUE, NONE], 0, 0)
    n = env.size("n", 0, env.params["length"])
    data = [0x6C, 0x01] + [x for x in env.bytes("d", n)]
    if n > 2:
        env.assume(data[4] == 0x20)
    msg, exc = env.attempt(nodes.message, env, data)
    if exc is not None:
        env.check(isinstance(exc, EOFError), "undeclared error")
        return
    _result, exc = env.attempt_run(world.node.handleMessage(msg, {}))
    env.check(exc is None, "a truncated message makes handling raise")
    if n < 2:
        env.check(not world.stub.sends, "a report without a command")
        env.reach("truncated")


def h_overlap(env):
    """Several supervised commands while the first is still being handled"""
    world = World(env, [SLOW_TRUE, NONE], 0, 0)
    sessions = [env.bits("session%d" % i, 6) for i in range(env.params["commands"])]
    starts = []
    now = env.now()
    for i, s in enumerate(sessions):
        at = env.int("at%d" % i, now, now + 2000)
        starts.append(at)
        # only the first kind of command is handled by the listener
        known = env.choice("kind%d" % i, [1, 0])
        if not known:
            s = s + 0
        body = [0x6C, 0x01, s, 3, 0x20, 0x01, i] if known else [0x6C, 0x01, s, 2, 0x6C, 0x02]
        env.at(at, lambda b=body: env.own.append(env.loop.create_task(
            world.node.handleMessage(nodes.message(env, b), {}))))
    env.run_until(now + 10000)
    reports = world.stub.sends
    env.check(len(reports) == len(sessions), "not exactly one report per supervised command")
    env.check(len(world.log) == len(sessions), "not handled exactly once each")
    for i, s in enumerate(sessions):
        mine = [r for r in reports if env.eq(r[2][2] & 0x3F, s)]
        same = sum(1 for t in sessions if env.eq(s, t))
        env.check(len(mine) == same, "a session is reported another number of times than it was used")
    for _t, _n, rep, _k in reports:
        env.check(rep[3] == 0xFF, "not reported as handled")
    env.reach("done")


def h_path(env):
    """From the datagram at the unsolicited port to the report on the node's connection"""
    app, _gw, fake, _transport, uns = zipnet.application(env, {6: [0x20, 0x25]})
    log = []
    kind = env.choice("kind", [TRUE, FALSE])
    app.nodes["6:0"].addListener(make_listener(kind, ["onMessage"], log))
    s, value, seq = env.bits("session", 6), env.byte("value"), env.byte("seq")
    wrapped = env.choice("wrapped", [1, 0])
    body = ([0x6C, 0x01, s, 3] if wrapped else []) + [0x20, 0x01, value]
    seen = len(fake.requests)
    env.at(env.now(), lambda: uns.deliver(zipnet.command(env, seq, body), ("fd00::6", 4123, 0, 0)))
    env.run_until(env.now() + 5000)
    new = fake.requests[seen:]
    env.check(len(log) == 1, "not handled exactly once")
    if not wrapped:
        env.check(not new, "a report for a command without supervision")
        env.reach("plain")
        return
    env.check(len(new) == 1, "not exactly one report")
    _t, transport, _s, report = new[0]
    env.check(transport.remote_addr[0] == "fd00::6", "sent to another node")
    env.check(report[0] == 0x6C and report[1] == 0x02, "not a supervision report")
    env.check(env.and_((report[2] & 0x3F) == s, report[3] == (0xFF if kind == TRUE else 0)), "wrong report")
    env.reach("report")


ALL = [NONE, TRUE, FALSE, RAISES, ASYNC_TRUE, SLOW_TRUE, ASYNC_RAISES]
CASES = []
for _name in COMMANDS:
    CASES.append(dict(name="supervised-" + _name, prop="C12", fn="h_supervised",
                      params=dict(command=_name, kinds=[NONE, TRUE, RAISES, SLOW_TRUE], truncated=1),
                      reach=["handled"], weight=3,
                      bounds="every content, listeners of 4 kinds on the node and on its command classes"))
    CASES.append(dict(name="supervised-%s-deep" % _name, prop="C12", fn="h_supervised", tiers=["thorough"],
                      params=dict(command=_name, kinds=ALL, truncated=1)))
CASES += [
    dict(name="supervised-outcome", prop="C12", fn="h_outcome", reach=["handled", "unhandled"],
         params={"kinds": [TRUE, FALSE, RAISES, SLOW_TRUE], "class": 1, "node": 2},
         bounds="any value and session id, one listener of the class and two of the node, of 4 kinds"),
    dict(name="supervised-outcome-deep", prop="C12", fn="h_outcome", tiers=["thorough"],
         params={"kinds": ALL, "class": 2, "node": 2}),
    dict(name="supervision-truncated", prop="C12", fn="h_truncated", params=dict(length=6), reach=["truncated"]),
    dict(name="supervised-overlapping", prop="C12", fn="h_overlap", params=dict(commands=2), reach=["done"], weight=3),
    dict(name="supervised-overlapping-3", prop="C12", fn="h_overlap", params=dict(commands=3), tiers=["thorough"]),
    dict(name="supervised-path", prop="C12", fn="h_path", reach=["plain", "report"]),
]
