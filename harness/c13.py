"""C13: a node knows its classes and routes every message to the right place"""
import asyncio

from . import nodes, zipnet

KNOWN = [0x20, 0x25, 0x31, 0x32, 0x59, 0x5E, 0x69, 0x70, 0x72, 0x80, 0x85, 0x86, 0x87]


def h_frame(env):
    """The node information frame, by the protocol: classes, F1 00 starts the secure part, EF the controlled ones"""
    p = env.params
    n = p["length"]
    data = env.bytes("d", n)
    if not p.get("any"):
        for i in range(n):
            env.assume(env.or_(env.member(data[i], p["alphabet"]), data[i] == 0xFE))
    for i in range(n):
        if data[i] == 0xF1:
            # a mark; classes with two bytes are not claimed
            env.assume(i + 1 < n and data[i + 1] == 0)
    node, _stub = nodes.node(env, data)
    expected = {True: [], False: []}
    supported, secure = True, False
    i = 0
    while i < n:
        if data[i] == 0xF1:
            supported, secure = True, True
            i += 2
            continue
        if data[i] == 0xEF:
            supported = False
        else:
            entries = expected[supported]
            entries[:] = [e for e in entries if not env.eq(e[0], data[i])]
            entries.append((data[i], secure))
        i += 1
    probe = env.byte("probe")
    listed = env.or_(*[env.eq(e[0], probe) for e in expected[True]])
    env.check(node.supports(probe) == listed, "the supported command classes are not those of the frame")
    env.check(len(node.supported) == len(expected[True]), "another number of supported command classes")
    for cid, sec in expected[True]:
        cls = node.supported.get(cid)
        env.check(cls is not None, "a supported command class is missing")
        env.check(env.eq(cls.id, cid), "another command class")
        env.check(bool(cls.securityS0) == sec, "the security of a class is not that of its part of the frame")
        env.check(cls.node is node, "a command class belongs to another node")
        env.check(cls.version == 0 and not cls.interviewed, "a new class is already interviewed")
    controlled = node._controlled
    env.check(len(controlled) == len(expected[False]), "another number of controlled command classes")
    for cid, sec in expected[False]:
        env.check(controlled.get(cid) is not None, "a controlled command class is missing")
    plus = env.or_(*[env.eq(e[0], 0x5E) for e in expected[True]])
    env.check(node.isZWavePlus == plus, "Z-Wave Plus is not the presence of its class")
    env.reach("ok")


class Spy:
    """Listener on a node or on a command class"""

    def __init__(self, log, name, names, answer):
        self.log, self.name, self.answer = log, name, answer
        for attr in names:
            setattr(self, attr, self.heard)

    async def _slow(self):
        await asyncio.sleep(1)

    def heard(self, speaker, message, *_args):
        self.log.append((self.name, message.hid(), message.value, speaker))
        return self.answer


def h_route(env):
    p = env.params
    Basic = env.mod("pyzwave.commandclass.Basic")
    Switch = env.mod("pyzwave.commandclass.SwitchBinary")
    app, gw, _fake, _transport, _uns = zipnet.application(
        env, {6: [0x60, 0x20, 0xEF, 0x25], 7: [0x20, 0x25]}, endpoints={6: [[0x20, 0x25], [0x25]]})
    supported = {"6:0": [0x60, 0x20], "6:1": [0x20, 0x25], "6:2": [0x25], "7:0": [0x20, 0x25]}
    log, from_app = [], []
    handles = env.choice("class.handles", [None, True, False])
    sessions = {}
    for nid, node in app.nodes.items():
        node.addListener(Spy(log, ("node", nid), ["onMessage"], env.params.get("answer")))
        for cid, cls in node.supported.items():
            cls.addListener(Spy(log, ("class", nid, cid), ["onReport", "onSet"], handles))
        sessions[nid] = []

    class App:
        def messageReceived(self, speaker, *args):
            if speaker is app:
                from_app.append(args)
            return True

    app.addListener(App())
    waiting_on = env.choice("waiting", ["", "6:0", "6:1", "7:0"])
    waiting_for = env.choice("for", [Basic.Report, Switch.Report])
    if waiting_on:
        sessions[waiting_on].append(app.nodes[waiting_on].addWaitingSession(waiting_for))
    sent_by, ep = env.byte("from"), env.bits("endpoint", 7)
    names = [(6, 0), (6, 1), (6, 2), (7, 0)]
    target = None
    for a, b in names:
        if env.and_(sent_by == a, ep == b):
            target = "%d:%d" % (a, b)
    message = env.choice("message", ["basic-report", "basic-set", "switch-report"])
    ident = {"basic-report": (0x20, 3), "basic-set": (0x20, 1), "switch-report": (0x25, 3)}[message]
    value = env.byte("value")
    msg = nodes.message(env, [ident[0], ident[1], value])
    hid = ident[0] * 256 + ident[1]
    flags = {}
    result, exc = env.attempt_run(app.messageReceived(gw, sent_by, ep, msg, flags))
    env.check(exc is None, "routing a message raises")
    env.settle()
    for nid, waiting in sessions.items():
        for session in waiting:
            mine = nid == target and waiting_for.hid() == hid
            env.check(session.done() == mine, "a request is not answered exactly by the report of its own node")
            if mine:
                env.check(session.result() is msg, "answered by another message")
    took = target is not None and any(s.done() for s in sessions[target])
    env.check(all(env.eq(e[2], value) and e[1] == hid for e in log), "another message is heard")
    in_class = target is not None and ident[0] in supported[target]
    expected = []
    if in_class:
        expected.append(("class", target, ident[0]))
    if target is not None and not took and not (in_class and handles is True):
        expected.append(("node", target))
    env.check([e[0] for e in log] == expected, "the message does not reach exactly those it is for")
    if target is None:
        if sent_by == 1:
            env.check(len(from_app) == 1 and from_app[0][0] is msg, "a message of the controller does not reach the listeners")
            env.reach("controller")
        else:
            env.check(not from_app, "a message of an unknown node is passed on")
            env.check(not result, "a message of an unknown node counts as handled")
            env.reach("unknown")
    else:
        env.check(not from_app, "a message of a node is passed on to the application")
        env.check(bool(result) == bool(took or (in_class and handles is True) or env.params.get("answer")),
                  "handled or not is not reported")
        env.reach("node")
        if took:
            env.reach("answered")


def h_listeners(env):
    """several listeners and messages: each hears each unhandled message once"""
    node, _stub = nodes.node(env, [0x20])
    log = []
    count = env.size("listeners", 1, 3)
    for i in range(count):
        node.addListener(Spy(log, i, ["onMessage"], env.choice("answer%d" % i, [None, True, False])))
    values = [env.byte("value%d" % i) for i in range(2)]
    for value in values:
        env.run(node.handleMessage(nodes.message(env, [0x20, 0x03, value]), {}))
    env.check(len(log) == 2 * count, "not every listener hears every message once")
    for i, (name, _hid, value, speaker) in enumerate(log):
        env.check(name == i % count and speaker is node, "not in order")
        env.check(env.eq(value, values[i // count]), "another message")
    env.reach("ok")


def h_controlled(env):
    """A message of a class the node only controls: no class takes it, the listeners of the node hear it"""
    secure = env.choice("marked", [0, 1])
    both = env.choice("supported", [0, 1])
    classes = [0x20] + ([0x70] if both else []) + ([0xF1, 0x00] if secure else []) + [0xEF, 0x70, 0x85, 0x59]
    node, stub = nodes.node(env, classes)
    log = []
    updates = nodes.Updates(env)
    node.addListener(updates)

    class Listener:
        def onMessage(self, _speaker, message):
            log.append(message)

    node.addListener(Listener())
    body = [0x70, 0x06, env.byte("number"), 1, env.byte("value")]
    msg = nodes.message(env, body)
    result, exc = env.attempt_run(node.handleMessage(msg, {}))
    env.settle()
    env.check(exc is None, "a message raises")
    env.check(node.supports(0x70) == bool(both), "a controlled class counts as supported")
    if both:
        env.check(bool(result) and not log, "the class of the node did not take its report")
        env.check(node.supported[0x70].parameters[int(body[2])].value == body[4], "another value")
        env.check(len(updates.times) == 1, "not announced")
        env.reach("supported")
    else:
        env.check(len(log) == 1 and log[0] is msg, "a message no supported class took is not heard once")
        env.check(not result, "a message nobody handled counts as handled")
        env.check(not updates.times, "a class the node only controls took a message")
        env.reach("controlled")


CASES = [
    dict(name="controlled", prop="C13", fn="h_controlled", reach=["controlled", "supported"], weight=2,
         params={}, bounds="every number and value"),
] + [
    dict(name="frame-any-%d" % n, prop="C13", fn="h_frame", params=dict(length=n, any=1), reach=["ok"], weight=n,
         bounds="every frame of %d bytes" % n) for n in (0, 1, 2)
] + [
    dict(name="frame-%d" % n, prop="C13", fn="h_frame", weight=n, reach=["ok"],
         params=dict(length=n, alphabet=[0xEF, 0xF1, 0x00, 0x20, 0x5E]),
         bounds="every frame of %d bytes from the marks, two known classes, 0 and 0xFE" % n) for n in (3, 4)
] + [
    dict(name="frame-%d" % n, prop="C13", fn="h_frame", weight=n, reach=["ok"], tiers=["thorough"],
         params=dict(length=n, alphabet=[0xEF, 0xF1, 0x00, 0x20, 0x5E])) for n in (5, 6)
] + [
    dict(name="frame-any-3", prop="C13", fn="h_frame", weight=9, params=dict(length=3, any=1), tiers=["thorough"]),
    dict(name="route", prop="C13", fn="h_route", reach=["controller", "unknown", "node", "answered"], weight=5),
    dict(name="route-answered", prop="C13", fn="h_route", params=dict(answer=True), weight=5),
    dict(name="route-listeners", prop="C13", fn="h_listeners", reach=["ok"]),
]
