"""C34: inclusion and exclusion progress reaches the application"""
from . import layouts, zipnet


class Watcher:
    """An application listener that writes down what it hears"""

    def __init__(self, fail=False):
        self.log = []
        self.fail = fail

    async def _hear(self, *entry):
        self.log.append(entry)
        if self.fail:
            raise ValueError("listener fails")

    async def addNodeStatus(self, _app, status):
        await self._hear("add", status)

    async def removeNodeStatus(self, _app, status):
        await self._hear("remove", status)

    async def nodeRemoved(self, _app, node):
        await self._hear("gone", node)

    async def nodesRemoved(self, _app, nodes):
        await self._hear("all-gone", list(nodes))

    async def messageReceived(self, _app, message):
        await self._hear("message", message)

    async def nodeAdded(self, _app, node):
        await self._hear("added", node)


class Plain(Watcher):
    """The same with plain functions"""

    def _hear(self, *entry):
        self.log.append(entry)
        if self.fail:
            raise ValueError("listener fails")

    def addNodeStatus(self, _app, status):
        self._hear("add", status)

    def removeNodeStatus(self, _app, status):
        self._hear("remove", status)

    def nodeRemoved(self, _app, node):
        self._hear("gone", node)

    def nodesRemoved(self, _app, nodes):
        self._hear("all-gone", list(nodes))

    def messageReceived(self, _app, message):
        self._hear("message", message)

    def nodeAdded(self, _app, node):
        self._hear("added", node)


def _same(env, message, body):
    """It is the message with these bytes"""
    return env.eq(message.compose(), layouts.to_frame(env, body))


def _command(env, k, kind):
    """-> body, what is heard: [(event, check)]"""
    n = "m%d." % k
    seq = env.byte(n + "seq")
    if kind == "add":
        status, node, classes = env.byte(n + "status"), env.byte(n + "node"), env.bytes(n + "classes", 2)
        body = [0x34, 0x02, seq, status, 0, node, 9, env.bits(n + "listening", 1) * 128, 0, 4, 0x10, 1, classes[0], classes[1]]
        return body, [("add", lambda m: env.and_(m.seqNo == seq, m.status == status, m.newNodeID == node,
                                                 m.commandClass[0] == classes[0], m.commandClass[1] == classes[1]))]
    if kind == "remove":
        status, node = env.byte(n + "status"), env.byte(n + "node")
        want = [("remove", lambda m: env.and_(m.seqNo == seq, m.status == status, m.nodeID == node))]
        if env.and_(status == 6, node == 0):
            # a node of another network
            want += [("gone", lambda x: x == 0), ("all-gone", lambda x: x == [0])]
            env.reach("foreign")
        return [0x34, 0x04, seq, status, node], want
    if kind == "keys":
        csa, keys = env.bits(n + "csa", 1), env.byte(n + "keys")
        return [0x34, 0x11, seq, csa, keys], [("message", lambda m: env.and_(
            _same(env, m, [0x34, 0x11, seq, csa, keys]), m.seqNo == seq, m.requestCSA == csa, m.requestedKeys == keys))]
    if kind == "dsk":
        length, dsk = env.bits(n + "length", 4), env.bytes(n + "dsk", 16)
        body = [0x34, 0x13, seq, length] + [dsk[i] for i in range(16)]
        return body, [("message", lambda m: env.and_(_same(env, m, body), m.seqNo == seq, m.inputDSKLength == length))]
    if kind == "failed":
        status, node = env.byte(n + "status"), env.byte(n + "node")
        body = [0x34, 0x08, seq, status, node]
        return body, [("message", lambda m: env.and_(_same(env, m, body), m.status == status, m.nodeID == node))]
    # any other command
    body = [0x25, 0x03, env.byte(n + "value")]
    return body, [("message", lambda m: _same(env, m, body))]


def _heard(env, watcher, want, what):
    got = watcher.log
    for name in ("add", "remove", "gone", "all-gone", "message"):
        mine = [v for e, v in got if e == name]
        theirs = [c for e, c in want if e == name]
        env.check(len(mine) == len(theirs), "%s is not told once (%s)" % (name, what))
        for value, good in zip(mine, theirs):
            env.check(good(value), "%s is told with other content, or in another order (%s)" % (name, what))
    arrivals = [e for e, _v in got if e in ("add", "remove", "message")]
    env.check(arrivals == [e for e, _c in want if e in ("add", "remove", "message")], "told in another order (%s)" % what)
    for i, (e, _v) in enumerate(got):
        if e == "gone":
            env.check(any(x == "remove" for x, _y in got[:i]), "removed before its status is told (%s)" % what)


def h_progress(env):
    """Commands of the gateway, one after the other or in one go"""
    p = env.params
    app, gw, fake, transport, uns = zipnet.application(env, {5: [0x25]})
    watchers = [Watcher(fail=True), Plain(fail=True), Watcher(), Plain()]
    for w in watchers:
        app.addListener(w)
    want = []
    together = env.choice("together", [0, 1]) if p["count"] > 1 else 0
    for k in range(p["count"]):
        body, heard = _command(env, k, env.choice("kind%d" % k, p["kinds"]))
        want += heard
        env.inside(transport.deliver, zipnet.command(env, env.byte("zip%d" % k), body))
        if not together:
            env.settle()
    env.settle()
    for i, w in enumerate(watchers):
        _heard(env, w, want, ["failing", "failing plain", "async", "plain"][i])
    env.check(len(app.nodes) == 1, "the nodes change")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_controller(env):
    """Commands the controller itself sends to the unsolicited port"""
    app, gw, fake, transport, uns = zipnet.application(env, {5: [0x25]})
    watchers = [Watcher(), Plain()]
    for w in watchers:
        app.addListener(w)
    value = env.byte("value")
    source = env.choice("source", [1, 5, 9])
    endpoint = env.choice("endpoint", [0, 1, 127])
    packet = zipnet.command(env, env.byte("zip"), [0x20, 0x01, value], src=endpoint)
    env.inside(uns.deliver, packet, ("fd00::%x" % source, 4123, 0, 0))
    env.settle()
    want = []
    if source == 1:
        want = [("message", lambda m: _same(env, m, [0x20, 0x01, value]))]
        env.reach("controller")
    for w in watchers:
        _heard(env, w, want, "controller")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


class Includer(Watcher):
    """Follows docs/inclusion.rst"""

    def __init__(self, env, adapter):
        super().__init__()
        self.env, self.adapter = env, adapter
        self.results = []

    async def messageReceived(self, _app, message):
        await self._hear("message", message)
        inclusion = self.env.mod("pyzwave.commandclass.NetworkManagementInclusion")
        if isinstance(message, inclusion.NodeAddKeysReport):
            self.results.append(await self.adapter.addNodeKeysSet(False, True, message.requestedKeys))
        if isinstance(message, inclusion.NodeAddDSKReport):
            self.results.append(await self.adapter.addNodeDSKSet(True, 0, b""))


def h_inclusion(env):
    """An inclusion from beginning to end, as in docs/inclusion.rst, then an exclusion"""
    infos = {5: [0x25]}
    app, gw, fake, transport, uns = zipnet.application(env, infos)
    includer = Includer(env, gw)
    app.addListener(includer)
    new = env.choice("new", [6, 100, 232])
    infos[new] = [0x25, 0x70]
    fake.addresses[new] = zipnet.address(env, new)
    tx = env.byte("tx")
    asked = len(fake.requests)
    env.check(env.run(gw.addNode(tx)) is True, "inclusion does not start")
    nm = fake.requests[-1][3][2]
    env.check(env.eq(fake.requests[-1][3], layouts.to_frame(env, [0x34, 0x01, nm, 0, 7, tx])), "another inclusion frame")
    keys, dsk, length = env.byte("keys"), env.bytes("dsk", 16), env.bits("length", 4)
    secure = env.choice("secure", [0, 1])
    if secure:
        env.inside(transport.deliver, zipnet.command(env, env.byte("z0"), [0x34, 0x11, nm, 0, keys]))
        env.run_until(env.now() + 100)
        body = fake.requests[-1][3]
        env.check(len(fake.requests) == asked + 2 and env.eq(body, layouts.to_frame(env, [0x34, 0x12, body[2], 1, keys])),
                  "the granted keys are not sent")
        env.inside(transport.deliver, zipnet.command(env, env.byte("z1"), [0x34, 0x13, nm, length] + [dsk[i] for i in range(16)]))
        env.run_until(env.now() + 100)
        body = fake.requests[-1][3]
        env.check(len(fake.requests) == asked + 3 and env.eq(body, layouts.to_frame(env, [0x34, 0x14, body[2], 0x80])),
                  "the confirmed key is not sent")
        env.check(includer.results == [True, True], "not acknowledged")
        env.reach("secure")
    env.inside(transport.deliver, zipnet.command(
        env, env.byte("z2"), [0x34, 0x02, nm, 6, 0, new, 9, 128, 0, 4, 0x10, 1, 0x25, 0x70]))
    env.run_until(env.now() + 100)
    env.check([e for e, _v in includer.log if e != "message"] == ["add"] and
              env.and_(includer.log[-1][1].status == 6, includer.log[-1][1].newNodeID == new), "the status is not told once")
    report = [0x52, 0x02, env.byte("n0"), 0, 1] + zipnet.mask_of([1, 5, new])
    env.inside(uns.deliver, zipnet.command(env, env.byte("z3"), report), ("fd00::1", 4123, 0, 0))
    env.run_until(env.now() + 100)
    env.check(sorted(app.nodes) == sorted(["5:0", "%d:0" % new]), "the new node is not there")
    node = app.nodes["%d:0" % new]
    env.check([v for e, v in includer.log if e == "added"] == [node], "the new node is not announced once")
    env.check(sorted(node.supported) == [0x25, 0x70], "other command classes")
    # and out again
    env.check(env.run(gw.removeNode()) is True, "exclusion does not start")
    env.inside(transport.deliver, zipnet.command(env, env.byte("z4"), [0x34, 0x04, fake.requests[-1][3][2], 6, new]))
    env.run_until(env.now() + 100)
    env.check(includer.log[-1][0] == "remove", "the status is not told")
    report = [0x52, 0x02, env.byte("n1"), 0, 1] + zipnet.mask_of([1, 5])
    env.inside(uns.deliver, zipnet.command(env, env.byte("z5"), report), ("fd00::1", 4123, 0, 0))
    env.run_until(env.now() + 100)
    env.check(sorted(app.nodes) == ["5:0"], "the excluded node is still there")
    env.check([(e, v) for e, v in includer.log if e in ("gone", "all-gone")] == [
        ("gone", "%d:0" % new), ("all-gone", ["%d:0" % new])], "the excluded node is not announced once")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


KINDS = ["add", "remove", "keys", "dsk", "failed", "other"]
CASES = [
    dict(name="progress-one", prop="C34", fn="h_progress", params=dict(count=1, kinds=KINDS), weight=2, reach=["foreign", "end"],
         bounds="any one of 6 kinds of commands, any content, 4 listeners of which 2 fail"),
    dict(name="progress-two", prop="C34", fn="h_progress", params=dict(count=2, kinds=["add", "remove", "dsk", "other"]), weight=5,
         reach=["foreign", "end"], bounds="any 2 of 4 kinds of commands, any content, one after the other or in one go"),
    dict(name="progress-three", prop="C34", fn="h_progress", params=dict(count=3, kinds=["add", "remove", "dsk", "other"]), weight=9,
         reach=["foreign", "end"], bounds="any 3 of 4 kinds of commands, any content, one after the other or in one go"),
    dict(name="progress-keys", prop="C34", fn="h_progress", params=dict(count=2, kinds=["keys", "remove"]), weight=9,
         tiers=["thorough"]),
    dict(name="progress-controller", prop="C34", fn="h_controller", params={}, weight=1, reach=["controller", "end"],
         bounds="a command from the controller, a node, or an address no node has"),
    dict(name="progress-inclusion", prop="C34", fn="h_inclusion", params={}, weight=2, reach=["secure", "end"],
         bounds="a whole inclusion, secure or not, and exclusion of one of 3 node ids; any keys, key and sequence numbers"),
]
