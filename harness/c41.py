"""C41: a call that is cancelled leaves everything else working

Any call of the library is cancelled at any time (this is what a timeout of the
caller's own does).  What runs beside it and what comes after it must work as
if the call had never been made.
"""
from . import zipnet
from .c14 import Written, state_of
from .c33 import _address_of

INFOS = {5: [0x70, 0x72, 0x25], 6: [0x25, 0x70]}


class Heard:
    def __init__(self):
        self.got = []

    async def onMessage(self, _speaker, message):
        self.got.append(message)
        return True


def _world(env, latency):
    app, gw, fake, transport, uns = zipnet.application(env, INFOS)
    fake.answers[(0x86, 0x13)] = lambda body: [[0x86, 0x14, body[2], 3]]
    fake.answers[(0x25, 0x02)] = lambda body: [[0x25, 0x03, 0xFF if _node(fake) == 5 else 0x00]]
    fake.answers[(0x70, 0x05)] = lambda body: [[0x70, 0x06, body[2], 1, (body[2] + _node(fake)) % 256]]
    fake.answers[(0x72, 0x04)] = lambda body: [[0x72, 0x05, 1, 2, 3, 4, 5, 6]]
    fake.answers[(0x52, 0x05)] = lambda body: [[0x52, 0x06, body[2], body[3], 0, 2, 1]]
    fake.answers[(0x52, 0x0B)] = lambda body: [[0x52, 0x0C, body[2]] + zipnet.mask_of([6])]
    fake.latency = latency
    return app, gw, fake, transport, uns


def _node(fake):
    return _address_of(fake.current[0])[15]


class Calls:
    """The calls of the library, and what they return when they are left alone"""

    def __init__(self, env, app, gw, uns):
        self.env, self.app, self.gw, self.uns = env, app, gw, uns
        self.Switch = env.mod("pyzwave.commandclass.SwitchBinary")
        self.Basic = env.mod("pyzwave.commandclass.Basic")

    def report(self, node):
        self.uns.deliver(zipnet.command(self.env, 70 + node, [0x25, 0x03, 0xFF if node == 5 else 0]),
                         ("fd00::%d" % node, 4123, 0, 0))

    def start(self, what):
        env, app, gw = self.env, self.app, self.gw
        kind, node = what.split(" ")[0], int((what + " 5").split(" ")[1])
        name = "%d:0" % node
        if kind == "connect":
            return gw.connectToNode(node)
        if kind == "send":
            return gw.sendToNode(node, self.Basic.Set(value=node))
        if kind == "request":
            return app.nodes[name].sendAndReceive(self.Switch.Get(), self.Switch.Report)
        if kind == "configuration":
            return app.nodes[name].supported[0x70].get(7, cached=False)
        if kind == "version":
            return app.nodes[name].supported[0x25].requestVersion()
        if kind == "wait":
            # the report comes without being asked for
            env.loop.call_later(0.05, self.report, node)
            return app.nodes[name].waitForMessage(self.Switch.Report)
        if kind == "interview":
            async def interview():
                with app.nodes[name].storageLock():
                    await app.nodes[name].interview()
            return interview()
        if kind == "endpoints":
            return gw.getMultiChannelEndPoints(node)
        if kind == "failed":
            return gw.getFailedNodeList()
        raise AssertionError(what)

    def verify(self, what, result):
        env = self.env
        kind, node = what.split(" ")[0], int((what + " 5").split(" ")[1])
        if kind == "connect":
            env.check(result is self.gw._connections.get(node) if hasattr(self.gw, "_connections") else result is not None,
                      "not the connection of the node")
        elif kind == "send":
            env.check(result is True, "a message is not acknowledged")
        elif kind in ("request", "wait"):
            env.check(result.value == (0xFF if node == 5 else 0), "the answer of another node")
        elif kind == "configuration":
            env.check(result == (7 + node) % 256, "another configuration value")
        elif kind == "version":
            env.check(result == 3, "another version")
        elif kind == "interview":
            for cid, cls in self.app.nodes["%d:0" % node].supported.items():
                env.check(cls.interviewed is True and cls.version == 3, "not interviewed")
        elif kind == "endpoints":
            env.check(result == 3, "another number of endpoints")
        elif kind == "failed":
            env.check(sorted(result) == [6], "another list of failed nodes")


class Updates:
    def __init__(self):
        self.nodes = []

    def nodeUpdated(self, node):
        self.nodes.append(node.nodeId)


def h_cancel(env):
    """A call cancelled at any time, one beside it and one after it"""
    p = env.params
    app, gw, fake, transport, uns = _world(env, p["latency"])
    calls = Calls(env, app, gw, uns)
    victim = env.choice("victim", p["victims"])
    beside = env.choice("beside", [None] + p["beside"])
    if victim.split(" ")[0] in ("endpoints", "failed") and beside == victim:
        # network management reports do not say which request they answer
        env.assume(False)
    if victim.startswith("interview") and env.choice("again", [0, 1]):
        env.run(calls.start(victim))
        calls.verify(victim, None)
    heard = {n: Heard() for n in app.nodes}
    updates = Updates()
    for n, node in app.nodes.items():
        node.addListener(heard[n])
        node.addListener(updates)
    written = {n: Written(node) for n, node in app.nodes.items()}
    for n, node in app.nodes.items():
        node.addListener(written[n])
    start = env.now()
    task = env.task(calls.start(victim))
    other = None
    if beside is not None:
        lead = env.choice("lead", p["leads"])
        env.run_until(env.now() + lead)
        other = env.task(calls.start(beside))
    when = env.int("when", 0, p["until"])
    env.run_until(env.now() + when)
    already = task.done()
    task.cancel()
    env.run_until(env.now() + 5000)
    kind, value = zipnet.outcome(task)
    if already:
        env.check(kind == "value", "a call fails though everything is answered")
        calls.verify(victim, value)
        env.reach("too-late")
    else:
        env.check(kind == "cancelled", "a cancelled call ends otherwise")
        env.reach("cancelled")
    for n, node in app.nodes.items():
        env.check(written[n].state == state_of(node), "what a cancelled call changed is not saved")
    if other is not None:
        kind, value = zipnet.outcome(other)
        env.check(kind == "value", "a call beside a cancelled one fails")
        calls.verify(beside, value)
        env.reach("beside")
    # nothing is in the way of the next ones
    after = env.choice("after", [victim] + [a for a in p["after"] if a != victim])
    final = env.task(calls.start(after))
    env.run_until(env.now() + 5000)
    kind, value = zipnet.outcome(final)
    env.check(kind == "value", "a call after a cancelled one fails")
    calls.verify(after, value)
    opened = [_address_of(t)[15] for t in env.net.transports[2:]]
    env.check(p.get("open") or len(set(opened)) == len(opened), "more than one connection to a node")
    # and reports nobody waits for are heard, and stored, as ever
    for h in heard.values():
        h.got.clear()
    updates.nodes.clear()
    value = env.byte("late")
    for body in ([0x25, 0x03, value], [0x70, 0x06, 9, 1, value]):
        env.inside(uns.deliver, zipnet.command(env, 77, body), ("fd00::5", 4123, 0, 0))
        env.settle()
    env.check(len(heard["5:0"].got) == 1 and heard["5:0"].got[0].value == value, "a later report is swallowed")
    env.check(app.nodes["5:0"].supported[0x70].parameters[9].value == value, "a later report is not stored")
    env.check(updates.nodes == ["5:0"], "a later change is not saved")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_startup(env):
    """Starting the application is cancelled and tried again"""
    p = env.params
    gw, fake, transport, uns = zipnet.gateway(env, [1, 5, 6])
    fake.answers[(0x52, 0x03)] = lambda body: [zipnet.node_info(body[2], INFOS.get(int(body[4]), []))]
    fake.answers[(0x52, 0x0B)] = lambda body: [[0x52, 0x0C, body[2]] + [0] * 29]
    app = env.mod("pyzwave.application").Application(gw, zipnet.Storage())
    told = []

    class Client:
        async def nodeAdded(self, _app, node):
            told.append(node)

    app.addListener(Client())
    fake.latency = p["latency"]
    task = env.task(app.startup())
    env.run_until(env.now() + env.int("when", 0, p["until"]))
    done = task.done()
    task.cancel()
    # an answer to the cancelled try may still be on its way
    env.run_until(env.now() + 100)
    env.check(done or zipnet.outcome(task)[0] == "cancelled", "a cancelled call ends otherwise")
    env.reach("too-late" if done else "cancelled")
    before = len(told)
    again = env.choice("again", ["startup", "update"])
    if again == "startup":
        _r, exc = env.attempt_run(app.startup())
        env.check(exc is None, "the application cannot be started any more")
        env.check(sorted(app.nodes) == ["5:0", "6:0"], "not every node is there")
        env.check([app.nodes[n.nodeId] is n for n in told[before:]] == [True, True], "not every node is announced once")
    else:
        # the list changes: node 7 is included
        fake.addresses[7] = zipnet.address(env, 7)
        fake.answers[(0x52, 0x03)] = lambda body: [zipnet.node_info(body[2], INFOS.get(int(body[4]), [0x25]))]
        env.inside(uns.deliver, zipnet.command(env, 9, [0x52, 0x02, 1, 0, 1] + zipnet.mask_of([1, 5, 6, 7])), ("fd00::1", 4123, 0, 0))
        env.run_until(env.now() + 4000)
        env.check(sorted(app.nodes) == ["5:0", "6:0", "7:0"], "the nodes do not follow the node list any more")
        env.check([n.nodeId for n in told].count("7:0") == 1, "a new node is not announced once")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


VICTIMS = ["connect", "send", "request", "configuration", "version", "interview", "endpoints", "failed", "wait"]
CASES = []
for _v in VICTIMS:
    CASES.append(dict(name="cancel-call-" + _v, prop="C41", fn="h_cancel", weight=4,
                      params=dict(latency=40, until=600 if _v == "interview" else 200, victims=[_v + " 5"],
                                  beside=["send 5", "configuration 5", "send 6"] if _v not in ("endpoints", "failed") else ["send 5", "endpoints 6", "failed"],
                                  leads=[0, 60], after=["send 5"]),
                      reach=["end", "cancelled", "too-late", "beside"], bounds="one call cancelled at any ms, one beside it, one after it; 40 ms latency"))
CASES += [
    dict(name="cancel-call-deep", prop="C41", fn="h_cancel", weight=8, tiers=["thorough"],
         params=dict(latency=70, until=900, victims=[v + " 5" for v in VICTIMS], beside=[v + " 5" for v in VICTIMS] + ["request 6", "interview 6"],
                     leads=[0, 30, 100, 250], after=["request 5", "interview 5", "send 6"]),
         reach=["end", "cancelled", "too-late", "beside"]),
    dict(name="cancel-startup", prop="C41", fn="h_startup", params=dict(latency=30, until=400), reach=["end", "cancelled", "too-late"],
         weight=3, bounds="cancelled at any ms, 30 ms latency"),
]
