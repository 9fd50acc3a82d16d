"""C43: what arrives is handled in the order in which it arrived

Several messages of nodes and endpoints arrive right behind each other, on the
connections of the nodes and at the unsolicited port, supervised or not.
"""
from . import zipnet
from .c33 import _address_of

INFOS = {5: [0x70, 0x25], 6: [0x70, 0x25]}
ENDPOINTS = {5: [[0x70, 0x25]]}
INFOS[5].append(0x60)


class Heard:
    def __init__(self, env, log, name):
        self.env, self.log, self.name = env, log, name

    async def onMessage(self, _node, message):
        self.log.append((self.name, message))
        return self.env.params.get("taken", True)

    def nodeUpdated(self, node):
        self.log.append((self.name, None))


class ClassListener:
    """Listens to one command class"""

    def __init__(self, log, name):
        self.log, self.name = log, name

    async def onReport(self, _cls, message, _flags):
        self.log.append((self.name + "!", message))
        return False


def h_order(env):
    p = env.params
    app, gw, fake, transport, uns = zipnet.application(env, INFOS, endpoints=ENDPOINTS)
    Basic = env.mod("pyzwave.commandclass.Basic")
    conns = {}
    for n in (5, 6):
        env.run(app.nodes["%d:0" % n].send(Basic.Set(value=0)))
        conns[n] = env.net.transports[-1]
        env.check(_address_of(conns[n])[15] == n, "no connection to the node")
    env.run_until(env.now() + 10)
    log = []
    for name, node in app.nodes.items():
        node.addListener(Heard(env, log, name))
        if p.get("class"):
            node.supported[0x25].addListener(ClassListener(log, name))
    fake.requests.clear()
    sent, sessions, params = [], [], {}
    for k in range(p["steps"]):
        name = env.choice("who%d" % k, p["who"])
        node, ep = [int(x) for x in name.split(":")]
        what = env.choice("what%d" % k, p["what"])
        value = env.byte("value%d" % k)
        if what == "switch":
            body = [0x25, 0x03, value]
        elif what == "basic":
            body = [0x20, 0x03, value]
        else:
            body = [0x70, 0x06, 3, 1, value]
            params[name] = value
        supervised = env.choice("supervised%d" % k, p["supervised"])
        frame = list(body)
        if supervised:
            session = env.bits("session%d" % k, 6)
            sessions.append((name, session))
            frame = [0x6C, 0x01, session, len(body)] + body
        packet = zipnet.command(env, k, frame, src=ep)
        if env.choice("port%d" % k, p["ports"]) == "unsolicited":
            env.inside(uns.deliver, packet, ("fd00::%x" % node, 4123, 0, 0))
        else:
            env.inside(conns[node].deliver, packet)
        if env.choice("apart%d" % k, p["apart"]):
            env.settle()
        sent.append((name, what, value))
    env.run_until(env.now() + 100)
    for name in app.nodes:
        own = [(w, v) for n, w, v in sent if n == name]
        heard = [m for n, m in log if n == name and m is not None]
        # configuration reports are taken by their command class
        want = [v for w, v in own if w != "configuration"]
        env.check(len(heard) == len(want), "a message is lost or heard twice")
        if not p.get("class"):
            for m, v in zip(heard, want):
                env.check(m.value == v, "messages are heard in another order")
        else:
            # those of one kind
            for kind, cid in (("switch", 0x25), ("basic", 0x20)):
                for m, v in zip([m for m in heard if m.cmdClass() == cid], [v for w, v in own if w == kind]):
                    env.check(m.value == v, "messages are heard in another order")
            for m, v in zip([m for n, m in log if n == name + "!"], [v for w, v in own if w == "switch"]):
                env.check(m.value == v, "messages are heard in another order by the command class")
        stored = app.nodes[name].supported[0x70].parameters
        if name in params:
            env.check(stored[3].value == params[name], "the last report is not what counts")
            env.reach("stored")
        else:
            env.check(3 not in stored, "a value nobody reported")
    # the listeners of all nodes together
    if len(p["what"]) == 1 and not p.get("class"):
        heard = [n for n, m in log if m is not None or p["what"] == ["configuration"]]
        env.check(p["what"] == ["configuration"] or heard == [n for n, _w, _v in sent], "messages of several nodes are heard in another order")
    reports = []
    for _t, tr, _s, body in fake.requests:
        if body[0] == 0x6C:
            reports.append((_address_of(tr)[15], body))
    env.check(len(reports) == len(sessions), "not one report per supervised command")
    for n in (5, 6):
        mine = [b for a, b in reports if a == n]
        want = [s for name, s in sessions if name.startswith("%d:" % n)]
        env.check(len(mine) == len(want), "a report goes to another node")
        if len(p["what"]) == 1:
            for b, s in zip(mine, want):
                env.check(b[2] % 64 == s, "the outcomes are told in another order")
        else:
            # some take longer than others
            for s in want:
                env.check(env.or_(*[b[2] % 64 == s for b in mine]), "an outcome is not told")
    if sessions:
        env.reach("supervised")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_requests(env):
    """Reports answer the requests waiting for them in the order in which they were made"""
    p = env.params
    app, gw, fake, transport, uns = zipnet.application(env, INFOS, endpoints=ENDPOINTS)
    Switch = env.mod("pyzwave.commandclass.SwitchBinary")
    node = app.nodes["5:0"]
    log = []
    node.addListener(Heard(env, log, "5:0"))
    count = env.size("requests", 1, p["requests"])
    tasks = []
    for k in range(count):
        tasks.append(env.task(node.sendAndReceive(Switch.Get(), Switch.Report)))
        if env.choice("apart%d" % k, [0, 1]):
            env.run_until(env.now() + 5)
    env.run_until(env.now() + 50)
    values = []
    for k in range(env.size("reports", 0, p["requests"] + 1)):
        value = env.byte("value%d" % k)
        packet = zipnet.command(env, k, [0x25, 0x03, value])
        if env.choice("port%d" % k, ["unsolicited", "connection"]) == "unsolicited":
            env.inside(uns.deliver, packet, ("fd00::5", 4123, 0, 0))
        else:
            env.inside(env.net.transports[-1].deliver, packet)
        values.append(value)
    env.settle()
    for k, task in enumerate(tasks):
        how, value = zipnet.outcome(task)
        if k < len(values):
            env.check(how == "value", "a request is not answered")
            env.check(value.value == values[k], "a request gets the answer of another one")
        else:
            env.check(how == "pending", "a request is answered by nothing")
    heard = [m for _n, m in log if m is not None]
    env.check([m.value for m in heard] == values[count:], "reports nobody waits for are heard in another order")
    env.run_until(env.now() + 5000)
    for k, task in enumerate(tasks[len(values):]):
        how, value = zipnet.outcome(task)
        env.check(how == "error" and type(value).__name__ == "TimeoutError", "not a timeout")
        env.reach("timeout")
    if len(values) > count:
        env.reach("more")
    env.reach("end")


WHO = ["5:0", "5:1", "6:0"]
CASES = [
    dict(name="order-switch", prop="C43", fn="h_order", reach=["end"], weight=4, bounds="3 messages of any values",
         params=dict(steps=3, who=WHO, what=["switch"], supervised=[0], ports=["unsolicited", "connection"], apart=[0, 1])),
    dict(name="order-mixed", prop="C43", fn="h_order", reach=["end", "stored"], weight=4, bounds="3 messages of any values",
         params=dict(steps=3, who=["5:0", "5:1"], what=["switch", "basic", "configuration"], supervised=[0], ports=["unsolicited"], apart=[0])),
    dict(name="order-supervised", prop="C43", fn="h_order", reach=["end", "supervised"], weight=6, bounds="3 messages of any values",
         params=dict(steps=3, who=["5:0", "6:0"], what=["switch", "configuration"], supervised=[0, 1], ports=["unsolicited"], apart=[0])),
    dict(name="order-supervised-ports", prop="C43", fn="h_order", reach=["end", "supervised"], weight=6, bounds="2 messages of any values",
         params=dict(steps=2, who=WHO, what=["switch"], supervised=[1], ports=["unsolicited", "connection"], apart=[0, 1])),
    dict(name="order-class", prop="C43", fn="h_order", reach=["end"], weight=4, bounds="3 messages of any values, listeners of the command class",
         params={"steps": 3, "who": ["5:0", "6:0"], "what": ["switch", "basic"], "supervised": [0], "ports": ["unsolicited"], "apart": [0], "class": 1}),
    dict(name="order-not-taken", prop="C43", fn="h_order", reach=["end", "stored"], weight=4, bounds="3 messages of any values",
         params=dict(steps=3, who=["5:0"], what=["switch", "configuration"], supervised=[0, 1], ports=["unsolicited"], apart=[0, 1], taken=False)),
    dict(name="order-deep", prop="C43", fn="h_order", reach=["end", "stored", "supervised"], weight=9, tiers=["thorough"],
         params=dict(steps=4, who=["5:0", "5:1"], what=["switch", "configuration"], supervised=[0, 1], ports=["unsolicited", "connection"], apart=[0])),
    dict(name="order-requests", prop="C43", fn="h_requests", reach=["end", "more", "timeout"], weight=4, params=dict(requests=3), bounds="3 requests, 4 reports"),
]
