"""C35: a request to a node or endpoint reaches it, and is answered by it alone"""
from . import layouts, zipnet
from .c33 import _address_of


class Listener:
    def __init__(self):
        self.got = []

    async def onMessage(self, _speaker, message):
        self.got.append(message)
        return True


def _world(env):
    infos = {5: [0x60, 0x25], 6: [0x25]}
    app, gw, fake, transport, uns = zipnet.application(env, infos, endpoints={5: [[0x25], [0x25, 0x31]]})
    env.check(sorted(app.nodes) == ["5:0", "5:1", "5:2", "6:0"], "not every endpoint has a node")
    listeners = {}
    for name, node in app.nodes.items():
        listeners[name] = Listener()
        node.addListener(listeners[name])
    return app, gw, fake, transport, uns, listeners


TARGETS = [(5, 0), (5, 1), (5, 2), (6, 0)]


def _deliver(env, name, opened, uns, fake, node, endpoint, body):
    """A command of a node arrives on its connection, or at the unsolicited port"""
    where = env.choice(name + ".via", ["connection", "unsolicited"] if node in opened else ["unsolicited"])
    if where == "connection":
        packet = zipnet.command(env, env.byte(name + ".seq"), body, src=endpoint, dst=env.bits(name + ".dst", 7))
        env.inside(opened[node].deliver, packet)
    else:
        packet = zipnet.command(env, env.byte(name + ".seq"), body, src=endpoint, dst=env.bits(name + ".dst", 7),
                                ackRequest=env.choice(name + ".ack", [0, 1]))
        env.inside(uns.deliver, packet, ("fd00::%x" % node, 4123, 0, 0))
    env.settle()


def _opened(env):
    out = {}
    for t in env.net.transports[2:]:
        for n in (5, 6):
            if _address_of(t) == bytes(zipnet.address(env, n)):
                out[n] = t
    return out


def _request(env, fake, node, endpoint, body):
    """The request is on its way to the right place, unchanged"""
    mine = [r for r in fake.requests if len(r[3]) and r[3][0] == 0x25]
    env.check(len(mine) == 1, "not exactly one packet")
    _t, tr, seq, got = mine[0]
    env.check(_address_of(tr) == bytes(zipnet.address(env, node)), "sent to another address")
    env.check(env.eq(got, layouts.to_frame(env, body)), "the command is changed on its way")
    last = [d for _t, t, d, _a in env.net.log if t is tr and zipnet.is_zip(d) and d[2] == 0x80][-1]
    env.check(env.and_(last[4] == seq, last[5] == 0, last[6] == endpoint), "not for this endpoint, or not from the controller itself")
    return tr, seq


def h_one(env):
    """One request, and reports from everywhere"""
    p = env.params
    app, gw, fake, transport, uns, listeners = _world(env)
    Switch = env.mod("pyzwave.commandclass.SwitchBinary")
    node, endpoint = env.choice("target", TARGETS)
    name = "%d:%d" % (node, endpoint)
    fake.requests.clear()
    task = env.task(app.nodes[name].sendAndReceive(Switch.Get(), Switch.Report))
    env.run_until(env.now() + 10)
    _request(env, fake, node, endpoint, [0x25, 0x02])
    answer = None
    want = {n: [] for n in listeners}
    for k in range(p["reports"]):
        who = env.choice("from%d" % k, p.get("senders", [5, 6]))
        ep = env.bits("ep%d" % k, 7)
        value = env.byte("value%d" % k)
        _deliver(env, "r%d" % k, _opened(env), uns, fake, who, ep, [0x25, 0x03, value])
        if answer is None and who == node and ep == endpoint:
            answer = value
            env.reach("answered")
            continue
        for n, e in TARGETS:
            if who == n and ep == e:
                want["%d:%d" % (n, e)].append(value)
                env.reach("other")
    env.run_until(env.now() + 5000)
    state, result = zipnet.outcome(task)
    if answer is None:
        import asyncio
        env.check(state == "error" and isinstance(result, asyncio.TimeoutError), "answered by a report of someone else")
        env.reach("unanswered")
    else:
        env.check(state == "value", "the report of the endpoint does not answer the request")
        env.check(result.value == answer, "answered by another report")
    for n, listener in listeners.items():
        env.check(len(listener.got) == len(want[n]), "a report is not offered to its endpoint alone, once")
        for got, value in zip(listener.got, want[n]):
            env.check(got.value == value, "another report is offered")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_together(env):
    """Requests to several endpoints at once; each is answered by its own report"""
    p = env.params
    app, gw, fake, transport, uns, listeners = _world(env)
    Switch = env.mod("pyzwave.commandclass.SwitchBinary")
    fake.requests.clear()
    pairs = env.choice("pair", p["pairs"])
    tasks = []
    for node, endpoint in pairs:
        tasks.append(env.task(app.nodes["%d:%d" % (node, endpoint)].sendAndReceive(Switch.Get(), Switch.Report)))
    env.run_until(env.now() + 10)
    sent = [d for _t, t, d, _a in env.net.log if zipnet.is_zip(d) and d[2] == 0x80 and len(d) == 9 and d[7] == 0x25]
    env.check(sorted(int(d[6]) for d in sent) == sorted(e for _n, e in pairs), "not one packet for each endpoint")
    left = list(range(len(pairs)))
    values = {}
    for k in range(len(pairs)):
        i = left.pop(env.choice("order%d" % k, list(range(len(left)))))
        values[i] = env.byte("value%d" % k)
        _deliver(env, "r%d" % k, _opened(env), uns, fake, pairs[i][0], pairs[i][1], [0x25, 0x03, values[i]])
    env.run_until(env.now() + 10)
    for i, task in enumerate(tasks):
        state, result = zipnet.outcome(task)
        env.check(state == "value" and result.value == values[i], "not answered by its own report")
    for listener in listeners.values():
        env.check(not listener.got, "an answer is offered once more")
    env.reach("end")


def h_send(env):
    """A command with content is sent as it is"""
    app, gw, fake, transport, uns, listeners = _world(env)
    node, endpoint = env.choice("target", TARGETS)
    fake.requests.clear()
    fake.acks = env.choice("acknowledged", [True, False])
    value = env.byte("value")
    Switch = env.mod("pyzwave.commandclass.SwitchBinary")
    task = env.task(app.nodes["%d:%d" % (node, endpoint)].send(Switch.Set(value=value)))
    env.run_until(env.now() + 5000)
    _request(env, fake, node, endpoint, [0x25, 0x01, value])
    env.check(zipnet.outcome(task) == ("value", fake.acks), "not what the node acknowledged")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


CASES = [
    dict(name="endpoint-one", prop="C35", fn="h_one", params=dict(reports=1), weight=2, reach=["answered", "other", "unanswered", "end"],
         bounds="4 targets, a report from either node with any endpoint, on its connection or unsolicited"),
    dict(name="endpoint-two", prop="C35", fn="h_one", params=dict(reports=2, senders=[5]), weight=5,
         reach=["answered", "other", "unanswered", "end"],
         bounds="4 targets, 2 reports from any endpoints of a node, on its connection or unsolicited"),
    dict(name="endpoint-two-nodes", prop="C35", fn="h_one", params=dict(reports=2), weight=6,
         reach=["answered", "other", "unanswered", "end"],
         bounds="4 targets, 2 reports from either node with any endpoint, on its connection or unsolicited"),
    dict(name="endpoint-three", prop="C35", fn="h_one", params=dict(reports=3), weight=9, tiers=["thorough"]),
    dict(name="endpoint-together", prop="C35", fn="h_together", params=dict(pairs=[
        [(5, 1), (5, 2)], [(5, 0), (5, 1)], [(5, 2), (6, 0)]]), weight=2, reach=["end"],
        bounds="2 requests at once to different endpoints, reports in any order"),
    dict(name="endpoint-together-3", prop="C35", fn="h_together", params=dict(pairs=[[(5, 0), (5, 1), (5, 2)]]), weight=3, reach=["end"],
         bounds="3 requests at once to the endpoints of a node, reports in any order"),
    dict(name="endpoint-send", prop="C35", fn="h_send", params={}, weight=1, reach=["end"], bounds="4 targets, any value"),
]
