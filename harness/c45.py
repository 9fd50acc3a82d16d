"""C45: commands are sent once each, in the order in which they were given

Several commands to nodes and endpoints are given at any times, also while the
connection to the node is still being opened.
"""
from . import zipnet
from .c33 import _address_of

INFOS = {5: [0x70, 0x25, 0x60], 6: [0x70, 0x25]}
ENDPOINTS = {5: [[0x70, 0x25]]}


def h_order(env):
    p = env.params
    app, gw, fake, transport, uns = zipnet.application(env, INFOS, endpoints=ENDPOINTS)
    Basic = env.mod("pyzwave.commandclass.Basic")
    Indicator = env.mod("pyzwave.commandclass.SwitchBinary")
    fake.latency = p["latency"]
    if env.choice("open", [0, 1]):
        env.run(app.nodes["5:0"].send(Basic.Set(value=0)))
        env.run(app.nodes["6:0"].send(Basic.Set(value=0)))
        env.run_until(env.now() + 1000)
    if env.choice("acks", p["acks"]) == 0:
        fake.acks = False
    fake.requests.clear()
    start = env.now()
    given, tasks = [], []
    when = 0
    for k in range(p["steps"]):
        name = env.choice("who%d" % k, p["who"])
        node, ep = [int(x) for x in name.split(":")]
        value = env.byte("value%d" % k)
        what = env.choice("what%d" % k, p["what"])
        if k and env.choice("apart%d" % k, [0, 1]):
            later = env.int("time%d" % k, 0, p["until"])
            env.assume(later > when)
            # at the instant at which the connection is there the order is open
            env.assume(later != p["latency"])
            when = later
            env.run_until(start + when)
        if what == "send":
            tasks.append(env.task(app.nodes[name].send(Basic.Set(value=value))))
            body = [0x20, 0x01, value]
        elif what == "configuration":
            tasks.append(env.task(app.nodes[name].supported[0x70].set(3, 1, value)))
            body = [0x70, 0x04, 3, 1, value]
        elif what == "gateway":
            ep = 0
            tasks.append(env.task(gw.sendToNode(node, Basic.Set(value=value))))
            body = [0x20, 0x01, value]
        else:
            tasks.append(env.task(app.nodes[name].sendAndReceive(Indicator.Get(), Indicator.Report)))
            body = [0x25, 0x02]
        given.append((node, ep, body))
    env.run_until(env.now() + 30000)
    for node in (5, 6):
        want = [(e, b) for n, e, b in given if n == node]
        got = [(t, tr, b) for t, tr, _s, b in fake.requests if _address_of(tr)[15] == node]
        env.check(len(got) == len(want), "a command is not sent once")
        for (_t, tr, b), (e, w) in zip(got, want):
            env.check(list(b) == w, "commands are sent in another order")
        env.check(len({id(tr) for _t, tr, _b in got}) <= 1, "more than one connection")
    sent = [data for transport, data in _packets(env) if _address_of(transport)[15] in (5, 6)][-len(given):] if given else []
    env.check(sorted(int(d[6]) for d in sent) == sorted(e for _n, e, _b in given), "other endpoints")
    for k, task in enumerate(tasks):
        how, value = zipnet.outcome(task)
        if given[k][2] == [0x25, 0x02]:
            env.check(how == "error", "a request is answered by nothing")
        else:
            env.check(how == "value" and value is fake.acks, "another outcome")
    env.reach("end")


def _packets(env):
    return [(tr, data) for tr, data in [(x[1], x[2]) for x in env.net.log] if zipnet.is_zip(data) and data[2] & 0x80]


CASES = [
    dict(name="commands-order", prop="C45", fn="h_order", reach=["end"], weight=4, bounds="3 commands to two nodes and an endpoint, at any ms",
         params=dict(steps=3, who=["5:0", "5:1", "6:0"], what=["send"], latency=100, until=400, acks=[1])),
    dict(name="commands-kinds", prop="C45", fn="h_order", reach=["end"], weight=4, bounds="3 commands to a node, at any ms",
         params=dict(steps=3, who=["5:0"], what=["send", "configuration", "gateway", "request"], latency=100, until=400, acks=[1])),
    dict(name="commands-unacked", prop="C45", fn="h_order", reach=["end"], weight=4, bounds="2 commands, not acknowledged",
         params=dict(steps=2, who=["5:0", "5:1"], what=["send", "configuration"], latency=100, until=4000, acks=[0])),
    dict(name="commands-deep", prop="C45", fn="h_order", reach=["end"], weight=8, tiers=["thorough"],
         params=dict(steps=4, who=["5:0", "5:1", "6:0"], what=["send", "gateway"], latency=100, until=400, acks=[0, 1])),
]
