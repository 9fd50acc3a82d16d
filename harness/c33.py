"""C33: each node has one connection of its own"""
from . import zipnet


def _world(env, nodes):
    gw, fake, transport, uns = zipnet.gateway(env, [1] + nodes)
    return gw, fake, transport, uns


class Heard:
    def __init__(self):
        self.got = []

    def messageReceived(self, _speaker, nodeId, endPoint, message, _flags):
        self.got.append((nodeId, endPoint, message))


def _address_of(transport):
    import ipaddress
    return ipaddress.IPv6Address(str(transport.remote_addr[0])).packed


def _opened(env, node):
    """The connections opened to this node's address"""
    raw = bytes(zipnet.address(env, node))
    return [t for t in env.net.transports[2:] if _address_of(t) == raw]


def h_sends(env):
    """Sends to nodes at any times, addresses and acknowledgements that take time or never come"""
    p = env.params
    gw, fake, transport, uns = _world(env, p["nodes"])
    Basic = env.mod("pyzwave.commandclass.Basic")
    fake.latency = p["latency"]
    now = env.now()
    answers = {n: env.int("address%d" % n, 0, 4000) if p.get("late") else None for n in p["nodes"]}
    if p.get("late"):
        # the address comes after a time of its own; too late is as good as never
        plain = fake.on_send

        def on_send(tr, data, addr):
            if data[0] == 0x58 and data[1] == 0x04:
                node = int(data[3])
                fake.others.append((env.now(), tr, data))
                ip = zipnet.address(env, node)
                from . import layouts
                frame = layouts.to_frame(env, [0x58, 0x01, 0, node] + ip + [0, 0, 0, 1])
                env.at(env.now() + answers[node], lambda: tr.deliver(frame))
                return
            plain(tr, data, addr)

        env.net.on_send = on_send
    tasks, last = [], 0
    for k in range(p["sends"]):
        at = env.int("at%d" % k, 1, p["until"])
        env.assume(last <= at if p.get("ties") else last < at)
        last = at
        node = env.choice("node%d" % k, p["nodes"]) if p.get("any") else p["nodes"][0]
        entry = dict(at=at, node=node, value=k + 1)
        tasks.append(entry)

        def start(entry=entry):
            entry["task"] = env.loop.create_task(gw.sendToNode(entry["node"], Basic.Set(value=entry["value"])))
            env.own.append(entry["task"])

        env.at(now + at, start)
    env.run_until(now + p["until"] + 60000 if not p.get("late") else now + p["until"] + 20000)
    for node in p["nodes"]:
        mine = [e for e in tasks if e["node"] == node]
        opened = _opened(env, node)
        done = [e for e in mine if zipnet.outcome(e["task"]) == ("value", True)]
        env.check(len(opened) <= 1, "more than one connection to a node")
        for e in mine:
            kind, value = zipnet.outcome(e["task"])
            env.check(kind != "pending", "a send does not end")
            if kind == "error":
                import asyncio
                env.check(isinstance(value, asyncio.TimeoutError), "fails with another error")
                env.check(p.get("late") or node in fake.silent, "a send fails though the address is known")
                env.reach("failed")
            else:
                env.check(value is True, "a send is not successful though it was acknowledged")
        sent = [b for _t, tr, _s, b in fake.requests if opened and tr is opened[0]]
        env.check([int(b[2]) for b in sent] == [e["value"] for e in mine if e in done], "not every message is sent once to its node, in order"
                  if not p.get("late") else "not every successful send is sent to its node")
        if done:
            env.reach("sent")
    for _t, tr, _s, body in fake.requests:
        if len(body) >= 2 and body[0] == 0x20:
            entry = [e for e in tasks if e["value"] == body[2]][0]
            env.check(_address_of(tr) == bytes(zipnet.address(env, entry["node"])), "sent to another node's address")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_incoming(env):
    """What arrives on a node's connection is attributed to that node and no other"""
    gw, fake, transport, uns = _world(env, [2, 3])
    heard = Heard()
    gw.addListener(heard)
    order = env.choice("order", [[2, 3], [3, 2], [2]])
    conns = {}
    for n in order:
        conns[n] = env.run(gw.connectToNode(n))
        env.check(conns[n] is env.run(gw.connectToNode(n)), "another connection for the same node")
    env.check(len(env.net.transports) == 2 + len(order), "more than one connection to a node")
    for k in range(env.params["packets"]):
        node = env.choice("from%d" % k, order)
        ep, value = env.bits("ep%d" % k, 7), env.byte("value%d" % k)
        body = [0x25, 0x03, value]
        heard.got.clear()
        env.inside(_opened(env, node)[0].deliver, zipnet.command(env, env.byte("seq%d" % k), body, src=ep, dst=env.bits("dst%d" % k, 7)))
        env.settle()
        env.check(len(heard.got) == 1, "not delivered exactly once")
        who, where, message = heard.got[0]
        env.check(who == node and env.eq(where, ep), "attributed to another node or endpoint")
        env.check(env.eq(message.value, value), "another message")
    # what arrives on the gateway's own connection is nobody's
    heard.got.clear()
    env.inside(transport.deliver, zipnet.command(env, 1, [0x25, 0x03, 1], src=env.bits("gw.ep", 7)))
    env.settle()
    env.check(not heard.got, "a message of the gateway is attributed to a node")
    env.reach("end")


def h_retry(env):
    """The address cannot be found or the connection cannot be opened; a later send tries again"""
    p = env.params
    gw, fake, transport, uns = _world(env, [2, 3])
    Basic = env.mod("pyzwave.commandclass.Basic")
    import asyncio
    for k in range(p["tries"]):
        how = env.choice("how%d" % k, ["silent", "unreachable", "fine"])
        fake.silent = {2} if how == "silent" else set()
        env.net.fail_open = (lambda tr: OSError("no route")) if how == "unreachable" else None
        have = len(_opened(env, 2)) > 0
        other = env.task(gw.sendToNode(3, Basic.Set(value=9))) if how != "unreachable" and env.choice("other%d" % k, [0, 1]) else None
        result, exc = env.attempt_run(gw.sendToNode(2, Basic.Set(value=1)))
        env.settle()
        if have or how == "fine":
            env.check(exc is None and result is True, "a later send does not try again")
            env.reach("sent")
        else:
            env.check(isinstance(exc, asyncio.TimeoutError if how == "silent" else OSError), "a send without connection does not fail")
            env.reach("failed")
        if other is not None:
            env.run_until(env.now() + 100)
            env.check(zipnet.outcome(other) == ("value", True), "another node's send is affected")
    env.net.fail_open = None
    fake.silent = set()
    env.check(env.run(gw.sendToNode(2, Basic.Set(value=1))) is True, "a later send does not try again")
    env.check(len([t for t in _opened(env, 2) if t in env.net.transports]) == 1, "more than one connection to a node")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_removed(env):
    """A node is removed; the next one with its id is another one, with an address of its own"""
    p = env.params
    gw, fake, transport, uns = _world(env, [2, 3])
    Basic = env.mod("pyzwave.commandclass.Basic")
    heard = Heard()
    gw.addListener(heard)

    def report(nodes):
        env.inside(uns.deliver, zipnet.command(env, 9, [0x52, 0x02, 1, 0, 1] + zipnet.mask_of(nodes)), ("fd00::1", 4123, 0, 0))

    env.check(env.run(gw.sendToNode(3, Basic.Set(value=3))) is True, "a send is not successful though it was acknowledged")
    where = {2: 2, 3: 3}
    for k in range(p["times"]):
        env.check(env.run(gw.sendToNode(2, Basic.Set(value=1))) is True, "a send is not successful though it was acknowledged")
        pending = None
        if env.choice("pending%d" % k, [0, 1]):
            # the acknowledgement of this one never comes
            fake.acks = False
            pending = env.task(gw.sendToNode(2, Basic.Set(value=2)))
            env.settle()
        report([1, 3])
        env.run_until(env.now() + env.int("gone%d" % k, 1, 40000))
        fake.acks = True
        where[2] = env.choice("address%d" % k, [2, 40 + k])
        fake.addresses[2] = zipnet.address(env, where[2])
        report([1, 2, 3])
        env.run_until(env.now() + 5000)
        env.check(pending is None or zipnet.outcome(pending) == ("value", False), "a message for a removed node is taken for delivered")
        value = env.byte("value%d" % k)
        env.check(env.run(gw.sendToNode(2, Basic.Set(value=value))) is True, "a send is not successful though it was acknowledged")
        _t, tr, _s, body = fake.requests[-1]
        env.check(env.and_(env.eq(body[2], value), len(body) == 3), "another message")
        env.check(_address_of(tr) == bytes(zipnet.address(env, where[2])), "a message for a node goes to the address of one that was removed")
        heard.got.clear()
        env.inside(tr.deliver, zipnet.command(env, 5, [0x25, 0x03, value]))
        env.settle()
        env.check([g[0] for g in heard.got] == [2], "what arrives on a node's connection is not attributed to it")
        # the other node's connection is the one it was
        env.check(env.run(gw.sendToNode(3, Basic.Set(value=7))) is True, "another node's send is affected")
        env.check(len(_opened(env, 3)) == 1, "more than one connection to a node")
        env.reach("same" if where[2] == 2 else "other")
    # nothing is sent to where no node is any more
    used = []
    env.net.on_send = lambda tr, data, addr: used.append((tr, zipnet.is_keepalive(data)))
    env.run_until(env.now() + 60000)
    for tr, keepalive in used:
        env.check(_address_of(tr) in [bytes(zipnet.address(env, n)) for n in (1, where[2], 3)], "a removed node is kept awake")
        if keepalive:
            env.reach("keepalive")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


CASES = [
    dict(name="connections-together", prop="C33", fn="h_sends", weight=4, reach=["sent", "end"],
         params=dict(nodes=[2], sends=3, until=1500, latency=400, ties=1), bounds="3 sends to a node at any times, also the same"),
    dict(name="connections-nodes", prop="C33", fn="h_sends", weight=4, reach=["sent", "end"],
         params=dict(nodes=[2, 3], sends=3, until=1500, latency=400, any=1), bounds="3 sends to any of 2 nodes at any times"),
    dict(name="connections-late", prop="C33", fn="h_sends", weight=4, reach=["sent", "failed", "end"],
         params=dict(nodes=[2], sends=2, until=4000, latency=0, late=1), bounds="2 sends; the address is answered at any time or too late"),
    dict(name="connections-late-nodes", prop="C33", fn="h_sends", weight=6, tiers=["thorough"],
         params=dict(nodes=[2, 3], sends=3, until=4000, latency=0, late=1, any=1)),
    dict(name="connections-incoming", prop="C33", fn="h_incoming", weight=2, reach=["end"], params=dict(packets=2),
         bounds="2 messages on the connections of 2 nodes, any endpoint and sequence number"),
    dict(name="connections-retry", prop="C33", fn="h_retry", weight=2, reach=["sent", "failed", "end"], params=dict(tries=2),
         bounds="2 sends without address, without route, or fine"),
    dict(name="connections-removed", prop="C33", fn="h_removed", weight=2, reach=["same", "other", "keepalive", "end"], params=dict(times=1),
         bounds="a node removed, included again after any time with the same address or another one"),
    dict(name="connections-removed-2", prop="C33", fn="h_removed", weight=4, tiers=["thorough"], params=dict(times=2)),
    dict(name="connections-retry-3", prop="C33", fn="h_retry", weight=4, tiers=["thorough"], params=dict(tries=4)),
]
