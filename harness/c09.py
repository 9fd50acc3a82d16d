"""C09: sequence numbers stay one byte and distinct while outstanding"""
from . import zipnet


def _number(env, frame):
    env.check(len(frame) >= 7, "packet without header")
    return zipnet.seq_of(frame)


def h_packets(env):
    """any counter value, any numbers outstanding"""
    p = env.params
    Basic = env.mod("pyzwave.commandclass.Basic")
    conn, transport = zipnet.connection(env)
    conn._seq = env.byte("counter")     # any number of packets may have been sent before
    log = zipnet.Sent(env, transport)
    held = [env.byte("held%d" % i) for i in range(p["held"])]
    for i in range(len(held)):
        for k in range(i):
            env.assume(env.not_(env.eq(held[i], held[k])))
    for x in held:
        env.task(conn.waitForAck(x, timeout=100000))
        env.settle()
    last, mine = None, []
    for i in range(p["sends"]):
        keep = env.choice("keep%d" % i, [0, 1]) if p.get("keep") else 0
        task = env.task(conn.send(Basic.Set(value=i), timeout=100000 if keep else 3))
        env.settle()
        frames = log.all()
        env.check(len(frames) == i + 1, "a packet is not sent")
        seq = _number(env, frames[i][1])
        env.check(env.and_(0 <= seq, seq <= 255), "sequence number does not fit one byte")
        env.check(env.not_(env.member(seq, held)), "a number still waiting for its acknowledgement is given again")
        if last is not None:
            env.check(env.or_(seq == ((last + 1) & 255), env.member((last + 1) & 255, held)),
                      "sequence numbers do not advance by one")
        last = seq
        if keep:
            held.append(seq)
            env.reach("kept")
        else:
            env.inside(transport.deliver, zipnet.ack(env, seq))
            env.settle()
            env.check(zipnet.outcome(task) == ("value", True), "a send with a fresh number is not acknowledged")
        env.observe("seq%d" % i, seq)


def h_history(env):
    """hundreds of packets from a fresh connection, some of them for sleeping nodes"""
    p = env.params
    Basic = env.mod("pyzwave.commandclass.Basic")
    conn, transport = zipnet.connection(env)
    first = env.size("first", 0, p["spread"])
    delay = env.int("delay", 3600, 100000)
    out, held, seqs, last = [], [first, first + 1, 100], {}, None
    env.net.on_send = lambda _t, data, _a: out.append(data)
    for i in range(p["sends"]):
        task = env.task(conn.send(Basic.Set(value=5)))
        env.settle()
        env.check(len(out) == i + 1, "a packet is not sent")
        seq = _number(env, out[i])
        env.check(env.and_(0 <= seq, seq <= 255), "sequence number does not fit one byte")
        for other, t in seqs.items():
            env.check(env.not_(env.eq(other, seq)), "a number still waiting for its acknowledgement is given again")
        if last is not None:
            env.check(env.or_(seq == ((last + 1) & 255), env.member((last + 1) & 255, list(seqs))),
                      "sequence numbers do not advance by one")
        last = seq
        if i in held:
            env.inside(transport.deliver, zipnet.waiting(env, seq, zipnet.delay_option(delay)))
            env.settle()
            seqs[int(seq)] = task
            env.check(not task.done(), "a send to a sleeping node does not wait")
        else:
            env.inside(transport.deliver, zipnet.ack(env, seq))
            env.settle()
            env.check(zipnet.outcome(task) == ("value", True), "a command cannot be sent")
    for seq, task in seqs.items():
        env.inside(transport.deliver, zipnet.ack(env, seq))
        env.settle()
        env.check(zipnet.outcome(task) == ("value", True), "a send to a sleeping node is not acknowledged")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")


def h_crowd(env):
    """Nearly all numbers are waiting for their acknowledgements, such as in a network of sleeping nodes"""
    p = env.params
    Basic = env.mod("pyzwave.commandclass.Basic")
    conn, transport = zipnet.connection(env)
    conn._seq = env.choice("counter", [0, 7, 130, 255])
    log = zipnet.Sent(env, transport)
    free = env.choice("free", p["free"])
    for x in range(256):
        if x not in free:
            env.task(conn.waitForAck(x, timeout=1000000))
    env.settle()
    left = list(free)
    tasks = []
    for i in range(len(free)):
        tasks.append(env.task(conn.send(Basic.Set(value=i), timeout=1000000)))
        env.settle()
        frames = log.all()
        env.check(len(frames) == i + 1, "a packet is not sent")
        seq = int(_number(env, frames[i][1]))
        env.check(seq in left, "a number still waiting for its acknowledgement is given again")
        left.remove(seq)
    env.inside(transport.deliver, zipnet.ack(env, free[0]))
    env.settle()
    env.check(sum(t.done() for t in tasks) == 1, "not exactly one command is acknowledged")
    env.reach("end")


def _operations(env, gw):
    Incl = env.mod("pyzwave.commandclass.NetworkManagementInclusion")
    Tx = env.mod("pyzwave.adapter").TxOptions
    dsk = env.mod("pyzwave.types").dsk_t
    return [
        ("addNode", (0x34, 0x01), lambda: gw.addNode(Tx.NULL)),
        ("addNodeStop", (0x34, 0x01), lambda: gw.addNodeStop()),
        ("addNodeDSKSet", (0x34, 0x14), lambda: gw.addNodeDSKSet(True, 2, dsk(bytes(16)))),
        ("addNodeKeysSet", (0x34, 0x12), lambda: gw.addNodeKeysSet(True, True, Incl.Keys.UNAUTHENTICATED_SECURITY_CLASS)),
        ("removeNode", (0x34, 0x03), lambda: gw.removeNode()),
        ("removeNodeStop", (0x34, 0x03), lambda: gw.removeNodeStop()),
        ("removeFailedNode", (0x34, 0x07), lambda: gw.removeFailedNode(5)),
        ("getFailedNodeList", (0x52, 0x0B), lambda: gw.getFailedNodeList()),
        ("getNodeInfo", (0x52, 0x03), lambda: gw.getNodeInfo(5)),
        ("getMultiChannelEndPoints", (0x52, 0x05), lambda: gw.getMultiChannelEndPoints(5)),
        ("getMultiChannelCapability", (0x52, 0x07), lambda: gw.getMultiChannelCapability(5, 1)),
    ]


def h_management(env):
    """two network management operations after each other, any counter value"""
    gw, fake, transport, _uns = zipnet.gateway(env)
    gw._nmSeq = env.byte("counter")
    ops = _operations(env, gw)
    before = len(fake.requests)
    numbers = []
    for i in range(env.params["ops"]):
        name, ident, call = ops[env.size("op%d" % i, 0, len(ops) - 1)]
        _res, exc = env.attempt_run(call())
        env.check(exc is None, "a network management command cannot be sent")
        bodies = fake.bodies(transport)[before:]
        env.check(len(bodies) == i + 1, "not one packet per command")
        body = bodies[i]
        env.check(env.and_(body[0] == ident[0], body[1] == ident[1]), "another command than asked for is sent")
        numbers.append(body[2])
        env.check(env.and_(0 <= body[2], body[2] <= 255), "sequence number does not fit one byte")
        if i:
            env.check(body[2] == ((numbers[i - 1] + 1) & 255), "network management numbers do not advance by one")
    env.observe("numbers", numbers)


def h_management_history(env):
    """hundreds of commands from a fresh gateway object; the list of nodes is unknown"""
    gw, fake, transport, _uns = zipnet.gateway(env)
    ops = [o for o in _operations(env, gw) if o[0] in ("addNode", "addNodeStop", "removeNode", "addNodeDSKSet",
                                                       "addNodeKeysSet", "removeNodeStop")]
    off = env.size("offset", 0, len(ops) - 1)
    first = [b for b in fake.bodies(transport) if b[0] == 0x52]
    env.check(len(first) == 1, "connecting does not ask for the node list once")
    last = first[0][2]
    seen = len(fake.requests)
    for i in range(env.params["sends"]):
        res, exc = env.attempt_run(ops[(i + off) % len(ops)][2]())
        env.check(exc is None and res is True, "a network management command cannot be sent")
        env.check(len(fake.requests) == seen + 1, "not one packet per command")
        body = fake.requests[-1][3]
        seen += 1
        env.check(body[2] == ((last + 1) & 255), "network management numbers do not advance by one")
        last = body[2]


CASES = [
    dict(name="packets", prop="C09", fn="h_packets", params=dict(held=2, sends=3), weight=4),
    dict(name="packets-keep", prop="C09", fn="h_packets", params=dict(held=1, sends=3, keep=1), reach=["kept"], weight=4),
    dict(name="packets-deep", prop="C09", fn="h_packets", params=dict(held=3, sends=3, keep=1), tiers=["thorough"]),
    dict(name="packets-crowd", prop="C09", fn="h_crowd", params=dict(free=[[9], [0, 255], [128, 129], [6, 99, 254]]), weight=4, reach=["end"],
         bounds="all but up to 3 of the 256 numbers outstanding"),
    dict(name="history", prop="C09", fn="h_history", params=dict(sends=262, spread=1), weight=8),
    dict(name="history-deep", prop="C09", fn="h_history", params=dict(sends=600, spread=3), tiers=["thorough"]),
    dict(name="management", prop="C09", fn="h_management", params=dict(ops=2), weight=3),
    dict(name="management-history", prop="C09", fn="h_management_history", params=dict(sends=258)),
    dict(name="management-deep", prop="C09", fn="h_management", params=dict(ops=3), tiers=["thorough"]),
]
