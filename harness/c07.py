"""C07: a send ends with exactly its own acknowledgement"""
from . import zipnet

KINDS = ["ack", "nack", "command", "alive"]


def _arrival(env, j, transport, kinds):
    kind = env.choice("kind%d" % j, kinds)
    seq = env.byte("seq%d" % j)
    if kind == "ack":
        extra = {n: env.bits("%s%d" % (n, j), 1) for n in ("zwCmdIncluded",)}
        body = [0x20, 0x02] if j == 0 and env.params.get("rich") else []
        data = zipnet.packet(env, seq, body, src=env.bits("src%d" % j, 7), dst=env.bits("dst%d" % j, 7),
                             ackResponse=1, **extra)
    elif kind == "nack":
        data = zipnet.packet(env, seq, nackResponse=1, nackQueueFull=env.bits("full%d" % j, 1),
                             nackOptionError=env.bits("opt%d" % j, 1))
    elif kind == "command":
        data = zipnet.command(env, seq, [0x25, 0x03, env.byte("val%d" % j)])
    else:
        data = zipnet.layouts.to_frame(env, [0x23, 0x03, env.bits("ka%d" % j, 2) * 64])
    return kind, seq, data


def _check_send(env, res, end, start, timeout, seq, arrivals, tag):
    """the first positive ack with the send's number before the deadline ends it"""
    deadline = start + timeout
    good = [env.and_(q == seq, a > start, a < deadline) for kind, q, a in arrivals if kind == "ack"]
    tie = [env.and_(q == seq, env.or_(a == deadline, a == start)) for kind, q, a in arrivals if kind == "ack"]
    env.check(res is True or res is False, "send does not report true or false")
    if res is True:
        env.reach(tag + "-acked")
        env.check(env.or_(*(good + tie)), "send succeeds without an acknowledgement of its own")
        env.check(env.or_(*[env.and_(q == seq, a == end) for kind, q, a in arrivals if kind == "ack"]),
                  "send ends at another time than an acknowledgement of its own")
        for kind, q, a in arrivals:
            if kind == "ack":
                env.check(env.not_(env.and_(q == seq, a > start, a < end)),
                          "send does not end when its acknowledgement arrives")
    else:
        env.reach(tag + "-failed")
        env.check(env.not_(env.or_(*good)), "send fails although it was acknowledged in time")
        nack = [env.and_(q == seq, a == end) for kind, q, a in arrivals if kind == "nack"]
        env.check(env.or_(end == deadline, *nack), "send gives up at another time than its timeout")


def h_send(env):
    """sends that may overlap, and packets with any number, at any time"""
    p = env.params
    Basic = env.mod("pyzwave.commandclass.Basic")
    conn, transport = zipnet.connection(env)
    first = env.byte("first")
    conn._seq = first          # any number of packets may have been sent before
    log = zipnet.Sent(env, transport)
    sends, ends, now = [], {}, 0

    async def one(i, timeout):
        res = await conn.send(Basic.Set(value=i), sourceEP=i, destEP=i + 1, timeout=timeout)
        ends[i] = (res, env.now())

    plan = []
    for i in range(p["sends"]):
        if i:
            now = now + env.int("gap%d" % i, 0, 5000)
        timeout = p.get("timeout", 3)
        plan.append((now, timeout))
        env.at(now, lambda i=i, timeout=timeout: sends.append(env.loop.create_task(one(i, timeout))))
    arrivals, at = [], 1
    for j in range(p["arrivals"]):
        at = at + env.int("wait%d" % j, 0, 5000)
        kind, seq, data = _arrival(env, j, transport, p["kinds"])
        arrivals.append((kind, seq, at))
        env.at(at, lambda data=data: transport.deliver(data))
    env.run_until(now + 20000 + 5000 * p["arrivals"])
    frames = log.all()
    env.check(len(frames) == p["sends"], "not exactly one packet per send")
    for i in range(p["sends"]):
        start, timeout = plan[i]
        t, data = frames[i]
        seq = zipnet.seq_of(data)
        env.check(t == start, "packet is not sent at once")
        env.check(len(data) == 10, "packet does not carry exactly the command")
        env.check(env.and_(data[2] == 0x80, data[3] & 0x40 != 0, data[5] == i, data[6] == i + 1, data[7] == 0x20,
                           data[8] == 0x01, data[9] == i), "packet does not ask for an acknowledgement of the command")
        env.check(i in ends, "send never ends")
        res, end = ends[i]
        _check_send(env, res, end, start, timeout * 1000, seq, arrivals, "send%d" % i)
        env.observe("send%d" % i, (res, end))
    for i in range(p["sends"]):
        # nothing is left behind: the number may be used again
        res, exc = env.attempt_run(conn.waitForAck(zipnet.seq_of(frames[i][1]), timeout=1))
        env.check(type(exc).__name__ == "TimeoutError", "a finished send still occupies its number")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")


def h_cancel(env):
    """a send is cancelled at any time; others are not affected and nothing is left"""
    p = env.params
    Basic = env.mod("pyzwave.commandclass.Basic")
    conn, transport = zipnet.connection(env)
    log = zipnet.Sent(env, transport)
    ends = {}

    async def one(i):
        res = await conn.send(Basic.Set(value=i))
        ends[i] = (res, env.now())

    tasks = [env.task(one(i)) for i in range(2)]
    env.settle()
    frames = log.all()
    env.check(len(frames) == 2, "not exactly one packet per send")
    seqs = [zipnet.seq_of(d) for _t, d in frames]
    env.check(env.not_(env.eq(seqs[0], seqs[1])), "two outstanding sends share a number")
    victim = env.size("victim", 0, 1)
    when = env.int("when", 0, 4000)
    env.at(when, lambda: tasks[victim].cancel())
    arrivals, at = [], 1
    for j in range(p["arrivals"]):
        at = at + env.int("wait%d" % j, 0, 4000)
        kind, seq, data = _arrival(env, j, transport, p["kinds"])
        arrivals.append((kind, seq, at))
        env.at(at, lambda data=data: transport.deliver(data))
    env.run_until(30000)
    other = 1 - victim
    env.check(other in ends, "send never ends")
    _check_send(env, ends[other][0], ends[other][1], 0, 3000, seqs[other], arrivals, "other")
    if victim in ends:
        _check_send(env, ends[victim][0], ends[victim][1], 0, 3000, seqs[victim], arrivals, "victim")
    else:
        env.reach("cancelled")
        env.check(tasks[victim].cancelled(), "a cancelled send ends with something else")
    for seq in seqs:
        res, exc = env.attempt_run(conn.waitForAck(seq, timeout=1))
        env.check(type(exc).__name__ == "TimeoutError", "a cancelled send still occupies its number")
    env.check(not zipnet.task_errors(env, tasks), "an error escapes into the event loop")


def h_adapter(env):
    """the bookkeeping itself: ids any, in any order"""
    p = env.params
    conn, transport = zipnet.connection(env)
    ids = [env.byte("id%d" % i) for i in range(p["waits"])]
    for i in range(p["waits"]):
        for k in range(i):
            env.assume(env.not_(env.eq(ids[i], ids[k])))
    tasks = []
    for i in ids:
        tasks.append(env.task(conn.waitForAck(i, timeout=3)))
        env.settle()
    ZipPacket = env.mod("pyzwave.commandclass.Zip").ZipPacket
    open_ = [True] * len(ids)
    for j in range(p["acks"]):
        seq = env.byte("ack%d" % j)
        pkt = ZipPacket(ackRequest=False, ackResponse=True, nackResponse=False, nackWaiting=False, seqNo=seq)
        got = env.inside(conn.ackReceived, pkt)
        env.settle()
        want = False
        for i in range(len(ids)):
            if open_[i] and seq == ids[i]:
                open_[i] = False
                want = True
                break
        env.check((got is True) == want and (got is True or got is False),
                  "an acknowledgement is not recognised as awaited or not")
        for i, t in enumerate(tasks):
            env.check(t.done() == (not open_[i]), "an acknowledgement ends another wait than its own")
            if t.done():
                env.reach("ended")
                env.check(zipnet.outcome(t)[0] == "value", "an acknowledged wait fails")
    if any(open_):
        env.reach("open")
        dup = ids[open_.index(True)]
        _res, exc = env.attempt_run(conn.waitForAck(dup, timeout=1))
        env.check(exc is not None and type(exc).__name__ != "TimeoutError", "a number is waited for twice")
        env.run_until(2999)
        for i, t in enumerate(tasks):
            env.check(t.done() == (not open_[i]), "a wait ends before its timeout")
        env.run_until(3001)
        for i, t in enumerate(tasks):
            env.check(t.done(), "a wait does not end at its timeout")
            if open_[i]:
                env.check(type(zipnet.outcome(t)[1]).__name__ == "TimeoutError", "an unanswered wait does not time out")


ASSUME = ["an acknowledgement arriving at the very instant of the send or of its timeout may count either way",
          "packets carrying both a positive and a negative acknowledgement are excluded"]
CASES = [
    dict(name="send-1", prop="C07", fn="h_send", params=dict(sends=1, arrivals=2, kinds=KINDS),
         reach=["send0-acked", "send0-failed"], assumes=ASSUME),
    dict(name="send-1-short", prop="C07", fn="h_send", params=dict(sends=1, arrivals=1, kinds=KINDS, timeout=7, rich=1),
         reach=["send0-acked", "send0-failed"], assumes=ASSUME),
    dict(name="send-2", prop="C07", fn="h_send", params=dict(sends=2, arrivals=2, kinds=["ack", "nack"]),
         reach=["send0-acked", "send1-acked", "send0-failed", "send1-failed"], assumes=ASSUME, weight=5),
    dict(name="send-1-deep", prop="C07", fn="h_send", params=dict(sends=1, arrivals=3, kinds=KINDS),
         tiers=["thorough"], assumes=ASSUME, weight=8),
    dict(name="send-2-deep", prop="C07", fn="h_send", params=dict(sends=2, arrivals=3, kinds=["ack", "nack"]),
         tiers=["thorough"], assumes=ASSUME, weight=9),
    dict(name="send-3", prop="C07", fn="h_send", params=dict(sends=3, arrivals=2, kinds=["ack"]),
         tiers=["thorough"], assumes=ASSUME, weight=9),
    dict(name="cancel", prop="C07", fn="h_cancel", params=dict(arrivals=2, kinds=["ack"]),
         reach=["cancelled", "other-acked", "other-failed"], assumes=ASSUME, weight=4),
    dict(name="cancel-deep", prop="C07", fn="h_cancel", params=dict(arrivals=2, kinds=["ack", "nack", "command"]),
         tiers=["thorough"], assumes=ASSUME, weight=6),
    dict(name="adapter", prop="C07", fn="h_adapter", params=dict(waits=2, acks=2), reach=["ended", "open"]),
    dict(name="adapter-deep", prop="C07", fn="h_adapter", params=dict(waits=3, acks=3), tiers=["thorough"]),
]
