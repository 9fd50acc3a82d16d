"""C27: network management operations return what the controller reported"""
from . import layouts, zipnet


def _gateway(env, nodes=(1,)):
    gw, fake, transport, _uns = zipnet.gateway(env, nodes)
    del fake.requests[:]
    return gw, fake, transport


def _start(env, gw, op):
    """Start an operation with any arguments; the frame it must send after its sequence number"""
    if op == "addNode":
        tx = env.byte(op + ".tx")
        return gw.addNode(tx), [0x34, 0x01], [0, 7, tx]
    if op == "addNodeStop":
        return gw.addNodeStop(), [0x34, 0x01], [0, 5, 0]
    if op == "removeNode":
        return gw.removeNode(), [0x34, 0x03], [0, 1]
    if op == "removeNodeStop":
        return gw.removeNodeStop(), [0x34, 0x03], [0, 5]
    if op == "addNodeDSKSet":
        accept, length = env.bits(op + ".accept", 1), env.bits(op + ".length", 4)
        key = env.bytes(op + ".dsk", env.choice(op + ".key", [0, 16]))
        return (gw.addNodeDSKSet(accept == 1, length, key), [0x34, 0x14],
                [accept * 128 + length] + [key[i] for i in range(len(key))])
    assert op == "addNodeKeysSet"
    csa, accept, keys = env.bits(op + ".csa", 1), env.bits(op + ".accept", 1), env.byte(op + ".keys")
    return gw.addNodeKeysSet(csa == 1, accept == 1, keys), [0x34, 0x12], [csa * 2 + accept, keys]


STARTS = ["addNode", "addNodeStop", "removeNode", "removeNodeStop", "addNodeDSKSet", "addNodeKeysSet"]


def h_started(env):
    """Operations without an answer: True if and only if the gateway acknowledged within three seconds"""
    gw, fake, transport = _gateway(env)
    fake.acks = False
    op = env.params["op"]
    task, head, rest = _start(env, gw, op)
    t0 = env.now()
    task = env.task(task)
    env.settle()
    env.check(len(fake.requests) == 1, "not exactly one request")
    _t, tr, seq, body = fake.requests[0]
    env.check(tr is transport, "not sent to the gateway")
    env.check(env.eq(body, layouts.to_frame(env, head + [body[2]] + rest)), "the frame does not carry what was asked for")
    kind = env.choice("reply", ["ack", "other", "never"])
    late = env.int("late", 0, 8000)
    env.assume(late != 3000)
    if kind == "ack":
        env.at(t0 + late, lambda: transport.deliver(zipnet.ack(env, seq)))
    elif kind == "other":
        env.at(t0 + late, lambda: transport.deliver(zipnet.ack(env, (seq + 1) % 256)))
    env.run_until(t0 + 10000)
    state, result = zipnet.outcome(task)
    env.check(state == "value", "the operation fails or does not end")
    good = True if kind == "ack" and late < 3000 else False
    env.check(result is good, "started is not what the gateway acknowledged")
    env.check(len(fake.requests) == 1, "another request follows")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("yes" if good else "no")


def _mask(env, index):
    """A node mask with one byte of any value; its bytes and a predicate"""
    mask = env.byte("mask")
    whole = zipnet.mask_of([1, 100, 225])
    whole[index] = mask
    probe = env.int("probe", 1, 232)
    bit = (mask >> ((probe - 1) & 7)) & 1 == 1
    fixed = env.member(probe, [n for n in [1, 100, 225] if (n - 1) // 8 != index])
    return whole, probe, env.or_(env.and_((probe - 1) >> 3 == index, bit), fixed)


def _query(env, gw, op):
    """-> coroutine, request after the sequence number, reply body, check of the result, check of the fallback"""
    inclusion = env.mod("pyzwave.commandclass.NetworkManagementInclusion")
    if op == "removeFailedNode":
        node, status, other = env.byte("node"), env.byte("status"), env.byte("other")
        fail = inclusion.FailedNodeRemoveStatus.Status.REMOVE_FAIL
        return (gw.removeFailedNode(node), [0x34, 0x07], [node], [0x34, 0x08, 0, status, other],
                lambda r: r == status, lambda r: env.and_(r == fail, r == 2), 10000)
    if op == "getFailedNodeList":
        mask, probe, member = _mask(env, env.params["byte"])
        cut = env.choice("length", [28, 29]) if env.params["byte"] < 28 else 29
        if cut == 28:
            member = env.and_(member, probe <= 224)
        return (gw.getFailedNodeList(), [0x52, 0x0B], [], [0x52, 0x0C, 0] + mask[:cut],
                lambda r: (probe in r) == member, lambda r: len(r) == 0, 3000)
    if op == "getNodeList":
        mask, probe, member = _mask(env, env.params["byte"])
        return (gw.getNodeList(), [0x52, 0x01], [], [0x52, 0x02, 0, env.byte("status"), env.byte("controller")] + mask,
                lambda r: (probe in r) == member, lambda r: len(r) == 0, 3000)
    if op == "getMultiChannelEndPoints":
        node, other = env.byte("node"), env.byte("other")
        single, groups, r1, r2 = env.bits("single", 7), env.bits("groups", 7), env.bits("r1", 1), env.bits("r2", 1)
        return (gw.getMultiChannelEndPoints(node), [0x52, 0x05], [node],
                [0x52, 0x06, 0, other, env.byte("r0"), r1 * 128 + single, r2 * 128 + groups],
                lambda r: r == single + groups, lambda r: r == 0, 3000)
    if op == "getMultiChannelCapability":
        node, endpoint, classes = env.byte("node"), env.bits("endpoint", 7), env.bytes("classes", env.choice("n", [1, 3]))
        other, generic, specific, r = env.byte("other"), env.byte("generic"), env.byte("specific"), env.bits("r", 1)
        e2, size = env.bits("endpoint2", 7), env.byte("size")
        return (gw.getMultiChannelCapability(node, endpoint), [0x52, 0x07], [node, endpoint],
                [0x52, 0x08, 0, other, size, r * 128 + e2, generic, specific] + [classes[i] for i in range(len(classes))],
                lambda x: env.and_(x.nodeID == other, x.endPoint == e2, x.genericDeviceClass == generic,
                                   x.specificDeviceClass == specific, env.eq(x.commandClass, classes), x.commandClassLength == size),
                lambda x: x.nodeID is None and len(x.commandClass) == 0 and x.endPoint is None, 3000)
    assert op == "getNodeInfo"
    node, classes = env.byte("node"), env.bytes("classes", env.choice("n", [1, 3]))
    status, age, listening, opt = env.bits("status", 4), env.bits("age", 4), env.bits("listening", 1), env.bits("opt", 1)
    x1, x2 = env.bits("x1", 7), env.bits("x2", 7)
    basic, generic, specific = env.byte("basic"), env.byte("generic"), env.byte("specific")
    return (gw.getNodeInfo(node), [0x52, 0x03], [15, node],
            [0x52, 0x04, 0, status * 16 + age, listening * 128 + x1, opt * 128 + x2, env.byte("r"), basic, generic, specific]
            + [classes[i] for i in range(len(classes))],
            lambda x: env.and_(x.status == status, x.age == age, x.listening == listening, x.optFunc == opt,
                               x.basicDeviceClass == basic, x.genericDeviceClass == generic, x.specificDeviceClass == specific,
                               env.eq(x.commandClass, classes)),
            lambda x: x.status is None and len(x.commandClass) == 0 and x.genericDeviceClass is None, 3000)


QUERIES = ["removeFailedNode", "getFailedNodeList", "getNodeList", "getMultiChannelEndPoints", "getMultiChannelCapability", "getNodeInfo"]


def h_query(env):
    """Operations with an answer: what was reported, or the documented fallback"""
    p = env.params
    gw, fake, transport = _gateway(env, None if p["op"] == "getNodeList" else [1])
    fake.acks = False
    fake.answers.clear()
    coro, head, rest, reply, good, fallback, limit = _query(env, gw, p["op"])
    t0 = env.now()
    task = env.task(coro)
    env.settle()
    env.check(len(fake.requests) == 1, "not exactly one request")
    _t, tr, seq, body = fake.requests[0]
    env.check(tr is transport, "not sent to the gateway")
    env.check(env.eq(body, layouts.to_frame(env, head + [body[2]] + rest)), "the frame does not carry what was asked for")
    reply[2] = body[2]
    kind = env.choice("reply", ["answer", "silent", "unrelated"])
    late = env.int("late", 0, limit + 5000)
    if kind == "silent":
        late = 0
    env.assume(late != limit)
    transport.deliver(zipnet.ack(env, seq))
    wrong = layouts.to_frame(env, [0x25, 0x03, 0]) if kind == "unrelated" else None
    if kind != "silent":
        packet = zipnet.command(env, 200, reply if wrong is None else wrong)
        env.at(t0 + late, lambda: transport.deliver(packet))
    env.run_until(t0 + limit + 6000)
    state, result = zipnet.outcome(task)
    env.check(state == "value", "the operation fails or does not end")
    if kind == "answer" and late < limit:
        env.check(good(result), "the result is not what the controller reported")
        env.reach("reported")
    else:
        env.check(fallback(result), "no answer, and not the documented result")
        env.reach("fallback")
    env.check(len(fake.requests) == 1, "another request follows")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")


def h_list(env):
    """The node list is asked for until it is known, then remembered; the caller's copy is the caller's"""
    gw, fake, transport = _gateway(env, None)
    fake.answers.clear()
    nodes = [1] + [n for n in (2, 33, 232) if env.choice("has%d" % n, [0, 1])]
    answered = [env.choice("answer%d" % k, [0, 1]) for k in range(2)]
    known = False
    for k in range(3):
        fake.answers.clear()
        if k < 2 and answered[k]:
            fake.answers[(0x52, 0x01)] = lambda body: [[0x52, 0x02, body[2], 0, 7] + zipnet.mask_of(nodes)]
        asked = len(fake.requests)
        got = env.run(gw.getNodeList())
        env.check(len(fake.requests) == asked + (0 if known else 1), "asked for what is known, or not asked")
        known = known or (k < 2 and bool(answered[k]))
        env.check(sorted(got) == (nodes if known else []), "not the nodes reported")
        if known:
            env.check(gw.nodeId == 7, "the controller has another id")
            env.reach("known")
        got.clear()
    env.reach("end")


def h_together(env):
    """Different operations at the same time each get their own answer, in whatever order these come"""
    gw, fake, transport = _gateway(env)
    fake.answers.clear()
    fake.acks = False
    t0 = env.now()
    a, b = env.params["ops"]
    first, second = _query(env, gw, a), None
    # inputs have names of their own, so one of the operations is fixed
    if b == "removeNode":
        second = (gw.removeNode(), [0x34, 0x03], [0, 1])
    else:
        node = 9
        second = (gw.getMultiChannelEndPoints(node), [0x52, 0x05], [node])
    one, two = env.task(first[0]), env.task(second[0])
    env.settle()
    env.check(len(fake.requests) == 2, "not one request each")
    seqs = [r[2] for r in fake.requests]
    env.check(seqs[0] != seqs[1], "the same Z/IP sequence number")
    first[3][2] = fake.requests[0][3][2]
    events = [lambda: transport.deliver(zipnet.ack(env, seqs[0])), lambda: transport.deliver(zipnet.ack(env, seqs[1])),
              lambda: transport.deliver(zipnet.command(env, 200, first[3]))]
    if b != "removeNode":
        events.append(lambda: transport.deliver(zipnet.command(
            env, 201, [0x52, 0x06, fake.requests[1][3][2], 9, 0, 3, 4])))
    n = len(events)
    for k in range(n):
        i = env.choice("event%d" % k, list(range(len(events))))
        env.inside(events.pop(i))
    env.run_until(t0 + 50)
    state, result = zipnet.outcome(one)
    env.check(state == "value" and first[4](result), "the result is not what the controller reported")
    state, result = zipnet.outcome(two)
    env.check(state == "value" and result == (True if b == "removeNode" else 7), "the other operation has another result")
    env.reach("end")


def h_many(env):
    """More operations than there are sequence numbers"""
    gw, fake, transport = _gateway(env)
    last = None
    tx = env.byte("tx")
    for k in range(env.params["count"]):
        env.check(env.run(gw.addNode(tx) if k % 2 else gw.removeNodeStop()) is True, "not acknowledged")
        body = fake.requests[-1][3]
        env.check(len(fake.requests) == k + 1, "not exactly one request")
        env.check(body[2] != last, "two operations in a row have the same sequence number")
        last = body[2]
        env.check(env.eq(body, layouts.to_frame(env, [0x34, 1, last, 0, 7, tx] if k % 2 else [0x34, 3, last, 0, 5])),
                  "the frame does not carry what was asked for")
    env.reach("end")


def h_mode(env):
    """The gateway mode is set if and only if it is another"""
    gw, fake, transport = _gateway(env)
    want, have = env.byte("want"), env.byte("have")
    fake.answers.clear()
    answered = env.choice("answered", [0, 1])
    if answered:
        fake.answers[(0x5F, 0x02)] = lambda body: [[0x5F, 0x03, have]]
    result = env.run(gw.setGatewayMode(want))
    sets = [r[3] for r in fake.requests if r[3][1] == 1]
    if not answered:
        env.check(result is False and not sets, "no answer, but something is set")
        env.reach("silent")
        return
    env.check(result is True, "not done")
    if want == have:
        env.check(not sets, "set to what it was")
        env.reach("same")
    else:
        env.check(len(sets) == 1 and env.eq(sets[0], layouts.to_frame(env, [0x5F, 0x01, want])), "not set to what was asked for")
        env.reach("set")


def h_status(env):
    """NODE_ADD_STATUS: all fields, and exactly the command classes the length says, as far as they are there"""
    classes = env.bytes("classes", env.size("n", 0, env.params["classes"]))
    length = env.byte("length")
    seq, status, node, basic, generic, specific = [env.byte(x) for x in ("seq", "status", "node", "basic", "generic", "specific")]
    listening, opt = env.bits("listening", 1), env.bits("opt", 1)
    env.mod("pyzwave.application")
    msg = env.mod("pyzwave.message").Message.decode(layouts.to_frame(env, [
        0x34, 0x02, seq, status, env.byte("r"), node, length, listening * 128 + env.bits("x1", 7), opt * 128 + env.bits("x2", 7),
        basic, generic, specific] + [classes[i] for i in range(len(classes))]))
    env.check(isinstance(msg, env.mod("pyzwave.commandclass.NetworkManagementInclusion").NodeAddStatus), "another message")
    env.check(env.and_(msg.seqNo == seq, msg.status == status, msg.newNodeID == node, msg.nodeInfoLength == length,
                       msg.listening == listening, msg.optFunc == opt, msg.basicDeviceClass == basic,
                       msg.genericDeviceClass == generic, msg.specificDeviceClass == specific), "a field has another value")
    if len(classes) == 0:
        # Nothing follows, so nothing is set
        env.check(not msg.commandClass, "classes that are not there")
        env.reach("none")
        return
    # a length too short for the fields before the classes says nothing about the classes
    env.assume(length >= 7)
    got = msg.commandClass
    want = 0
    for n in range(len(classes)):
        if length - 7 > n:
            want = n + 1
    env.check(len(got) == want, "another number of command classes")
    env.check(env.and_(*[got[i] == classes[i] for i in range(want)]) if want else True, "other command classes")
    env.reach("whole" if want == len(classes) else "part")


CASES = [
    dict(name="nm-start-" + op, prop="C27", fn="h_started", params=dict(op=op), weight=1, reach=["yes", "no"],
         bounds="%s: any arguments; acknowledged after any time, not, or for another packet" % op) for op in STARTS
] + [
    dict(name="nm-%s%s" % (op, "" if byte is None else "-%d" % byte), prop="C27", fn="h_query", params=dict(op=op, byte=byte),
         weight=2, reach=["reported", "fallback"],
         bounds="%s: any arguments and answer, after any time or never%s" % (
             op, "" if byte is None else "; any value of mask byte %d" % byte))
    for op in QUERIES for byte in ([0, 12, 28] if "List" in op else [None])
] + [
    dict(name="nm-list-cached", prop="C27", fn="h_list", params={}, weight=1, reach=["known", "end"],
         bounds="3 calls, the first two answered or not"),
    dict(name="nm-together-remove", prop="C27", fn="h_together", params=dict(ops=("removeFailedNode", "removeNode")), weight=1,
         reach=["end"], bounds="2 operations at once, all orders of acknowledgements and answers"),
    dict(name="nm-together-info", prop="C27", fn="h_together", params=dict(ops=("getNodeInfo", "getMultiChannelEndPoints")), weight=2,
         reach=["end"], bounds="2 operations at once, all orders of acknowledgements and answers"),
    dict(name="nm-many", prop="C27", fn="h_many", params=dict(count=520), weight=2, reach=["end"], bounds="520 operations in a row"),
    dict(name="nm-gateway-mode", prop="C27", fn="h_mode", params={}, weight=1, reach=["silent", "same", "set"],
         bounds="all modes"),
    dict(name="nm-add-status", prop="C27", fn="h_status", params=dict(classes=6), weight=1, reach=["none", "whole", "part"],
         bounds="up to 6 command classes, any length byte"),
    dict(name="nm-add-status-many", prop="C27", fn="h_status", params=dict(classes=40), weight=3, reach=["none", "whole", "part"],
         tiers=["thorough"]),
]
for i in range(29):
    if i not in (0, 12, 28):
        for op in ("getFailedNodeList", "getNodeList"):
            CASES.append(dict(name="nm-%s-%d" % (op, i), prop="C27", fn="h_query", params=dict(op=op, byte=i), weight=2,
                              tiers=["thorough"], reach=["reported", "fallback"]))
