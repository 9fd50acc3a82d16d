"""C38: connecting prepares the gateway"""
from . import layouts, zipnet


def h_connect(env):
    """Any mode, any node list, any of the answers missing"""
    p = env.params
    gw = env.mod("pyzwave.zipgateway").ZIPGateway("fd00::1", b"psk")
    env.loop
    fake = zipnet.Gateway(env)
    fake.install()
    fake.latency = env.int("latency", 0, 2000) if p["late"] else 0
    members = [n for n in p["nodes"] if env.choice("has%d" % n, [1, 0])]
    for n in [1] + members:
        fake.addresses[n] = zipnet.address(env, n)
    for n in members:
        if env.choice("silent%d" % n, [0, 1]):
            fake.silent = set(fake.silent) | {n}
    mode = env.byte("mode")
    answers_mode, answers_list = env.choice("answers.mode", [1, 0]), env.choice("answers.list", [1, 0])
    if answers_mode:
        fake.answers[(0x5F, 0x02)] = lambda body: [[0x5F, 0x03, mode]]
    if answers_list:
        fake.answers[(0x52, 0x01)] = lambda body: [[0x52, 0x02, body[2], 0, 1] + zipnet.mask_of([1] + members)]
    opened = []
    env.net.on_open = lambda transport: opened.append((transport, len(fake.requests)))
    start = env.now()
    _res, exc = env.attempt_run(gw.connect())
    env.check(exc is None, "connecting fails because an answer is missing")
    env.check(env.now() - start <= 3000 * (2 + len(members)) + 10000, "connecting takes longer than the answers")
    env.settle()
    transports = env.net.transports
    env.check(len(transports) == 2, "not one connection and one port")
    env.check(transports[0].remote_addr[0] == "fd00::1" and transports[0].remote_addr[1] == 4123,
              "not connected to the gateway")
    env.check(transports[1].local_addr is not None and transports[1].local_addr[1] == 4123, "not listening on the port")
    env.check(all(tr is transports[0] for _t, tr, _s, _b in fake.requests), "commands are sent elsewhere")
    bodies = fake.bodies()
    want = [[0x5F, 0x02]]
    if answers_mode and mode != 1:
        want.append([0x5F, 0x01, 1])
        env.reach("set")
    want.append([0x5F, 0x08] + [0] * 10 + [0xFF, 0xFF, 0xC0, 0xA8, 0x00, 0x31] + [4123 >> 8, 4123 & 255])
    want.append([0x52, 0x01, None])
    env.check(len(bodies) == len(want), "not exactly the commands that prepare the gateway")
    for got, exp in zip(bodies, want):
        if exp[-1] is None:
            env.check(len(got) == 3 and env.eq(got[0], exp[0]) and env.eq(got[1], exp[1]), "another command")
        else:
            env.check(env.eq(got, layouts.to_frame(env, exp)), "another command, or in another order")
    # it listens before it asks for messages to be sent to it
    env.check(opened[1][1] == len(want) - 2, "the destination is set before anything listens, or the port opened too early")
    asked = [data for _t, tr, data in fake.others]
    ids = [1] + members if answers_list else []
    env.check(len(asked) == len(ids), "not every address is asked for once")
    for n in ids:
        env.check(sum(1 for d in asked if env.eq(d, layouts.to_frame(env, [0x58, 0x04, 0, n]))) == 1,
                  "the address of a node is not asked for")
    if answers_list:
        before = len(fake.requests)
        nodes, exc = env.attempt_run(gw.getNodeList())
        env.check(exc is None and sorted(nodes) == sorted(ids), "another node list")
        env.check(len(fake.requests) == before, "the node list is asked for again")
        env.check(gw.nodeId == 1, "another controller")
        env.reach("list")
    else:
        # it can be asked for later
        fake.answers[(0x52, 0x01)] = lambda body: [[0x52, 0x02, body[2], 0, 1] + zipnet.mask_of([1] + members)]
        nodes, exc = env.attempt_run(gw.getNodeList())
        env.check(exc is None and sorted(nodes) == sorted([1] + members), "the node list cannot be asked for again")
        env.reach("later")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")


def h_refused(env):
    """The gateway refuses, or does not acknowledge, any one of the commands"""
    gw = env.mod("pyzwave.zipgateway").ZIPGateway("fd00::1", b"psk")
    env.loop
    fake = zipnet.Gateway(env)
    fake.install()
    fake.addresses[1] = zipnet.address(env, 1)
    which, how = env.choice("which", [0, 1, 2, 3]), env.choice("how", ["refused", "lost"])
    mode = env.byte("mode")
    env.assume(mode != 1)
    fake.acks = False
    fake.answers[(0x5F, 0x02)] = lambda body: [[0x5F, 0x03, mode]]
    fake.answers[(0x52, 0x01)] = lambda body: [[0x52, 0x02, body[2], 0, 1] + zipnet.mask_of([1])]
    inner = fake.on_send
    count = [0]

    def on_send(transport, data, addr):
        before = len(fake.requests)
        if zipnet.is_zip(data) and data[2] & 0x80:
            if count[0] == which:
                if how == "refused":
                    fake.later(transport, zipnet.packet(env, zipnet.seq_of(data), nackResponse=1))
                count[0] += 1
                fake.requests.append((env.now(), transport, zipnet.seq_of(data), zipnet.inner(data)))
                return
            count[0] += 1
            fake.later(transport, zipnet.ack(env, zipnet.seq_of(data)))
        inner(transport, data, addr)

    env.net.on_send = on_send
    _res, exc = env.attempt_run(gw.connect())
    env.check(exc is None, "connecting fails because of one command")
    env.settle()
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    # the other steps are done anyway
    want = [[0x5F, 0x02]] + ([[0x5F, 0x01]] if which else []) + [[0x5F, 0x08], [0x52, 0x01]]
    env.check([[int(x) for x in b[:2]] for b in fake.bodies()] == want, "the other steps are not done")
    env.check(len(fake.others) == (0 if which == 3 else 1), "the addresses are not asked for")
    env.reach(how)
    # whatever happened, a second attempt works
    fake.acks = True
    env.net.on_send = fake.on_send
    seen = len(fake.requests)
    _res, exc = env.attempt_run(gw.connect())
    env.check(exc is None, "connecting again fails")
    env.check(any(env.eq(b[:2], layouts.to_frame(env, [0x5F, 0x08])) for b in fake.bodies()[seen:]),
              "the gateway is not told where to send to")


CASES = [
    dict(name="connect-any", prop="C38", fn="h_connect", params=dict(nodes=[5, 232], late=0), weight=3, reach=["set", "list", "later"],
         bounds="any mode, every subset of 2 nodes, any of the answers missing"),
    dict(name="connect-late", prop="C38", fn="h_connect", params=dict(nodes=[5], late=1), weight=3, reach=["set", "list", "later"],
         bounds="answers after up to 2 s"),
    dict(name="connect-refused", prop="C38", fn="h_refused", params={}, weight=2, reach=["refused", "lost"],
         bounds="one of the commands refused or not acknowledged"),
    dict(name="connect-deep", prop="C38", fn="h_connect", params=dict(nodes=[2, 8, 9, 232], late=1), tiers=["thorough"]),
]
