"""C17: unsolicited messages are attributed to the node that sent them"""
from . import layouts, zipnet


def text_of(env, raw):
    """An address as the socket gives it"""
    frame = layouts.to_frame(env, raw)
    if env.symbolic:
        from symex.shims import ipaddress
    else:
        import ipaddress
    return ipaddress.IPv6Address(frame).compressed


class Heard:
    def __init__(self):
        self.got = []

    def messageReceived(self, speaker, nodeId, endPoint, message, flags):
        self.got.append((speaker, nodeId, endPoint, message, flags))

    async def nodeListUpdated(self, speaker):
        pass


class Late:
    """A listener that needs time; it must not change anything"""

    async def messageReceived(self, *_args):
        import asyncio
        await asyncio.sleep(1)


COMMANDS = {
    "switch": lambda env, n: [0x25, 0x03, env.byte(n + ".value")],
    "unknown": lambda env, n: [0xFE, 0x42, env.byte(n + ".value")],
    "config": lambda env, n: [0x70, 0x06, env.byte(n + ".number"), 2, env.byte(n + ".v1"), env.byte(n + ".v2")],
}


def same_message(env, message, body):
    """Compared by value, and by what it is"""
    want = env.mod("pyzwave.message").Message.decode(layouts.to_frame(env, body))
    if type(message) is not type(want) or message.hid() != want.hid():
        return False
    if body[0] == 0x25:
        return env.eq(message.value, body[2])
    if body[0] == 0x70:
        return env.and_(message.parameterNumber == body[2], message.size == 2,
                        env.eq(message.value, body[4] * 256 + body[5]))
    return True


def h_attribute(env):
    p = env.params
    nodes = [1, 2, 3, 4]
    gw = env.mod("pyzwave.zipgateway").ZIPGateway("fd00::1", b"psk")
    env.loop
    fake = zipnet.Gateway(env)
    fake.install()
    fake.silent.add(4)
    raw = {}
    for n in nodes:
        raw[n] = [env.byte("ip%d.%d" % (n, i)) for i in range(16)] if n in p["symbolic"] else zipnet.address(env, n)
        fake.addresses[n] = raw[n]
    given = [n for n in nodes if n not in fake.silent]
    for a in given:
        for b in given:
            if a < b:
                env.assume(env.not_(env.and_(*[env.eq(raw[a][i], raw[b][i]) for i in range(16)])))
    fake.answers[(0x5F, 0x02)] = lambda body: [[0x5F, 0x03, 1]]
    fake.answers[(0x52, 0x01)] = lambda body: [[0x52, 0x02, body[2], 0, 1] + zipnet.mask_of(nodes)]
    env.run(gw.connect())
    env.settle()
    uns = env.net.transports[1]
    env.check(uns.local_addr is not None and uns.local_addr[1] == 4123, "the unsolicited port is not opened")
    heard = Heard()
    gw.addListener(Late())
    gw.addListener(heard)
    conn = None
    for k in range(p["packets"]):
        name = "p%d" % k
        sender = [env.byte("%s.from.%d" % (name, i)) for i in range(16)] if p.get("any") else list(raw[
            env.choice(name + ".sender", given)])
        if not p.get("any") and env.choice(name + ".stranger", [0, 1]):
            sender[15] = env.byte(name + ".from")
            sender[8] = env.byte(name + ".from8")
        address = (text_of(env, sender), env.bits(name + ".port", 16), 0, 0)
        body = COMMANDS[env.choice(name + ".cmd", p["commands"])](env, name)
        request = env.choice(name + ".request", [1, 0])
        secure, more = env.bits(name + ".secure", 1), env.bits(name + ".more", 1)
        seq, src, dst = env.byte(name + ".seq"), env.bits(name + ".src", 7), env.bits(name + ".dst", 7)
        delay = env.bits(name + ".delay", 23)
        option = env.choice(name + ".option", [0, 1]) if p.get("options") else 0
        rest = ([6] + zipnet.delay_option(delay) if option else []) + body
        data = zipnet.packet(env, seq, rest, src=src, dst=dst, more=more, secureOrigin=secure, ackRequest=request,
                             zwCmdIncluded=1, headerExtIncluded=option)
        seen, sent = len(heard.got), len(env.net.log)
        env.inside(uns.deliver, data, address)
        env.settle()
        log = env.net.log[sent:]
        got = heard.got[seen:]
        who = None
        for n in given:
            if env.and_(*[env.eq(sender[i], raw[n][i]) for i in range(16)]):
                who = n
        if who is None:
            env.check(not got, "a message from an address no node has is delivered")
            env.check(not log, "something is sent to an unknown sender")
            env.reach("unknown")
            continue
        env.reach("known")
        env.check(len(got) == 1, "a message is not delivered exactly once")
        speaker, node, ep, message, flags = got[0]
        env.check(speaker is gw and env.eq(node, who), "attributed to another node")
        env.check(env.eq(ep, src), "attributed to another endpoint")
        env.check(same_message(env, message, body), "another message is delivered")
        if option:
            env.check(env.eq(flags.expectedDelay, delay), "another header extension is delivered")
        if not request:
            env.check(not log, "acknowledged though not requested")
            continue
        env.reach("acked")
        env.check(len(log) == 1, "not acknowledged exactly once")
        _t, transport, answer, to = log[0]
        env.check(transport is uns, "acknowledged from another port")
        env.check(to is not None and to == address, "acknowledged to another sender")
        expected = zipnet.packet(env, seq, src=dst, dst=src, secureOrigin=secure, ackResponse=1)
        env.check(len(answer) == len(expected) and env.and_(*[env.eq(answer[i], expected[i]) for i in range(len(expected))]),
                  "the acknowledgement does not belong to the packet")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_application(env):
    """Through the application: the message reaches the node object (and endpoint) of the sender only"""
    app, gw, fake, _transport, uns = zipnet.application(
        env, {6: [0x60, 0x25], 7: [0x25]}, endpoints={6: [[0x25], [0x25]]})
    ids = {"6:0": (6, 0), "6:1": (6, 1), "6:2": (6, 2), "7:0": (7, 0)}
    log = []

    class Listener:
        def __init__(self, nid):
            self.nid = nid

        async def onReport(self, _speaker, message, _flags):
            log.append((self.nid, message.value))
            return True

    for nid in ids:
        app.nodes[nid].supported[0x25].addListener(Listener(nid))
    sent = []
    for k in range(env.params["packets"]):
        who = env.choice("who%d" % k, [6, 7, 1])
        ep, value = env.bits("ep%d" % k, 7), env.byte("value%d" % k)
        body = [0x25, 0x03, value]
        data = zipnet.packet(env, env.byte("seq%d" % k), body, src=ep, zwCmdIncluded=1, ackRequest=env.bits("req%d" % k, 1))
        uns_addr = (text_of(env, zipnet.address(env, who)), 4123, 0, 0)
        env.inside(uns.deliver, data, uns_addr)
        sent.append((who, ep, value))
    env.run_until(env.now() + 100)
    expected = []
    for who, ep, value in sent:
        for nid, (root, number) in ids.items():
            if root == who and ep == number:
                expected.append((nid, value))
                env.reach("routed")
    env.check(len(log) == len(expected), "not handled exactly once by the sender's node")
    for (a, b), (c, d) in zip(log, expected):
        env.check(a == c and env.eq(b, d), "handled by another node")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


CASES = [
    dict(name="attribute-any", prop="C17", fn="h_attribute",
         params=dict(symbolic=[2, 3], packets=1, any=1, commands=["switch", "config", "unknown"], options=1),
         reach=["known", "unknown", "acked", "end"], weight=3,
         bounds="a packet from any address; two nodes with any addresses, one with a fixed one, one without"),
    dict(name="attribute-two", prop="C17", fn="h_attribute",
         params=dict(symbolic=[2], packets=2, commands=["switch"]),
         reach=["known", "unknown", "acked", "end"], weight=3, bounds="2 packets"),
    dict(name="attribute-app", prop="C17", fn="h_application", params=dict(packets=2), reach=["routed", "end"], weight=3,
         bounds="2 packets of nodes with endpoints, any endpoint number"),
    dict(name="attribute-three", prop="C17", fn="h_attribute", tiers=["thorough"],
         params=dict(symbolic=[2], packets=3, commands=["switch", "config"], options=1), weight=6),
    dict(name="attribute-app-3", prop="C17", fn="h_application", params=dict(packets=3), tiers=["thorough"], weight=6),
]
