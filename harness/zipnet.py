"""Helpers for harnesses that run connections over the virtual network"""
from . import layouts

OWN = ("pyzwave.zipconnection", "ZIPConnection")


def packet(env, seq, rest=(), src=0, dst=0, more=0, **flags):
    """A Z/IP packet, by the protocol; flags may be symbolic"""
    b0 = 0
    for name in ("ackRequest", "ackResponse", "nackResponse", "nackWaiting", "nackQueueFull", "nackOptionError"):
        b0 = b0 * 2 + flags.get(name, 0)
    b1 = 0
    for name in ("headerExtIncluded", "zwCmdIncluded"):
        b1 = b1 * 2 + flags.get(name, 0)
    b1 = b1 * 4 + more * 2 + flags.get("secureOrigin", 1)
    return layouts.to_frame(env, [0x23, 0x02, b0 * 4, b1 * 16, seq, src, dst] + list(rest))


def command(env, seq, cmd, **kw):
    return packet(env, seq, cmd, zwCmdIncluded=1, **kw)


def ack(env, seq, **kw):
    return packet(env, seq, ackResponse=1, **kw)


def waiting(env, seq, option=None, **kw):
    """'queued for a sleeping node' with the given header extension options"""
    ext = []
    if option is not None:
        ext = [1 + len(option)] + list(option)
    return packet(env, seq, ext, nackResponse=1, nackWaiting=1, headerExtIncluded=0 if option is None else 1, **kw)


def delay_option(delay):
    """24 bit signed, most significant byte first"""
    return [0x01, 0x03, (delay >> 16) & 255, (delay >> 8) & 255, delay & 255]


def is_zip(data):
    return len(data) >= 7 and data[0] == 0x23 and data[1] == 0x02


def is_keepalive(data):
    return len(data) == 3 and data[0] == 0x23 and data[1] == 0x03


def seq_of(data):
    return data[4]


def inner(data):
    return data[7:]


class Sent:
    """What one transport sent that matches a predicate"""

    def __init__(self, env, transport, want=is_zip):
        self.env, self.transport, self.want = env, transport, want

    def all(self):
        return [(t, d) for t, tr, d, _a in self.env.net.log if tr is self.transport and self.want(d)]


def connection(env):
    """A connected ZIPConnection and its transport"""
    conn = env.mod("pyzwave.zipconnection").ZIPConnection("fd00::1", b"psk")
    env.loop
    env.run(conn.connect())
    env.check(len(env.net.transports) == 1, "connecting does not open exactly one endpoint")
    return conn, env.net.transports[0]


class Gateway:
    """A fake Z/IP gateway that acknowledges and answers

    answers: list of (class, command) -> fn(request bytes) -> list of reply bodies
    """

    def __init__(self, env):
        self.env = env
        self.acks = True
        self.answers = {}
        self.requests = []      # (ms, transport, seq, body)
        self.others = []
        self.latency = 0
        self.addresses = {}
        self.silent = set()
        self.rx = 0
        self.current = None     # (transport, packet) of the request being answered
        self.from_endpoint = False

    def install(self):
        self.env.net.on_send = self.on_send

    def on_send(self, transport, data, addr):
        env = self.env
        now = env.now()
        if is_keepalive(data):
            return
        if not is_zip(data):
            self.others.append((now, transport, data))
            if data[0] == 0x58 and data[1] == 0x04:
                node = data[3]
                for nid, ip in self.addresses.items():
                    if nid == node and nid not in self.silent:
                        self.later(transport, layouts.to_frame(
                            env, [0x58, 0x01, 0, nid] + [ip[i] for i in range(16)] + [0, 0, 0, 1]))
            return
        if data[2] & 0x80 == 0:
            return
        self.requests.append((now, transport, seq_of(data), inner(data)))
        if self.acks:
            self.later(transport, ack(env, seq_of(data)))
        body = inner(data)
        if len(body) >= 2:
            fn = self.answers.get((body[0], body[1]))
            if fn is not None:
                self.current = (transport, data)
                source = data[6] % 128 if self.from_endpoint else 0
                for reply in fn(body):
                    self.rx = (self.rx + 1) % 256
                    self.later(transport, command(env, self.rx, reply, src=source))

    def later(self, transport, data):
        self.env.at(self.env.now() + self.latency, lambda: transport.deliver(data))

    def bodies(self, transport=None):
        return [b for _t, tr, _s, b in self.requests if transport is None or tr is transport]


def task_errors(env, own=()):
    """Errors that ended up in the event loop or in tasks nobody awaits"""
    out = list(env.loop.errors)
    for task in env.loop._tasks:
        if any(task is t for t in env.own) or any(task is t for t in own):
            continue
        if task.done() and getattr(task, "_log_traceback", True) and not task.cancelled() and task.exception() is not None:
            # nobody has looked at it
            out.append(("task", task.exception()))
    return out


def outcome(task):
    """'pending', 'cancelled', ('error', exception) or ('value', result)"""
    if not task.done():
        return ("pending", None)
    if task.cancelled():
        return ("cancelled", None)
    if task.exception() is not None:
        return ("error", task.exception())
    return ("value", task.result())


def mask_of(nodes):
    """The 29 byte node list mask, by the protocol"""
    out = [0] * 29
    for n in nodes:
        out[(n - 1) // 8] |= 1 << ((n - 1) % 8)
    return out


def address(env, node, prefix=(0xFD, 0)):
    """A fixed address per node"""
    return list(prefix) + [0] * (15 - len(prefix)) + [node]


def gateway(env, nodes=(1,), mode=1, controller=1):
    """A connected ZIPGateway, the fake gateway it talks to, its transport and
    the unsolicited transport; nodes None: the node list is not answered"""
    gw = env.mod("pyzwave.zipgateway").ZIPGateway("fd00::1", b"psk")
    env.loop
    fake = Gateway(env)
    fake.install()
    for n in nodes or ():
        fake.addresses[n] = address(env, n)
    fake.answers[(0x5F, 0x02)] = lambda body: [[0x5F, 0x03, mode]]
    if nodes is not None:
        fake.answers[(0x52, 0x01)] = lambda body: [[0x52, 0x02, body[2], 0, controller] + mask_of(nodes)]
    before = len(env.net.transports)
    env.run(gw.connect())
    env.settle()
    env.check(len(env.net.transports) == before + 2, "connecting does not open the gateway and the unsolicited port")
    return gw, fake, env.net.transports[before], env.net.transports[before + 1]


class Storage:
    """Stand-in for the persistent storage"""


def node_info(seq, classes, listening=1, basic=4, generic=0x10, specific=1):
    """NODE_INFO_CACHED_REPORT, by the protocol"""
    return [0x52, 0x04, seq, 0, listening * 128, 0, 0, basic, generic, specific] + list(classes)


def endpoint_answers(fake, endpoints):
    """endpoints: {node id: [classes of endpoint 1, ...]}"""
    fake.answers[(0x52, 0x05)] = lambda body: [
        [0x52, 0x06, body[2], body[3], 0, len(endpoints.get(int(body[3]), ())), 0]]

    def capability(body):
        classes = endpoints[int(body[3])][int(body[4]) - 1]
        return [[0x52, 0x08, body[2], body[3], len(classes), body[4], 0x11, 2] + list(classes)]

    fake.answers[(0x52, 0x07)] = capability


def application(env, infos, controller=1, storage=None, endpoints=None):
    """An Application on a connected gateway whose nodes have these command classes

    infos: {node id: list of command classes}
    """
    endpoints = endpoints or {}
    nodes = sorted([controller] + list(infos))
    gw, fake, transport, uns = gateway(env, nodes, controller=controller)
    fake.answers[(0x52, 0x03)] = lambda body: [node_info(body[2], infos.get(int(body[4]), []))]
    endpoint_answers(fake, endpoints)
    fake.answers[(0x52, 0x0B)] = lambda body: [[0x52, 0x0C, body[2]] + [0] * 29]
    app = env.mod("pyzwave.application").Application(gw, storage or Storage())
    env.run(app.startup())
    env.check(len(app.nodes) == len(infos) + sum(len(e) for e in endpoints.values()), "not every node is loaded")
    return app, gw, fake, transport, uns
