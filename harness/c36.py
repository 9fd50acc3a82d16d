"""C36: a network connection carries datagrams unchanged, as long as it is open"""
from . import layouts


class Callback:
    def __init__(self):
        self.got = []

    def __call__(self, *args):
        self.got.append(args)


def _datagram(env, name, sizes):
    size = env.choice(name + ".size", sizes)
    return layouts.to_frame(env, [env.byte("%s[%d]" % (name, i)) for i in range(size)])


def _same(env, got, want):
    return len(got) == len(want) and env.eq(got, want)


def _use(env, conn, transport, callback, server, count, sizes):
    """Datagrams in both directions, in any order"""
    sent = []
    for k in range(count):
        name = "d%d" % k
        data = _datagram(env, name, sizes)
        peer = ("fd00::%x" % env.choice(name + ".peer", [2, 3]), 4124, 0, 0) if server \
            else ("fd00::9", 4123, 0, 0)
        if env.choice(name + ".in", [0, 1]):
            before = list(callback.got)
            env.inside(transport.deliver, data, peer)
            env.check(len(callback.got) == len(before) + 1, "a datagram is not handed on once")
            args = callback.got[-1]
            env.check(_same(env, args[0], data), "another datagram is handed on")
            if server:
                env.check(len(args) == 2 and tuple(args[1]) == peer, "not with the address of the sender")
            else:
                env.check(len(args) == 1, "with more than the datagram")
            env.reach("received")
        else:
            if server:
                done = env.inside(conn.sendTo, data, peer)
                sent.append((data, peer))
            else:
                done = env.inside(conn.send, data)
                sent.append((data, None))
            env.check(done is True, "not reported as sent")
            env.reach("sent")
        log = env.net.log
        env.check(len(log) == len(sent), "not sent once")
        for (_t, tr, got, addr), (want, to) in zip(log, sent):
            env.check(tr is transport and _same(env, got, want), "another datagram is sent")
            env.check(addr == to, "sent to another address")
    return len(sent)


def _error(env, transport):
    """Something could not be delivered, such as while the gateway restarts"""
    if env.choice("error", [0, 1]):
        kind = env.choice("kind", [ConnectionRefusedError, OSError])
        env.inside(transport.protocol.error_received, kind("unreachable"))
        env.settle()
        env.check(not transport.closed, "an error closes the connection")
        env.reach("error")


def h_client(env):
    """Before, while and after it is connected"""
    p = env.params
    conn = env.mod("pyzwave.connection").Connection()
    env.loop
    callback = Callback()
    stranger = _datagram(env, "early", p["sizes"])
    early = env.choice("before", ["send", "stop", "nothing"])
    if early == "send":
        env.check(conn.send(stranger) is False, "sent without a connection")
    elif early == "stop":
        _r, exc = env.attempt(conn.stop)
        env.check(exc is None, "stopping fails without a connection")
    first = env.choice("first", [0, 1])
    if first:
        conn.onMessage(callback)
    env.run(conn.connect("fd00::9", b"psk"))
    env.check(len(env.net.transports) == 1 and not env.net.log, "not exactly one connection")
    transport = env.net.transports[0]
    env.check(tuple(transport.remote_addr)[:2] == ("fd00::9", 4123) and transport.local_addr is None, "connected to another place")
    if not first:
        # nobody listens yet
        _r, exc = env.attempt(env.inside, transport.deliver, stranger)
        env.check(exc is None and not callback.got, "a datagram nobody waits for fails")
        conn.onMessage(callback)
        env.reach("unheard")
    _error(env, transport)
    count = _use(env, conn, transport, callback, False, p["count"], p["sizes"])
    env.inside(transport.protocol.error_received, OSError("unreachable"))
    how = env.choice("end", ["stop", "lost"])
    if how == "stop":
        env.inside(conn.stop)
    else:
        env.inside(transport.lose, OSError("gone"))
    env.settle()
    env.check(transport.closed, "the socket stays open")
    env.inside(conn.send, stranger)
    env.check(len(env.net.log) == count, "sent though it was closed")
    again = env.choice("again", [0, 1])
    if again:
        env.run(conn.connect("fd00::8", b"psk"))
        env.settle()
        env.check(len(env.net.transports) == 2, "not exactly one new connection")
        second = env.net.transports[1]
        env.check(not second.closed and tuple(second.remote_addr)[:2] == ("fd00::8", 4123), "not connected again")
        env.check(env.inside(conn.send, stranger) is True, "not reported as sent")
        env.check(len(env.net.log) == count + 1 and env.net.log[-1][1] is second and _same(env, env.net.log[-1][2], stranger),
                  "not sent on the new connection")
        callback.got.clear()
        env.inside(second.deliver, stranger)
        env.check(len(callback.got) == 1 and _same(env, callback.got[0][0], stranger), "not received on the new connection")
        env.reach("again")
    env.check(not env.loop.errors, "an error escapes into the event loop")
    env.reach(how)


def h_server(env):
    """Listening on a port"""
    p = env.params
    conn = env.mod("pyzwave.connection").Connection()
    env.loop
    callback = Callback()
    early = _datagram(env, "early", p["sizes"])
    if env.choice("before", [0, 1]):
        done, exc = env.attempt(conn.sendTo, early, ("fd00::2", 4123, 0, 0))
        env.check(exc is None and done is False, "sent without a socket")
    conn.onMessage(callback)
    port = env.choice("port", [4123, 41230])
    env.run(conn.listen(b"psk", port))
    env.check(len(env.net.transports) == 1, "not exactly one socket")
    transport = env.net.transports[0]
    env.check(transport.remote_addr is None and tuple(transport.local_addr)[1] == port, "listening somewhere else")
    _error(env, transport)
    count = _use(env, conn, transport, callback, True, p["count"], p["sizes"])
    env.inside(conn.stop)
    env.settle()
    env.check(transport.closed, "the socket stays open")
    env.inside(conn.sendTo, early, ("fd00::2", 4123, 0, 0))
    env.check(len(env.net.log) == count, "sent though it was closed")
    env.check(not env.loop.errors, "an error escapes into the event loop")
    env.reach("end")


SIZES = [1, 60]
CASES = [
    dict(name="connection-client", prop="C36", fn="h_client", params=dict(count=2, sizes=SIZES), weight=3,
         reach=["sent", "received", "error", "unheard", "again", "stop", "lost"],
         bounds="2 datagrams of 1 or 60 bytes of any content in either direction; stopped or lost, and connected again"),
    dict(name="connection-server", prop="C36", fn="h_server", params=dict(count=2, sizes=SIZES), weight=2, reach=["sent", "received", "error", "end"],
         bounds="2 datagrams of 1 or 60 bytes of any content in either direction, 2 peers"),
    dict(name="connection-server-3", prop="C36", fn="h_server", params=dict(count=3, sizes=[0, 2, 200]), weight=2, tiers=["thorough"]),
    dict(name="connection-client-3", prop="C36", fn="h_client", params=dict(count=3, sizes=[0, 2, 200]), weight=2, tiers=["thorough"]),
]
