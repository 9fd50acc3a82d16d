"""C06: arbitrary datagrams never break a connection or the gateway"""
from . import zipnet

CLASSES = [0x20, 0x25, 0x31, 0x59, 0x6C, 0x70, 0x72, 0x85, 0x86, 0x87, 0x5E, 0xEF, 0x32]


def _world(env):
    """An application with a node, a connection to that node, and an outstanding
    request on the gateway's and the node's connection"""
    app, gw, fake, transport, uns = zipnet.application(env, {6: CLASSES})
    if env.params.get("silent"):
        # the address of the node cannot be found any more
        fake.silent.add(6)
        return app, gw, fake, {"gateway": transport, "unsolicited": uns}, {"gateway": gw}
    conn = env.run(gw.connectToNode(6))
    fake.acks = True
    node_transport = env.net.transports[2]
    return app, gw, fake, {"gateway": transport, "node": node_transport, "unsolicited": uns}, {"gateway": gw, "node": conn}


def _check(env, port, data):
    app, gw, fake, ports, conns = _world(env)
    Basic = env.mod("pyzwave.commandclass.Basic")
    outstanding = {}
    fake.acks = False
    for name, conn in conns.items():
        start = len(fake.requests)
        task = env.task(conn.send(Basic.Set(value=1), timeout=3600))
        env.settle()
        outstanding[name] = (task, fake.requests[start][2])
    fake.acks = True
    seen = len(fake.requests)
    if port in outstanding and len(data) > 4:
        # not the answer to the outstanding request
        own = env.and_(data[0] == 0x23, data[1] == 0x02, data[2] & 0x60 != 0, data[4] == outstanding[port][1])
        env.assume(env.not_(own))
    transport = ports[port]
    known = env.choice("known", [1, 0]) if port == "unsolicited" else 1
    addr = ("fd00::6" if known else "fd00::77", 4123, 0, 0)
    env.at(env.now(), lambda: transport.deliver(data, addr if port == "unsolicited" else None))
    env.run_until(env.now() + env.params.get("after", 8000))
    own_tasks = [t for t, _s in outstanding.values()]
    env.check(not zipnet.task_errors(env, own_tasks), "an error escapes into the event loop")
    for name, (task, seq) in outstanding.items():
        env.check(not task.done(), "a datagram ends a request it does not acknowledge")
        env.inside(ports[name].deliver, zipnet.ack(env, seq))
        env.settle()
        env.check(zipnet.outcome(task) == ("value", True), "a request is not answered by its acknowledgement any more")
    env.check(len(fake.requests) - seen < 200, "a datagram makes the gateway send without end")
    # the ports still work
    task = env.task(conns["gateway"].send(Basic.Set(value=2)))
    env.settle()
    env.run_until(env.now() + 1)
    env.check(zipnet.outcome(task) == ("value", True), "the connection does not work any more")


def h_raw(env):
    """any bytes"""
    p = env.params
    _check(env, p["port"], env.bytes("d", p["length"]))


def h_packet(env):
    """a Z/IP packet with any flags, header extension and command"""
    p = env.params
    head = [0x23, 0x02, env.byte("flags0"), env.byte("flags1"), env.byte("seq"), env.byte("src"), env.byte("dst")]
    _check(env, p["port"], zipnet.layouts.to_frame(env, head + [x for x in env.bytes("d", p["length"])]))


def h_command(env):
    """a Z/IP packet with a command that is handled somewhere, its content arbitrary"""
    p = env.params
    ident = p["command"]
    ask = env.bits("ask", 1)
    # any length up to the bound, mostly truncated
    length = env.size("length", 0, p["length"])
    data = zipnet.command(env, env.byte("seq"), list(ident) + [x for x in env.bytes("d", length)], ackRequest=ask)
    _check(env, p["port"], data)


def h_advertisement(env):
    """truncated or arbitrary node advertisements and keep alives"""
    p = env.params
    length = env.size("length", 0, p["length"])
    _check(env, p["port"], zipnet.layouts.to_frame(env, list(p["command"]) + [x for x in env.bytes("d", length)]))


# handled by the gateway, the application or a command class of the node
COMMANDS = {
    "add-status": (0x34, 0x02), "remove-status": (0x34, 0x04), "failed-status": (0x34, 0x08),
    "add-keys": (0x34, 0x11), "add-dsk": (0x34, 0x13),
    "info-cached": (0x52, 0x04), "failed-list": (0x52, 0x0C),
    "supervision": (0x6C, 0x01), "supervision-report": (0x6C, 0x02), "sensor": (0x31, 0x05), "configuration": (0x70, 0x06),
    "group-info": (0x59, 0x04), "group-name": (0x59, 0x02), "group-commands": (0x59, 0x06), "version": (0x86, 0x14),
    "association": (0x85, 0x03), "basic": (0x20, 0x01), "switch": (0x25, 0x03), "mode": (0x5F, 0x02),
    "nested": (0x23, 0x02), "meter": (0x32, 0x02), "battery": (0x80, 0x03), "indicator": (0x87, 0x03),
}
LEN = {"supervision": 4, "sensor": 4, "configuration": 4, "group-info": 8, "group-name": 3, "group-commands": 4, "nested": 2,
       "add-status": 3, "remove-status": 3}

CASES = []
for _port in ("gateway", "node", "unsolicited"):
    for _n in range(0, 4):
        CASES.append(dict(name="raw-%s-%d" % (_port, _n), prop="C06", fn="h_raw", params=dict(port=_port, length=_n),
                          weight=_n + 1))
    CASES.append(dict(name="raw-%s-4" % _port, prop="C06", fn="h_raw", params=dict(port=_port, length=4), weight=9,
                      tiers=["thorough"]))
    for _n in range(0, 2):
        CASES.append(dict(name="packet-%s-%d" % (_port, _n), prop="C06", fn="h_packet", params=dict(port=_port, length=_n),
                          weight=_n + 3))
    for _n in (2,):
        CASES.append(dict(name="packet-%s-%d" % (_port, _n), prop="C06", fn="h_packet", params=dict(port=_port, length=_n),
                          weight=9, tiers=["thorough"]))
    for _name, _ident in COMMANDS.items():
        _len = LEN.get(_name, 2)
        CASES.append(dict(name="command-%s-%s" % (_port, _name), prop="C06", fn="h_command",
                          params=dict(port=_port, command=_ident, length=_len), weight=8 if _len > 4 else 4))
    CASES.append(dict(name="advertisement-%s" % _port, prop="C06", fn="h_advertisement",
                      params=dict(port=_port, command=(0x58, 0x01), length=2), weight=2))
    CASES.append(dict(name="keepalive-%s" % _port, prop="C06", fn="h_advertisement",
                      params=dict(port=_port, command=(0x23, 0x03), length=1), weight=2))
    CASES.append(dict(name="nested-%s-deep" % _port, prop="C06", fn="h_command", tiers=["thorough"],
                      params=dict(port=_port, command=(0x23, 0x02), length=6), weight=9))
for _name in ("supervision", "group-info"):
    CASES.append(dict(name="silent-%s" % _name, prop="C06", fn="h_command",
                      params=dict(port="unsolicited", command=COMMANDS[_name], length=LEN[_name], silent=1)))
CASES.append(dict(name="advertisement-full", prop="C06", fn="h_advertisement",
                  params=dict(port="gateway", command=(0x58, 0x01), length=22), weight=2, tiers=["thorough"]))
