"""C22: an idle connection keeps sending keepalives

Judged on the packets each connection sent: any two commands or keepalives in a
row on one connection are at most 25 seconds apart, and a keepalive comes 25
seconds after the packet before it, whatever is received in between.
"""
from . import zipnet

PERIOD = 25000


def _judge(env, transport, opened, end, label=""):
    """The trace of one connection, from the moment it was opened"""
    last, count = opened, 0
    for when, tr, data, addr in env.net.log:
        if tr is not transport or not (zipnet.is_zip(data) or zipnet.is_keepalive(data)):
            continue
        env.check(when - last <= PERIOD, "no keepalive though the connection was idle for 25 seconds")
        if zipnet.is_keepalive(data):
            env.check(when - last == PERIOD, "a keepalive though the connection was not idle for 25 seconds")
            env.check(data[2] == 0x80, "the keepalive does not ask for a response")
            count += 1
        last = when
    env.check(end - last <= PERIOD, "no keepalive though the connection was idle for 25 seconds")
    env.observe("keepalives" + label, count)
    return count


def h_idle(env):
    """Commands at any times, acknowledged late, as waiting or never; packets of all kinds received"""
    p = env.params
    Basic = env.mod("pyzwave.commandclass.Basic")
    conn, transport = zipnet.connection(env)
    opened, until, last = env.now(), p["until"], 0
    log = zipnet.Sent(env, transport)
    for k in range(p["events"]):
        what = env.choice("what%d" % k, p["kinds"])
        at = env.int("at%d" % k, 1, until)
        env.assume(last < at)
        last = at
        if what == "send":
            answer = env.choice("answer%d" % k, p["answers"])
            delay = env.int("delay%d" % k, 0, 3500) if answer == "ack" and not p.get("quick") else 5

            def start(answer=answer, delay=delay):
                env.own.append(env.loop.create_task(conn.send(Basic.Set(value=1))))

                def later():
                    frames = log.all()
                    seq = zipnet.seq_of(frames[-1][1])
                    if answer == "ack":
                        env.at(env.now() + delay, lambda: transport.deliver(zipnet.ack(env, seq)))
                    elif answer == "waiting":
                        env.at(env.now() + 10, lambda: transport.deliver(zipnet.waiting(env, seq, zipnet.delay_option(40))))
                    elif answer == "cancel":
                        env.at(env.now() + 500, env.own[-1].cancel)

                env.at(env.now() + 1, later)

            env.at(opened + at, start)
        else:
            frame = {"response": [0x23, 0x03, 0x40], "request": [0x23, 0x03, 0x80],
                     "command": list(zipnet.command(env, 9, [0x20, 0x03, 5])),
                     "ack": list(zipnet.ack(env, 77)), "garbage": [0xFF]}[what]
            env.at(opened + at, lambda frame=frame: transport.deliver(zipnet.layouts.to_frame(env, frame)))
        env.reach(what)
    end = opened + until + p.get("after", 30000)
    env.run_until(end)
    count = _judge(env, transport, opened, end)
    if count:
        env.reach("keepalive")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_gateway(env):
    """The gateway's own connection and the ones to nodes, each by itself"""
    p = env.params
    gw, fake, transport, uns = zipnet.gateway(env, [1, 2, 3])
    Basic = env.mod("pyzwave.commandclass.Basic")
    base, last, until = env.now(), 0, p["until"]
    for k in range(p["sends"]):
        node = env.choice("to%d" % k, [0, 2, 3])
        at = env.int("at%d" % k, 1, until)
        env.assume(last < at)
        last = at

        def start(node=node):
            coro = gw.sendToNode(node, Basic.Set(value=1)) if node else gw.send(Basic.Set(value=1))
            env.own.append(env.loop.create_task(coro))

        env.at(base + at, start)
    end = base + until + p.get("after", 30000)
    env.run_until(end)
    _judge(env, transport, 0, end, "0")
    for i, tr in enumerate(env.net.transports[2:]):
        first = [t for t, x, d, _a in env.net.log if x is tr]
        env.check(first, "a connection is opened without need")
        _judge(env, tr, first[0], end, str(i + 1))
        env.reach("node")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


ALL = ["send", "response", "request", "command", "ack", "garbage"]
CASES = [
    dict(name="idle-idle", prop="C22", fn="h_idle", weight=4, reach=["keepalive", "send", "command", "end"],
         params=dict(events=2, kinds=ALL, answers=["ack", "waiting", "never", "cancel"], until=59500), bounds="2 events of any kind within a minute"),
    dict(name="idle-busy", prop="C22", fn="h_idle", weight=4, reach=["keepalive", "send", "end"],
         params=dict(events=3, kinds=["send", "command"], answers=["ack"], quick=1, until=60500), bounds="3 commands sent or received within a minute"),
    dict(name="idle-gateway", prop="C22", fn="h_gateway", weight=4, reach=["node", "end"],
         params=dict(sends=2, until=40000), bounds="2 messages to the gateway or to 2 nodes within 40 s"),
    dict(name="idle-long", prop="C22", fn="h_idle", weight=6, tiers=["thorough"],
         params=dict(events=4, kinds=["send", "command"], answers=["ack"], quick=1, until=90500)),
    dict(name="idle-gateway-3", prop="C22", fn="h_gateway", weight=6, tiers=["thorough"],
         params=dict(sends=3, until=90000)),
]
