"""C10: a request is answered by the report it asked for

The environment starts requests, acknowledges (or refuses) them, delivers reports
and cancels requests in every order, at symbolic times.  What must happen is
computed by a model that only knows: a report goes to the request that waits for
its kind the longest, or to the listeners if there is none.
"""
import asyncio

from . import zipnet

WAIT = 3000


class Heard:
    """Listener for what nobody waits for"""

    def __init__(self):
        self.values = []

    def onMessageReceived(self, _speaker, msg):
        cmd = getattr(msg, "command", msg)
        self.values.append((cmd.hid(), cmd.value))

    async def onMessage(self, _speaker, msg):
        self.values.append((msg.hid(), msg.value))


class Stub:
    """An adapter whose sends end when the environment says so"""

    def __init__(self, env):
        self.env, self.sends = env, []

    async def sendToNode(self, nodeId, cmd, **_kwargs):
        future = asyncio.get_event_loop().create_future()
        self.sends.append(future)
        try:
            return await asyncio.wait_for(future, WAIT // 1000)
        except asyncio.TimeoutError:
            return False


class AdapterLevel:
    refusals = False

    def __init__(self, env):
        self.env = env
        self.conn, self.transport = zipnet.connection(env)
        self.log = zipnet.Sent(env, self.transport)
        self.heard = Heard()
        self.conn.addListener(self.heard)
        self.rx = 0

    def request(self, get, report):
        return self.conn.sendAndReceive(get, report)

    def ack(self, i):
        frames = self.log.all()
        self.transport.deliver(zipnet.ack(self.env, zipnet.seq_of(frames[i][1])))

    def report(self, ident, value):
        self.rx += 1
        self.transport.deliver(zipnet.command(self.env, self.rx, list(ident) + [value]))

    def after_send(self, ok):
        """May a request whose send failed still be answered"""
        return True


class NodeLevel:
    refusals = True

    def __init__(self, env):
        self.env = env
        self.Message = env.mod("pyzwave.message").Message
        env.loop
        self.stub = Stub(env)
        self.node = env.mod("pyzwave.node").Node(5, self.stub, [])
        self.heard = Heard()
        self.node.addListener(self.heard)

    def request(self, get, report):
        return self.node.sendAndReceive(get, report)

    def ack(self, i):
        if not self.stub.sends[i].done():
            self.stub.sends[i].set_result(True)

    def refuse(self, i):
        if not self.stub.sends[i].done():
            self.stub.sends[i].set_result(False)

    def report(self, ident, value):
        msg = self.Message.decode(zipnet.layouts.to_frame(self.env, list(ident) + [value]))
        self.env.loop.create_task(self.node.handleMessage(msg, {}))

    def after_send(self, ok):
        return ok


class Model:
    """One request"""

    def __init__(self, kind, start):
        self.kind, self.start = kind, start
        self.sent = None        # (when, ok) once its send has ended
        self.value = None       # the report it got
        self.got = None
        self.ended = None       # (what, value, when)

    def send_ends(self, when, ok, after):
        if self.ended is not None or self.sent is not None:
            return
        self.sent = (when, ok)
        if not after(ok):
            self.ended = ("timeout", None, when)
        elif self.got is not None:
            self.ended = ("value", self.value, when)

    def advance(self, env, now, after):
        """Time passes up to an instant"""
        if self.ended is None and self.sent is None:
            env.assume(env.not_(now == self.start + WAIT))
            if now > self.start + WAIT:
                self.send_ends(self.start + WAIT, False, after)
        if self.ended is None and self.sent is not None:
            env.assume(env.not_(now == self.sent[0] + WAIT))
            if now > self.sent[0] + WAIT:
                self.ended = ("timeout", None, self.sent[0] + WAIT)

    def waiting(self, kind):
        return self.ended is None and self.got is None and self.kind == kind

    def receive(self, value, when):
        self.value, self.got = value, when
        if self.sent is not None:
            self.ended = ("value", value, when)

    def cancel(self, when):
        if self.ended is None:
            self.ended = ("cancelled", None, when)


def h_requests(env):
    p = env.params
    Basic = env.mod("pyzwave.commandclass.Basic")
    Switch = env.mod("pyzwave.commandclass.SwitchBinary")
    gets = {"A": (Basic.Get, Basic.Report, (0x20, 0x03)), "B": (Switch.Get, Switch.Report, (0x25, 0x03))}
    world = AdapterLevel(env) if p["level"] == "adapter" else NodeLevel(env)
    models, tasks, acked, dropped, expected = [], [], set(), set(), []
    ends = {}

    async def one(i, kind):
        get, report, _ident = gets[kind]
        try:
            res = await world.request(get(), report)
            ends[i] = ("value", res, env.now())
        except asyncio.TimeoutError:
            ends[i] = ("timeout", None, env.now())
        except asyncio.CancelledError:
            ends[i] = ("cancelled", None, env.now())
            raise

    def start(i, kind):
        tasks.append(env.loop.create_task(one(i, kind)))

    now = 0
    for j in range(p["steps"]):
        options = []
        if len(models) < p["requests"]:
            options += ["start:A", "start:B"] if models else ["start:A"]
        for i in range(len(models)):
            if i not in acked:
                options.append("ack:%d" % i)
                if world.refusals and p.get("refuse", 1):
                    options.append("refuse:%d" % i)
            if i not in dropped and p.get("cancel"):
                options.append("cancel:%d" % i)
        options += ["report:A", "report:B"] if p.get("kinds", 2) == 2 else ["report:A"]
        if j == 0:
            options = ["start:A", "report:A"]
        what, _, arg = env.choice("step%d" % j, options).partition(":")
        before, now = now, env.int("time%d" % j, 1, p.get("until", 16000))
        env.assume(before < now)
        for m in models:
            m.advance(env, now, world.after_send)
        if what == "start":
            i = len(models)
            models.append(Model(arg, now))
            env.at(now, lambda i=i, arg=arg: start(i, arg))
        elif what in ("ack", "refuse"):
            i = int(arg)
            acked.add(i)
            env.at(now, lambda i=i, fn=getattr(world, what): fn(i))
            models[i].send_ends(now, what == "ack", world.after_send)
        elif what == "cancel":
            i = int(arg)
            dropped.add(i)
            env.at(now, lambda i=i: tasks[i].cancel())
            models[i].cancel(now)
        else:
            value = env.byte("value%d" % j)
            env.at(now, lambda arg=arg, value=value: world.report(gets[arg][2], value))
            for m in models:
                if m.waiting(arg):
                    m.receive(value, now)
                    break
            else:
                expected.append((arg, value))
    horizon = p.get("until", 16000) + 2 * WAIT + 1000
    for m in models:
        m.advance(env, horizon, world.after_send)
    env.run_until(horizon)
    env.check(len(ends) == len(models), "a request never ends")
    for i, m in enumerate(models):
        what, res, end = ends[i]
        env.check(m.ended is not None and what == m.ended[0], "a request ends otherwise than it should")
        env.check(end == m.ended[2], "a request ends at another time than it should")
        if what == "value":
            env.reach("answered")
            env.check(res is not None and res.hid() == gets[m.kind][1].hid(), "a request gets a report of another kind")
            env.check(res.value == m.ended[1], "a request gets another report than its own")
        env.reach(what)
        env.observe("end%d" % i, (what, end))
    env.check(len(world.heard.values) == len(expected), "a report is swallowed or heard twice")
    for (hid, value), (kind, want) in zip(world.heard.values, expected):
        env.check(env.and_(hid == gets[kind][1].hid(), value == want), "listeners hear another report than received")
    # nobody waits any more
    for n, kind in enumerate("AB"):
        env.inside(world.report, gets[kind][2], n)
        env.settle()
        env.check(len(world.heard.values) == len(expected) + n + 1, "a request leaves something behind that swallows reports")
    env.check(not zipnet.task_errors(env, tasks), "an error escapes into the event loop")


ASSUME = ["reports at the very instant of a timeout are excluded",
          "the environment's steps happen one after the other, at least 1 ms apart"]


def _case(name, tiers=None, weight=4, reach=("answered", "timeout"), **params):
    case = dict(name=name, prop="C10", fn="h_requests", params=params, assumes=ASSUME, weight=weight, reach=list(reach))
    if tiers:
        case["tiers"] = tiers
    return case


CASES = [
    _case("requests-adapter", level="adapter", requests=2, steps=5, weight=8),
    _case("requests-adapter-cancel", level="adapter", requests=2, steps=4, cancel=1, reach=["answered", "cancelled"]),
    _case("requests-node", level="node", requests=2, steps=5, refuse=0, weight=8),
    _case("requests-node-fail", level="node", requests=2, steps=4, cancel=1, reach=["answered", "cancelled", "timeout"]),
    _case("requests-adapter-deep", level="adapter", requests=2, steps=5, cancel=1, tiers=["thorough"], weight=10),
    _case("requests-node-deep", level="node", requests=2, steps=5, cancel=1, tiers=["thorough"], weight=10),
    _case("requests-adapter-three", level="adapter", requests=3, steps=6, kinds=1, tiers=["thorough"], weight=10),
]
