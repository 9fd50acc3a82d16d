"""C44: work that has ended leaves nothing behind

An operation of the library is done again and again; whether it succeeds, fails
or is cancelled, the library holds as much after the last time as after the
second one, and no task or timer of it goes on.
"""
import asyncio
import collections
import types

from . import layouts, zipnet
from .c33 import _address_of

INFOS = {5: [0x70, 0x72, 0x86, 0x85, 0x25, 0x31], 6: [0x25]}


def held(env, roots):
    """How many things the containers of the library hold, reachable from these"""
    seen, count, stack, keep = set(), 0, list(roots), []
    while stack:
        obj = stack.pop()
        if id(obj) in seen or isinstance(obj, (str, bytes, int, float, type, types.ModuleType, types.FunctionType)) or obj is None:
            continue
        seen.add(id(obj))
        keep.append(obj)
        if isinstance(obj, types.MethodType):
            stack.append(obj.__self__)
            continue
        if isinstance(obj, asyncio.Future):
            count += 1
            continue
        if isinstance(obj, (list, tuple, set, frozenset, collections.deque)):
            count += len(obj)
            stack.extend(obj)
        elif hasattr(type(obj), "items") and hasattr(type(obj), "keys"):
            pairs = list(obj.items())
            count += len(pairs)
            for k, v in pairs:
                stack.append(k)
                stack.append(v)
        elif hasattr(type(obj), "add") and hasattr(type(obj), "discard"):
            items = list(obj)
            count += len(items)
            stack.extend(items)
        if type(obj).__module__.startswith("pyzwave"):
            stack.extend(getattr(obj, "__dict__", {}).values())
    return count


def _running(env):
    tasks = [t for t in env.loop._tasks if not t.done()]
    timers = [t for t in env.loop._timers if not t._cancelled]
    return len(tasks), len(timers)


class World:
    def __init__(self, env):
        self.env = env
        self.app, self.gw, self.fake, self.transport, self.uns = zipnet.application(env, INFOS)
        fake = self.fake
        self.mailbox = env.mod("pyzwave.mailbox").MailboxService(self.gw)
        self.node = self.app.nodes["5:0"]
        self.Basic = env.mod("pyzwave.commandclass.Basic")
        self.Switch = env.mod("pyzwave.commandclass.SwitchBinary")
        fake.answers[(0x86, 0x13)] = lambda body: [[0x86, 0x14, body[2], 5]]
        fake.answers[(0x86, 0x11)] = lambda body: [[0x86, 0x12, 1, 2, 3, 4, 5]]
        fake.answers[(0x72, 0x04)] = lambda body: [[0x72, 0x05, 0, 1, 0, 2, 0, 3]]
        fake.answers[(0x85, 0x05)] = lambda body: [[0x85, 0x06, 2]]
        fake.answers[(0x85, 0x02)] = lambda body: [[0x85, 0x03, body[2], 5, 0, 1, 9]]
        fake.answers[(0x31, 0x01)] = lambda body: [[0x31, 0x02, 0x05]]
        fake.answers[(0x31, 0x03)] = lambda body: [[0x31, 0x06, body[2], 3]]
        fake.answers[(0x70, 0x05)] = lambda body: [[0x70, 0x06, body[2], 2, 1, 2]]
        fake.answers[(0x25, 0x02)] = lambda body: [[0x25, 0x03, 255]]
        fake.answers[(0x52, 0x05)] = lambda body: [[0x52, 0x06, body[2], body[3], 0, 2, 1]]
        fake.answers[(0x34, 0x07)] = lambda body: [[0x34, 0x08, body[2], 1, body[3]]]
        self.answers = dict(fake.answers)
        self.rx = 0
        env.run(self.node.send(self.Basic.Set(value=0)))
        env.run(self.app.nodes["6:0"].send(self.Basic.Set(value=0)))
        self.conn = {_address_of(t)[15]: t for t in env.net.transports[2:]}

    def arrive(self, node, body, how="unsolicited"):
        self.rx = (self.rx + 1) % 256
        packet = zipnet.command(self.env, self.rx, body)
        if how == "unsolicited":
            self.env.inside(self.uns.deliver, packet, ("fd00::%x" % node, 4123, 0, 0))
        else:
            self.env.inside(self.conn[node].deliver, packet)

    def call(self, what):
        gw, node = self.gw, self.node
        if what == "send":
            return node.send(self.Basic.Set(value=1))
        if what == "request":
            return node.sendAndReceive(self.Switch.Get(), self.Switch.Report)
        if what == "configuration":
            return node.supported[0x70].get(7, cached=False)
        if what == "set":
            return node.supported[0x70].set(7, 1, 9)
        if what == "interview":
            return node.interview()
        if what == "locked":
            async def locked():
                with node.storageLock():
                    await node.interview()
            return locked()
        if what == "version":
            return node.supported[0x25].requestVersion()
        if what == "failed":
            return gw.getFailedNodeList()
        if what == "endpoints":
            return gw.getMultiChannelEndPoints(5)
        if what == "info":
            return gw.getNodeInfo(5)
        if what == "remove":
            return node.remove()
        if what == "add":
            return gw.addNode(env_options(self.env))
        if what == "unknown":
            return gw.connectToNode(9)
        if what == "wait":
            return node.waitForMessage(self.Switch.Report)
        if what == "wait-gateway":
            return gw.waitForMessage(self.Switch.Report)
        if what == "mode":
            return gw.setGatewayMode(0)
        raise AssertionError(what)


def env_options(env):
    return env.mod("pyzwave.adapter").TxOptions.NULL


def _measure(env, w):
    env.run_until(env.now() + 70000)
    return held(env, [w.app, w.gw, w.mailbox]), _running(env)


def _same(env, w, once):
    """once(k) is done over and over"""
    once(0)
    once(1)
    first = _measure(env, w)
    once(2)
    once(3)
    last = _measure(env, w)
    env.check(first[0] == last[0], "something is kept of what has ended")
    env.check(first[1][0] == last[1][0], "a task goes on though everything has ended")
    env.check(first[1][1] == last[1][1], "a timer goes on though everything has ended")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_calls(env):
    """Calls that succeed, are not answered, not acknowledged or cancelled"""
    p = env.params
    w = World(env)
    what = env.choice("what", p["what"])
    how = env.choice("how", p["how"])
    latency = 20
    if what in ("interview", "locked") and how == "cancel":
        # what it learns is kept
        env.run(w.node.interview())
    if how == "cancel":
        w.fake.latency = latency
        when = env.int("when", 0, p["until"])

    def once(k):
        if how == "unanswered":
            w.fake.answers.clear()
        elif how == "unacked":
            w.fake.acks = False
        elif how == "late":
            w.fake.latency = 4000
        task = env.task(w.call(what))
        env.run_until(env.now() + (when if how == "cancel" else 60000 if how != "late" else 120000))
        if how == "cancel":
            task.cancel()
            env.run_until(env.now() + 5000)
        env.check(task.done(), "a call does not end")
        env.reach(how)

    _same(env, w, once)


def h_arrivals(env):
    """What arrives unasked"""
    p = env.params
    w = World(env)
    what = env.choice("what", p["what"])
    value = env.byte("value")

    def once(k):
        if what == "report":
            w.arrive(5, [0x25, 0x03, value])
            w.arrive(5, [0x25, 0x03, value], "connection")
        elif what == "configuration":
            w.arrive(5, [0x70, 0x06, 3, 1, value])
        elif what == "sensor":
            w.arrive(5, [0x31, 0x05, value % 4, 0x01, 7])
        elif what == "supervised":
            w.arrive(5, [0x6C, 0x01, value % 64, 3, 0x25, 0x03, 255])
        elif what == "stranger":
            w.arrive(0x99, [0x25, 0x03, value])
        elif what == "other-endpoint":
            w.rx += 1
            env.inside(w.uns.deliver, zipnet.command(env, w.rx, [0x25, 0x03, value], src=3), ("fd00::5", 4123, 0, 0))
        elif what == "garbage":
            data = layouts.to_frame(env, [value, env.byte("b%d" % k), env.byte("c%d" % k)])
            env.inside(w.uns.deliver, data, ("fd00::5", 4123, 0, 0))
            env.inside(w.conn[5].deliver, data)
            env.inside(w.transport.deliver, data)
        elif what == "acks":
            # acknowledgements nobody waits for
            env.inside(w.conn[5].deliver, zipnet.ack(env, value))
            env.inside(w.conn[5].deliver, zipnet.waiting(env, value))
            env.inside(w.transport.deliver, zipnet.ack(env, value))
        elif what == "advertisement":
            env.inside(w.transport.deliver, layouts.to_frame(env, [0x58, 0x01, 0, 5] + zipnet.address(env, 5) + [0, 0, 0, 1]))
        elif what == "same-list":
            w.arrive(1, [0x52, 0x02, k, 0, 1] + zipnet.mask_of([1, 5, 6]))
        elif what == "inclusion":
            w.fake.addresses[7] = zipnet.address(env, 7)
            w.fake.answers[(0x52, 0x03)] = lambda body: [zipnet.node_info(body[2], [0x25, 0x70])]
            w.arrive(1, [0x52, 0x02, 2 * k, 0, 1] + zipnet.mask_of([1, 5, 6, 7]))
            env.run_until(env.now() + 5000)
            env.check("7:0" in w.app.nodes, "a node is not added")
            w.arrive(7, [0x70, 0x06, 3, 1, value])
            env.run(w.app.nodes["7:0"].send(w.Basic.Set(value=1)))
            w.arrive(1, [0x52, 0x02, 2 * k + 1, 0, 1] + zipnet.mask_of([1, 5, 6]))
            env.run_until(env.now() + 5000)
            env.check("7:0" not in w.app.nodes, "a node is not removed")
        env.run_until(env.now() + 5000)
        env.reach(what)

    _same(env, w, once)


def h_mailbox(env):
    """Messages that went through the mailbox"""
    p = env.params
    w = World(env)
    what = env.choice("what", p["what"])
    handle = env.byte("handle")
    env.assume(handle != 0)
    data = [env.byte("data0"), env.byte("data1")]

    def once(k):
        if what in ("deliver", "twice", "unheard"):
            w.arrive(5, [0x69, 0x04, 0x00, handle] + data)
            env.run_until(env.now() + (100 if k % 2 else 61000))
            if what == "twice":
                w.arrive(5, [0x69, 0x04, 0x00, handle] + data)
                env.run_until(env.now() + 100)
            if what == "unheard":
                # the first try is not acknowledged
                w.fake.acks = False
                w.arrive(5, [0x69, 0x05, handle])
                env.run_until(env.now() + 5000)
                w.fake.acks = True
            w.arrive(5, [0x69, 0x05, handle])
            env.run_until(env.now() + 100)
        elif what == "refused":
            # the push cannot be answered
            w.fake.acks = False
            w.arrive(5, [0x69, 0x04, 0x00, handle] + data)
            env.run_until(env.now() + 5000)
            w.fake.acks = True
        elif what == "empty":
            w.arrive(5, [0x69, 0x05, handle])
            env.run_until(env.now() + 100)
        env.reach(what)

    _same(env, w, once)


CALLS = ["send", "request", "configuration", "set", "interview", "locked", "version", "failed", "endpoints", "info", "remove", "add", "unknown", "mode", "wait", "wait-gateway"]
CASES = []
for _h in ("ok", "unanswered", "unacked", "late"):
    CASES.append(dict(name="left-" + _h, prop="C44", fn="h_calls", params=dict(what=CALLS, how=[_h]), reach=["end", _h], weight=4))
for _c in CALLS:
    CASES.append(dict(name="left-cancel-" + _c, prop="C44", fn="h_calls", reach=["end", "cancel"], weight=3,
                      params=dict(what=[_c], how=["cancel"], until=400 if _c in ("interview", "locked") else 100), bounds="cancelled at any ms, 20 ms latency"))
ARRIVALS = ["report", "configuration", "sensor", "supervised", "stranger", "other-endpoint", "acks", "advertisement", "same-list", "inclusion"]
CASES += [
    dict(name="left-arrivals", prop="C44", fn="h_arrivals", params=dict(what=ARRIVALS), reach=["end"] + ARRIVALS, weight=4),
    dict(name="left-garbage", prop="C44", fn="h_arrivals", params=dict(what=["garbage"]), reach=["end"], weight=5, tiers=["thorough"]),
    dict(name="left-mailbox", prop="C44", fn="h_mailbox", params=dict(what=["deliver", "twice", "unheard", "refused", "empty"]),
         reach=["end", "deliver", "twice", "unheard", "refused", "empty"], weight=4),
]
