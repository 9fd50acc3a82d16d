"""C20: the mailbox keeps each message until it is delivered, in order"""
import asyncio

from . import zipnet, layouts

WAITING, POP = 2, 1


class Stub:
    """An adapter: keeps what is sent and ends each send as the environment says"""

    def __init__(self, env, plan):
        self.env, self.plan, self.sends, self.listeners = env, plan, [], []

    def addListener(self, listener):
        self.listeners.append(listener)

    async def sendToNode(self, nodeId, cmd, **_kwargs):
        env = self.env
        body = cmd.compose()
        entry = dict(start=env.now(), node=nodeId, body=body, end=None, ok=None)
        entry["index"] = len(self.sends)
        self.sends.append(entry)
        ok, delay = self.plan(len(self.sends) - 1, body)
        if delay:
            await asyncio.sleep(delay / 1000)
        entry["end"], entry["ok"] = env.now(), ok is True
        if isinstance(ok, Exception):
            raise ok
        return ok


def service(env, plan):
    stub = Stub(env, plan)
    env.loop
    return env.mod("pyzwave.mailbox").MailboxService(stub), stub


def receive(env, stub, node, body):
    """A message for the mailbox arrives"""
    Message = env.mod("pyzwave.message").Message
    msg = Message.decode(layouts.to_frame(env, body))
    for listener in stub.listeners:
        task = env.loop.create_task(listener.messageReceived(stub, node, 0, msg, {}))
        # failures of sends end up here; they are logged by whoever called the listener
        env.own.append(task)
    return env.own[-len(stub.listeners):]


def push(handle, payload):
    return [0x69, 0x04, 0, handle] + payload


def wakeup(handle):
    return [0x69, 0x05, handle]


def ack(handle):
    return [0x69, 0x04, 4, handle]


def parts(env, entry):
    """operation, last, handle and payload of a message sent"""
    body = entry["body"]
    env.check(len(body) >= 4, "a mailbox message without handle")
    env.check(env.and_(body[0] == 0x69, body[1] == 0x04), "another message than a mailbox queue message")
    return body[2] & 7, (body[2] >> 3) & 1, body[3], body[4:]


def same(env, data, payload):
    return env.and_(len(data) == len(payload), *[data[i] == payload[i] for i in range(len(payload))]) if len(data) == len(payload) else False


def _payload(env, name, size):
    return [env.byte("%s.%d" % (name, i)) for i in range(size)]


def h_sequence(env):
    """Pushes, wake-ups and acknowledgements one after the other, each send delivered or not"""
    p = env.params
    def outcome(i, _body):
        return {"ok": True, "refused": False, "timeout": asyncio.TimeoutError()}[
            env.choice("send%d" % i, p["outcomes"])], 0
    svc, stub = service(env, outcome)
    queue = []       # (handle, payload) in the order they were accepted
    woken = None
    for k in range(p["steps"]):
        what = env.choice("what%d" % k, ["push", "wakeup", "ack", "ack0"] if k else ["push", "wakeup"])
        node = env.choice("node%d" % k, [0, 5] if p.get("nodes") else [0])
        before = len(stub.sends)
        if what == "push":
            handle, payload = env.byte("handle%d" % k), _payload(env, "payload%d" % k, p.get("size", 2))
            receive(env, stub, node, push(handle, payload))
            env.settle()
            new = stub.sends[before:]
            if any(h == handle and same(env, payload, q) for h, q in queue):
                env.check(not new, "a message that waits already is queued again")
                env.reach("duplicate")
                continue
            env.check(len(new) == 1, "a push is not answered once")
            op, last, to, data = parts(env, new[0])
            env.check(env.and_(op == WAITING, last == 0, to == handle, same(env, data, payload), new[0]["node"] == node),
                      "a push is not answered as waiting")
            if new[0]["ok"]:
                queue.append((handle, payload))
            continue
        if what == "ack0":
            if woken is None:
                env.assume(False)
            handle = woken
            receive(env, stub, node, ack(0))
        elif what == "ack":
            handle = env.byte("handle%d" % k)
            env.assume(handle != 0)
            receive(env, stub, node, ack(handle))
        else:
            handle = woken = env.byte("handle%d" % k)
            receive(env, stub, node, wakeup(handle))
        env.settle()
        new = stub.sends[before:]
        env.check(len(new) == 1, "a wake-up is not answered once")
        op, last, to, data = parts(env, new[0])
        env.check(env.and_(op == POP, to == handle, new[0]["node"] == node), "a wake-up is not answered for its queue")
        mine = [i for i, (h, _q) in enumerate(queue) if h == handle]
        if not mine:
            env.check(env.and_(len(data) == 0, last == 1), "a message out of an empty queue")
            env.reach("empty")
            continue
        env.check(same(env, data, queue[mine[0]][1]), "not the oldest message of the queue")
        env.check(last == (1 if len(mine) == 1 else 0), "wrongly marked as the last message")
        if new[0]["ok"]:
            del queue[mine[0]]
            env.reach("delivered")
        else:
            env.reach("kept")
    env.reach("end")


def h_overlap(env):
    """Messages arrive at any times while sends take their time"""
    p = env.params
    def outcome(i, body):
        what = env.choice("send%d" % i, p["outcomes"])
        return {"ok": True, "refused": False, "timeout": asyncio.TimeoutError()}[what], (
            3000 if what == "timeout" else env.int("delay%d" % i, 0, p["delay"]))
    calm = []
    svc, stub = service(env, lambda i, body: (True, 0) if calm else outcome(i, body))
    pushed, last = [], 0
    for k in range(p["fill"]):
        calm.append(1)
        pushed.append([k + 1, 7])
        receive(env, stub, 0, push(1, pushed[-1]))
        env.settle()
        calm.clear()
    first = len(stub.sends)
    env.check(first == p["fill"], "a push is not answered once")
    for k in range(p["steps"]):
        what = env.choice("what%d" % k, p["kinds"])
        at = env.int("at%d" % k, 1, p["until"])
        env.assume(last < at)
        last = at
        if what == "push":
            payload = [0x40 + k, 7]
            if env.choice("same%d" % k, [0, 1]) and pushed:
                payload = pushed[0]
            env.at(at, lambda payload=payload: receive(env, stub, 0, push(1, payload)))
        elif what == "wakeup":
            env.at(at, lambda: receive(env, stub, 0, wakeup(1)))
        else:
            env.at(at, lambda: receive(env, stub, 0, ack(1)))
    env.run_until(p["until"] + 20000)
    # from now on everything works; all that still waits is delivered
    calm.append(1)
    for _k in range(p["fill"] + p["steps"] + 1):
        receive(env, stub, 0, wakeup(1))
        env.settle()
    env.check(len(stub.sends) <= first + 2 * p["steps"] + p["fill"] + p["steps"] + 1, "more messages than asked for")
    waiting = []      # accepted and not delivered yet: (payload, accepted when)
    pops, times = [], []
    for e in stub.sends:
        op, is_last, _handle, data = parts(env, e)
        payload = [int(b) for b in data]
        env.check(e["end"] is not None, "a send does not end")
        if op == WAITING:
            times.append((e["end"], 0, e["index"], payload, e["ok"], e["start"]))
        elif payload:
            pops.append((payload, e))
        else:
            env.check(is_last == 1, "an empty queue that is not at its end")
    # two messages are never handed out at the same time
    for (_a, x), (_b, y) in zip(pops, pops[1:]):
        env.check(x["end"] <= y["start"], "the next message is handed out before it is known whether the one before arrived")
    order = [payload for payload, e in pops if e["ok"]]
    accepted = [t[3] for t in times if t[4]]
    env.check(len(order) == len([1 for _p in accepted]) or p.get("push"), "a message is lost or delivered twice")
    if not p.get("push"):
        env.check(order == accepted, "messages are not handed back in order")
    else:
        # a push that is handed out before its answer failed may or may not count as delivered
        sure = [t for t in times if t[4]]
        for t in sure:
            env.check(t[3] in order, "a message is lost")
        for payload in order:
            env.check(payload in [t[3] for t in times], "a message out of nowhere")
        env.check(len(order) <= len(times), "a message is delivered twice")
        starts = [t[3] for t in times]
        if len(set(map(tuple, starts))) == len(starts):
            rank = [starts.index(x) for x in order]
            env.check(rank == sorted(rank) and len(set(rank)) == len(rank), "messages are not handed back in order")
    env.check(not env.loop.errors, "an error escapes into the event loop")
    env.reach("end")
    if any(not e["ok"] for _p, e in pops):
        env.reach("kept")


def h_configure(env):
    """The gateway is told to forward to this address and port"""
    import ipaddress
    raw, port = env.bytes("address", 16), env.bits("port", 16)
    sent = []

    class Adapter(Stub):
        async def send(self, cmd, **_kwargs):
            sent.append(cmd.compose())
            return True

    svc = env.mod("pyzwave.mailbox").MailboxService(Adapter(env, None))
    types = env.mod("pyzwave.types")
    env.run(svc.initialize(types.IPv6(raw), port))
    want = [0x69, 0x02, 2] + [raw[i] for i in range(16)] + [port >> 8, port & 255]
    env.check(len(sent) == 1 and len(sent[0]) == len(want), "the mailbox is not configured once")
    env.check(same(env, sent[0], want), "the mailbox is configured otherwise than asked for")
    env.reach("end")


ASSUME = ["different waiting messages have different CRC16 checksums (two byte messages always do)",
          "an acknowledgement without queue handle before the first wake-up is excluded"]
CASES = [
    dict(name="mailbox-sequence", prop="C20", fn="h_sequence", weight=6, reach=["delivered", "kept", "duplicate", "empty", "end"], assumes=ASSUME,
         params=dict(steps=4, outcomes=["ok", "refused"]), bounds="4 events with any handles and two byte payloads"),
    dict(name="mailbox-failures", prop="C20", fn="h_sequence", weight=4, reach=["delivered", "kept", "end"], assumes=ASSUME,
         params=dict(steps=3, outcomes=["ok", "refused", "timeout"]), bounds="3 events, sends also ending in timeouts"),
    dict(name="mailbox-senders", prop="C20", fn="h_sequence", weight=2, reach=["delivered", "end"], assumes=ASSUME,
         params=dict(steps=2, outcomes=["ok"], nodes=1), bounds="2 events of 2 nodes"),
    dict(name="mailbox-overlap", prop="C20", fn="h_overlap", weight=6, reach=["kept", "end"], assumes=ASSUME,
         params=dict(fill=2, steps=3, kinds=["wakeup"], outcomes=["ok", "refused", "timeout"], delay=4000, until=6000),
         bounds="2 messages, 3 wake-ups at any times, sends taking any time"),
    dict(name="mailbox-overlap-push", prop="C20", fn="h_overlap", weight=6, reach=["kept", "end"], assumes=ASSUME,
         params=dict(fill=1, steps=3, kinds=["push", "ack"], outcomes=["ok", "refused"], delay=3000, until=6000, push=1),
         bounds="1 message, 3 pushes or acknowledgements at any times, sends taking any time"),
    dict(name="mailbox-configure", prop="C20", fn="h_configure", reach=["end"], params={}),
    dict(name="mailbox-sequence-6", prop="C20", fn="h_sequence", weight=10, tiers=["thorough"], assumes=ASSUME,
         params=dict(steps=5, outcomes=["ok", "refused"], size=1)),
    dict(name="mailbox-overlap-4", prop="C20", fn="h_overlap", weight=8, tiers=["thorough"], assumes=ASSUME,
         params=dict(fill=2, steps=4, kinds=["push", "ack"], outcomes=["ok", "refused"], delay=3000, until=6000, push=1)),
]
