"""C21: waiting mailbox entries are kept alive on schedule

Judged on what the mailbox sent for each message: the first heartbeat a minute
after its push was answered, each further one a minute after the one before
ended, until the message is delivered and not after.
"""
import asyncio

from . import zipnet
from .c20 import POP, WAITING, ack, parts, push, receive, same, service, wakeup

PING, MINUTE = 3, 60000


def _failure(what):
    return {"ok": True, "refused": False, "timeout": asyncio.TimeoutError(), "unreachable": OSError("no route")}[what]


def _judge(env, stub, payload, end):
    """The heartbeats of one message"""
    mine = [e for e in stub.sends if same(env, parts(env, e)[3], payload)]
    env.check(mine and parts(env, mine[0])[0] == WAITING, "a push is not answered as waiting")
    due, beats, delivered = None, 0, None
    for e in mine:
        op, last, handle, _data = parts(env, e)
        if op == POP:
            if e["ok"] and delivered is None:
                delivered = e["end"]
                env.reach("delivered")
            continue
        if due is None:
            # the answer to the push
            env.check(op == WAITING, "a push is not answered as waiting")
            due = e["end"] + MINUTE if e["ok"] else None
            if not e["ok"]:
                env.reach("not queued")
            continue
        beats += 1
        env.check(delivered is None or e["start"] <= delivered, "a heartbeat for a message that was delivered")
        env.check(due is not None and e["start"] == due, "a heartbeat at another time than a minute after the one before")
        env.check(op == (PING if beats % 10 == 0 else WAITING), "every tenth heartbeat and only it is a ping")
        env.check(env.and_(last == 0, handle == mine[0]["body"][3], e["node"] == mine[0]["node"]), "a heartbeat for another queue or node")
        due = None if e["end"] is None else e["end"] + MINUTE
        env.reach("beat")
        if e["end"] is not None and not e["ok"]:
            env.reach("beat failed")
    if due is not None:
        over = end if delivered is None else delivered
        env.check(due >= over, "a message that waits is not kept alive any more")
    return beats


def h_life(env):
    """Messages pushed and asked for at any times; sends end in any way after any time"""
    p = env.params
    used = {}

    def outcome(i, body):
        op, data = int(body[2]) & 7, bytes(int(b) for b in body[4:])
        first = used.setdefault(data, 0) == 0 and op == WAITING
        used[data] += 1
        if first and not p.get("answers"):
            return True, 0
        kinds = p["pops"] if op == POP else p["answers"] if first else p["beats"]
        what = env.choice("send%d" % i, kinds) if i < p["vary"] else kinds[0]
        delay = env.int("delay%d" % i, 0, p["delay"]) if p["delay"] and i < p["vary"] else 0
        return _failure(what), delay

    svc, stub = service(env, outcome)
    last = 0
    messages = []
    for k in range(p["pushes"]):
        at = env.int("push%d" % k, 0, p["until"]) if p.get("late") else 0
        env.assume(last <= at)
        last = at
        payload = [k + 1, 7]
        messages.append(payload)
        env.at(at, lambda payload=payload, k=k: receive(env, stub, 5, push(1 + k if p.get("queues") else 1, payload)))
    for k in range(p["wakeups"]):
        at = env.int("wakeup%d" % k, 1, p["until"])
        env.assume(last < at)
        last = at
        queue = env.choice("queue%d" % k, [1, 2]) if p.get("queues") else 1
        env.at(at, lambda queue=queue: receive(env, stub, 5, wakeup(queue)))
    if p.get("again"):
        # the same message pushed once more
        at = env.int("again", 1, p["until"])
        env.assume(last < at)
        env.at(at, lambda: receive(env, stub, 5, push(1, messages[0])))
    end = p["until"] + p["after"]
    env.run_until(end)
    for k, payload in enumerate(messages):
        env.observe("beats%d" % k, _judge(env, stub, payload, end))
    env.check(not env.loop.errors, "an error escapes into the event loop")
    env.reach("end")


ANY = ["ok", "refused", "timeout", "unreachable"]
CASES = [
    dict(name="heartbeat-life", prop="C21", fn="h_life", weight=4, reach=["beat", "delivered", "end"],
         params=dict(pushes=1, wakeups=1, until=200000, after=70000, vary=6, delay=0, beats=ANY, pops=["ok", "refused"]),
         bounds="a message asked for at any time within 200 s, each heartbeat ending in any way"),
    dict(name="heartbeat-slow", prop="C21", fn="h_life", weight=4, reach=["beat", "delivered", "end"],
         params=dict(pushes=1, wakeups=1, until=130000, after=70000, vary=6, delay=3000, beats=["ok", "timeout"], pops=["ok", "timeout"]),
         bounds="a message asked for at any time within 130 s, sends taking any time"),
    dict(name="heartbeat-push", prop="C21", fn="h_life", weight=4, reach=["beat", "delivered", "not queued", "end"],
         params=dict(pushes=1, wakeups=1, until=8000, after=130000, vary=3, delay=5000, beats=["ok"], pops=["ok", "refused"], answers=["ok", "refused"]),
         bounds="a message asked for while its push is being answered"),
    dict(name="heartbeat-again", prop="C21", fn="h_life", weight=4, reach=["beat", "end"],
         params=dict(pushes=1, wakeups=0, until=130000, after=130000, vary=2, delay=3000, beats=["ok"], pops=["ok"], again=1),
         bounds="the same message pushed again at any time"),
    dict(name="heartbeat-queues", prop="C21", fn="h_life", weight=4, reach=["beat", "delivered", "end"],
         params=dict(pushes=2, wakeups=2, until=130000, after=70000, vary=0, delay=0, beats=["ok"], pops=["ok"], late=1, queues=1),
         bounds="2 messages for 2 queues, pushed and asked for at any times"),
    dict(name="heartbeat-ping", prop="C21", fn="h_life", weight=4, reach=["beat", "delivered", "end"],
         params=dict(pushes=1, wakeups=1, until=1300000, after=130000, vary=0, delay=0, beats=["ok"], pops=["ok"]),
         bounds="a message asked for at any time within 21 minutes"),
    dict(name="heartbeat-life-2", prop="C21", fn="h_life", weight=6, tiers=["thorough"],
         params=dict(pushes=2, wakeups=2, until=200000, after=70000, vary=7, delay=0, beats=["ok", "unreachable"], pops=["ok", "refused"], late=1)),
]
