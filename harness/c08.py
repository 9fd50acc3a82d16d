"""C08: requests to sleeping nodes wait as long as the gateway announces"""
import asyncio

from . import zipnet

FORMS = ["delay", "other-first", "other-last", "other-only", "none"]


def _extension(env, j, form, delay):
    """Header extension options; the announced delay may be one of several"""
    # encapsulation format information, and an option nobody knows
    other = [0x04, 0x02, env.byte("o%d" % j), env.byte("p%d" % j), 0x06, 0x01, env.byte("u%d" % j)]
    opt = zipnet.delay_option(delay)
    return {"delay": opt, "other-first": other + opt, "other-last": opt + other, "other-only": other, "none": None}[form]


def _usable(env, form, delay):
    """Seconds to wait from the announcement on"""
    if form in ("other-only", "none"):
        return 60
    return 180 if delay < 0 else delay + 60


def h_queued(env):
    """the wait for an acknowledgement, over arrivals that announce delays"""
    p = env.params
    seq = env.byte("seq")
    if p.get("send"):
        Basic = env.mod("pyzwave.commandclass.Basic")
        conn, transport = zipnet.connection(env)
        log = zipnet.Sent(env, transport)
        deliver = transport.deliver
        coro = conn.send(Basic.Set(value=1))
    else:
        conn = env.mod("pyzwave.zipconnection").ZIPConnection("fd00::1", b"psk")
        env.loop
        deliver = conn.onPacket
        coro = conn.waitForAck(seq, timeout=p.get("timeout", 3))
    done = {}

    async def wait():
        try:
            done["res"] = await coro
        except asyncio.TimeoutError:
            done["res"] = False
        done["end"] = env.now()

    task = env.task(wait())
    env.settle()
    if p.get("send"):
        seq = zipnet.seq_of(log.all()[0][1])
    lo, hi = p["delays"]
    arrivals, at = [], 0
    deadline = p.get("timeout", 3) * 1000
    ended, ok, end = False, False, deadline
    for j in range(p["arrivals"]):
        at = at + env.int("wait%d" % j, 1, p["gap"])
        kind = env.choice("kind%d" % j, p["kinds"])
        q = env.byte("q%d" % j)
        live = False
        if not ended and q == seq:
            env.assume(env.not_(at == deadline))
            live = True if at < deadline else False
            ended = not live
        if kind == "queued":
            form = env.choice("form%d" % j, p["forms"])
            delay = env.int("delay%d" % j, lo, hi)
            data = zipnet.waiting(env, q, _extension(env, j, form, delay), nackQueueFull=0)
            if live:
                deadline = at + _usable(env, form, delay) * 1000
        elif kind == "ack":
            data = zipnet.ack(env, q)
            if live:
                ok, end, ended = True, at, True
        else:
            # the delivery has failed; that is not a positive answer
            data = zipnet.packet(env, q, nackResponse=1)
        arrivals.append((kind, q, at))
        env.at(at, lambda data=data: deliver(data))
    end = end if ok else deadline
    horizon = p["gap"] * p["arrivals"] + max(hi + 60, 180) * 1000 + 5000
    env.run_until(horizon)
    env.check(task.done(), "the wait never ends")
    env.check("end" in done, "the wait ends with an unexpected error")
    if done["res"] is False:
        env.reach("timeout")
        env.check(not ok, "times out although it was acknowledged in time")
        env.check(env.or_(done["end"] == end, *[env.and_(q == seq, a == done["end"]) for k, q, a in arrivals if k == "nack"]),
                  "does not wait for the announced time")
    else:
        env.reach("acked")
        env.check(ok, "succeeds without an acknowledgement")
        env.check(done["end"] == end, "does not end with its acknowledgement")
    env.observe("end", done["end"])
    _res, exc = env.attempt_run(conn.waitForAck(seq, timeout=1))
    env.check(type(exc).__name__ == "TimeoutError", "a finished wait still occupies its number")
    env.check(not zipnet.task_errors(env, [task]), "an error escapes into the event loop")


def h_two(env):
    """announcements belong to the request they name"""
    conn = env.mod("pyzwave.zipconnection").ZIPConnection("fd00::1", b"psk")
    TimeoutError_ = asyncio.TimeoutError
    env.loop
    seqs = [env.byte("seq0"), env.byte("seq1")]
    env.assume(env.not_(seqs[0] == seqs[1]))
    ends = {}

    async def wait(i):
        try:
            await conn.waitForAck(seqs[i], timeout=3)
            ends[i] = (True, env.now())
        except TimeoutError_:
            ends[i] = (False, env.now())

    for i in range(2):
        env.task(wait(i))
        env.settle()
    q = env.byte("q")
    a = env.int("at", 1, 2999)
    delay = env.int("delay", -(1 << 23), (1 << 23) - 1)
    env.at(a, lambda: conn.onPacket(zipnet.waiting(env, q, zipnet.delay_option(delay))))
    env.run_until((1 << 23) * 1000 + 100000)
    for i in range(2):
        env.check(i in ends, "the wait never ends")
        env.check(ends[i][0] is False, "succeeds without an acknowledgement")
        env.check(ends[i][1] == (a + (180 if delay < 0 else delay + 60) * 1000 if q == seqs[i] else 3000),
                  "an announcement changes the wait of another request")


FULL = (-(1 << 23), (1 << 23) - 1)
SMALL = (-64, 63)
DAY = 1 << 34
ASSUME = ["arrivals at the very instant of the timeout are excluded",
          "a negative acknowledgement may end the wait or be ignored"]
CASES = [
    dict(name="queued-1", prop="C08", fn="h_queued",
         params=dict(arrivals=1, kinds=["queued"], forms=FORMS, delays=FULL, gap=DAY), reach=["timeout"], assumes=ASSUME),
    dict(name="queued-2", prop="C08", fn="h_queued",
         params=dict(arrivals=2, kinds=["queued", "ack", "nack"], forms=FORMS[:2] + ["none"], delays=FULL, gap=DAY),
         reach=["timeout", "acked"], assumes=ASSUME, weight=3),
    dict(name="queued-3", prop="C08", fn="h_queued",
         params=dict(arrivals=3, kinds=["queued", "ack"], forms=["delay"], delays=SMALL, gap=1 << 18),
         reach=["timeout", "acked"], assumes=ASSUME, weight=5),
    dict(name="queued-send", prop="C08", fn="h_queued",
         params=dict(arrivals=2, kinds=["queued", "ack"], forms=["delay"], delays=(-3, 20), gap=90000, send=1),
         reach=["timeout", "acked"], assumes=ASSUME, weight=6),
    dict(name="queued-two", prop="C08", fn="h_two"),
    dict(name="queued-3-deep", prop="C08", fn="h_queued",
         params=dict(arrivals=3, kinds=["queued", "ack", "nack"], forms=FORMS, delays=SMALL, gap=1 << 18),
         assumes=ASSUME, weight=7, tiers=["thorough"]),
    dict(name="queued-4-deep", prop="C08", fn="h_queued",
         params=dict(arrivals=4, kinds=["queued", "ack"], forms=["delay", "none"], delays=SMALL, gap=1 << 18, timeout=30),
         assumes=ASSUME, weight=9, tiers=["thorough"]),
]
