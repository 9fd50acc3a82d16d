"""C11: every listener hears every event exactly once, in isolation

Listeners of every kind in every order; the model is one line per kind.
"""
import asyncio

ABSENT, SYNC, RAISES, ASYNC, ASYNC_RAISES, SLOW, CANCELS = range(7)
KINDS = 7


class Failure(Exception):
    """Raised by listeners"""


def make(env, kind, index, log, delay):
    class Base:
        pass

    def got(args):
        log.append((index,) + args)

    class Sync(Base):
        def event(self, *args):
            got(args)
            return ("answer", index)

    class Raises(Base):
        def event(self, *args):
            got(args)
            raise Failure()

    class Async(Base):
        async def event(self, *args):
            got(args)
            return ("answer", index)

    class AsyncRaises(Base):
        async def event(self, *args):
            got(args)
            raise Failure()

    class Slow(Base):
        async def event(self, *args):
            got(args)
            await asyncio.sleep(delay)
            return ("answer", index)

    class Cancels(Base):
        async def event(self, *args):
            got(args)
            raise asyncio.CancelledError()

    return (Base, Sync, Raises, Async, AsyncRaises, Slow, Cancels)[kind]()


def h_listeners(env):
    p = env.params
    util = env.mod("pyzwave.util")
    loop = env.loop
    speaker = util.Listenable()
    log = []
    kinds = []
    for i in range(p["listeners"]):
        kind = env.choice("kind%d" % i, range(KINDS))
        kinds.append(kind)
        speaker.addListener(make(env, kind, i, log, p["listeners"] - i))
    args = tuple(env.byte("arg%d" % i) for i in range(p["args"]))
    answering = [i for i, k in enumerate(kinds) if k in (SYNC, ASYNC, SLOW)]
    hearing = [i for i, k in enumerate(kinds) if k != ABSENT]
    for event in range(p["events"]):
        del log[:]
        if env.choice("how%d" % event, ["ask", "speak"]) == "ask":
            result, exc = env.attempt_run(speaker.ask("event", *args))
            env.check(exc is None, "the failure of a listener reaches the one who asks")
            env.check(result == [("answer", i) for i in answering],
                      "who asks does not get the results of the listeners that answered, in order")
            env.reach("asked")
        else:
            _result, exc = env.attempt(env.inside, speaker.speak, "event", *args)
            env.check(exc is None, "the failure of a listener reaches the one who speaks")
            env.settle()
            env.reach("spoken")
        env.check(sorted(entry[0] for entry in log) == hearing,
                  "not every listener that handles the event hears it exactly once")
        for sync in (True, False):
            order = [e[0] for e in log if (kinds[e[0]] in (SYNC, RAISES)) == sync]
            env.check(order == sorted(order), "listeners are not called in the order of registration")
        for entry in log:
            env.check(len(entry) == 2 + len(args), "wrong number of arguments")
            env.check(entry[1] is speaker, "the listener is not told who speaks")
            for given, heard in zip(args, entry[2:]):
                env.check(env.eq(given, heard), "a listener gets other arguments")
    env.check(loop.time().t >= 0, "the loop is gone")
    env.observe("log", [(e[0],) + e[2:] for e in log])


def h_overlap(env):
    """Events asked at the same time do not mix, whatever the listeners do"""
    util = env.mod("pyzwave.util")
    env.loop
    speaker = util.Listenable()
    log = []
    kinds = []
    for i in range(2):
        kind = env.choice("kind%d" % i, [SYNC, ASYNC, SLOW, RAISES, ASYNC_RAISES])
        kinds.append(kind)

        class Answer:
            pass

        def sync(self, _speaker, value, i=i, kind=kind):
            log.append((i, value))
            if kind == RAISES:
                raise Failure()
            return (i, value)

        async def coro(self, _speaker, value, i=i, kind=kind):
            log.append((i, value))
            if kind == SLOW:
                await asyncio.sleep(1 + i)
            if kind == ASYNC_RAISES:
                raise Failure()
            return (i, value)

        Answer.event = sync if kind in (SYNC, RAISES) else coro
        speaker.addListener(Answer())
    first, second = env.byte("first"), env.byte("second")
    one, two = env.task(speaker.ask("event", first)), env.task(speaker.ask("event", second))
    env.run_until(10000)
    for task, value in ((one, first), (two, second)):
        env.check(task.done(), "asking does not end")
        env.check(task.exception() is None, "the failure of a listener reaches the one who asks")
        result = task.result()
        expected = [i for i, k in enumerate(kinds) if k in (SYNC, ASYNC, SLOW)]
        env.check([r[0] for r in result] == expected, "not the listeners that answered")
        for r in result:
            env.check(env.eq(r[1], value), "an answer to another question")
    for i in range(2):
        heard = [v for j, v in log if j == i]
        env.check(len(heard) == 2, "not heard exactly once each")
        env.check(env.or_(env.and_(env.eq(heard[0], first), env.eq(heard[1], second)),
                          env.and_(env.eq(heard[0], second), env.eq(heard[1], first))), "other arguments")
    env.reach("done")


def cases():
    base = dict(prop="C11", module="c11")
    out = []
    for n, tiers in ((1, None), (2, None), (3, None), (4, ["thorough"])):
        case = dict(base, name="listeners-%d" % n, fn="h_listeners",
                    params=dict(listeners=n, args=n % 3, events=1 if n > 2 else 2), reach=["asked", "spoken"],
                    samples=8, weight=7 ** (n - 1),
                    bounds="%d listeners of 7 kinds in every order, %d events" % (n, 1 if n > 2 else 2))
        if tiers:
            case["tiers"] = tiers
        out.append(case)
    out.append(dict(base, name="overlapping-events", fn="h_overlap", params={}, reach=["done"], samples=8, weight=5,
                    bounds="2 events asked at the same time, 2 listeners of 5 kinds"))
    return out


CASES = cases()
