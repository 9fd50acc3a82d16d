"""C23: configuration values keep their number, size and value"""
import asyncio

from . import nodes, zipnet

WAIT = 3000


def _value(env, name, size):
    return [env.byte("%s.%d" % (name, i)) for i in range(size)]


def _number(data):
    value = 0
    for b in data:
        value = value * 256 + b
    return value


def _report(number, data, high=0):
    return [0x70, 0x06, number, high * 8 + len(data)] + data


def _same(body, want):
    return len(body) == len(want) and body == bytes(want)


def _lookup(env, known, number):
    """the last entry for a number"""
    for n, size, value in reversed(known):
        if n == number:
            return (size, value)
    return None


def h_store(env):
    """Any reports one after the other; each is kept under its number"""
    p = env.params
    node, stub = nodes.node(env, [0x70])
    cc = node.supported[0x70]
    updates = nodes.Updates(env)
    known = []
    for k in range(p["reports"]):
        size = env.choice("size%d" % k, [1, 2, 4])
        number, data = env.byte("number%d" % k), _value(env, "value%d" % k, size)
        env.run(node.handleMessage(nodes.message(env, _report(number, data, env.bits("reserved%d" % k, 5))), {}))
        known.append((number, size, _number(data)))
    asked = env.byte("asked")
    want = _lookup(env, known, asked)
    if want is not None:
        got, exc = env.attempt_run(cc.get(asked))
        env.check(exc is None and not stub.sends, "a value that is known is asked for")
        env.check(env.eq(got, want[1]), "another value than the last one reported for the parameter")
        env.check(env.eq(cc.parameters[asked].size, want[0]), "another size than the last one reported for the parameter")
        env.reach("cached")
    else:
        env.check(asked not in cc.parameters, "a value for a parameter that was not reported")
        env.reach("unknown")
    for number, _size, _v in known:
        size, value = _lookup(env, known, number)
        env.check(number in cc.parameters, "a reported value is lost")
        env.check(env.and_(env.eq(cc.parameters[number].value, value), env.eq(cc.parameters[number].size, size)),
                  "a reported value is changed by another report")
    env.check(not stub.sends, "a report is answered")


def h_get(env):
    """Parameters asked for while reports about any parameters come in"""
    p = env.params
    node, stub = nodes.node(env, [0x70])
    cc = node.supported[0x70]
    asked = [env.byte("asked%d" % i) for i in range(p["gets"])]
    begin = env.now()
    tasks, start = [], 0
    ends = {}

    async def one(i):
        try:
            ends[i] = ("value", await cc.get(asked[i], **({"cached": False} if p.get("force") else {})), env.now())
        except asyncio.TimeoutError:
            ends[i] = ("timeout", None, env.now())

    known, waiting = [], []
    for i in range(len(asked)):
        before = _lookup(env, known, asked[i])
        env.own.append(env.loop.create_task(one(i)))
        env.settle()
        env.check(len(stub.sends) == i + 1 and _same(stub.sends[i][2], [0x70, 0x05, asked[i]]),
                  "the parameter asked for is not requested")
        waiting.append(i)
    last, want = 0, {}
    for k in range(p["reports"]):
        size = env.choice("size%d" % k, p["sizes"])
        number, data = env.byte("number%d" % k), _value(env, "value%d" % k, size)
        at = env.int("at%d" % k, 1, 4000)
        env.assume(env.and_(last < at, env.not_(at == WAIT)))
        last = at
        nodes.deliver(env, node, _report(number, data), at)
        known.append((number, size, _number(data)))
        for i in waiting:
            if at < WAIT and asked[i] == number:
                # the one asking the longest gets it
                want[i] = (_number(data), at)
                waiting.remove(i)
                break
    env.run_until(begin + 8000)
    for i in range(len(asked)):
        env.check(i in ends, "a request does not end")
        what, value, when = ends[i]
        if i in want:
            env.check(what == "value" and env.eq(value, want[i][0]), "another value than reported for the parameter asked for")
            env.check(when == begin + want[i][1], "the value is not returned when it is reported")
            env.reach("answered")
        else:
            env.check(what == "timeout", "a value though the parameter was not reported")
            env.check(when == begin + WAIT, "a request ends at another time")
            env.reach("timeout")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.observe("ends", sorted((i, w) for i, (w, _v, _t) in ends.items()))


def h_force(env):
    """A fresh value is asked for when wanted"""
    node, stub = nodes.node(env, [0x70])
    cc = node.supported[0x70]
    number = env.byte("number")
    first, second = _value(env, "first", 2), _value(env, "second", env.choice("size", [1, 2, 4]))
    env.run(node.handleMessage(nodes.message(env, _report(number, first)), {}))
    stub.answers[(0x70, 0x05)] = lambda body: [_report(body[2], second)]
    env.check(env.eq(env.run(cc.get(number)), _number(first)), "another value than reported")
    env.check(not stub.sends, "a value that is known is asked for")
    env.check(env.eq(env.run(cc.get(number, cached=False)), _number(second)), "not the fresh value though it was asked for")
    env.check(len(stub.sends) == 1 and _same(stub.sends[0][2], [0x70, 0x05, number]), "the parameter asked for is not requested")
    env.reach("end")


def h_set(env):
    """A value is written with its number and size, to its node"""
    node, stub = nodes.node(env, [0x70])
    cc = node.supported[0x70]
    size = env.choice("size", [1, 2, 4])
    number, data = env.byte("number"), _value(env, "value", size)
    stub.ok = env.choice("ok", [True, False])
    Size = env.mod("pyzwave.commandclass.Configuration").Size
    how = Size(size) if env.choice("enum", [0, 1]) else size
    result, exc = env.attempt_run(cc.set(number, how, _number(data)))
    env.check(exc is None and env.eq(result, stub.ok), "success is not what the node reported")
    env.check(len(stub.sends) == 1 and stub.sends[0][1] == 5, "not sent once to the node")
    env.check(_same(stub.sends[0][2], [0x70, 0x04, number, size] + data), "another value, size or number is written")
    env.reach("end")


def h_bytes(env):
    """Reports of any bytes change no other parameter"""
    p = env.params
    node, stub = nodes.node(env, [0x70])
    cc = node.supported[0x70]
    env.run(node.handleMessage(nodes.message(env, _report(7, [1, 2])), {}))
    body = [0x70, 0x06] + [env.byte("b%d" % i) for i in range(env.size("len", 0, p["bytes"]))]
    msg, exc = env.attempt(nodes.message, env, body)
    if exc is None:
        _r, exc = env.attempt_run(node.handleMessage(msg, {}))
    # reports without a value are not looked at: they name a parameter but say nothing about it
    valid = len(body) > 4 and len(body) - 4 >= (body[3] & 7)
    if len(body) < 3 or body[2] != 7:
        env.check(env.and_(env.eq(cc.parameters[7].value, 0x102), env.eq(cc.parameters[7].size, 2)), "another parameter is changed")
    if valid:
        n = int(body[3] & 7)
        env.check(env.eq(cc.parameters[body[2]].value, _number(body[4:4 + n])), "another value than reported")
        env.reach("valid")
    else:
        env.reach("malformed")


CASES = [
    dict(name="configuration-store", prop="C23", fn="h_store", weight=4, reach=["cached", "unknown"], params=dict(reports=3),
         bounds="3 reports of any numbers, sizes and values"),
    dict(name="configuration-get", prop="C23", fn="h_get", weight=4, reach=["answered", "timeout"], params=dict(gets=2, reports=2, sizes=[1, 4]),
         bounds="2 parameters asked for, 2 reports at any times"),
    dict(name="configuration-force", prop="C23", fn="h_force", reach=["end"], params={}),
    dict(name="configuration-set", prop="C23", fn="h_set", reach=["end"], params={}, bounds="any number, size and value"),
    dict(name="configuration-bytes", prop="C23", fn="h_bytes", weight=2, reach=["valid", "malformed"], params=dict(bytes=7),
         bounds="reports of up to 7 arbitrary bytes"),
    dict(name="configuration-get-3", prop="C23", fn="h_get", weight=6, tiers=["thorough"], params=dict(gets=3, reports=3, sizes=[1, 2], force=1)),
    dict(name="configuration-store-5", prop="C23", fn="h_store", weight=6, tiers=["thorough"], params=dict(reports=4)),
]
