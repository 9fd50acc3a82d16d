"""C40: what the network reported survives a restart

The whole system runs: the gateway connection, the application and the YAML
files.  Nodes are interviewed and report things; the program ends, at any time,
and is started again over the same files.
"""
import shutil
import tempfile

from . import zipnet
from .c14 import copy
from .c33 import _address_of

INFOS = {2: [0x72, 0x70, 0x86], 3: [0x60, 0x59]}
ENDPOINTS = {3: [[0x31, 0x70]]}
NAMES = ["2:0", "3:0", "3:1"]


def _stored(env, fn):
    """Runs fn(make) where make() is a YamlStorage; every one uses the same directory"""
    Storage = env.mod("pyzwave.persistantstorage").YamlStorage
    if env.symbolic:
        return fn(lambda: Storage("/store"))
    path = tempfile.mkdtemp()
    try:
        import os
        os.mkdir(os.path.join(path, "nodes"))
        return fn(lambda: Storage(path))
    finally:
        shutil.rmtree(path, ignore_errors=True)


def _who(fake):
    """Node id and endpoint the current request is for"""
    transport, data = fake.current
    raw = _address_of(transport)
    return raw[15], int(data[6])


class World:
    """What the nodes say; every node and endpoint says something of its own"""

    def __init__(self, env):
        self.env = env
        self.versions = {}
        self.silent = set()
        self.count = 0

    def byte(self, name):
        self.count += 1
        return self.env.byte("%s.%d" % (name, self.count))

    def fill(self, fake):
        env = self.env
        fake.from_endpoint = True

        def answer(fn):
            def run(body):
                who = _who(fake)
                if who in self.silent:
                    return []
                return fn("%d:%d" % who, body)
            return run

        def version(who, body):
            key = (who, int(body[2]))
            if key not in self.versions:
                self.versions[key] = 5 if body[2] == 0x31 else env.byte("version-%s-%02x" % key)
                env.assume(self.versions[key] != 0)
            return [[0x86, 0x14, body[2], self.versions[key]]]

        fake.answers[(0x86, 0x13)] = answer(version)
        fake.answers[(0x86, 0x11)] = answer(lambda who, body: [[0x86, 0x12] + [self.byte("lib") for _ in range(5)]])
        fake.answers[(0x72, 0x04)] = answer(lambda who, body: [[0x72, 0x05] + [self.byte("product") for _ in range(6)]])
        fake.answers[(0x31, 0x01)] = answer(lambda who, body: [[0x31, 0x02, 0x05]])
        fake.answers[(0x31, 0x03)] = answer(lambda who, body: [[0x31, 0x06, body[2], self.byte("scales")]])
        fake.answers[(0x59, 0x03)] = answer(lambda who, body: [
            [0x59, 0x04, 0x81, 1, 0, self.byte("profile"), self.byte("profile"), 0, 0, 0]])
        fake.answers[(0x59, 0x01)] = answer(lambda who, body: [[0x59, 0x02, body[2], 2, 0x41, 0x42]])
        fake.answers[(0x59, 0x05)] = answer(lambda who, body: [
            [0x59, 0x06, body[3], 2, self.byte("group.class"), self.byte("group.command")]])


def _start(env, make, world):
    """The program starts"""
    app, gw, fake, transport, uns = zipnet.application(env, INFOS, storage=make(), endpoints=ENDPOINTS)
    world.fill(fake)
    env.check(sorted(app.nodes) == NAMES, "not every node is there")
    return app, gw, fake, uns


def _state(cls):
    return copy(cls.__getstate__())


def _compare(env, before, after, unsure=()):
    """Every class of every node is as it was, but for the ones being interviewed"""
    for name in NAMES:
        one, two = before.nodes[name], after.nodes[name]
        env.check(list(one.supported) == list(two.supported), "another set of classes")
        for cid in one.supported:
            if (name, cid) in unsure:
                continue
            a, b = one.supported[cid], two.supported[cid]
            env.check(a.version == b.version, "another version after a restart")
            env.check(type(b.interviewed) is bool and a.interviewed == b.interviewed, "another interview state after a restart")
            env.check(_state(a) == _state(b), "other data after a restart")


def _report(env, app, uns, name, k):
    """A configuration report of the node, at the unsolicited port"""
    node, ep = [int(x) for x in name.split(":")]
    size = env.choice("size%d" % k, [1, 2])
    number = env.byte("number%d" % k)
    value = [env.byte("value%d.%d" % (k, i)) for i in range(size)]
    body = [0x70, 0x06, number, size] + value
    env.inside(uns.deliver, zipnet.command(env, env.byte("seq%d" % k), body, src=ep, dst=0), ("fd00::%x" % node, 4123, 0, 0))
    env.settle()


def h_history(env):
    """Interviews and reports in any order, and a restart after any of them"""
    p = env.params

    def run(make):
        world = World(env)
        app, gw, fake, uns = _start(env, make, world)
        started = app
        for k in range(p["steps"]):
            what = env.choice("step%d" % k, p["what"])
            kind, name = what.split(" ")[0], what.split(" ")[-1]
            if kind == "interview":
                lock = env.choice("lock%d" % k, p["locks"])
                node = app.nodes[name]
                world.silent = {tuple(int(x) for x in name.split(":"))} if env.choice("silent%d" % k, p["silent"]) else set()

                async def interview():
                    if lock:
                        with node.storageLock():
                            await node.interview()
                    else:
                        await node.interview()

                _r, exc = env.attempt_run(interview())
                env.check(exc is None, "an interview raises")
                env.run_until(env.now() + 10)
                if any(c.interviewed for c in node.supported.values()):
                    env.reach("interviewed")
            elif kind == "report":
                _report(env, app, uns, name, k)
            elif kind == "restart":
                before = app
                app, gw, fake, uns = _start(env, make, world)
                _compare(env, before, app)
                env.reach("restarted")
        before = app
        app, gw, fake, uns = _start(env, make, world)
        _compare(env, before, app)
        if p.get("nothing") and before is started:
            env.reach("once")
        env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
        env.reach("end")
    _stored(env, run)


def h_crash(env):
    """The program ends at any time during an interview"""
    p = env.params

    def run(make):
        world = World(env)
        app, gw, fake, uns = _start(env, make, world)
        name = env.choice("node", p["nodes"])
        node = app.nodes[name]
        other = env.choice("other", [n for n in p["others"] if n != name])
        _report(env, app, uns, other, 0)
        fake.latency = p["latency"]
        again = env.choice("again", [0, 1])
        if again:
            env.run(node.interview())
            env.run_until(env.now() + 10 * p["latency"])
        memory = {cid: _state(cls) for cid, cls in node.supported.items()}
        task = env.task(node.interview())
        env.run_until(env.now() + env.int("time", 0, p["until"]))
        pending = not task.done()
        unsure, found = set(), False
        if pending:
            task.cancel()       # its program is gone
            # classes before the one being interviewed are complete, the ones after it untouched
            for cid, cls in node.supported.items():
                if not found and cls.interviewed and (not again or _state(cls) != memory[cid]):
                    continue
                if not found:
                    found = True
                    unsure.add((name, cid))
            env.reach("during")
        else:
            env.reach("after")
        fresh = World(env)
        fresh.versions = world.versions
        fresh.count = 1000
        new, gw, fake, uns = _start(env, make, fresh)
        _compare(env, app, new, unsure)
        env.reach("end")
    _stored(env, run)


def h_known(env):
    """Whoever is told about a node that was saved sees it as it was"""
    def run(make):
        world = World(env)
        app, gw, fake, uns = _start(env, make, world)
        name = env.choice("node", ["2:0", "3:1"])
        env.run(app.nodes[name].interview())
        _report(env, app, uns, name, 0)
        env.settle()
        seen = {}

        class Client:
            async def nodeAdded(self, _app, node):
                seen[node.nodeId] = {cid: _state(cls) for cid, cls in node.supported.items()}

        nodes = sorted([1] + list(INFOS))
        gw, fake, _t, uns = zipnet.gateway(env, nodes)
        fake.answers[(0x52, 0x03)] = lambda body: [zipnet.node_info(body[2], INFOS.get(int(body[4]), []))]
        zipnet.endpoint_answers(fake, ENDPOINTS)
        fake.answers[(0x52, 0x0B)] = lambda body: [[0x52, 0x0C, body[2]] + [0] * 29]
        new = env.mod("pyzwave.application").Application(gw, make())
        new.addListener(Client())
        env.run(new.startup())
        env.settle()
        env.check(sorted(seen) == NAMES, "not every node is announced")
        for n in NAMES:
            for cid, cls in app.nodes[n].supported.items():
                env.check(seen[n][cid] == _state(cls), "a node is announced before it is what it was")
        sent = len(fake.requests)
        if name == "2:0":
            for number in list(app.nodes[name].supported[0x70].parameters):
                env.check(env.run(new.nodes[name].supported[0x70].get(number)) == app.nodes[name].supported[0x70].parameters[number].value,
                          "another configuration value after a restart")
            env.check(len(fake.requests) == sent, "what is known is asked for again after a restart")
        env.reach("end")
    _stored(env, run)


ASSUME = "the directory of the storage exists and keeps what is written to it"
WHAT = ["interview 2:0", "interview 3:0", "interview 3:1", "report 2:0", "report 3:1", "restart"]
CASES = [
    dict(name="restart-history", prop="C40", fn="h_history", params=dict(steps=2, what=WHAT, locks=[0], silent=[0]),
         reach=["end", "interviewed", "restarted"], weight=6, assumes=ASSUME, bounds="2 interviews, reports or restarts in any order, then a restart"),
    dict(name="restart-locks", prop="C40", fn="h_history",
         params=dict(steps=2, what=["interview 2:0", "interview 3:1", "report 2:0"], locks=[0, 1], silent=[0, 1]),
         reach=["end", "interviewed"], weight=6, assumes=ASSUME, bounds="2 interviews or reports, storage locked or not, answered or not"),
    dict(name="restart-history-3", prop="C40", fn="h_history", params=dict(steps=3, what=WHAT, locks=[0, 1], silent=[0, 1]),
         reach=["end", "interviewed", "restarted"], tiers=["thorough"], weight=9, assumes=ASSUME),
    dict(name="restart-during", prop="C40", fn="h_crash", params=dict(nodes=["2:0", "3:1"], others=["2:0", "3:1"], latency=50, until=2000),
         reach=["end", "during", "after"], weight=6, assumes=ASSUME, bounds="an interview with 50 ms latency, ended at any millisecond"),
    dict(name="restart-announced", prop="C40", fn="h_known", reach=["end"], weight=3, assumes=ASSUME),
]
