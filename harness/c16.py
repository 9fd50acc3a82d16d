"""C16: interviews ask what the version allows and finish only when answered"""
from . import nodes

CLASSES = {
    # class: version -> requests of its interview, in order, when everything is answered
    0x86: lambda v: [(0x86, 0x11)],
    0x72: lambda v: [(0x72, 0x04)],
    0x5E: lambda v: [(0x5E, 0x01)],
    0x25: lambda v: [],
    0xFE: lambda v: [],
    0x59: lambda v: [(0x59, 0x03)],
    0x31: lambda v: [(0x31, 0x01), (0x31, 0x03), (0x31, 0x03)] if v >= 5 else [],
    0x85: lambda v: [(0x85, 0x05)],
}


def _reply(env, body, name):
    key = (int(body[0]), int(body[1]))
    if key == (0x86, 0x11):
        return [0x86, 0x12] + [env.byte("%s.%d" % (name, i)) for i in range(5)]
    if key == (0x72, 0x04):
        return [0x72, 0x05] + [env.byte("%s.%d" % (name, i)) for i in range(6)]
    if key == (0x5E, 0x01):
        return [0x5E, 0x02] + [env.byte("%s.%d" % (name, i)) for i in range(7)]
    if key == (0x31, 0x01):
        return [0x31, 0x02, 0x05]       # types 1 and 3
    if key == (0x31, 0x03):
        return [0x31, 0x06, body[2], env.byte(name + ".scales")]
    if key == (0x85, 0x05):
        return [0x85, 0x06, 0]
    return None


class Script:
    """The node answers, answers late, does not answer, or cannot be reached; request by request"""

    def __init__(self, env, stub, versions):
        self.env, self.stub, self.versions = env, stub, versions
        self.log = []           # (request key, class asked for, how)
        stub.ok = self.ok
        self.how = None

    def ok(self, body):
        env = self.env
        key = (int(body[0]), int(body[1]))
        name = "req%d" % len(self.log)
        what = env.params.get("what") or ["answered", "silent", "late", "unreachable"]
        if key == (0x59, 0x03):
            what = ["answered", "unreachable"]
        how = env.choice(name, what)
        self.log.append((key, int(body[2]) if len(body) > 2 else None, how))
        if how == "unreachable":
            return False
        if how == "silent":
            return True
        if key == (0x86, 0x13):
            cid = int(body[2])
            reply = [0x86, 0x14, cid, self.versions[cid]]
        else:
            reply = _reply(env, body, name)
        if reply is None:
            return True
        delay = env.int(name + ".late", 3001, 9000) if how == "late" else env.int(name + ".in", 0, 2999)
        nodes.deliver(env, self.stub.node, reply, delay)
        return True


def h_interview(env):
    """Two classes in a row, whatever the node does"""
    p = env.params
    classes = p["classes"]
    node, stub = nodes.node(env, classes)
    versions, before = {}, {}
    for cid in classes:
        cls = node.supported[cid]
        # known from before or not
        known = env.choice("known%d" % cid, p.get("known%d" % cid, [0, 1]))
        versions[cid] = env.choice("version%d" % cid, p.get("versions%d" % cid, p.get("versions")))
        if known:
            cls._version = versions[cid]
            if versions[cid]:
                cls._interviewed = bool(env.choice("before%d" % cid, [0, 1]))
        before[cid] = (cls.version, cls.interviewed)
    script = Script(env, stub, versions)
    _res, exc = env.attempt_run(node.interview())
    env.check(exc is None, "an interview that times out stops the interview of the other classes")
    log = list(script.log)
    for cid in classes:
        cls = node.supported[cid]
        version, interviewed = before[cid]
        done = True
        if version == 0:
            env.check(bool(log) and log[0][0] == (0x86, 0x13) and log[0][1] == cid, "the version is not asked for")
            if log.pop(0)[2] == "answered":
                version = versions[cid]
                env.reach("asked")
            env.check(env.eq(cls.version, version), "the version is not the one reported")
        else:
            env.check(env.eq(cls.version, version), "the known version is changed")
        if version == 0:
            env.check(cls.interviewed == interviewed, "interviewed without a version")
            env.reach("no-version")
            continue
        for key in CLASSES[cid](version):
            env.check(bool(log) and log[0][0] == key, "a request of the interview is missing")
            if log.pop(0)[2] != "answered":
                done = False
                break
        env.check(type(cls.interviewed) is bool and cls.interviewed == done,
                  "marked as interviewed though it did not run to its end" if not done
                  else "not marked as interviewed though it ran to its end")
        env.reach("done" if done else "not-done")
    env.check(not log, "asked for something the version does not allow, or twice")
    env.reach("end")


def h_version(env):
    """Reports about other classes, for the other class asked at the same time, late ones"""
    p = env.params
    node, _stub = nodes.node(env, [0x20, 0x25])
    reports = []
    now = env.now()
    for i in range(p["reports"]):
        at = env.int("at%d" % i, 1, 4000)
        if reports:
            env.assume(reports[-1][0] < at)
        env.assume(env.not_(at == 3000))
        cid, version = env.byte("class%d" % i), env.byte("version%d" % i)
        reports.append((at, cid, version))
        nodes.deliver(env, node, [0x86, 0x14, cid, version], at)
    tasks = {}
    for cid in (0x20, 0x25):
        tasks[cid] = env.task(node.supported[cid].requestVersion())
    env.run_until(now + 8000)
    for cid, task in tasks.items():
        expected = 0
        for at, other, version in reports:
            if env.and_(other == cid, at < 3000):
                expected = version
                env.reach("reported")
                break
        env.check(task.done() and task.exception() is None, "asking for the version does not end")
        env.check(env.eq(task.result(), expected), "another version is returned")
        env.check(env.eq(node.supported[cid].version, expected), "another version is stored")
    env.reach("end")


def h_unsolicited(env):
    """A version report nobody asked for changes nothing"""
    classes = [0x20, 0x25, 0x86]
    node, _stub = nodes.node(env, classes)
    have = {}
    for cid in classes:
        have[cid] = node.supported[cid]._version = env.byte("have%d" % cid)
    for i in range(2):
        body = [0x86, 0x14, env.byte("class%d" % i), env.byte("version%d" % i)]
        _r, exc = env.attempt_run(node.handleMessage(nodes.message(env, body), {}))
        env.check(exc is None, "a version report raises")
    for cid in classes:
        env.check(env.eq(node.supported[cid].version, have[cid]), "the version of a class is changed by a report nobody asked for")
    env.reach("end")


def h_sensor(env):
    """The sensors and scales the node has, whatever sensor and version"""
    p = env.params
    node, stub = nodes.node(env, [0x31])
    version = env.byte("version")
    env.assume(version != 0)
    cls = node.supported[0x31]
    cls._version = version
    mask = env.bits("mask", p["bits"])
    scales = {}

    def report(body):
        sensor = int(body[2])
        scales[sensor] = env.bits("scales%d" % sensor, 4)
        # a report for another sensor arrives first
        return [[0x31, 0x06, sensor % 8 + 1, 0x0F], [0x31, 0x06, sensor, scales[sensor]]]

    stub.answers[(0x31, 0x01)] = lambda body: [[0x31, 0x02, mask]]
    stub.answers[(0x31, 0x03)] = report
    env.run(node.interview())
    env.check(cls.interviewed is True, "not marked as interviewed though it ran to its end")
    if version < 5:
        env.check(not stub.sends, "asked for sensors the version does not have")
        env.check(not cls.supportedTypes, "sensors out of nowhere")
        env.reach("old")
        return
    wanted = [i + 1 for i in range(p["bits"]) if env.eq((mask >> i) & 1, 1)]
    env.check(sorted(cls.supportedTypes) == wanted, "other sensors than the node has")
    for sensor in wanted:
        env.check(env.eq(cls.supportedTypes[sensor], scales[sensor]), "other scales than the node has")
    env.reach("new")


CASES = []
for _c in ([0x86, 0x72], [0x31, 0x5E], [0x5E, 0x31], [0x59, 0x25], [0xFE, 0x72], [0x85, 0x59]):
    CASES.append(dict(name="interview-" + "-".join("%02x" % c for c in _c), prop="C16", fn="h_interview",
                      params=dict(dict(classes=_c, versions=[2, 0]), **(
                          dict(versions49=[5, 0, 4], versions94=[2], known94=[1]) if 0x31 in _c else {})),
                      reach=["end", "done", "no-version"], weight=4,
                      bounds="two classes, every request answered, late, unanswered or not delivered; versions 0 and a few"))
CASES += [
    dict(name="interview-three", prop="C16", fn="h_interview", tiers=["thorough"], weight=6,
         params=dict(classes=[0x86, 0x31, 0x72], versions=[5, 0], what=["answered", "silent", "unreachable"])),
    dict(name="version-reports-2", prop="C16", fn="h_version", params=dict(reports=2), reach=["end", "reported"], weight=3,
         bounds="2 version reports for any class with any version at any time within 4 s"),
    dict(name="version-reports-3", prop="C16", fn="h_version", params=dict(reports=3), tiers=["thorough"], weight=5),
    dict(name="version-unsolicited", prop="C16", fn="h_unsolicited", reach=["end"], bounds="2 reports for any class"),
    dict(name="sensor-versions", prop="C16", fn="h_sensor", params=dict(bits=4), reach=["old", "new"], weight=3,
         bounds="any version, any mask of 4 sensors"),
    dict(name="sensor-versions-8", prop="C16", fn="h_sensor", params=dict(bits=8), tiers=["thorough"], weight=5),
]
