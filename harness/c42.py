"""C42: a report that is cut short spoils only the call it answers

One of the answers of the gateway or of a node ends early, at any point after
the command, or has bytes behind its end, as those of later versions do.  Whoever
asked gets its fallback or what was there, or the same if there was more; nothing
else is different.
"""
from . import layouts, zipnet
from .c33 import _address_of

CLASSES = [0x86, 0x72, 0x5E, 0x85, 0x59, 0x31, 0x70, 0x25]
INFOS = {2: CLASSES, 3: [0x60, 0x72]}
ENDPOINTS = {3: [[0x72, 0x25], [0x25]]}
NAMES = ["2:0", "3:0", "3:1", "3:2"]


class Cut:
    """Cuts one answer, or makes it longer"""

    def __init__(self, env, fake, what, key, nth=0):
        self.env, self.fake, self.what, self.key, self.nth = env, fake, what, key, nth
        self.longer = env.params.get("longer")
        self.seen = 0
        self.done = None

    def install(self):
        for key, fn in list(self.fake.answers.items()):
            if key == self.what:
                self.fake.answers[key] = self._wrap(fn)

    def _wrap(self, fn):
        def run(body):
            replies = [list(r) for r in fn(body)]
            if not replies or not self.key(body, self.fake):
                return replies
            self.seen += 1
            if self.seen != self.nth + 1:
                return replies
            if self.longer:
                # a later version of the command
                replies[-1] += [self.env.byte("extra%d" % i) for i in range(self.env.size("extra", 1, 3))]
                self.done = len(replies[-1])
                return replies
            # the last one is cut
            length = self.env.size("cut", 2, len(replies[-1]) - 1)
            self.done = length
            replies[-1] = replies[-1][:length]
            return replies
        return run


def _node(fake):
    return _address_of(fake.current[0])[15]


def _answers(env, fake):
    """What the nodes say, all of it"""
    fake.from_endpoint = True
    say = {what: [env.byte("%s%d" % (what, i)) for i in range(n)] for what, n in (("lib", 5), ("product", 6), ("plus", 7), ("profile", 2), ("command", 2))}
    fake.answers[(0x86, 0x13)] = lambda body: [[0x86, 0x14, body[2], 5]]
    fake.answers[(0x86, 0x11)] = lambda body: [[0x86, 0x12] + say["lib"]]
    fake.answers[(0x72, 0x04)] = lambda body: [[0x72, 0x05] + say["product"]]
    fake.answers[(0x5E, 0x01)] = lambda body: [[0x5E, 0x02] + say["plus"]]
    fake.answers[(0x85, 0x05)] = lambda body: [[0x85, 0x06, 2]]
    fake.answers[(0x85, 0x02)] = lambda body: [[0x85, 0x03, body[2], 5, 0, 1, 9]]
    fake.answers[(0x59, 0x03)] = lambda body: [
        [0x59, 0x04, 0x82, 1, 0] + say["profile"] + [0, 0, 0, 2, 0] + say["profile"] + [0, 0, 0]]
    fake.answers[(0x59, 0x01)] = lambda body: [[0x59, 0x02, body[2], 2, 0x41, 0x42]]
    fake.answers[(0x59, 0x05)] = lambda body: [[0x59, 0x06, body[3], 2] + say["command"]]
    fake.answers[(0x31, 0x01)] = lambda body: [[0x31, 0x02, 0x05]]
    fake.answers[(0x31, 0x03)] = lambda body: [[0x31, 0x06, body[2], 3]]
    fake.answers[(0x70, 0x05)] = lambda body: [[0x70, 0x06, body[2], 2, 1, 2]]
    return say


# class, command of the request, a way to tell this one from others, class the answer is about
INTERVIEW = {
    "version-class": ((0x86, 0x13), 0x72),
    "version-sensor": ((0x86, 0x13), 0x31),
    "version": ((0x86, 0x11), 0x86),
    "manufacturer": ((0x72, 0x04), 0x72),
    "plus": ((0x5E, 0x01), 0x5E),
    "groupings": ((0x85, 0x05), 0x85),
    "members": ((0x85, 0x02), 0x85),
    "group-info": ((0x59, 0x03), 0x59),
    "group-name": ((0x59, 0x01), 0x59),
    "group-commands": ((0x59, 0x05), 0x59),
    "sensors": ((0x31, 0x01), 0x31),
    "scales": ((0x31, 0x03), 0x31),
}


def _words(data):
    return [data[i] * 256 + data[i + 1] for i in range(0, len(data), 2)]


def _full(env, node, skip, say):
    """What a complete interview makes of the classes of node 2, all but the one skipped"""
    for cid, cls in node.supported.items():
        if cid == skip:
            continue
        env.check(cls.version == 5, "another class does not know its version")
        env.check(cls.interviewed is True, "another class is not interviewed")
    get = node.supported.get
    if skip != 0x86:
        c = get(0x86)
        env.check([c.zwaveLibraryType, c.zwaveProtocolVersion, c.zwaveProtocolSubVersion, c.applicationVersion,
                   c.applicationSubVersion] == say["lib"], "other versions")
    if skip != 0x72:
        c = get(0x72)
        env.check([c.manufacturerID, c.productTypeID, c.productID] == _words(say["product"]), "another product")
    if skip != 0x5E:
        c = get(0x5E)
        env.check([c.zwavePlusVersion, c.roleType, c.nodeType, c.installerIconType, c.userIconType]
                  == say["plus"][:3] + _words(say["plus"][3:]), "other device data")
    if skip != 0x85:
        env.check([list(get(0x85).groupings[g].nodes) for g in (1, 2)] == [[(1, None), (9, None)]] * 2, "other members")
    if skip != 0x59:
        env.check([get(0x59).groupings[g].name for g in (1, 2)] == ["AB", "AB"], "other names of groups")
        env.check([[list(x) for x in get(0x59).groupings[g].commands] for g in (1, 2)] == [[say["command"]]] * 2, "other commands of groups")
        env.check([get(0x59).groupings[g].profile for g in (1, 2)] == _words(say["profile"]) * 2, "other profiles of groups")
    if skip != 0x31:
        types = get(0x31).supportedTypes
        env.check(sorted(int(t) for t in types) == [1, 3] and [int(v) for v in types.values()] == [3, 3], "other sensors")


def h_interview(env):
    """One answer during an interview is cut short"""
    p = env.params
    what, cid = INTERVIEW[p["what"]]
    app, gw, fake, transport, uns = zipnet.application(env, INFOS, endpoints=ENDPOINTS)
    say = _answers(env, fake)
    key = (lambda body, f: _node(f) == 2 and body[2] == cid) if what == (0x86, 0x13) else (lambda body, f: _node(f) == 2)
    cut = Cut(env, fake, what, key, nth=env.choice("nth", p.get("nth", [0])))
    cut.install()
    node = app.nodes["2:0"]
    task = env.task(node.interview())
    env.run_until(env.now() + 60000)
    env.check(zipnet.outcome(task)[0] == "value", "an interview does not end, or raises")
    env.check(cut.done is not None, "nothing was asked")
    _full(env, node, None if p.get("longer") else cid, say)
    cls = node.supported[cid]
    env.check(type(cls.interviewed) is bool, "no interview state")
    env.check(cls.version == 5 or (what == (0x86, 0x13) and cls.version == 0), "another version")
    if p.get("unmarked"):
        env.check(not cls.interviewed, "a class is interviewed though it did not get its answer")
    # the other nodes are as ever, and a repeated interview makes it complete
    env.run(app.nodes["3:1"].interview())
    env.check([app.nodes["3:1"].supported[0x72].productID, app.nodes["3:0"].supported[0x72].version] == [_words(say["product"])[2], 0], "another node")
    task = env.task(node.interview())
    env.run_until(env.now() + 60000)
    env.check(zipnet.outcome(task)[0] == "value", "a repeated interview does not end, or raises")
    _full(env, node, None, say)
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def _start(env, silent=()):
    """A connected gateway and an application that has not started"""
    gw, fake, transport, uns = zipnet.gateway(env, [1, 2, 3, 4])
    fake.answers[(0x52, 0x03)] = lambda body: [zipnet.node_info(body[2], [0x25] if body[4] == 4 else INFOS.get(int(body[4]), []))]
    zipnet.endpoint_answers(fake, ENDPOINTS)
    fake.answers[(0x52, 0x0B)] = lambda body: [[0x52, 0x0C, body[2]] + [0] * 29]
    return gw, fake, transport, uns


def h_startup(env):
    """One answer while the application starts is cut short"""
    p = env.params
    gw, fake, transport, uns = _start(env)
    kind = p["what"]
    cut = {"info": Cut(env, fake, (0x52, 0x03), lambda body, f: body[4] == p["node"]),
           "endpoints": Cut(env, fake, (0x52, 0x05), lambda body, f: body[3] == 3),
           "capability": Cut(env, fake, (0x52, 0x07), lambda body, f: body[4] == 1),
           "failed": Cut(env, fake, (0x52, 0x0B), lambda body, f: True)}[kind]
    cut.install()
    told = []

    class Client:
        async def nodeAdded(self, _app, node):
            told.append(node.nodeId)

    app = env.mod("pyzwave.application").Application(gw, zipnet.Storage())
    app.addListener(Client())
    task = env.task(app.startup())
    env.run_until(env.now() + 60000)
    env.check(zipnet.outcome(task)[0] == "value", "the application does not start")
    want = {"2:0": CLASSES, "3:0": [0x60, 0x72], "3:1": [0x72, 0x25], "3:2": [0x25], "4:0": [0x25]}
    spoiled = {"info": ["%d:0" % p.get("node", 0)] + (["3:1", "3:2"] if p.get("node") == 3 else []),
               "endpoints": ["3:1", "3:2"], "capability": ["3:1"], "failed": []}[kind]
    if p.get("longer"):
        spoiled = []
    for name, classes in want.items():
        if name not in spoiled:
            env.check(name in app.nodes, "another node is missing")
            env.check(list(app.nodes[name].supported) == classes, "another node has other classes")
    if kind == "info":
        env.check("%d:0" % p["node"] in app.nodes, "a node of the list is missing")
    env.check(all(n in want for n in app.nodes), "a node nobody listed")
    for name in spoiled:
        if name in app.nodes:
            got = list(app.nodes[name].supported)
            env.check(got == want[name][:len(got)], "other classes than those in the report")
    env.check(sorted(told) == sorted(app.nodes), "not every node is announced once")
    # the node list is updated later
    fake.addresses[7] = zipnet.address(env, 7)
    env.inside(uns.deliver, zipnet.command(env, 9, [0x52, 0x02, 1, 0, 1] + zipnet.mask_of([1, 2, 3, 4, 7])), ("fd00::1", 4123, 0, 0))
    env.run_until(env.now() + 20000)
    env.check("7:0" in app.nodes, "nodes cannot be added any more")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_list(env):
    """The answers while connecting are cut short"""
    gw = env.mod("pyzwave.zipgateway").ZIPGateway("fd00::1", b"psk")
    env.loop
    fake = zipnet.Gateway(env)
    fake.install()
    for n in (1, 2):
        fake.addresses[n] = zipnet.address(env, n)
    fake.answers[(0x5F, 0x02)] = lambda body: [[0x5F, 0x03, 1]]
    fake.answers[(0x52, 0x01)] = lambda body: [[0x52, 0x02, body[2], 0, 1] + zipnet.mask_of([1, 2])]
    which = env.choice("which", ["mode", "list"])
    cut = Cut(env, fake, (0x5F, 0x02) if which == "mode" else (0x52, 0x01), lambda body, f: True)
    cut.install()
    task = env.task(gw.connect())
    env.run_until(env.now() + 20000)
    env.check(zipnet.outcome(task)[0] == "value", "connecting does not end, or raises")
    env.check(cut.done is not None, "nothing was asked")
    fake.answers[(0x52, 0x03)] = lambda body: [zipnet.node_info(body[2], [0x25])]
    fake.answers[(0x52, 0x0B)] = lambda body: [[0x52, 0x0C, body[2]] + [0] * 29]
    app = env.mod("pyzwave.application").Application(gw, zipnet.Storage())
    task = env.task(app.startup())
    env.run_until(env.now() + 20000)
    env.check(zipnet.outcome(task)[0] == "value", "the application does not start")
    if env.params.get("longer"):
        env.check("2:0" in app.nodes and list(app.nodes["2:0"].supported) == [0x25], "a node is missing")
    # the controller tells its list again
    uns = env.net.transports[1]
    env.inside(uns.deliver, zipnet.command(env, 9, [0x52, 0x02, 1, 0, 1] + zipnet.mask_of([1, 2])), ("fd00::1", 4123, 0, 0))
    env.run_until(env.now() + 20000)
    env.check("2:0" in app.nodes and list(app.nodes["2:0"].supported) == [0x25], "the node is missing")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_calls(env):
    """Other calls"""
    p = env.params
    app, gw, fake, transport, uns = zipnet.application(env, INFOS, endpoints=ENDPOINTS)
    _answers(env, fake)
    Proxy = env.mod("pyzwave.commandclass.NetworkManagementProxy")
    Inclusion = env.mod("pyzwave.commandclass.NetworkManagementInclusion")
    Status = Inclusion.FailedNodeRemoveStatus.Status
    # the last byte of a node list may be left out
    fake.answers[(0x52, 0x0B)] = lambda body: [[0x52, 0x0C, body[2]] + zipnet.mask_of([2, 230])]
    fake.answers[(0x34, 0x07)] = lambda body: [[0x34, 0x08, body[2], 1, body[3]]]
    kind = p["what"]
    request = {"failed": (0x52, 0x0B), "remove": (0x34, 0x07), "remove-node": (0x34, 0x07), "endpoints": (0x52, 0x05),
               "capability": (0x52, 0x07), "info": (0x52, 0x03), "configuration": (0x70, 0x05), "version": (0x86, 0x13)}[kind]
    cut = Cut(env, fake, request, lambda body, f: True)
    cut.install()

    def call():
        return {"failed": gw.getFailedNodeList, "remove": lambda: gw.removeFailedNode(3), "remove-node": app.nodes["3:0"].remove,
                "endpoints": lambda: gw.getMultiChannelEndPoints(3), "capability": lambda: gw.getMultiChannelCapability(3, 2),
                "info": lambda: gw.getNodeInfo(2), "configuration": lambda: app.nodes["2:0"].supported[0x70].get(7, cached=False),
                "version": app.nodes["2:0"].supported[0x25].requestVersion}[kind]()

    task = env.task(call())
    env.run_until(env.now() + 20000)
    how, value = zipnet.outcome(task)
    env.check(cut.done is not None, "nothing was asked")
    length = 100 if p.get("longer") else cut.done
    if p.get("longer"):
        env.check(how == "value", "a call raises")
    elif kind == "configuration":
        env.check(how == "error" and type(value).__name__ == "TimeoutError", "not a timeout")
    else:
        env.check(how == "value", "a call raises")
    if p.get("longer"):
        pass
    elif kind == "failed":
        env.check(sorted(value) == ([2] if length == 31 else []), "other failed nodes")
    elif kind == "remove":
        if length > 3:
            env.check(value == Status.DONE, "another status")
        else:
            env.check(value == Status.REMOVE_FAIL, "removed though nobody said so")
    elif kind == "remove-node":
        env.check(value is (length > 3), "removed though nobody said so")
    elif kind == "endpoints":
        env.check(value == (2 if length > 5 else 0), "another number of endpoints")
    elif kind in ("capability", "info"):
        want = {"capability": [0x25], "info": CLASSES}[kind]
        got = list(value.commandClass)
        env.check(got == want[:len(got)], "other classes than those in the report")
    elif kind == "version":
        env.check(value == 0, "a version nobody reported")
        env.check(app.nodes["2:0"].supported[0x25].version == 0, "a version nobody reported")
    # again, with the whole answer
    if not p.get("longer"):
        task = env.task(call())
        env.run_until(env.now() + 20000)
        how, value = zipnet.outcome(task)
        env.check(how == "value", "a call after it raises")
    full = {"failed": lambda: sorted(value) == [2, 230], "remove": lambda: value == Status.DONE, "remove-node": lambda: value is True,
            "endpoints": lambda: value == 2, "capability": lambda: list(value.commandClass) == [0x25],
            "info": lambda: list(value.commandClass) == CLASSES, "configuration": lambda: value == 258, "version": lambda: value == 5}
    env.check(full[kind](), "another answer afterwards")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_address(env):
    """The address of a node is cut short"""
    app, gw, fake, transport, uns = zipnet.application(env, INFOS, endpoints=ENDPOINTS)
    Basic = env.mod("pyzwave.commandclass.Basic")
    frame = [0x58, 0x01, 0, 3] + zipnet.address(env, 3) + [0, 0, 0, 1]
    length = env.size("cut", 2, len(frame) - 1)
    fake.silent = {3}
    task = env.task(app.nodes["3:0"].send(Basic.Set(value=1)))
    env.run_until(env.now() + 10)
    env.inside(transport.deliver, layouts.to_frame(env, frame[:length]))
    env.run_until(env.now() + 2000)
    if env.choice("complete", [1, 0]):
        # the whole one follows
        env.inside(transport.deliver, layouts.to_frame(env, frame))
        env.run_until(env.now() + 2000)
        env.check(zipnet.outcome(task) == ("value", True), "a node is not reached")
        env.check(_address_of(env.net.transports[-1])[15] == 3, "another address")
        env.reach("follows")
    else:
        env.run_until(env.now() + 5000)
        how, value = zipnet.outcome(task)
        if length == 20:
            env.check(how == "value" and value is True, "a node is not reached though its address is known")
        else:
            env.check(how == "error" and type(value).__name__ == "TimeoutError", "not as if it had not been answered")
            env.reach("missing")
        fake.silent = set()
        env.check(env.run(app.nodes["3:0"].send(Basic.Set(value=1))) is True, "a node is not reached any more")
    env.check(env.run(app.nodes["2:0"].send(Basic.Set(value=1))) is True, "another node is not reached")
    env.check(not zipnet.task_errors(env, own=[task]), "an error escapes into the event loop")
    env.reach("end")


CASES = []
for _w in INTERVIEW:
    CASES.append(dict(name="short-interview-" + _w, prop="C42", fn="h_interview", reach=["end"], weight=2,
                      params=dict(what=_w, nth=[0, 1] if _w in ("members", "group-name", "group-commands", "scales") else [0],
                                  unmarked=_w in ("version-class", "version-sensor", "groupings", "sensors", "scales", "version", "manufacturer", "plus"))))
for _w, _n in [("info", 2), ("info", 3), ("info", 4), ("endpoints", 0), ("capability", 0), ("failed", 0)]:
    CASES.append(dict(name="short-startup-%s%s" % (_w, _n or ""), prop="C42", fn="h_startup", reach=["end"], weight=2, params=dict(what=_w, node=_n)))
CASES.append(dict(name="short-connect", prop="C42", fn="h_list", reach=["end"], weight=2))
for _w in ["failed", "remove", "remove-node", "endpoints", "capability", "info", "configuration", "version"]:
    CASES.append(dict(name="short-call-" + _w, prop="C42", fn="h_calls", reach=["end"], weight=2, params=dict(what=_w)))
CASES.append(dict(name="short-address", prop="C42", fn="h_address", reach=["end", "follows", "missing"], weight=2))
for _w in INTERVIEW:
    if _w not in ("members", "sensors"):
        CASES.append(dict(name="long-interview-" + _w, prop="C42", fn="h_interview", reach=["end"], weight=2,
                          params=dict(what=_w, longer=1, nth=[0, 1] if _w in ("group-name", "group-commands", "scales") else [0])))
for _w in ["failed", "remove", "remove-node", "endpoints", "configuration", "version"]:
    CASES.append(dict(name="long-call-" + _w, prop="C42", fn="h_calls", reach=["end"], weight=2, params=dict(what=_w, longer=1)))
for _w, _n in [("endpoints", 0), ("failed", 0)]:
    CASES.append(dict(name="long-startup-" + _w, prop="C42", fn="h_startup", reach=["end"], weight=2, params=dict(what=_w, node=_n, longer=1)))
CASES.append(dict(name="long-connect", prop="C42", fn="h_list", reach=["end"], weight=2, params=dict(longer=1)))
