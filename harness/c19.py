"""C19: the application's nodes follow the adapter's node list"""
from . import zipnet


class Adapter:
    """An adapter whose network the environment decides; every answer may take time"""

    def __init__(self, env):
        self.env = env
        self.nodeId = 1
        self.listeners = []
        self.members = {1}
        self.infos, self.endpoints = {}, {}
        self.delay = {}
        self.asked = []
        self.P = env.mod("pyzwave.commandclass.NetworkManagementProxy")
        self.Message = env.mod("pyzwave.message").Message

    def addListener(self, listener):
        self.listeners.append(listener)

    async def _wait(self, what):
        import asyncio
        ms = self.delay.get(what, 0)
        await asyncio.sleep(ms / 1000)

    async def getNodeList(self):
        await self._wait("list")
        return set(self.members)

    async def getFailedNodeList(self):
        await self._wait("failed")
        return set()

    async def getNodeInfo(self, nodeId):
        self.asked.append(("info", nodeId))
        await self._wait("info")
        return self.decode(zipnet.node_info(1, *self.infos[nodeId][:1], **self.infos[nodeId][1]))

    async def getMultiChannelEndPoints(self, nodeId):
        await self._wait("endpoints")
        return len(self.endpoints.get(nodeId, ()))

    async def getMultiChannelCapability(self, nodeId, endpoint):
        self.asked.append(("capability", nodeId, endpoint))
        await self._wait("capability")
        generic, specific, classes = self.endpoints[nodeId][endpoint - 1]
        return self.decode([0x52, 0x08, 1, nodeId, len(classes), endpoint, generic, specific] + list(classes))

    def decode(self, body):
        from . import layouts
        return self.Message.decode(layouts.to_frame(self.env, body))


class Recorder:
    def __init__(self):
        self.log = []

    async def nodeAdded(self, _app, node):
        self.log.append(("added", node.nodeId, node))

    async def nodeRemoved(self, _app, nodeId):
        self.log.append(("removed", nodeId, None))

    async def nodesAdded(self, _app, nodes):
        for node in nodes:
            self.log.append(("batch-added", node.nodeId, node))

    async def nodesRemoved(self, _app, ids):
        for nodeId in ids:
            self.log.append(("batch-removed", nodeId, None))


def _application(env, adapter):
    env.loop
    recorder = Recorder()
    app = env.mod("pyzwave.application").Application(adapter, zipnet.Storage())
    app.addListener(recorder)
    return app, recorder


def _ids(adapter, members):
    out = []
    for n in members:
        if n == 1:
            continue
        out.append("%d:0" % n)
        out.extend("%d:%d" % (n, e + 1) for e in range(len(adapter.endpoints.get(n, ()))))
    return sorted(out)


def _told(env, recorder, before, after, start=0):
    """Exactly the differences are announced, each once"""
    log = recorder.log[start:]
    for single, batch, ids in (("added", "batch-added", sorted(set(after) - set(before))),
                               ("removed", "batch-removed", sorted(set(before) - set(after)))):
        env.check(sorted(i for k, i, _n in log if k == single) == ids, "nodes are not announced as %s exactly once" % single)
        env.check(sorted(i for k, i, _n in log if k == batch) == ids, "nodes are not announced as %s in one go" % single)


def _members(env, name, candidates):
    return {1} | set(n for n in candidates if env.choice("%s.has%d" % (name, n), [0, 1]))


def _network(env, adapter, classes=1):
    """Nodes 2, 3 (with two endpoints) and 4"""
    for n in (2, 3, 4):
        adapter.infos[n] = ([0x60, 0x25] if n == 3 else [0x25, 0x70],
                            dict(listening=env.bits("listening%d" % n, 1), basic=env.byte("basic%d" % n),
                                 generic=env.byte("generic%d" % n), specific=env.byte("specific%d" % n)))
    adapter.endpoints[3] = [(env.byte("ep%d.generic" % i), env.byte("ep%d.specific" % i), [0x25, 0x31][:i + 1]) for i in range(2)]


def _content(env, app, adapter):
    for nid, node in app.nodes.items():
        env.check(node.nodeId == nid, "a node is kept under another id")
        classes, fields = adapter.infos[node.rootNodeId]
        env.check(env.and_(node.basicDeviceClass == fields["basic"], node.listening == (fields["listening"] == 1)),
                  "not the data of the information frame")
        if node.endpoint:
            generic, specific, classes = adapter.endpoints[node.rootNodeId][node.endpoint - 1]
            env.check(node.parent is app.nodes["%d:0" % node.rootNodeId], "an endpoint belongs to another node")
        else:
            generic, specific = fields["generic"], fields["specific"]
        env.check(env.and_(node.genericDeviceClass == generic, node.specificDeviceClass == specific),
                  "not the device classes of the information frame")
        env.check(sorted(node.supported) == sorted(classes), "not the command classes of the information frame")


def h_updates(env):
    """Startup, then updates one after the other"""
    p = env.params
    adapter = Adapter(env)
    _network(env, adapter)
    app, recorder = _application(env, adapter)
    adapter.members = _members(env, "start", p["nodes"])
    env.run(app.startup())
    before = {}
    now = _ids(adapter, adapter.members)
    env.check(sorted(app.nodes) == now, "not the listed nodes after startup")
    _told(env, recorder, [], now)
    _content(env, app, adapter)
    for k in range(p["updates"]):
        before = dict(app.nodes)
        start, asked = len(recorder.log), len(adapter.asked)
        adapter.members = _members(env, "u%d" % k, p["nodes"])
        env.run(app.nodeListUpdated(adapter))
        now = _ids(adapter, adapter.members)
        env.check(sorted(app.nodes) == now, "not exactly one node per listed id")
        _told(env, recorder, before, now, start)
        for nid, node in app.nodes.items():
            if nid in before:
                env.check(node is before[nid], "the object of a node that stayed is replaced")
                env.reach("stayed")
            else:
                env.check(any(n is node for kind, _i, n in recorder.log[start:] if kind == "added"), "another object is announced")
                env.reach("new")
        _content(env, app, adapter)
    env.reach("end")


def h_overlap(env):
    """Updates at any time, also while the application still loads nodes"""
    p = env.params
    adapter = Adapter(env)
    _network(env, adapter)
    app, recorder = _application(env, adapter)
    for what, ms in p["delays"].items():
        adapter.delay[what] = ms
    adapter.members = set(p["start"])
    history = [set(adapter.members)]
    tasks = [env.task(app.startup())]
    now, last = env.now(), 0
    for k in range(p["updates"]):
        at = env.int("at%d" % k, 1, p["until"])
        env.assume(last < at)
        last = at
        members = _members(env, "u%d" % k, p["nodes"])
        history.append(members)

        def update(members=members):
            adapter.members = members
            tasks.append(env.loop.create_task(app.nodeListUpdated(adapter)))
            env.own.append(tasks[-1])

        env.at(now + at, update)
    env.run_until(now + 60000)
    for task in tasks:
        env.check(task.done() and task.exception() is None, "an update fails or does not end")
    final = _ids(adapter, history[-1])
    env.check(sorted(app.nodes) == final, "not exactly one node per listed id")
    _content(env, app, adapter)
    present = {}
    for kind, nid, node in recorder.log:
        if kind == "added":
            env.check(nid not in present, "a node is announced twice without being removed")
            present[nid] = node
        elif kind == "removed":
            # a node removed before it was announced is announced as removed only
            present.pop(nid, None)
    env.check(sorted(present) == final, "what is announced is not what the application has")
    for nid, node in present.items():
        env.check(app.nodes[nid] is node, "another object is announced than the application has")
    for nid in final:
        root = int(nid.split(":")[0])
        if all(root in members for members in history):
            env.check(len([1 for kind, i, _n in recorder.log if i == nid and kind == "added"]) == 1,
                      "the object of a node that stayed is replaced")
            env.check(not [1 for kind, i, _n in recorder.log if i == nid and kind == "removed"], "a node that stayed is removed")
            env.reach("stayed")
    env.reach("end")


def h_gateway(env):
    """Through the gateway: node list reports change the application's nodes"""
    p = env.params
    classes = {n: [0x25] for n in p["nodes"]}
    app, gw, fake, transport, uns = zipnet.application(env, {p["nodes"][0]: [0x25]})
    recorder = Recorder()
    app.addListener(recorder)
    fake.answers[(0x52, 0x03)] = lambda body: [zipnet.node_info(body[2], classes[int(body[4])])]
    for n in p["nodes"]:
        fake.addresses[n] = zipnet.address(env, n)
    fake.latency = 300
    now, last = env.now(), 0
    start = set(app.nodes)
    for k in range(p["updates"]):
        at = env.int("at%d" % k, 1, 2500)
        env.assume(last < at)
        last = at
        members = sorted(_members(env, "r%d" % k, p["nodes"]))
        body = [0x52, 0x02, k, 0, 1] + zipnet.mask_of(members)
        env.at(now + at, lambda body=body, k=k: uns.deliver(zipnet.command(env, k, body), ("fd00::1", 4123, 0, 0)))
    env.run_until(now + 20000)
    final = sorted("%d:0" % n for n in members if n != 1)
    env.check(sorted(app.nodes) == final, "not exactly one node per listed id")
    present = set(start)
    for kind, nid, _node in recorder.log:
        if kind == "added":
            env.check(nid not in present, "a node is announced twice")
            present.add(nid)
        elif kind == "removed":
            env.check(nid in present, "a node that is not there is announced as removed")
            present.discard(nid)
    env.check(sorted(present) == final, "what is announced is not what the application has")
    for nid in final:
        env.check(sorted(app.nodes[nid].supported) == [0x25], "not the command classes of the information frame")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_frame(env):
    """The information frame as it arrives, any bytes"""
    p = env.params
    n, listening, optional = env.params["classes"], env.bits("listening", 1), env.byte("optional")
    data = env.bytes("d", n)
    for i in range(n):
        # marks are decided by C13, classes here
        env.assume(env.and_(data[i] != 0xF1, data[i] != 0xEF, data[i] != 0x60))
    device = [env.byte("device%d" % i) for i in range(3)]
    info = [env.byte("status")] + [listening * 128 + env.bits("capability", 7), optional, env.byte("reserved")] + device + [x for x in data]
    gw, fake, transport, uns = zipnet.gateway(env, [1, 6])
    fake.answers[(0x52, 0x03)] = lambda body: [[0x52, 0x04, body[2]] + info]
    fake.answers[(0x52, 0x0B)] = lambda body: [[0x52, 0x0C, body[2]] + [0] * 29]
    app = env.mod("pyzwave.application").Application(gw, zipnet.Storage())
    env.run(app.startup())
    env.check(sorted(app.nodes) == ["6:0"], "not exactly the listed node")
    node = app.nodes["6:0"]
    env.check(env.and_(node.basicDeviceClass == device[0], node.genericDeviceClass == device[1],
                       node.specificDeviceClass == device[2]), "not the device classes of the information frame")
    env.check(node.listening == (listening == 1), "not the listening flag of the information frame")
    probe = env.byte("probe")
    env.check(node.supports(probe) == env.or_(*[data[i] == probe for i in range(n)]) if n else not node.supported,
              "not the command classes of the information frame")
    env.reach("end")


CASES = [
    dict(name="updates-one", prop="C19", fn="h_updates", params=dict(nodes=[2, 3, 4], updates=1), weight=3,
         reach=["stayed", "new", "end"], bounds="from and to every subset of 3 nodes, one with 2 endpoints, any device classes"),
    dict(name="updates-two", prop="C19", fn="h_updates", params=dict(nodes=[2, 3], updates=2), weight=3,
         reach=["stayed", "new", "end"], bounds="2 updates over every subset of 2 nodes"),
    dict(name="updates-three", prop="C19", fn="h_updates", params=dict(nodes=[2, 3, 4], updates=2), weight=5, tiers=["thorough"]),
    dict(name="updates-overlap", prop="C19", fn="h_overlap", weight=5, reach=["stayed", "end"],
         params=dict(nodes=[2, 3], start=[1, 2], updates=2, until=2500, delays=dict(list=100, info=500, endpoints=300, capability=200, failed=400)),
         bounds="2 updates at any times during and after the loading of nodes"),
    dict(name="updates-overlap-start", prop="C19", fn="h_overlap", weight=5, reach=["stayed", "end"],
         params=dict(nodes=[2, 3], start=[1, 2], updates=2, until=1000, delays=dict(list=50, info=100, endpoints=300, capability=100, failed=600)),
         bounds="2 updates at any times while the list of failed nodes is asked for"),
    dict(name="updates-overlap-3", prop="C19", fn="h_overlap", weight=7, tiers=["thorough"],
         params=dict(nodes=[2, 3], start=[1, 2], updates=3, until=3500, delays=dict(list=100, info=500, endpoints=300, capability=200, failed=400))),
    dict(name="updates-gateway", prop="C19", fn="h_gateway", weight=4, reach=["end"], params=dict(nodes=[2, 9], updates=2),
         bounds="2 node list reports at any times while answers take 300 ms"),
    dict(name="updates-gateway-3", prop="C19", fn="h_gateway", weight=7, tiers=["thorough"], params=dict(nodes=[2, 9], updates=3)),
    dict(name="updates-frame", prop="C19", fn="h_frame", params=dict(classes=2), reach=["end"], weight=2, bounds="any frame with 2 classes"),
    dict(name="updates-frame-0", prop="C19", fn="h_frame", params=dict(classes=0), reach=["end"], weight=2, bounds="any frame without classes"),
]
