"""C18: the gateway's node list follows the reports of the controller"""
from . import zipnet


class Heard:
    def __init__(self):
        self.lists, self.got, self.rounds = 0, [], 0

    def nodeListUpdated(self, _speaker):
        self.lists += 1

    def messageReceived(self, _speaker, nodeId, endPoint, message, _flags):
        self.got.append((nodeId, message.value))


def _report(env, fake, uns, k, members, transport, direct=0):
    """A node list report arrives at the unsolicited port"""
    body = [0x52, 0x02, env.byte("seq%d" % k), env.choice("status%d" % k, [0, 1]), 1] + zipnet.mask_of(members)
    packet = zipnet.command(env, env.byte("zip%d" % k), body, ackRequest=env.choice("ack%d" % k, env.params.get("ack", [0])))
    return lambda: uns.deliver(packet, ("fd00::1", 4123, 0, 0))


def _members(env, k):
    return [1] + [n for n in env.params["nodes"] if env.choice("r%s.has%d" % (k, n), [0, 1])]


def _probe(env, uns, heard, node, value):
    """Which node a message from the address of this node is attributed to"""
    heard.got.clear()
    env.inside(uns.deliver, zipnet.command(env, 9, [0x25, 0x03, value]), ("fd00::%x" % node, 4123, 0, 0))
    env.settle()
    return [n for n, _v in heard.got]


def _compare(env, gw, fake, uns, heard, members, silent):
    got = env.run(gw.getNodeList())
    heard.rounds += 1
    env.check(sorted(got) == sorted(members), "the nodes are not those of the report")
    for node in env.params["nodes"] + [1]:
        who = _probe(env, uns, heard, node, env.byte("probe%d.%d" % (node, heard.rounds)))
        if node in members and node not in silent:
            env.check(who == [node], "a message is not attributed by the address of the node")
            env.reach("attributed")
        else:
            env.check(who == [], "a removed node, or one without address, is still there")
            env.reach("gone")


def h_reports(env):
    """Reports one after the other"""
    p = env.params
    initial = _members(env, "start")
    gw, fake, transport, uns = zipnet.gateway(env, initial)
    heard = Heard()
    gw.addListener(heard)
    for n in p["nodes"]:
        fake.addresses[n] = zipnet.address(env, n)
    silent = set()      # known nodes whose address is not known
    members = initial
    _compare(env, gw, fake, uns, heard, members, silent)
    for k in range(p["reports"]):
        new = _members(env, k)
        fake.silent = set(n for n in p["nodes"] if env.choice("r%d.silent%d" % (k, n), p.get("silent", [0, 1])))
        asked, told = len(fake.others), heard.lists
        env.inside(_report(env, fake, uns, k, new, transport))
        env.run_until(env.now() + 3000 * len(p["nodes"]) + 100)
        solicited = [int(d[3]) for _t, tr, d in fake.others[asked:]]
        added = [n for n in new if n not in members]
        env.check(sorted(solicited) == sorted(added), "other nodes than the new ones are asked for their address")
        silent = set(n for n in silent if n in new) | set(n for n in added if n in fake.silent)
        members = new
        if added:
            env.reach("added")
        env.check(heard.lists == told + 1, "not told once about the report")
        _compare(env, gw, fake, uns, heard, members, silent)
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_overlap(env):
    """Reports arrive while addresses are still being asked for, and at any time"""
    p = env.params
    gw, fake, transport, uns = zipnet.gateway(env, [1, p["nodes"][0]])
    heard = Heard()
    gw.addListener(heard)
    for n in p["nodes"]:
        fake.addresses[n] = zipnet.address(env, n)
    fake.latency = p["latency"]
    fake.silent = set(n for n in p["nodes"][1:] if env.choice("silent%d" % n, [0, 1]))
    now, last = env.now(), 0
    history = [[1, p["nodes"][0]]]
    for k in range(p["reports"]):
        at = env.int("at%d" % k, 0, 4000)
        env.assume(last < at)
        last = at
        new = _members(env, k)
        history.append(new)
        env.at(now + at, _report(env, fake, uns, k, new, transport))
    env.run_until(now + 4000 + p["reports"] * 3100 * len(p["nodes"]))
    # a silent node stays without address unless it was there from the start
    silent = set(fake.silent)
    env.check(heard.lists == p["reports"], "not told once per report")
    _compare(env, gw, fake, uns, heard, history[-1], silent)
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_startup(env):
    """The list the gateway starts with; nodes whose address is not answered do not keep the others away"""
    p = env.params
    members = _members(env, "start")
    gw = env.mod("pyzwave.zipgateway").ZIPGateway("fd00::1", b"psk")
    env.loop
    fake = zipnet.Gateway(env)
    fake.install()
    for n in [1] + p["nodes"]:
        fake.addresses[n] = zipnet.address(env, n)
    fake.silent = set(n for n in p["nodes"] if env.choice("silent%d" % n, [0, 1]))
    fake.answers[(0x5F, 0x02)] = lambda body: [[0x5F, 0x03, 1]]
    fake.answers[(0x52, 0x01)] = lambda body: [[0x52, 0x02, body[2], 0, 1] + zipnet.mask_of(members)]
    _res, exc = env.attempt_run(gw.connect())
    env.check(exc is None, "connecting fails because a node does not answer")
    env.settle()
    heard = Heard()
    gw.addListener(heard)
    env.check(gw.nodeId == 1, "another controller")
    _compare(env, gw, fake, env.net.transports[1], heard, members, fake.silent)
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_mask(env):
    """Any mask over a byte of the list"""
    p = env.params
    gw, fake, transport, uns = zipnet.gateway(env, [1])
    heard = Heard()
    gw.addListener(heard)
    mask = env.byte("mask")
    if p["byte"] == 0:
        env.assume(mask & 1 == 1)
    whole = [1] + [0] * 28
    whole[p["byte"]] = mask
    body = [0x52, 0x02, 1, 0, 1] + whole
    for i in range(8):
        fake.addresses[p["byte"] * 8 + i + 1] = zipnet.address(env, p["byte"] * 8 + i + 1)
    env.inside(uns.deliver, zipnet.command(env, 2, body), ("fd00::1", 4123, 0, 0))
    env.run_until(env.now() + 100)
    got = env.run(gw.getNodeList())
    probe = env.int("probe", 1, 232)
    here = (probe - 1) >> 3 == p["byte"]
    bit = (mask >> ((probe - 1) & 7)) & 1 == 1
    inside = env.or_(probe == 1, env.and_(here, bit))
    env.check((probe in got) == inside, "the nodes are not those of the report")
    asked = [int(d[3]) for _t, _tr, d in fake.others]
    env.check(sorted(asked) == sorted(got), "not every new node is asked for its address")
    env.check(heard.lists == 1, "not told once about the report")
    env.reach("end")


CASES = [
    dict(name="reports-one", prop="C18", fn="h_reports", params=dict(nodes=[2, 9, 232], reports=1), weight=4,
         reach=["added", "attributed", "gone", "end"], bounds="from and to every subset of 3 nodes, any of them silent"),
    dict(name="reports-two", prop="C18", fn="h_reports", params=dict(nodes=[8, 16], reports=2), weight=4,
         reach=["added", "attributed", "gone", "end"], bounds="2 reports over every subset of 2 nodes, any of them silent"),
    dict(name="reports-three", prop="C18", fn="h_reports", params=dict(nodes=[3, 5], reports=3), weight=6, tiers=["thorough"]),
    dict(name="reports-overlap", prop="C18", fn="h_overlap", params=dict(nodes=[2, 9], reports=2, latency=500), weight=4,
         reach=["attributed", "gone", "end"], bounds="2 reports at any times while addresses are asked for"),
    dict(name="reports-overlap-3", prop="C18", fn="h_overlap", params=dict(nodes=[2, 9], reports=3, latency=700), weight=6,
         tiers=["thorough"]),
    dict(name="reports-startup", prop="C18", fn="h_startup", params=dict(nodes=[2, 9, 232]), weight=3,
         reach=["attributed", "gone", "end"], bounds="every subset of 3 nodes at startup, any of them silent"),
    dict(name="reports-mask-0", prop="C18", fn="h_mask", params=dict(byte=0), reach=["end"], weight=2, bounds="any mask of nodes 1 to 8"),
    dict(name="reports-mask-28", prop="C18", fn="h_mask", params=dict(byte=28), reach=["end"], weight=2, bounds="any mask of nodes 225 to 232"),
]
