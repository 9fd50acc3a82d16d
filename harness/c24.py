"""C24: association groups hold exactly the reported nodes"""
import asyncio

from . import nodes, layouts, zipnet

CLASSES = {False: 0x85, True: 0x8E}


def _members(env, name, most, kinds=("plain", "endpoint")):
    """Members of a group: (node, endpoint or None), any ids"""
    out = []
    for i in range(env.size(name + ".members", 0, most)):
        node = env.byte("%s.node%d" % (name, i))
        env.assume(node != 0)
        kind = env.choice("%s.kind%d" % (name, i), list(kinds))
        out.append((node, env.byte("%s.ep%d" % (name, i)) if kind == "endpoint" else None))
    return out


def _wire(members):
    """The members on the wire, by the protocol"""
    plain = [n for n, e in members if e is None]
    pairs = [b for n, e in members if e is not None for b in (n, e)]
    return plain + ([0] + pairs if pairs else [])


def _sorted(members):
    return [m for m in members if m[1] is None] + [m for m in members if m[1] is not None]


def _same(env, got, want):
    if len(got) != len(want):
        return False
    conds = []
    for (n, e), (wn, we) in zip(got, want):
        if (e is None) != (we is None):
            return False
        conds.append(n == wn)
        if we is not None:
            conds.append(e == we)
    return env.and_(*conds) if conds else True


def _modules(env):
    env.mod("pyzwave.application")
    return env.mod("pyzwave.commandclass.Association"), env.mod("pyzwave.commandclass.MultiChannelAssociation")


def h_wire(env):
    """Members survive the wire in every message that carries them"""
    p = env.params
    A, M = _modules(env)
    Message = env.mod("pyzwave.message").Message
    members = _members(env, "m", p["members"])
    group = env.byte("group")
    multi = env.choice("multi", [False, True])
    kind = env.choice("kind", ["set", "report"])
    given = members
    if env.choice("plain ids", [0, 1]):
        given = [n if e is None else (n, e) for n, e in members]
    if kind == "set":
        msg = (M.MultiChannelSet if multi else A.Set)(groupingIdentifier=group, nodes=given)
        head = [CLASSES[multi], 0x01, group]
    else:
        most, follow = env.byte("max"), env.byte("follow")
        msg = (M.MultiChannelReport if multi else A.Report)(
            groupingIdentifier=group, maxNodesSupported=most, reportsToFollow=follow, nodes=given)
        head = [CLASSES[multi], 0x03, group, most, follow]
    body, want = msg.compose(), head + _wire(members)
    env.check(len(body) == len(want), "members are lost or added on the wire")
    env.check(env.and_(*[body[i] == want[i] for i in range(len(want))]), "members are carried otherwise than given")
    back = Message.decode(layouts.to_frame(env, want))
    env.check(type(back) is type(msg), "decoded to another message")
    env.check(_same(env, list(back.nodes), _sorted(members)), "other members than on the wire")
    env.check(env.eq(back.groupingIdentifier, group), "members of another group")
    env.reach("end")


def h_bytes(env):
    """Any bytes after the header of a report"""
    p = env.params
    Message = env.mod("pyzwave.message").Message
    multi = env.choice("multi", [False, True])
    head = [CLASSES[multi], 0x03, env.byte("group"), env.byte("max"), env.byte("follow")]
    body = [env.byte("b%d" % i) for i in range(env.size("len", 0, p["bytes"]))]
    want, rest, valid = [], list(body), True
    while rest:
        node = rest.pop(0)
        if node == 0:
            break
        want.append((node, None))
    while rest:
        if len(rest) == 1:
            valid = False
            break
        want.append((rest.pop(0), rest.pop(0)))
    msg, exc = env.attempt(Message.decode, layouts.to_frame(env, head + body))
    if not valid:
        env.check(exc is not None, "half a member is accepted")
        env.reach("rejected")
        return
    env.check(exc is None, "a valid report is not accepted")
    env.check(_same(env, list(msg.nodes), want), "other members than on the wire")
    node, ep = env.byte("asked.node"), env.byte("asked.ep")
    found = any(env.and_(n == node, (0 if e is None else e) == ep) for n, e in want)
    group = env.mod("pyzwave.commandclass.Association").Group()
    group.nodes = msg.nodes
    env.check(bool(group.nodes.contains(node, ep)) == bool(found), "membership is not told truthfully")
    env.check(bool(group.nodes.contains(node)) == bool(any(env.and_(n == node, (0 if e is None else e) == 0) for n, e in want)),
              "membership is not told truthfully")
    env.reach("accepted")


class Groups:
    """A node with association groups whose reports take several frames"""

    def __init__(self, env, stub, multi, count):
        self.env, self.stub, self.multi, self.count = env, stub, multi, count
        self.cid = CLASSES[multi]
        self.groups = {}
        self.asked, self.sets = [], []
        self.times = {}
        stub.answers[(0x86, 0x13)] = lambda body: [[0x86, 0x14, body[2], 2]]
        stub.answers[(0x85, 0x05)] = lambda body: [[0x85, 0x06, count]]
        stub.answers[(self.cid, 0x02)] = self.get
        stub.answers[(0x85, 0x01)] = stub.answers[(0x8E, 0x01)] = self.set

    def get(self, body):
        env, p = self.env, self.env.params
        group = int(body[2])
        turn = self.asked.count(group)
        self.asked.append(group)
        name = "g%d.%d" % (group, turn)
        if turn == 0 and p.get("silent") and env.choice(name + ".silent", [0, 1]):
            return []
        most = env.byte(name + ".max")
        frames = env.choice(name + ".frames", p["frames"])
        kinds = ("plain", "endpoint") if self.multi else ("plain",)
        out, members = [], []
        for f in range(frames):
            part = _members(env, "%s.%d" % (name, f), p["members"], kinds)
            members += _sorted(part)
            if p.get("stray") and env.choice("%s.%d.stray" % (name, f), [0, 1]):
                # a report of another group in between
                other = env.byte("%s.%d.other" % (name, f))
                env.assume(other != group)
                out.append([self.cid, 0x03, other, 9, env.choice("%s.%d.more" % (name, f), [0, 1]), 99])
            out.append([self.cid, 0x03, group, most, frames - 1 - f] + _wire(part))
        self.groups[group] = (most, members)
        return out

    def set(self, body):
        self.sets.append(body)
        return []


def h_interview(env):
    """After an interview every group is as the node reported it"""
    p = env.params
    _modules(env)
    multi = env.choice("multi", p["multi"])
    plus = env.choice("plus", p["plus"])
    channels = env.choice("channels", [False, True]) if multi and p["plus"] == [True] else True
    classes = [0x85] + ([0x8E] if multi else []) + ([0x5E] if plus else []) + ([0x60] if channels else [])
    node, stub = nodes.node(env, classes)
    stub.latency = 10
    count = env.choice("count", p["counts"])
    world = Groups(env, stub, multi, count)
    cc = node.supported[0x85]
    task = env.task(cc.interview())
    env.run_until(env.now() + 30000)
    kind, _res = zipnet.outcome(task)
    env.check(kind == "value", "an interview does not come to its end")
    env.check(sorted(cc.groupings) == list(range(1, count + 1)), "other groups than the node has")
    lifeline = count > 0 and plus
    first = [g for g in range(1, count + 1)]
    env.check(world.asked[:count] == first, "not every group is asked for")
    env.check(all(len(b) == 3 for b in stub.bodies() if b[0] == world.cid and b[1] == 2), "another request than for one group")
    if not plus or count == 0:
        env.check(not world.sets and len(world.asked) == count, "the lifeline is set up without need")
    else:
        again = world.asked[count:]
        env.check(again in ([], [1]), "other groups are asked for again")
        env.check(len(world.sets) == len(again), "a lifeline that is set up is not read back")
        if again:
            want = [0x8E, 0x01, 1, 0, 1, 0] if multi and channels else None
            body = world.sets[0]
            if want is None:
                want = [0x85, 0x01, 1, 1]
            env.check(len(body) == len(want) and body == bytes(want), "the lifeline is set up otherwise than for the controller")
            env.reach("lifeline")
    for g in range(1, count + 1):
        group = cc.groupings[g]
        if g not in world.groups:
            env.check(env.and_(env.eq(group.maxNodes, 0), len(group.nodes) == 0), "members of a group that was not reported")
            env.reach("silent")
            continue
        most, members = world.groups[g]
        env.check(env.eq(group.maxNodes, most), "another limit than reported")
        env.check(_same(env, list(group.nodes), members), "other members than reported")
        env.reach("reported")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_lifeline(env):
    """The lifeline is set up exactly when the controller is not in it"""
    p = env.params
    _modules(env)
    multi, channels = env.choice("kind", [(False, False), (True, True), (True, False)])
    node, stub = nodes.node(env, [0x85, 0x5E] + ([0x8E] if multi else []) + ([0x60] if channels else []))
    members = _members(env, "m", p["members"], ("plain", "endpoint") if multi else ("plain",))
    wire, cid, after = _wire(members), CLASSES[multi], env.byte("after")
    reports = [[cid, 0x03, 1, 5, 0] + wire, [cid, 0x03, 1, 5, 0, after]]
    env.assume(after != 0)
    stub.answers[(cid, 0x02)] = lambda body: [reports.pop(0)]
    stub.answers[(0x86, 0x13)] = lambda body: [[0x86, 0x14, body[2], 2]]
    stub.answers[(0x85, 0x05)] = lambda body: [[0x85, 0x06, 1]]
    cc = node.supported[0x85]
    _r, exc = env.attempt_run(cc.interview())
    env.check(exc is None, "an interview does not come to its end")
    there = any(env.and_(n == 1, e is None or e == 0) for n, e in members)
    sets = [b for b in stub.bodies() if int(b[0]) in (0x85, 0x8E) and int(b[1]) == 0x01]
    if there:
        env.check(not sets, "the lifeline is set up though it is there")
        env.check(_same(env, list(cc.groupings[1].nodes), _sorted(members)), "other members than reported")
        env.reach("there")
        return
    want = [0x8E, 0x01, 1, 0, 1, 0] if multi and channels else [0x85, 0x01, 1, 1]
    env.check(len(sets) == 1 and len(sets[0]) == len(want) and sets[0] == bytes(want), "the lifeline is missing and not set up")
    env.check(_same(env, list(cc.groupings[1].nodes), [(after, None)]), "other members than reported after the set up")
    env.reach("missing")


def h_late(env):
    """Frames of a report at any times: complete within three seconds, or the group is left as it was"""
    p = env.params
    A, _M = _modules(env)
    node, stub = nodes.node(env, [0x85])
    cc = node.supported[0x85]
    cc.groupings.setNumGroups(2)
    cc.groupings[1].nodes = [(7, None)]
    cc.groupings[1].maxNodes = 3
    begin, last, members = env.now(), 0, []
    ends = {}

    async def ask():
        try:
            await cc.interviewGrouping(1)
            ends["what"] = "read"
        except asyncio.TimeoutError:
            ends["what"] = "timeout"

    env.own.append(env.loop.create_task(ask()))
    env.settle()
    for f in range(p["frames"]):
        at = env.int("at%d" % f, 1, 6000)
        env.assume(env.and_(last < at, env.not_(at == 3000)))
        last = at
        member = env.byte("member%d" % f)
        env.assume(member != 0)
        members.append((member, None))
        nodes.deliver(env, node, [0x85, 0x03, 1, 9, p["frames"] - 1 - f, member], at)
    env.run_until(begin + 9000)
    group = cc.groupings[1]
    if last < 3000:
        env.check(ends.get("what") == "read", "a complete report is not taken")
        env.check(env.and_(_same(env, list(group.nodes), members), env.eq(group.maxNodes, 9)), "other members than reported")
        env.reach("read")
    else:
        env.check(ends.get("what") == "timeout", "an incomplete report is taken")
        env.check(env.and_(_same(env, list(group.nodes), [(7, None)]), env.eq(group.maxNodes, 3)), "a group changes though its report is not complete")
        env.reach("timeout")
    env.check(len(cc.groupings[2].nodes) == 0, "members of another group")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")


CASES = [
    dict(name="association-wire", prop="C24", fn="h_wire", weight=3, reach=["end"], params=dict(members=3), bounds="up to 3 members with any ids and endpoints"),
    dict(name="association-bytes", prop="C24", fn="h_bytes", weight=3, reach=["accepted", "rejected"], params=dict(bytes=5),
         bounds="reports with up to 5 arbitrary bytes of members"),
    dict(name="association-interview", prop="C24", fn="h_interview", weight=5, reach=["reported", "silent", "end"],
         params=dict(members=1, frames=[1, 2], counts=[0, 1, 2], multi=[False, True], plus=[False], silent=1),
         bounds="up to 2 groups of up to 2 frames of up to 1 member, or silent"),
    dict(name="association-stray", prop="C24", fn="h_interview", weight=5, reach=["reported", "end"],
         params=dict(members=1, frames=[1, 2], counts=[1], multi=[False, True], plus=[False], stray=1), bounds="reports of other groups in between"),
    dict(name="association-plus", prop="C24", fn="h_interview", weight=5, reach=["reported", "lifeline", "end"],
         params=dict(members=1, frames=[1, 2], counts=[0, 1], multi=[False, True], plus=[True]), bounds="lifelines of up to 2 members"),
    dict(name="association-lifeline", prop="C24", fn="h_lifeline", weight=3, reach=["there", "missing"], params=dict(members=3),
         bounds="lifelines of up to 3 members"),
    dict(name="association-late", prop="C24", fn="h_late", weight=3, reach=["read", "timeout"], params=dict(frames=3), bounds="3 frames at any times"),
    dict(name="association-wire-5", prop="C24", fn="h_wire", weight=6, tiers=["thorough"], params=dict(members=5)),
    dict(name="association-bytes-8", prop="C24", fn="h_bytes", weight=6, tiers=["thorough"], params=dict(bytes=8)),
    dict(name="association-interview-3", prop="C24", fn="h_interview", weight=8, tiers=["thorough"],
         params=dict(members=1, frames=[1, 3], counts=[3], multi=[False, True], plus=[False], silent=1)),
]
