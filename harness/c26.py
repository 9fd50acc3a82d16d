"""C26: association group information is read completely"""
from . import nodes, layouts, zipnet


def _text(env, name, size):
    """Bytes of a name"""
    out = []
    for i in range(size):
        b = env.byte("%s.%d" % (name, i))
        env.assume(b < 128)
        out.append(b)
    return out


def _text_ok(env, got, data):
    return env.eq(got, layouts.to_frame(env, data).decode("utf-8") if data else "")


def _commands(env, name, most):
    """Pairs of class and command; classes of two bytes excluded"""
    out = []
    for i in range(env.size(name + ".commands", 0, most)):
        cls, cmd = env.byte("%s.class%d" % (name, i)), env.byte("%s.command%d" % (name, i))
        env.assume(cls < 0xF0)
        out.append((cls, cmd))
    return out


def _commands_ok(env, got, want):
    if len(got) != len(want):
        return False
    return env.and_(True, *[env.and_(len(g) == 2, g[0] == w[0], g[1] == w[1]) for g, w in zip(got, want)])


def _info(env, name, ident):
    mode, profile, event = env.byte(name + ".mode"), env.bits(name + ".profile", 16), env.bits(name + ".event", 16)
    return [ident, mode, profile >> 8, profile & 255, env.byte(name + ".reserved"), event >> 8, event & 255], profile


def h_wire(env):
    """Every report is decoded as sent"""
    p = env.params
    Message = env.mod("pyzwave.message").Message
    ident = env.byte("group")
    kind = env.choice("kind", ["info", "name", "commands"])
    if kind == "info":
        count = env.size("count", 0, p["groups"])
        flags = env.bits("flags", 2)
        body, want = [], []
        for i in range(count):
            number = env.byte("id%d" % i)
            raw, profile = _info(env, "g%d" % i, number)
            body += raw
            want.append((number, profile, raw))
        msg = Message.decode(layouts.to_frame(env, [0x59, 0x04, flags * 64 + count] + body))
        env.check(int(msg.groupCount) == count, "another number of groups")
        if count:
            env.check(len(msg.groups) == count, "groups are lost")
            for got, (number, profile, raw) in zip(msg.groups, want):
                env.check(env.and_(env.eq(got.groupingIdentifier, number), env.eq(got.profile, profile), env.eq(got.mode, raw[1]),
                                   env.eq(got.eventCode, raw[5] * 256 + raw[6])), "a group is decoded otherwise than sent")
    elif kind == "name":
        data = _text(env, "name", env.size("length", 0, p["name"]))
        msg = Message.decode(layouts.to_frame(env, [0x59, 0x02, ident, len(data)] + data))
        env.check(env.eq(msg.groupingIdentifier, ident) and _text_ok(env, msg.name, data), "a name is decoded otherwise than sent")
    else:
        pairs = _commands(env, "list", p["commands"])
        msg = Message.decode(layouts.to_frame(env, [0x59, 0x06, ident, 2 * len(pairs)] + [b for x in pairs for b in x]))
        env.check(env.eq(msg.groupingIdentifier, ident) and _commands_ok(env, msg.commandClass, pairs), "commands are decoded otherwise than sent")
    env.reach(kind)


class World:
    """A node with association groups; any of its answers may be missing or late"""

    def __init__(self, env, stub, groups, frames):
        self.env, self.stub, self.groups, self.frames = env, stub, groups, frames
        self.profiles, self.names, self.lists = {}, {}, {}
        stub.answers[(0x86, 0x13)] = lambda body: [[0x86, 0x14, body[2], 1]]
        stub.answers[(0x59, 0x03)] = self.info
        stub.answers[(0x59, 0x01)] = self.name
        stub.answers[(0x59, 0x05)] = self.commands

    def info(self, body):
        out = []
        for part in self.frames:
            raw = []
            for g in part:
                data, self.profiles[g] = _info(self.env, "g%d" % g, g)
                raw += data
            out.append([0x59, 0x04, 64 + len(part)] + raw)
        return out

    def name(self, body):
        env, p, g = self.env, self.env.params, int(body[2])
        if g in self.names:
            return []
        if p.get("silent") and env.choice("name%d.silent" % g, [0, 1]):
            self.names[g] = None
            return []
        self.names[g] = _text(env, "name%d" % g, env.size("name%d.length" % g, 1, p["name"]))
        return self.stray("name", [0x59, 0x02, g, len(self.names[g])] + self.names[g])

    def commands(self, body):
        env, p, g = self.env, self.env.params, int(body[3])
        if g in self.lists:
            return []
        if p.get("silent") and env.choice("list%d.silent" % g, [0, 1]):
            self.lists[g] = None
            return []
        self.lists[g] = _commands(env, "list%d" % g, p["commands"])
        return self.stray("list", [0x59, 0x06, g, 2 * len(self.lists[g])] + [b for x in self.lists[g] for b in x])

    def stray(self, name, body):
        """The same report for a group the node does not have, before the real one"""
        env, p = self.env, self.env.params
        if not p.get("stray"):
            return [body]
        other = env.byte("%s.%d.other" % (name, int(body[2])))
        env.assume(env.not_(env.member(other, self.groups)))
        return [[body[0], body[1], other] + ([1, 0x41] if name == "name" else [2, 0x20, 1]), body]


def h_interview(env):
    """After an interview every group is as the node reported it"""
    p = env.params
    env.mod("pyzwave.application")
    node, stub = nodes.node(env, [0x59])
    stub.latency = env.choice("latency", p.get("latency", [0]))
    frames = env.choice("frames", p["frames"])
    groups = [g for part in frames for g in part]
    world = World(env, stub, groups, frames)
    cc = node.supported[0x59]
    _r, exc = env.attempt_run(cc.interview())
    env.check(exc is None and cc.interviewed, "an interview does not come to its end")
    env.run_until(env.now() + 5000)
    env.check(sorted(int(g) for g in cc.groupings) == sorted(groups), "other groups than the node has")
    asked = [list(int(x) for x in b) for b in stub.bodies() if int(b[0]) == 0x59]
    env.check(asked[0] == [0x59, 0x03, 0x40, 0], "the groups are not asked for as a list")
    for g in groups:
        env.check(asked.count([0x59, 0x01, g]) == 1, "the name of a group is not asked for once")
        env.check(asked.count([0x59, 0x05, 0x80, g]) == 1, "the commands of a group are not asked for once")
        group = cc.groupings[g]
        env.check(env.eq(group.profile, world.profiles[g]), "another profile than reported")
        name, pairs = world.names[g], world.lists[g]
        env.check(_text_ok(env, group.name, name or []), "another name than reported for the group")
        env.check(_commands_ok(env, group.commands or [], pairs or []), "other commands than reported for the group")
        env.reach("read" if name and pairs is not None else "silent")
    env.check(len(asked) == 1 + 2 * len(groups), "something else is asked for")
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")
    env.reach("end")


def h_reports(env):
    """Reports out of the blue: each changes the group it names and no other"""
    p = env.params
    env.mod("pyzwave.application")
    node, stub = nodes.node(env, [0x59])
    cc = node.supported[0x59]
    raw1, profile1 = _info(env, "g1", 1)
    raw2, profile2 = _info(env, "g2", 2)
    env.run(node.handleMessage(nodes.message(env, [0x59, 0x04, 66] + raw1 + raw2), {}))
    state = {1: [profile1, [], []], 2: [profile2, [], []]}
    for k in range(p["reports"]):
        kind = env.choice("kind%d" % k, ["name", "commands", "info"])
        group = env.byte("group%d" % k)
        if kind == "name":
            data = _text(env, "name%d" % k, 2)
            body = [0x59, 0x02, group, 2] + data
        elif kind == "commands":
            data = _commands(env, "list%d" % k, 1)
            body = [0x59, 0x06, group, 2 * len(data)] + [b for x in data for b in x]
        else:
            raw, data = _info(env, "info%d" % k, group)
            env.assume(env.member(group, [1, 2]))
            body = [0x59, 0x04, 1] + raw
        env.run(node.handleMessage(nodes.message(env, body), {}))
        for g in (1, 2):
            if group == g:
                if kind == "info":
                    # it is asked for everything again
                    state[g] = [data, [], []]
                else:
                    state[g][1 if kind == "name" else 2] = data
                env.reach(kind)
                break
        else:
            env.reach("stray")
        env.check(sorted(int(g) for g in cc.groupings) == [1, 2], "groups come or go")
        for g in (1, 2):
            env.check(env.and_(env.eq(cc.groupings[g].profile, state[g][0]), _text_ok(env, cc.groupings[g].name, state[g][1]),
                               _commands_ok(env, cc.groupings[g].commands or [], state[g][2])), "a group is otherwise than reported")


ASSUME = ["names are ASCII", "command classes of two bytes are excluded"]
CASES = [
    dict(name="groupinfo-wire", prop="C26", fn="h_wire", weight=2, reach=["info", "name", "commands"], assumes=ASSUME,
         params=dict(groups=3, name=5, commands=3), bounds="reports of up to 3 groups, 5 letters, 3 commands"),
    dict(name="groupinfo-interview", prop="C26", fn="h_interview", weight=4, reach=["read", "silent", "end"], assumes=ASSUME,
         params=dict(frames=[[[1]], [[1, 2]], [[1], [2]], [[2], [1]], [[255]]], name=2, commands=1, silent=1),
         bounds="up to 2 groups in up to 2 reports; names and commands reported or not"),
    dict(name="groupinfo-late", prop="C26", fn="h_interview", weight=4, reach=["read", "end"], assumes=ASSUME,
         params=dict(frames=[[[1, 2]], [[2], [1, 3]]], name=2, commands=1, stray=1, latency=[0, 50, 400]), bounds="up to 3 groups, reports for other groups in between"),
    dict(name="groupinfo-reports", prop="C26", fn="h_reports", weight=4, reach=["name", "commands", "info", "stray"], assumes=ASSUME,
         params=dict(reports=2), bounds="2 reports for any groups"),
    dict(name="groupinfo-reports-3", prop="C26", fn="h_reports", weight=6, tiers=["thorough"], assumes=ASSUME, params=dict(reports=3)),
    dict(name="groupinfo-interview-3", prop="C26", fn="h_interview", weight=6, tiers=["thorough"], assumes=ASSUME,
         params=dict(frames=[[[1, 2, 3]], [[1], [2], [3]]], name=2, commands=1, silent=1)),
]
