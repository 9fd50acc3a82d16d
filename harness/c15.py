"""C15: a saved network is restored as it was

A node is brought into an arbitrary state by what it reports, saved, and loaded
into a new node with the same classes, directly or through the YAML file.
"""
import shutil
import tempfile

from . import nodes
from .c14 import copy


def _storage(env, fn):
    """Runs fn(storage) with a YamlStorage on a directory of its own"""
    Storage = env.mod("pyzwave.persistantstorage").YamlStorage
    if env.symbolic:
        return fn(Storage("/store"))
    path = tempfile.mkdtemp()
    try:
        import os
        os.mkdir(os.path.join(path, "nodes"))
        return fn(Storage(path))
    finally:
        shutil.rmtree(path, ignore_errors=True)


def _restore(env, node, classes, ep=None):
    """The node as it is after a restart"""
    env.own_node = None
    how = env.choice("how", ["yaml", "state"])
    new, _stub = nodes.node(env, classes)
    if ep:
        new = nodes.endpoint(env, new, ep, classes)
    if how == "yaml":
        def through(storage):
            # something else is stored for another node, and older data for this one
            other, _s = nodes.node(env, [0x72], nodeId=7)
            other.supported[0x72]._version = 9
            storage.nodeUpdated(nodes.node(env, classes)[0])
            storage.nodeUpdated(node)
            storage.nodeUpdated(other)
            storage.nodeAdded(None, new)
        _storage(env, through)
    else:
        for cid, cls in new.supported.items():
            cls.__setstate__(copy_plain(node.supported[cid].__getstate__()))
    return new


def copy_plain(state):
    if isinstance(state, dict):
        return {k: copy_plain(v) for k, v in state.items()}
    if isinstance(state, list):
        return [copy_plain(x) for x in state]
    return state


def _basics(env, node, cid):
    cls = node.supported[cid]
    cls._version = env.byte("version")
    cls._interviewed = bool(env.choice("interviewed", [0, 1]))
    return cls


def _compare(env, node, new, cid):
    one, two = node.supported[cid], new.supported[cid]
    env.check(two.version == one.version, "another version is restored")
    env.check(type(two.interviewed) is bool and two.interviewed == one.interviewed, "another interview state is restored")
    env.check(copy(one.__getstate__()) == copy(two.__getstate__()), "other data is restored")
    return two


FIELDS = {
    0x86: [("zwaveLibraryType", 8), ("zwaveProtocolVersion", 8), ("zwaveProtocolSubVersion", 8),
           ("applicationVersion", 8), ("applicationSubVersion", 8)],
    0x72: [("manufacturerID", 16), ("productTypeID", 16), ("productID", 16)],
    0x5E: [("zwavePlusVersion", 8), ("roleType", 8), ("nodeType", 8), ("installerIconType", 16), ("userIconType", 16)],
    0x20: [], 0xFE: [], 0x69: [],
}


def h_fields(env):
    """Classes with numbers as data"""
    cid = env.params["class"]
    classes = [cid, 0x25]
    node, _stub = nodes.node(env, classes)
    cls = _basics(env, node, cid)
    values = {}
    for name, bits in FIELDS[cid]:
        values[name] = env.bits(name, bits)
        if not values or env.choice(name + ".set", [1, 0]):
            setattr(cls, name, values[name])
        else:
            values[name] = None
    new = _restore(env, node, classes)
    two = _compare(env, node, new, cid)
    for name, _bits in FIELDS[cid]:
        if values[name] is not None:
            env.check(getattr(two, name) == values[name], "another value is restored")
            env.check(type(getattr(two, name)) is type(getattr(cls, name)), "restored in another type")
    env.check(new.supported[0x25].version == 0 and not new.supported[0x25].interviewed, "another class is changed")
    env.reach("ok")


def h_association(env):
    classes = [0x85]
    node, _stub = nodes.node(env, classes)
    cls = _basics(env, node, 0x85)
    groups = env.size("groups", 0, env.params["groups"])
    cls.groupings.setNumGroups(groups)
    given = {}
    for g in range(1, groups + 1):
        group = cls.groupings[g]
        group.maxNodes = env.byte("max%d" % g)
        members = []
        for i in range(env.size("members%d" % g, 0, env.params["members"])):
            name = "%d.%d" % (g, i)
            ep = env.byte("ep" + name) if env.choice("multi" + name, [0, 1]) else None
            members.append((env.byte("node" + name), ep))
        group.nodes = members
        given[g] = members
    new = _restore(env, node, classes)
    two = _compare(env, node, new, 0x85)
    env.check(sorted(two.groupings) == list(range(1, groups + 1)), "other groups are restored")
    probe, probe_ep = env.byte("probe"), env.byte("probe.ep")
    for g, members in given.items():
        group = two.groupings[g]
        env.check(group.maxNodes == cls.groupings[g].maxNodes, "another limit is restored")
        env.check(len(group.nodes) == len(members), "another number of members is restored")
        for (a, b), (c, d) in zip(group.nodes, members):
            env.check(env.and_(a == c, (b is None) == (d is None)), "another member is restored")
            env.check(b is None or env.eq(b, d), "another endpoint is restored")
        inside = env.or_(*[env.and_(a == probe, (0 if b is None else b) == probe_ep) for a, b in members])
        env.check(group.nodes.contains(probe, probe_ep) == inside, "membership is not restored")
    env.reach("ok")


def h_groups(env):
    """Association group information as the node reports it"""
    classes = [0x59]
    node, _stub = nodes.node(env, classes)
    cls = _basics(env, node, 0x59)
    p = env.params
    for g in range(1, env.size("groups", 0, p["groups"]) + 1):
        body = [0x59, 0x04, 0x01, g, 0, env.byte("profile%d.0" % g), env.byte("profile%d.1" % g), 0, 0, 0]
        env.run(node.handleMessage(nodes.message(env, body), {}))
        n = env.size("name%d.n" % g, 0, p["name"])
        name = env.bytes("name%d" % g, n)
        for c in name:
            env.assume(env.and_(c >= 0x20, c < 0x7F))
        if env.choice("named%d" % g, [1, 0]):
            env.run(node.handleMessage(nodes.message(env, [0x59, 0x02, g, n] + [c for c in name]), {}))
        m = env.size("commands%d" % g, 0, p["commands"])
        body = [0x59, 0x06, g, 2 * m] + [x for x in env.bytes("list%d" % g, 2 * m)]
        env.run(node.handleMessage(nodes.message(env, body), {}))
    new = _restore(env, node, classes)
    two = _compare(env, node, new, 0x59)
    env.check(sorted(two.groupings) == sorted(cls.groupings), "other groups are restored")
    for g in sorted(cls.groupings):
        before, after = cls.groupings[g], two.groupings[g]
        env.check(env.eq(before.name, after.name), "another name is restored")
        env.check(before.profile == after.profile, "another profile is restored")
        env.check(len(before.commands) == len(after.commands), "another number of commands is restored")
        for a, b in zip(before.commands, after.commands):
            env.check(env.and_(a[0] == b[0], a[1] == b[1]), "another command is restored")
    env.reach("ok")


def h_configuration(env):
    classes = [0x70]
    node, stub = nodes.node(env, classes)
    cls = _basics(env, node, 0x70)
    n = env.size("reports", 0, env.params["reports"])
    for i in range(n):
        size = env.choice("size%d" % i, [1, 2, 4])
        body = [0x70, 0x06, env.byte("number%d" % i), size] + [x for x in env.bytes("value%d" % i, size)]
        env.run(node.handleMessage(nodes.message(env, body), {}))
    new = _restore(env, node, classes)
    two = _compare(env, node, new, 0x70)
    env.check(len(two.parameters) == len(cls.parameters), "another number of parameters is restored")
    sends = len(stub.sends)
    for number in list(cls.parameters):
        value = env.run(two.get(number))
        env.check(value == cls.parameters[number].value, "another value is restored")
        env.check(two.parameters[number].size == cls.parameters[number].size, "another size is restored")
    env.check(len(stub.sends) == sends, "a restored value is asked for")
    env.reach("ok")


def h_sensor(env):
    classes = [0x31]
    node, stub = nodes.node(env, classes)
    mask = env.byte("mask")
    env.assume(mask & env.params["mask"] == mask)
    stub.answers[(0x86, 0x13)] = lambda b: [[0x86, 0x14, b[2], env.params["version"]]]
    stub.answers[(0x31, 0x01)] = lambda b: [[0x31, 0x02, mask]]
    count = []

    def scales(b):
        count.append(1)
        return [[0x31, 0x06, b[2], env.byte("scales%d" % len(count))]]
    stub.answers[(0x31, 0x03)] = scales
    env.run(node.interview())
    new = _restore(env, node, classes)
    two = _compare(env, node, new, 0x31)
    cls = node.supported[0x31]
    env.check(len(two.supportedTypes) == len(cls.supportedTypes), "another number of sensors is restored")
    for key in list(cls.supportedTypes):
        env.check(two.supportedTypes.get(int(key)) == cls.supportedTypes[key], "other scales are restored")
    # and it behaves the same
    report = [0x31, 0x05, env.byte("type"), env.byte("format") & 0xF8 | 1, 7]
    results = [env.run(n.handleMessage(nodes.message(env, report), {})) for n in (node, new)]
    env.check(bool(results[0]) == bool(results[1]), "a restored node handles reports differently")
    env.reach("ok")


def h_endpoint(env):
    """Endpoints have files of their own"""
    root, _stub = nodes.node(env, [0x72])
    ep = nodes.endpoint(env, root, 2, [0x72])
    for n, name in ((root, "root"), (ep, "ep")):
        n.supported[0x72]._version = env.byte(name + ".version")
        n.supported[0x72].productID = env.bits(name + ".product", 16)

    def through(storage):
        for n in (root, ep) if env.choice("order", [0, 1]) else (ep, root):
            storage.nodeUpdated(n)
        root2, _s = nodes.node(env, [0x72])
        ep2 = nodes.endpoint(env, root2, 2, [0x72])
        other = nodes.endpoint(env, root2, 3, [0x72])
        for n in (root2, ep2, other):
            storage.nodeAdded(None, n)
        _compare(env, root, root2, 0x72)
        _compare(env, ep, ep2, 0x72)
        env.check(other.supported[0x72].version == 0, "a node gets what was stored for another one")
    _storage(env, through)
    env.reach("ok")


def h_classes(env):
    """What is stored for a class goes to that class only, also when the classes changed"""
    options = [0x72, 0x5E, 0x20, 0xFE, 0x86]
    before = [c for i, c in enumerate(options) if env.choice("before%d" % i, [1, 0])]
    after = [c for i, c in enumerate(options) if env.choice("after%d" % i, [1, 0])]
    node, _stub = nodes.node(env, before)
    for c in before:
        node.supported[c]._version = env.byte("version%d" % c)
        node.supported[c]._interviewed = True
    new, _stub = nodes.node(env, after)

    def through(storage):
        storage.nodeUpdated(node)
        storage.nodeAdded(None, new)
    _storage(env, through)
    for c in after:
        if c in before:
            _compare(env, node, new, c)
        else:
            env.check(new.supported[c].version == 0 and not new.supported[c].interviewed, "a new class is not new")
    env.reach("ok")


CASES = [dict(name="restore-fields-%02X" % c, prop="C15", fn="h_fields", params={"class": c}, reach=["ok"], weight=2,
              bounds="every value of every attribute, set or not") for c in FIELDS]
CASES += [
    dict(name="restore-association", prop="C15", fn="h_association", params=dict(groups=2, members=2), reach=["ok"], weight=4),
    dict(name="restore-association-deep", prop="C15", fn="h_association", params=dict(groups=3, members=3), tiers=["thorough"]),
    dict(name="restore-groups", prop="C15", fn="h_groups", params=dict(groups=1, name=4, commands=2), reach=["ok"], weight=4),
    dict(name="restore-groups-2", prop="C15", fn="h_groups", params=dict(groups=2, name=1, commands=1), reach=["ok"], weight=4),
    dict(name="restore-groups-deep", prop="C15", fn="h_groups", params=dict(groups=2, name=6, commands=3), tiers=["thorough"]),
    dict(name="restore-configuration", prop="C15", fn="h_configuration", params=dict(reports=2), reach=["ok"], weight=4),
    dict(name="restore-configuration-deep", prop="C15", fn="h_configuration", params=dict(reports=3), tiers=["thorough"]),
    dict(name="restore-sensor", prop="C15", fn="h_sensor", params=dict(mask=0x15, version=5), reach=["ok"], weight=4),
    dict(name="restore-sensor-deep", prop="C15", fn="h_sensor", params=dict(mask=0xFF, version=6), tiers=["thorough"], weight=4),
    dict(name="restore-endpoint", prop="C15", fn="h_endpoint", reach=["ok"]),
    dict(name="restore-classes", prop="C15", fn="h_classes", reach=["ok"], weight=3),
]
