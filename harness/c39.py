"""C39: a node shows what is known about it, and is removed truthfully"""
from . import layouts, nodes, zipnet


def h_shows(env):
    """Ids, device classes, command classes and state, of a node and its endpoint, at any time"""
    p = env.params
    node_id, ep = env.byte("node"), env.bits("endpoint", 7)
    known = [0x5E, 0x25, 0x60, 0xFE]
    classes = [env.choice("class%d" % i, known) for i in range(env.size("classes", 0, p["classes"]))]
    root, stub = nodes.node(env, classes, node_id)
    sub_classes = [env.choice("sub%d" % i, known) for i in range(env.size("subs", 0, p["subs"]))]
    sub = nodes.endpoint(env, root, ep, sub_classes)
    env.check(env.eq(root.nodeId, "{}:0".format(node_id)), "another node id")
    env.check(env.eq(sub.nodeId, "{}:{}".format(node_id, ep)), "another id of the endpoint")
    env.check(env.and_(root.rootNodeId == node_id, sub.rootNodeId == node_id), "another node id")
    env.check(env.and_(root.endpoint == 0, sub.endpoint == ep), "another endpoint")
    env.check(sub.parent is root, "another parent")
    env.check(root.adapter is stub and sub.adapter is stub, "another adapter")
    asked = env.byte("asked")
    for node, has in ((root, classes), (sub, sub_classes)):
        want = env.or_(*[c == asked for c in has]) if has else False
        env.check((True if node.supports(asked) else False) == want, "not the supported command classes")
        plus = env.or_(*[c == 0x5E for c in has]) if has else False
        env.check((True if node.isZWavePlus else False) == plus, "Z-Wave Plus is not told truthfully")
    # no value is known at first
    for node in (root, sub):
        env.check(node.flirs is False and node.isFailed is False and node.listening is False, "states nobody gave")
        env.check(node.basicDeviceClass == 0 and node.genericDeviceClass == 0 and node.specificDeviceClass == 0,
                  "device classes nobody gave")
    state = {}
    for i in range(p["writes"]):
        what = env.choice("what%d" % i, ["basicDeviceClass", "genericDeviceClass", "specificDeviceClass",
                                         "flirs", "isFailed", "listening", "sub.generic", "sub.specific"])
        if what in ("flirs", "isFailed", "listening"):
            value = env.bool("value%d" % i)
        else:
            value = env.byte("value%d" % i)
        if what == "sub.generic":
            sub.genericDeviceClass = value
        elif what == "sub.specific":
            sub.specificDeviceClass = value
        else:
            setattr(root, what, value)
        state[what] = value
        for name, default in (("basicDeviceClass", 0), ("flirs", False), ("isFailed", False), ("listening", False)):
            want = state.get(name, default)
            env.check(env.and_(getattr(root, name) == want, getattr(sub, name) == want),
                      "%s is not the one of the node" % name)
        for node, names in ((root, ("genericDeviceClass", "specificDeviceClass")), (sub, ("sub.generic", "sub.specific"))):
            env.check(env.and_(node.genericDeviceClass == state.get(names[0], 0), node.specificDeviceClass == state.get(names[1], 0)),
                      "not the device classes of this endpoint")
    env.reach("end")


def h_remove(env):
    """Removing a failed node, or the node an endpoint belongs to, with any outcome"""
    app, gw, fake, transport, _uns = zipnet.application(env, {6: [0x60, 0x25], 7: [0x25]}, endpoints={6: [[0x25], [0x25]]})
    which = env.choice("which", ["6:0", "6:2", "7:0"])
    node_id = int(which[0])
    outcome = env.choice("outcome", ["answered", "silent", "refused", "late"])
    status, other = env.byte("status"), env.byte("other")
    late = env.int("delay", 0, 20000) if outcome == "late" else 0
    seen = len(fake.requests)

    def answer(body):
        if outcome in ("silent", "refused"):
            return []
        reply = [0x34, 0x08, body[2], status, other]
        if outcome == "late":
            env.at(env.now() + late, lambda: transport.deliver(zipnet.command(env, 99, reply)))
            return []
        return [reply]

    fake.answers[(0x34, 0x07)] = answer
    if outcome == "refused":
        fake.acks = False
        inner = fake.on_send

        def on_send(tr, data, addr):
            inner(tr, data, addr)
            if zipnet.is_zip(data) and data[2] & 0x80:
                fake.later(tr, zipnet.packet(env, zipnet.seq_of(data), nackResponse=1))
        env.net.on_send = on_send
    env.assume(env.or_(late < 9900, late > 10100))
    result, exc = env.attempt_run(app.nodes[which].remove())
    env.check(exc is None, "removing a node raises")
    env.check(isinstance(result, bool), "not told whether it was removed")
    gone = outcome == "answered" or (outcome == "late" and late < 10000)
    env.check(result == env.and_(gone, status == 1), "not told truthfully whether the node was removed")
    env.reach("removed" if result else "kept")
    new = [(tr, body) for _t, tr, _s, body in fake.requests[seen:]]
    env.check(len(new) == 1, "not exactly one command")
    env.check(new[0][0] is transport, "not sent to the gateway")
    body = new[0][1]
    env.check(len(body) == 4 and env.eq(body[:2], layouts.to_frame(env, [0x34, 0x07])) and body[3] == node_id,
              "another node is removed")
    # the nodes follow the node list, not the command
    env.check(sorted(app.nodes) == ["6:0", "6:1", "6:2", "7:0"], "a node disappears without a node list")
    env.run_until(env.now() + 25000)
    env.check(not zipnet.task_errors(env), "an error escapes into the event loop")


CASES = [
    dict(name="node-classes", prop="C39", fn="h_shows", params=dict(classes=2, subs=1, writes=0), weight=3, reach=["end"],
         bounds="any ids and any class asked for, up to 2 command classes and one of the endpoint out of 4"),
    dict(name="node-states", prop="C39", fn="h_shows", params=dict(classes=0, subs=0, writes=2), weight=3, reach=["end"],
         bounds="any ids, 2 changes of any state to any value"),
    dict(name="node-classes-deep", prop="C39", fn="h_shows", params=dict(classes=3, subs=2, writes=0), weight=3, tiers=["thorough"]),
    dict(name="node-states-deep", prop="C39", fn="h_shows", params=dict(classes=0, subs=0, writes=3), weight=3, tiers=["thorough"]),
    dict(name="node-remove", prop="C39", fn="h_remove", params={}, weight=2, reach=["removed", "kept"],
         bounds="a node, its endpoint or another node; any status, answered after any time or never, or refused"),
]
