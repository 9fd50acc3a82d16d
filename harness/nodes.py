"""Helpers for harnesses that look at single nodes"""
import asyncio

from . import layouts


class Stub:
    """An adapter that records what is sent to nodes; sends succeed unless told otherwise"""

    nodeId = 1

    def __init__(self, env):
        self.env = env
        self.sends = []         # (ms, node id, body, kwargs)
        self.ok = True
        self.answers = {}       # (class, command) -> fn(body) -> list of messages for the node
        self.node = None
        self.latency = 0

    async def sendToNode(self, nodeId, cmd, **kwargs):
        body = cmd.compose()
        self.sends.append((self.env.now(), nodeId, body, kwargs))
        ok = self.ok(body) if callable(self.ok) else self.ok
        if ok == "never":
            await asyncio.sleep(3)
            return False
        if ok and len(body) >= 2:
            fn = self.answers.get((int(body[0]), int(body[1])))
            if fn is not None:
                for reply in fn(body):
                    deliver(self.env, self.node, reply, self.latency)
        await asyncio.sleep(0)
        return ok

    def bodies(self):
        return [s[2] for s in self.sends]


def message(env, body):
    """The message decoded from these bytes"""
    return env.mod("pyzwave.message").Message.decode(layouts.to_frame(env, body))


def deliver(env, node, body, latency=0):
    """A message of the node arrives"""
    def arrive():
        env.own.append(env.loop.create_task(node.handleMessage(message(env, body), {})))
    env.at(env.now() + latency, arrive)


def node(env, classes, nodeId=5):
    env.loop
    stub = Stub(env)
    n = env.mod("pyzwave.node").Node(nodeId, stub, list(classes))
    stub.node = n
    return n, stub


def endpoint(env, parent, ep, classes):
    return env.mod("pyzwave.node").NodeEndPoint(parent, ep, parent.adapter, list(classes))


class Updates:
    """Storage stand-in: records what is announced for storage"""

    def __init__(self, env):
        self.env, self.times = env, []

    def nodeUpdated(self, node):
        self.times.append(self.env.now())
