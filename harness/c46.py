"""C46: the DTLS connection hands on datagrams and the key as they are

The library behind it (a socket, OpenSSL's callbacks) is played: what is decided
is what pyzwave/dtlsconnection.py does with what it is given.
"""
import ssl
import sys
import types


class Sock:
    """A datagram socket that has been opened"""

    def __init__(self, server, items):
        self.server = server
        self.items = list(items)
        self.sent = []
        self.sizes = []
        self.reads = 0
        self.before = None

    def _next(self, size):
        self.sizes.append(size)
        self.reads += 1
        if self.before:
            self.before(self.reads)
        item = self.items.pop(0) if self.items else OSError("closed")
        if isinstance(item, Exception):
            raise item
        return item

    def recv(self, size):
        return self._next(size)

    def recvfrom(self, size):
        return self._next(size), ("fd00::1", 4000 + self.reads)

    def send(self, data):
        self.sent.append(data)
        return len(data)

    def close(self):
        self.items = []


def _module(env):
    if "dtls" not in sys.modules:
        stub = types.ModuleType("dtls")
        stub.do_patch = lambda: None
        sys.modules["dtls"] = stub
    return env.mod("pyzwave.dtlsconnection")


def _connection(env):
    module = _module(env)

    async def make():
        return module.DTLSConnection()

    return module, env.run(make())


def h_key(env):
    """The callbacks give the library the key, and nothing beyond the buffer"""
    module, conn = _connection(env)
    written = []
    module.memmove = lambda dst, src, n: written.append((dst, src, n))
    key = env.bytes("key", env.choice("length", env.params["lengths"]))
    conn._psk = key
    most = env.int("most", 0, 64)
    names = env.int("names", 0, 128)
    server = env.params["server"]
    if server:
        got, error = env.attempt(conn.serverPskCb, None, b"Client_identity", "key", most)
    else:
        got, error = env.attempt(conn.clientPskCb, None, None, "name", names, "key", most)
    env.check(error is None, "the callback fails")
    copied = bytearray()
    for dst, src, n in written:
        env.check(n <= len(src), "more is copied than there is")
        if dst == "key":
            env.check(not copied, "the key is copied twice")
            env.check(n <= most, "the key is written beyond its buffer")
            copied = src[:n]
        else:
            env.check(not server, "an identity is written")
            env.check(n <= names, "the identity is written beyond its buffer")
            env.check(bytes(src[:n]) == b"Client_identity", "another identity")
    if got == 0:
        env.reach("refused")
        env.check(env.or_(len(key) > most, len(key) == 0, env.and_(not server, names < 15)), "the key is not given")
        return
    env.reach("given")
    env.check(got == len(key), "the length told is not that of the key")
    env.check(env.eq(copied, key), "another key is given")
    env.check(server or any(dst == "name" for dst, _s, _n in written), "no identity is given")


def h_receive(env):
    """Every datagram once, unchanged and in order, until the end"""
    p = env.params
    module, conn = _connection(env)
    count = env.choice("count", p["counts"])
    datagrams = [env.bytes("datagram%d" % k, env.choice("size%d" % k, p["sizes"])) for k in range(count)]
    end = env.choice("end", ["error", "ssl", "stop"])
    items = list(datagrams)
    if end != "stop":
        items.append(OSError("closed") if end == "error" else ssl.SSLError("alert"))
    sock = Sock(p["server"], items)
    conn.createDtlsPskSock = lambda: sock
    conn._server = p["server"]
    got = []
    if env.choice("listening", [1, 0]):
        conn.onMessage(lambda *args: got.append(args))
        expected = count
    else:
        expected = 0
    if end == "stop":
        def before(reads):
            if reads >= count:
                conn.stop()
            env.check(reads <= max(count, 1), "it reads on after having been stopped")
        sock.before = before
        if not count:
            items.append(OSError("closed"))
            sock.items = items
    result, error = env.attempt(conn.run)
    env.check(error is None, "the reader fails")
    env.settle()
    env.check(sock.reads <= count + 1, "it reads on after the connection has ended")
    env.check(all(size >= 1280 for size in sock.sizes), "datagrams are cut")
    if end != "stop":
        env.check(len(got) == expected, "a datagram is lost or handed on twice")
    elif expected:
        # the one that arrives while it is being stopped may be dropped
        env.check(count - 1 <= len(got) <= count, "a datagram is lost or handed on twice")
    for k, args in enumerate(got):
        env.check(len(args) == (2 if p["server"] else 1), "other arguments")
        env.check(env.eq(args[0], datagrams[k]), "another datagram is handed on")
        if p["server"]:
            env.check(args[1] == ("fd00::1", 4001 + k), "another sender is told")
    env.reach("end")


def h_connect(env):
    """Connecting waits until the connection is there, but not for ever"""
    p = env.params
    module, conn = _connection(env)
    data = env.bytes("data", 3)
    key = env.bytes("key", 16)
    conn.send(data)
    sock = Sock(False, [])
    when = env.int("when", 1, p["until"])
    env.assume(when != 10000)
    started = []

    def start():
        started.append(conn._psk)
        env.at(env.now() + when, opened)

    def opened():
        conn._sock = sock
        conn._connectionEvent.set()

    conn.start = start
    begin = env.now()
    task = env.task(conn.connect("fd00::2", key))
    env.settle()
    env.check(len(started) == 1 and env.eq(started[0], key), "not started once with the key")
    env.check(not task.done(), "connected before it is")
    env.run_until(begin + 10050)
    env.check(task.done(), "connecting goes on for ever")
    failed = task.exception() is not None
    env.check(failed == (not when < 10000), "the outcome is another one")
    env.run_until(begin + p["until"] + 50)
    conn.send(data)
    env.check(len(sock.sent) == 1 and env.eq(sock.sent[0], data), "a datagram is not sent once as it is")
    env.reach("failed" if failed else "connected")


class Library:
    """What the connection asks of the libraries while it is being opened"""

    def __init__(self, module, log):
        self.module, self.log = module, log
        self.wrapped = None
        self.options = {}
        dtls = types.SimpleNamespace()
        dtls.wrap_server = self.wrap_server
        dtls.openssl = types.SimpleNamespace(libssl=object(), SSL=object(), _make_function=self.make)
        self.openssl = dtls.openssl
        module.dtls = dtls
        module.ssl = types.SimpleNamespace(wrap_socket=self.wrap_socket, CERT_NONE=0, SSLError=ssl.SSLError)
        module.socket = types.SimpleNamespace(AF_INET=2, AF_INET6=10, SOCK_DGRAM=2, socket=lambda *args: ("raw", args))

    def make(self, name, *_proto):
        setattr(self.openssl, name, lambda obj, wrapper: self.log.append((name, obj, wrapper)))

    def _wrap(self, raw, options):
        self.options = options
        lib = self

        class Wrapped(Sock):
            _sslobj = types.SimpleNamespace(_ssl=types.SimpleNamespace(value="ssl object"))

            def connect(self, address):
                lib.log.append(("connect", address))

            def bind(self, address):
                lib.log.append(("bind", address))

            def listen(self, backlog):
                lib.log.append(("listen",))

            def do_handshake(self):
                lib.log.append(("handshake",))

        self.wrapped = Wrapped(False, [])
        return self.wrapped

    def wrap_socket(self, raw, **options):
        return self._wrap(raw, options)

    def wrap_server(self, raw, **options):
        return self._wrap(raw, options)


def h_open(env):
    """The socket that is used has the key callbacks before its handshake"""
    server = env.params["server"]
    module, conn = _connection(env)
    log = []
    lib = Library(module, log)
    conn.start = lambda: None
    key = env.bytes("key", 16)
    if server:
        conn.listen(key)
    else:
        task = env.task(conn.connect("fd00::2", key))
        env.settle()
    stopped = env.choice("stopped", [0, 1])
    if stopped:
        # while the handshake is going on
        make = lib.make

        def late(name, *proto):
            conn.stop()
            make(name, *proto)

        lib.openssl._make_function = late
    result, error = env.attempt(conn.run)
    env.check(error is None, "it cannot be opened")
    env.settle()
    if not server:
        env.check(task.done() and task.exception() is None, "it is not told that it is connected")
    env.check(lib.options.get("ciphers") == "PSK", "other ciphers than those with the key are allowed")
    env.check(lib.options.get("do_handshake_on_connect") is False, "the handshake is made without the key")
    names = [entry[0] for entry in log]
    which = "SSL_set_psk_server_callback" if server else "SSL_set_psk_client_callback"
    wrapper = conn.serverPskCbWrapper if server else conn.clientPskCbWrapper
    env.check((which, "ssl object", wrapper) in log, "the key is not offered")
    if server:
        env.check("bind" in names and "listen" in names and "handshake" not in names, "it does not listen")
    else:
        env.check([e for e in log if e[0] == "connect"] == [("connect", ("fd00::2", 41230))], "another address")
        env.check(names.count("handshake") == 1 and names.index("handshake") > names.index(which), "the handshake is made without the key")
    env.check(lib.wrapped.reads == (0 if stopped else 1), "a stopped connection is read" if stopped else "the connection is not read")
    env.reach("stopped" if stopped else "open")


CASES = [
    dict(name="dtls-open-client", prop="C46", fn="h_open", reach=["open", "stopped"], bounds="stopped or not while it is being opened",
         params=dict(server=False)),
    dict(name="dtls-open-server", prop="C46", fn="h_open", reach=["open", "stopped"], bounds="stopped or not while it is being opened",
         params=dict(server=True)),
    dict(name="dtls-key-client", prop="C46", fn="h_key", reach=["given", "refused"], bounds="keys of 1, 16 and 32 bytes, buffers up to 64",
         params=dict(server=False, lengths=[1, 16, 32])),
    dict(name="dtls-key-server", prop="C46", fn="h_key", reach=["given", "refused"], bounds="keys of 1, 16 and 32 bytes, buffers up to 64",
         params=dict(server=True, lengths=[1, 16, 32])),
    dict(name="dtls-receive-client", prop="C46", fn="h_receive", reach=["end"], bounds="up to 3 datagrams of 0, 1 or 12 bytes",
         params=dict(server=False, counts=[0, 1, 3], sizes=[0, 1, 12])),
    dict(name="dtls-receive-server", prop="C46", fn="h_receive", reach=["end"], bounds="up to 3 datagrams of 0, 1 or 12 bytes",
         params=dict(server=True, counts=[0, 1, 3], sizes=[0, 1, 12])),
    dict(name="dtls-connect", prop="C46", fn="h_connect", reach=["failed", "connected"], bounds="any ms up to 20 s",
         params=dict(until=20000)),
]
