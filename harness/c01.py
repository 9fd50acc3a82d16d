"""C01: the bit stream reader and writer are exact inverses, and bounded."""

KINDS = ["b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "u1", "s1", "u2", "s2", "s3", "u4", "U2", "raw2"]


def h_roundtrip(env):
    """k fields written, then read back in the same order"""
    types = env.mod("pyzwave.types")
    writer = types.BitStreamWriter()
    fields = []
    bit = 0
    expect = []       # most significant bit first: (value, shift)
    for i in range(env.params["k"]):
        kind = env.choice("kind%d" % i, env.params["kinds"])
        if kind[0] == "b":
            size = int(kind[1])
            env.assume(bit + size <= 8)
            value = env.bits("v%d" % i, size)
            writer.addBits(value, size)
            expect += [(value, s) for s in reversed(range(size))]
            bit = (bit + size) % 8
        elif kind == "raw2":
            env.assume(bit == 0)
            value = env.bytes("v%d" % i, 2)
            writer.extend(value)
            expect += [(value[j], s) for j in range(2) for s in reversed(range(8))]
        else:
            env.assume(bit == 0)
            size = int(kind[1])
            signed = kind[0] == "s"
            top = 1 << (8 * size)
            value = env.int("v%d" % i, -(top >> 1), (top >> 1) - 1) if signed else env.int("v%d" % i, 0, top - 1)
            endian = "little" if kind[0] == "U" else "big"
            writer.addBytes(value, size, signed, endian)
            plain = env.ite(value < 0, value + top, value) if signed else value
            order = range(size) if endian == "little" else reversed(range(size))
            expect += [(plain, 8 * b + s) for b in order for s in reversed(range(8))]
        fields.append((kind, value))
    while len(expect) % 8:
        expect.append((0, 0))
    data = bytes(writer)
    env.observe("data", data)
    env.check(len(data) == len(expect) // 8, "wrong number of bytes written")
    for n in range(len(data)):
        byte = 0
        for v, s in expect[8 * n:8 * n + 8]:
            byte = byte * 2 + ((v >> s) & 1)
        env.check(data[n] == byte, "field values are not laid out most significant bit first")
    reader = types.BitStreamReader(data)
    for kind, value in fields:
        size = int(kind[-1])
        if kind[0] == "b":
            peek = reader.bits(size, advance=False)
            got = reader.bits(size)
            env.check(peek == got, "peeked bits differ from the read bits")
        elif kind == "raw2":
            peek = reader.peekValue(2)
            got = reader.value(2)
            env.check(env.eq(peek, got), "peeked bytes differ from the read bytes")
        else:
            raw = reader.value(size)
            got = int.from_bytes(raw, "little" if kind[0] == "U" else "big", signed=kind[0] == "s")
        env.check(env.eq(got, value), "field read back differs from the field written")
    if bit == 0:
        env.reach("aligned")
        env.check(reader.bytesLeft() == 0, "bytes left over after reading back")
    else:
        env.reach("partial")


def h_typed(env):
    """the same with the typed wrappers"""
    types = env.mod("pyzwave.types")
    writer = types.BitStreamWriter()
    fields = []
    bit = 0
    table = {
        "uint3_t": 3, "uint4_t": 4, "uint5_t": 5, "uint7_t": 7, "flag_t": 1, "bits3": 3, "bits8": 8, "res2": 2,
        "uint8_t": 8, "uint16_t": 16, "uint32_t": 32, "int24_t": 24, "HomeID": 32,
    }
    for i in range(env.params["k"]):
        kind = env.choice("kind%d" % i, env.params["kinds"])
        bits = table[kind]
        if kind.startswith("bits"):
            cls = types.bits_t(bits)
        elif kind.startswith("res"):
            cls = types.reserved_t(bits)
        else:
            cls = getattr(types, kind)
        if bits > 8 or kind == "uint8_t":
            env.assume(bit == 0)
        else:
            env.assume(bit + bits <= 8)
            bit = (bit + bits) % 8
        lo, hi = (-(1 << 23), (1 << 23) - 1) if kind == "int24_t" else (0, (1 << bits) - 1)
        value = env.int("v%d" % i, lo, hi)
        item = cls(value)
        env.check(int(item) == value, "a typed value differs from the number it was made from")
        item.serialize(writer)
        fields.append((cls, value))
    env.assume(bit == 0)
    data = bytes(writer)
    env.observe("data", data)
    reader = types.BitStreamReader(data)
    for cls, value in fields:
        got = cls.deserialize(reader)
        env.check(int(got) == value, "typed field read back differs from the field written")
    env.check(reader.bytesLeft() == 0, "bytes left over after reading back")
    env.reach("done")


def h_eof(env):
    """reads beyond the end raise EOFError, others return the addressed bytes"""
    types = env.mod("pyzwave.types")
    n = env.size("n", 0, env.params["n"])
    data = env.bytes("data", n)
    reader = types.BitStreamReader(data)
    pos = 0     # bits
    for i in range(env.params["ops"]):
        op = env.choice("op%d" % i, ["value", "byte", "bits", "peek", "left", "advance"])
        byte = pos // 8
        if op == "value":
            size = env.size("size%d" % i, 0, 3)
            got, exc = env.attempt(reader.value, size)
            if byte + size > n:
                env.check(isinstance(exc, EOFError), "reading past the end does not raise EOFError")
                env.reach("eof")
                return
            env.check(exc is None, "reading inside the data raises")
            env.check(env.eq(got, data[byte:byte + size]), "value() returns other bytes than the next ones")
            pos += 8 * size
        elif op == "byte":
            got, exc = env.attempt(reader.byte)
            if byte + 1 > n:
                env.check(isinstance(exc, EOFError), "reading a byte past the end does not raise EOFError")
                env.reach("eof")
                return
            env.check(exc is None, "reading inside the data raises")
            env.check(got == data[byte], "byte() returns another byte than the next one")
            pos += 8
        elif op == "bits":
            size = env.size("size%d" % i, 1, 8)
            env.assume(pos % 8 + size <= 8)
            got, exc = env.attempt(reader.bits, size)
            if byte + 1 > n:
                env.check(isinstance(exc, EOFError), "reading bits past the end does not raise EOFError")
                env.reach("eof")
                return
            env.check(exc is None, "reading bits inside the data raises")
            env.check(got == (data[byte] >> (8 - pos % 8 - size)) & ((1 << size) - 1),
                      "bits() returns other bits than the next ones")
            pos += size
        elif op == "peek":
            got, exc = env.attempt(reader.peekByte)
            if byte + 1 > n:
                env.check(isinstance(exc, EOFError), "peeking past the end does not raise EOFError")
                env.reach("eof")
                return
            env.check(got == data[byte], "peekByte() returns another byte than the next one")
        elif op == "left":
            env.check(reader.bytesLeft() == n - byte, "bytesLeft() is wrong")
        else:
            reader.advance(8)
            pos += 8
            if pos // 8 > n:
                return
    rest = reader.remaining()
    env.check(env.eq(rest, data[pos // 8:]), "remaining() is not the rest of the data")
    env.check(reader.bytesLeft() <= 0, "bytesLeft() after remaining() is positive")
    env.reach("remaining")


TYPED = ["uint3_t", "uint4_t", "uint5_t", "uint7_t", "flag_t", "bits3", "bits8", "res2", "uint8_t", "uint16_t",
         "uint32_t", "int24_t", "HomeID"]
CASES = [
    dict(name="C01-fields-2", prop="C01", fn="h_roundtrip", params=dict(k=2, kinds=KINDS),
         reach=["aligned", "partial"]),
    dict(name="C01-fields-3", prop="C01", fn="h_roundtrip", params=dict(k=3, kinds=["b1", "b2", "b3", "b4", "b5", "b7", "b8", "u1", "s2", "U2"]),
         reach=["aligned", "partial"], tiers=("quick",)),
    dict(name="C01-fields-4", prop="C01", fn="h_roundtrip", params=dict(k=4, kinds=KINDS),
         reach=["aligned", "partial"], tiers=("thorough",)),
    dict(name="C01-typed-2", prop="C01", fn="h_typed", params=dict(k=2, kinds=TYPED), reach=["done"]),
    dict(name="C01-typed-4", prop="C01", fn="h_typed", params=dict(k=4, kinds=TYPED), reach=["done"],
         tiers=("thorough",)),
    dict(name="C01-eof-3", prop="C01", fn="h_eof", params=dict(n=3, ops=2), reach=["eof", "remaining"],
         tiers=("quick",)),
    dict(name="C01-eof-6", prop="C01", fn="h_eof", params=dict(n=6, ops=4), reach=["eof", "remaining"],
         tiers=("thorough",)),
]
