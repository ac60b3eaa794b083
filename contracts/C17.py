"""C17: binary numbers: bytes written are the number's pattern in the asked byte order, reading is the inverse, IBM floats keep the value."""
from .lib import *
from cxxvc.bits import Bits, St, V, Ptr, Vec, Arr, c64, simp

BIN = {"file": "binio.cpp"}
NS, PR = "NRLib::", "NRLib::NRLibPrivate::"
KINDS = {"Short": (16, True), "Int": (32, True), "Float": (32, None), "Double": (64, None), "IbmFloat": (32, None)}
BE, LE = True, False


def bytes_of(x, big):
    """the bytes of a pattern in file order"""
    k = x.size() // 8
    b = [z3.Extract(8 * j + 7, 8 * j, x) for j in range(k)]
    return b[::-1] if big else b


def word_of(bs, big):
    return z3.Concat(*(bs if big else bs[::-1]))


def bv(x, w=32):
    return z3.BitVecVal(x, w)


# ---- the IBM format: (-1)^s * 0.hhhhhh(16) * 16^(e-64); IEEE: (-1)^s * 1.m(2) * 2^(E-127)
def ibm_of(x):
    """hexadecimal float of an IEEE pattern (normal numbers), fraction bits that do not fit dropped; zero for zero"""
    s, E, m = z3.Extract(31, 31, x), z3.ZeroExt(24, z3.Extract(30, 23, x)), z3.Extract(22, 0, x)
    m24 = z3.Concat(bv(0, 8), bv(1, 1), m)                     # value = m24 / 2^24 * 2^(E-126)
    # smallest hexadecimal exponent e with 4*(e-64) >= E-126
    e = z3.UDiv(E + bv(130 + 3), bv(4))                        # E-126+256 = E+130
    sh = bv(4) * e - bv(130) - E
    f = z3.LShR(m24, sh)
    w = z3.Concat(s, z3.Extract(6, 0, e), z3.Extract(23, 0, f))
    return z3.If(z3.Extract(30, 0, x) == 0, bv(0), w)


def ieee_normal(x):
    E = z3.Extract(30, 23, x)
    return z3.And(E != 0, E != 255)


def lz(w):
    h = z3.Extract(23, 20, w)
    return z3.If(z3.Extract(3, 3, h) == 1, bv(0), z3.If(z3.Extract(2, 2, h) == 1, bv(1), z3.If(z3.Extract(1, 1, h) == 1, bv(2), bv(3))))


def ieee_of(w):
    """IEEE pattern of a normalised hexadecimal float"""
    s, e, f = z3.Extract(31, 31, w), z3.ZeroExt(25, z3.Extract(30, 24, w)), z3.ZeroExt(8, z3.Extract(23, 0, w))
    E = bv(4) * e - bv(130) - lz(w)
    m = f << lz(w)
    return z3.Concat(s, z3.Extract(7, 0, E), z3.Extract(22, 0, m))


def ibm_fits(w):
    """normalised, and the value is a normal IEEE number"""
    e = z3.ZeroExt(25, z3.Extract(30, 24, w))
    E = bv(4) * e - bv(130) - lz(w)
    return z3.And(z3.Extract(23, 20, w) != 0, E >= 1, E <= 254)


def put(b, st, f, arg, n, s):
    """buffer of n bytes after f(buffer, arg)"""
    buf = b.array(st, 8, b_fn("old"), c64(n), "buffer")
    b.call(st, f, [Ptr(buf, c64(0), 8, True), V(arg, s)])
    a = st.m[buf]
    return [a.f(c64(i)) for i in range(n)]


def b_fn(name, w=8):
    g = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(w))
    return lambda i: g(i)


def start(c):
    b = Bits(c.P)
    c.execs.append(b)
    return b, St()


# ---- conversions to and from a buffer
def u_write(q, w, s, big, conv=None):
    def run(c):
        b, st = start(c)
        x = z3.BitVec("x", w)
        if conv:
            b.hyps.append(z3.Or(ieee_normal(x), z3.Extract(30, 0, x) == 0))
        got = put(b, st, c.fn(q), x, w // 8, s)
        c.covers.append(("reachable", b.hyps + [x != 0]))
        want = bytes_of(conv(x) if conv else x, big)
        for i in range(w // 8):
            b.oblige([st.pc], got[i] == want[i], "%s byte %d" % (q.split("::")[-1], i), q)
        b.oblige([], st.pc, "returns", q)
    return run


def u_parse(q, w, s, big, conv=None):
    def run(c):
        b, st = start(c)
        bs = [z3.BitVec("b%d" % i, 8) for i in range(w // 8)]
        x = word_of(bs, big)
        buf = b.table(st, 8, [V(e, True) for e in bs], w // 8, "buffer")
        out = b.scalar(st, z3.BitVec("before", w), s, "out")
        b.call(st, c.fn(q), [Ptr(buf, c64(0), 8, True), out])
        got = b.load(st, out).e
        hy = [ibm_fits(x)] if conv else []
        c.covers.append(("reachable", b.hyps + hy))
        b.oblige(hy + [st.pc], got == (conv(x) if conv else x), q.split("::")[-1] + " gives the number", q)
        if conv:
            b.oblige([x == 0], got == 0, q.split("::")[-1] + " of zero", q)
        b.oblige(hy, st.pc, "returns", q)
    return run


def u_ieee2ibm(c):
    b, st = start(c)
    x = z3.BitVec("x", 32)
    p = b.scalar(st, x, False)
    b.call(st, c.fn(PR + "Ieee2Ibm"), [p])
    y = b.load(st, p).e
    n = ieee_normal(x)
    c.covers.append(("reachable", [n]))
    b.oblige([n], y == ibm_of(x), "value of a normal number, fraction cut to 24 bits", "Ieee2Ibm")
    b.oblige([z3.Extract(30, 0, x) == 0], y == 0, "zero", "Ieee2Ibm")
    b.oblige([n], z3.Extract(23, 20, y) != 0, "result is normalised", "Ieee2Ibm")
    b.oblige([n], z3.Extract(31, 31, y) == z3.Extract(31, 31, x), "sign", "Ieee2Ibm")


def u_ibm2ieee(c):
    b, st = start(c)
    x = z3.BitVec("x", 32)
    p = b.scalar(st, x, False)
    b.call(st, c.fn(PR + "Ibm2Ieee"), [p])
    y = b.load(st, p).e
    n = ibm_fits(x)
    c.covers.append(("reachable", [n]))
    b.oblige([n], y == ieee_of(x), "value of a normalised number", "Ibm2Ieee")
    b.oblige([z3.ULT(x & 0x7fffffff, 0x21100000)], y == 0, "values below the IEEE range become zero", "Ibm2Ieee")


def u_round(c):
    b, st = start(c)
    x = z3.BitVec("x", 32)
    p = b.scalar(st, x, False)
    n = ieee_normal(x)
    b.call(st, c.fn(PR + "Ieee2Ibm"), [p])
    b.call(st, c.fn(PR + "Ibm2Ieee"), [p])
    y = b.load(st, p).e
    c.covers.append(("reachable", [n]))
    r = z3.URem(z3.ZeroExt(24, z3.Extract(30, 23, x)) + 130, 4)
    d = z3.If(r == 0, bv(0), bv(4) - r)
    b.oblige([n], y == (x & ~((bv(1) << d) - 1)), "IEEE to IBM and back drops at most the three lowest fraction bits", "Ieee2Ibm;Ibm2Ieee")
    b2, st = start(c)
    w = z3.BitVec("w", 32)
    p = b2.scalar(st, w, False)
    b2.call(st, c.fn(PR + "Ibm2Ieee"), [p])
    b2.call(st, c.fn(PR + "Ieee2Ibm"), [p])
    c.covers.append(("reachable 2", [ibm_fits(w)]))
    b2.oblige([ibm_fits(w)], b2.load(st, p).e == w, "IBM to IEEE and back is exact", "Ibm2Ieee;Ieee2Ibm")


# ---- streams
def stream(b, st):
    return Vec(b.new(st, "stream", "stream"))


def endian(c, big):
    n = "END_BIG_ENDIAN" if big else "END_LITTLE_ENDIAN"
    for i, v in c.P.enums.items():
        if c.P.decls.get(i, {}).get("name") == n:
            return V(z3.BitVecVal(v, 32), False)
    return V(z3.BitVecVal(1 if not big else 0, 32), False)


def u_wstream(kind, big):
    w, s = KINDS[kind]
    ibm = kind == "IbmFloat"

    def run(c):
        b, st = start(c)
        x = z3.BitVec("x", w)
        if ibm:
            b.hyps.append(z3.Or(ieee_normal(x), z3.Extract(30, 0, x) == 0))
        f = c.fn(NS + "WriteBinary" + kind)
        b.call(st, f, [stream(b, st), V(x, s), endian(c, big)])
        check_written(c, b, f, w, big, c64(1), lambda i: ibm_of(x) if ibm else x)
    return run


def check_written(c, b, f, w, big, n, val):
    q = f.qname
    if not b.written:
        raise ToolLimit("nothing written")
    i = z3.BitVec("i", 64)
    rng = [z3.ULT(i, n)]
    c.covers.append(("reachable", b.hyps + rng))
    k = w // 8
    if len(b.written) == 1:
        pc, st, p, nb = b.written[0]
        b.oblige([], pc, "the stream is written to", q)
        b.oblige([], nb == n * k, "number of bytes", q)
        for j in range(k):
            a = b.load(st, Ptr(p.obj, p.i + i * c64(k) + c64(j), 8, True)) if st.m[p.obj].w == 8 else \
                V(z3.Extract(8 * j + 7, 8 * j, st.m[p.obj].f(i)), True)
            b.oblige(rng, a.e == bytes_of(val(i), big)[j], "byte %d of the number written" % j, q)
        return
    # several calls in a row: all unconditional, of constant length, one number only
    at = 0
    want = bytes_of(val(c64(0)), big)
    for pc, st, p, nb in b.written:
        m = simp(nb)
        if not z3.is_bv_value(m) or at + m.as_long() > k:
            raise ToolLimit("pieces of unknown length written")
        ok = z3.BoolVal(True) if at == 0 else pc
        for j in range(m.as_long()):
            b.oblige([pc], b.load(st, Ptr(p.obj, simp(p.i + c64(j)), 8, True)).e == want[at], "byte %d of the number written" % at, q)
            at += 1
    b.oblige([], z3.BoolVal(at == k), "number of bytes", q)


def u_rstream(kind, big):
    w, s = KINDS[kind]
    ibm = kind == "IbmFloat"

    def run(c):
        b, st = start(c)
        b.input = b_fn("input")
        f = c.fn(NS + "ReadBinary" + kind)
        x = word_of([b.input(c64(i)) for i in range(w // 8)], big)
        r = b.call(st, f, [stream(b, st), endian(c, big)])
        if b.readok is None:
            raise ToolLimit("nothing read")
        hy = [ibm_fits(x)] if ibm else []
        c.covers.append(("reachable", hy + [b.readok]))
        b.oblige([b.readok], b.readn == w // 8, "number of bytes read", f.qname)
        b.oblige(hy + [b.readok], z3.And(st.pc, r.e == (ieee_of(x) if ibm else x)), "the number read", f.qname)
        if ibm:
            b.oblige([x == 0, b.readok], r.e == 0, "zero", f.qname)
        b.oblige([z3.Not(b.readok)], z3.Not(st.pc), "no value after a failed read", f.qname)
    return run


def u_wsarray(kind, big):
    w, s = KINDS[kind]
    ibm = kind == "IbmFloat"

    def run(c):
        b, st = start(c)
        n = z3.BitVec("n", 64)
        b.hyps += [z3.UGE(n, 1), z3.ULT(n, 2 ** 31)]
        b.lengths = [n]
        g = z3.Function("value", z3.BitVecSort(64), z3.BitVecSort(w))
        src = b.array(st, w, lambda i: g(i), n, "source")
        f = c.fn(NS + "WriteBinary" + kind + "Array")
        b.call(st, f, [stream(b, st), Ptr(src, c64(0), w, s), Ptr(src, n, w, s), endian(c, big)])
        i = z3.BitVec("i", 64)
        if ibm:
            b.hyps.append(z3.Or(ieee_normal(g(i)), z3.Extract(30, 0, g(i)) == 0))
        check_written(c, b, f, w, big, n, lambda i: ibm_of(g(i)) if ibm else g(i))
        b.oblige([z3.ULT(i, n)], st.m[src].f(i) == g(i), "the source is left alone", f.qname)
    return run


def u_rsarray(kind, big):
    w, s = KINDS[kind]
    ibm = kind == "IbmFloat"

    def run(c):
        b, st = start(c)
        n, m = z3.BitVec("n", 64), z3.BitVec("m", 64)
        b.hyps += [z3.UGE(n, 1), z3.ULT(n, 2 ** 31), z3.ULE(n, m), z3.ULT(m, 2 ** 40)]
        b.lengths = [n]
        b.input = b_fn("input")
        g = z3.Function("before", z3.BitVecSort(64), z3.BitVecSort(w))
        dst = b.array(st, w, lambda i: g(i), m, "target")
        f = c.fn(NS + "ReadBinary" + kind + "Array")
        b.call(st, f, [stream(b, st), Ptr(dst, c64(0), w, s), V(n, False), endian(c, big)])
        if b.readok is None:
            raise ToolLimit("nothing read")
        i = z3.BitVec("i", 64)
        k = w // 8
        x = word_of([b.input(i * k + j) for j in range(k)], big)
        hy = [z3.ULT(i, n), b.readok] + ([ibm_fits(x)] if ibm else [])
        c.covers.append(("reachable", b.hyps + hy))
        b.oblige([b.readok], b.readn == n * k, "number of bytes read", f.qname)
        b.oblige(hy, z3.And(st.pc, st.m[dst].f(i) == (ieee_of(x) if ibm else x)), "the numbers read", f.qname)
        b.oblige([z3.UGE(i, n), z3.ULT(i, m), b.readok], st.m[dst].f(i) == g(i), "nothing beyond the end is written", f.qname)
        b.oblige([z3.Not(b.readok)], z3.Not(st.pc), "no return after a failed read", f.qname)
    return run


def rep(env, o):
    env = env or {}
    for k in ("x", "w"):
        if k in env:
            yield "one %s" % env[k]
    for k in ("n", "i"):
        try:
            v = int(env.get(k, "0"))
        except ValueError:
            continue
        for m in (v, v + 1):
            if 0 < m <= 3000000:
                yield "arr %d" % m
    for m in (255, 4096, 65536, 1000000):
        yield "arr %d" % m
    for s in range(4):
        yield "rand %d" % (s + 1)


def units():
    us = [("Ieee2Ibm", u_ieee2ibm), ("Ibm2Ieee", u_ibm2ieee), ("IEEE and IBM round trip", u_round)]
    W = lambda q, *a: us.append((q.split("::")[-1], u_write(q, *a)))
    P = lambda q, *a: us.append((q.split("::")[-1], u_parse(q, *a)))
    for nm, w, s, ns in (("Int16BE", 16, True, NS), ("Int32BE", 32, True, NS), ("UInt16BE", 16, False, NS), ("UInt32BE", 32, False, NS),
                         ("UInt16LE", 16, False, PR), ("UInt32LE", 32, False, PR)):
        W(ns + "Write" + nm, w, s, nm[-2] == "B")
        P(ns + "Parse" + nm, w, s, nm[-2] == "B")
    for nm, w in (("IEEEFloat", 32), ("IEEEDouble", 64)):
        for o in ("BE", "LE"):
            W(PR + "Write" + nm + o, w, None, o == "BE")
            P((NS if nm + o == "IEEEFloatBE" else PR) + "Parse" + nm + o, w, None, o == "BE")
    for o in ("BE", "LE"):
        W(PR + "WriteIBMFloat" + o, 32, None, o == "BE", ibm_of)
        P((NS if o == "BE" else PR) + "ParseIBMFloat" + o, 32, None, o == "BE", ieee_of)
    for k in KINDS:
        for big in (True, False):
            t = " [%s endian]" % ("big" if big else "little")
            us += [("WriteBinary" + k + t, u_wstream(k, big)), ("ReadBinary" + k + t, u_rstream(k, big)),
                   ("WriteBinary" + k + "Array" + t, u_wsarray(k, big)), ("ReadBinary" + k + "Array" + t, u_rsarray(k, big))]
    return [(BIN, Unit(n, f, replay=rep)) for n, f in us]


ASSUMPTIONS = ["a stream appends the bytes it is given and delivers consecutive bytes or fails; the machine is little endian with IEEE numbers"]


def gen(rng, budget, tier):
    import struct
    for k in range({"std": 1200, "deep": 20000}[budget]):
        yield "rand %d" % rng.randint(1, 10 ** 9)
    for m in (1, 2, 255, 256, 257, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 70000):
        yield "arr %d" % m
    for m in (lits(1, 3000000) if budget == "deep" else ()):
        yield "arr %d" % int(m)
        yield "arr %d" % (int(m) + 1)
    for E in range(0, 256):
        for m in (0, 1, 0x7fffff, 0x400000, rng.getrandbits(23)):
            yield "one %d" % (rng.getrandbits(1) << 31 | E << 23 | m)


def harness(scratch):
    return Harness(scratch, "binio.cpp", [], gen, "random patterns of every number type, alone and in arrays, both byte orders, through a string stream, against the format's definition in integer arithmetic; truncated input must raise")
