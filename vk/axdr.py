"""Independent model of COSEM common data types (Blue Book 4.1.5, A-XDR as used by DLMS).

A model value is (kind, payload). `encode` gives the octets, `python` the value a reader must see.
Nothing here uses the code under test.
"""
import random
import struct

INTS = {  # kind: (tag, octets, signed)
    "DoubleLong": (5, 4, True), "DoubleLongUnsigned": (6, 4, False), "Integer": (15, 1, True),
    "Long": (16, 2, True), "Unsigned": (17, 1, False), "LongUnsigned": (18, 2, False),
    "Long64": (20, 8, True), "Long64Unsigned": (21, 8, False),
}
TAGS = {"NullData": 0, "Array": 1, "Structure": 2, "Boolean": 3, "BitString": 4, "OctetString": 9, "VisibleString": 10,
        "Utf8String": 12, "Bcd": 13, "Enum": 22, "Float32": 23, "Float64": 24, "DateTime": 25, "Date": 26, "Time": 27,
        **{k: v[0] for k, v in INTS.items()}}
SIMPLE = [k for k in TAGS if k not in ("Array", "Structure")]


def length(n: int) -> bytes:
    if n < 0x80:
        return bytes((n,))
    w = (n.bit_length() + 7) // 8
    if w == 3:
        w = 4
    return bytes((0x80 | w,)) + n.to_bytes(w, "big")


def int_range(kind):
    _, w, signed = INTS[kind]
    return (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << 8 * w) - 1)


def edge_int(rng: random.Random, lo: int, hi: int) -> int:
    m = rng.random()
    if m < 0.25:
        return rng.choice((lo, hi, lo + 1, hi - 1, max(lo, min(hi, 0)), max(lo, min(hi, 1)), max(lo, min(hi, -1))))
    if m < 0.6:
        v = (1 << rng.randrange(0, max(1, hi.bit_length()) + 1)) + rng.choice((-1, 0, 1))
        if lo < 0 and rng.random() < 0.5:
            v = -v
        return max(lo, min(hi, v))
    return rng.randint(lo, hi)


def sizes(rng: random.Random, big: bool = True) -> int:
    """lengths around the borders of the length forms"""
    m = rng.random()
    if m < 0.6:
        return rng.randrange(0, 20)
    if m < 0.8 or not big:
        return rng.choice((0, 1, 126, 127, 128, 129, 130))
    if m < 0.97:
        return rng.choice((200, 254, 255, 256, 257, 300))
    return rng.choice((65535, 65536, 65537, 70000)) if rng.random() < 0.25 else 1000


WEEKDAY = None


def days_in_month(y, m):
    if m == 2:
        return 29 if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def weekday(y, m, d) -> int:
    """1 is Monday (Zeller-like, Sakamoto)"""
    t = (0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4)
    yy = y - (1 if m < 3 else 0)
    w = (yy + yy // 4 - yy // 100 + yy // 400 + t[m - 1] + d) % 7  # 0 Sunday
    return 7 if w == 0 else w


def gen_date(rng: random.Random, wild: bool = True) -> bytes:
    """contents of a date the Blue Book allows (5 octets)"""
    y = rng.choice((rng.randint(1, 9999), rng.randint(1990, 2060), 2000, 2024, 1900))
    if wild and rng.random() < 0.3:
        y = 0xffff
    m = rng.choice((2, *range(1, 13)))
    if wild and rng.random() < 0.3:
        m = rng.choice((0xff, 0xff, 0xfe, 0xfd))
    yy = 2000 if y == 0xffff else y          # 29 February of any year
    if m <= 12:
        d = rng.randint(1, days_in_month(yy, m)) if rng.random() < 0.8 else days_in_month(yy, m)
    else:
        d = rng.randint(1, 28)
    if wild and rng.random() < 0.3:
        d = rng.choice((0xff, 0xff, 0xfe, 0xfd))
    if rng.random() < 0.5:
        w = 0xff
    elif y != 0xffff and m <= 12 and d <= 31:
        w = weekday(y, m, d)
    else:
        w = rng.randint(1, 7) if wild else 0xff
    return y.to_bytes(2, "big") + bytes((m, d, w))


def gen_time(rng: random.Random, wild: bool = True) -> bytes:
    def f(hi):
        if wild and rng.random() < 0.2:
            return 0xff
        return rng.choice((0, hi, rng.randint(0, hi)))
    return bytes((f(23), f(59), f(59), f(99)))


def gen_deviation(rng: random.Random) -> bytes:
    return struct.pack(">h", rng.choice((-0x8000, 0, -720, 720, 60, -60, 180, -1, 1, rng.randint(-720, 720))))


def gen_datetime(rng: random.Random, wild: bool = True) -> bytes:
    return gen_date(rng, wild) + gen_time(rng, wild) + gen_deviation(rng) + bytes((rng.choice((0, 0xff, 0x80, rng.randrange(256))),))


def gen_simple(rng: random.Random, kind: str, big: bool = True):
    if kind in INTS:
        lo, hi = int_range(kind)
        return kind, edge_int(rng, lo, hi)
    match kind:
        case "NullData":      return kind, None
        case "Boolean":       return kind, rng.random() < 0.5
        case "BitString":
            n = sizes(rng, big)
            return kind, "".join(rng.choice("01") for _ in range(n))
        case "OctetString":   return kind, rng.randbytes(sizes(rng, big))
        case "VisibleString": return kind, bytes(rng.randint(0x20, 0x7e) for _ in range(sizes(rng, big)))
        case "Utf8String":
            return kind, "".join(rng.choice("aZ09 ~éЖ中😀\u07ff\u0800") for _ in range(sizes(rng, False))).encode("utf-8")
        case "Bcd":           return kind, rng.randrange(256)
        case "Enum":          return kind, rng.randrange(256)
        case "Float32":       return kind, rng.choice((rng.randbytes(4), struct.pack(">f", rng.uniform(-1e6, 1e6)), bytes.fromhex("80000000"), bytes.fromhex("00000001")))
        case "Float64":       return kind, rng.choice((rng.randbytes(8), struct.pack(">d", rng.uniform(-1e6, 1e6)), bytes.fromhex("8000000000000000"), bytes.fromhex("0000000000000001")))
        case "DateTime":      return kind, gen_datetime(rng)
        case "Date":          return kind, gen_date(rng)
        case "Time":          return kind, gen_time(rng)
    raise AssertionError(kind)


def gen_value(rng: random.Random, depth: int = 3, big: bool = True):
    """any value; arrays hold elements of one kind"""
    if depth <= 0 or rng.random() < 0.5:
        return gen_simple(rng, rng.choice(SIMPLE), big)
    if rng.random() < 0.5:
        n = rng.choice((0, 1, 1, 2, 3, 5)) if not (big and rng.random() < 0.06) else rng.choice((127, 128, 130, 260))
        return "Structure", [gen_value(rng, depth - 1 if n < 10 else 0, False) for _ in range(n)]
    n = rng.choice((0, 1, 2, 3, 7)) if not (big and rng.random() < 0.06) else rng.choice((127, 128, 255, 256, 300))
    kind = rng.choice(SIMPLE + ["Structure"] * 4 + ["Array"] * 3)
    if kind in ("Structure", "Array") and depth > 1:
        els = []
        while len(els) < min(n, 4):
            v = gen_value(rng, depth - 1, False)
            if v[0] == kind:
                els.append(v)
            elif rng.random() < 0.02:
                break
        return "Array", els
    if kind in ("Structure", "Array"):
        kind = "Unsigned"
    return "Array", [gen_simple(rng, kind, False) for _ in range(n)]


def contents(v) -> bytes:
    kind, p = v
    if kind in INTS:
        _, w, signed = INTS[kind]
        return p.to_bytes(w, "big", signed=signed)
    match kind:
        case "NullData":      return b""
        case "Boolean":       return b"\x01" if p else b"\x00"
        case "BitString":
            s = p + "0" * (-len(p) % 8)
            return bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))
        case "Bcd" | "Enum":  return bytes((p,))
        case "Array" | "Structure": return b"".join(encode(x) for x in p)
        case _:               return p


def encode(v) -> bytes:
    kind, p = v
    tag = bytes((TAGS[kind],))
    if kind in ("BitString", "OctetString", "VisibleString", "Utf8String", "Array", "Structure"):
        return tag + length(len(p)) + contents(v)
    return tag + contents(v)


def python(v):
    """what decode() must report; ... where the type has no python form"""
    kind, p = v
    if kind in INTS:
        return p
    match kind:
        case "NullData":      return None
        case "Boolean":       return p
        case "BitString":     return [int(c) for c in p]
        case "OctetString":   return p
        case "VisibleString": return p.decode("ascii")
        case "Enum":          return p
        case "Float32":       return struct.unpack(">f", p)[0]
        case "Float64":       return struct.unpack(">d", p)[0]
        case "Array":         return [python(x) for x in p]
        case "Structure":     return tuple(python(x) for x in p)
    return ...


def count(v) -> int:
    return 1 + sum(count(x) for x in v[1]) if v[0] in ("Array", "Structure") else 1


def has(v, kinds) -> bool:
    return v[0] in kinds or (v[0] in ("Array", "Structure") and any(has(x, kinds) for x in v[1]))


def shape(v) -> str:
    if v[0] in ("Array", "Structure"):
        return f"{v[0][0]}{len(v[1])}({','.join(sorted({shape(x) for x in v[1]}))})"
    if isinstance(v[1], (bytes, str)):
        return f"{v[0]}:{length(len(v[1]))[:1].hex() if len(v[1]) > 127 else min(len(v[1]), 4)}"
    return v[0]
