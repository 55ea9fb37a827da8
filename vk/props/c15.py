"""HDLC addresses."""
from .. import hdlcref as ref

RULE = ("all 1-octet addresses, upper/lower pairs around 0x7f/0x80/0x3fff and random, every requested length, out-of-range parts; addresses followed by random octets, every truncated or unterminated octet string. "
        "Non-trivial: distinct (upper, lower, length) and octet strings.")
MODULES = ("hdlc.frame",)


def run(ctx):
    from src.DLMS_SPODES.hdlc.frame import Address, AddressLength
    rng = ctx.sub("addr")
    edge = (0, 1, 2, 0x10, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xff, 0x100, 0x1fff, 0x2000, 0x3ffe, 0x3fff)

    def part():
        return rng.choice(edge) if rng.random() < 0.7 else rng.randrange(0x4000) if rng.random() < 0.5 else rng.randrange(0x80)

    def one(upper, lower, size):
        need = ref.auto_size(upper, lower)
        ctx.case(f"{upper}/{lower}/{size}")
        if size is None or (size >= need and not (size > 1 and lower is None and need == 1)):
            real = size or need
            with ctx.guard("address", upper=upper, lower=lower, size=size):
                a = Address(upper_address=upper, lower_address=lower, length=AddressLength(AddressLength.AUTO if size is None else size))
                want = ref.address(upper, lower, real)
                ctx.eq(bytes(a.content), want, "address-octets", upper=upper, lower=lower, size=size)
                ctx.eq(len(a), real, "address-length", upper=upper, lower=lower, size=size)
                ctx.eq((a.upper, a.lower), (upper, None if real == 1 else lower or 0), "address-parts", size=size)
                tail = bytearray(rng.randbytes(rng.randrange(6)))
                data = bytearray(want) + tail
                b = Address.from_frame(data)
                ctx.eq(bytes(data), bytes(tail), "address-consumed", content=want, tail=tail)
                ctx.check(a == b and hash(a) == hash(b) and (b.upper, b.lower) == (a.upper, a.lower) and len(b) == real, "address-round-trip", content=want, tail=tail)
                c = Address(content=want)
                ctx.check(c == a and (c.upper, c.lower) == (a.upper, a.lower), "address-content", content=want)
                ctx.eq(str(a), f"{upper}" if real == 1 else f"{upper}/{lower or 0}", "address-text")
        elif size < need:
            ctx.rejects(lambda: Address(upper_address=upper, lower_address=lower, length=AddressLength(size)), "address-too-short", upper=upper, lower=lower, size=size)

    for u in range(0x80):
        one(u, None, None)
        one(u, 0, None)
    for _ in range(ctx.n(8000, 100000)):
        one(part(), rng.choice((None, 0, part(), part(), part())), rng.choice((None, None, 1, 2, 4)))
    for _ in range(ctx.n(1000, 10000)):
        over = rng.choice((0x4000, 0x4001, 0x8000, 0xffff, 1 << 20, -1, -128))
        ok = part()
        ctx.case(f"over/{over}/{ok}")
        size = AddressLength(rng.choice((-1, 1, 2, 4)))
        ctx.rejects(lambda: Address(upper_address=over, lower_address=ok, length=size), "upper-range", upper=over, lower=ok)
        ctx.rejects(lambda: Address(upper_address=ok, lower_address=over, length=size), "lower-range", upper=ok, lower=over)
    # octets: consumed exactly or refused with ValueError, and never another address than the octets say
    for _ in range(ctx.n(8000, 100000)):
        data = bytes(rng.choice((rng.randrange(128) * 2, rng.randrange(128) * 2, rng.randrange(256))) for _ in range(rng.randrange(0, 7)))
        ctx.case(b"octets" + data)
        size = next((s for s in range(1, len(data) + 1) if data[s - 1] & 1), None)
        buf = bytearray(data)
        if size not in (1, 2, 4):
            ctx.rejects(lambda: Address.from_frame(buf), "address-unterminated", data=data)
            continue
        with ctx.guard("address-octets-in", data=data):
            a = Address.from_frame(buf)
            ctx.eq((bytes(a.content), bytes(buf)), (data[:size], data[size:]), "address-octets-in", data=data)
    for v in (0, 3, 5, 8, -2):
        ctx.rejects(lambda: AddressLength(v), "address-length-value", value=v)
        ctx.rejects(lambda: Address(content=bytes(v) if v >= 0 else bytes(7)), "address-content-size", value=v)
    for v in (-1, 1, 2, 4):
        with ctx.guard("address-length-text"):
            ctx.eq(int(AddressLength.from_str(str(AddressLength(v)))), v, "address-length-text")
    # different addresses aren't equal
    for _ in range(ctx.n(2000, 20000)):
        x, y = (part(), part()), (part(), part())
        with ctx.guard("address-equality"):
            a, b = Address(upper_address=x[0], lower_address=x[1]), Address(upper_address=y[0], lower_address=y[1])
            ctx.eq(a == b, a.content == b.content, "address-equality", a=x, b=y)
    # the same numbers in another number of octets: equal addresses have to have equal hashes
    for _ in range(ctx.n(1000, 10000)):
        u, l = rng.randrange(0x80), rng.randrange(1, 0x80)
        s, t = rng.choice((2, 4)), rng.choice((2, 4))
        ctx.case(f"sizes/{u}/{l}/{s}/{t}")
        with ctx.guard("address-hash"):
            a = Address(upper_address=u, lower_address=l, length=AddressLength(s))
            b = Address(upper_address=u, lower_address=l, length=AddressLength(t))
            if a == b:
                ctx.eq(hash(a), hash(b), "address-hash", upper=u, lower=l, sizes=(s, t))
            if s == t:
                ctx.check(a == b, "address-same", upper=u, lower=l, size=s)
    ctx.require("checked:address-round-trip", 3000)
    ctx.require("rejected:address-unterminated", 300)
