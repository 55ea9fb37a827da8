"""HDLC frames are built and parsed as frame format type 3."""
from .. import hdlcref as ref

RULE = ("frames with addresses of 1/2/4 octets, every control octet, information of 0..2030 octets (including flag octets inside), segmented or not, built from parts and parsed from octets with following data; oversized information. "
        "Non-trivial: distinct frame octets.")
MODULES = ("hdlc.frame",)


def gen_addr(rng, Address, AddressLength):
    size = rng.choice((1, 2, 4))
    if size == 1:
        return Address(upper_address=rng.randrange(0x80))
    top = 0x80 if size == 2 else 0x4000
    return Address(upper_address=rng.randrange(top), lower_address=rng.randrange(top), length=AddressLength(size))


def run(ctx):
    from src.DLMS_SPODES.hdlc.frame import Address, AddressLength, Control, Frame, CRC
    rng = ctx.sub("frame")

    for _ in range(ctx.n(2500, 30000)):
        msg = rng.randbytes(rng.choice((0, 1, 2, 5, rng.randrange(300), rng.randrange(300))))
        ctx.case(b"crc" + msg)
        with ctx.guard("crc", msg=msg):
            ctx.eq(bytes(CRC(message=msg).content), ref.crc(msg), "crc", msg=msg)
            tail = rng.randbytes(3)
            data = bytearray(ref.crc(msg) + tail)
            got = CRC.from_frame(data, message=msg)
            ctx.eq((bytes(got.content), bytes(data)), (ref.crc(msg), tail), "crc-in", msg=msg)
            wrong = bytearray(ref.crc(msg))
            wrong[rng.randrange(2)] ^= 1 << rng.randrange(8)
            ctx.rejects(lambda: CRC.from_frame(wrong, message=msg), "crc-wrong", msg=msg)
    for i in range(ctx.n(6000, 60000)):
        with ctx.guard("frame"):
            da, sa = gen_addr(rng, Address, AddressLength), gen_addr(rng, Address, AddressLength)
            n = rng.choice((0, 0, 1, 2, 3, rng.randrange(40), rng.randrange(256), 128, rng.randrange(2030) if i % 9 == 0 else 7, 2030 if i % 50 == 0 else 5))
            info = rng.randbytes(n) if rng.random() < 0.7 else bytes(rng.choice((0x7e, 0xa0, 0x7e, 0, 0xff)) for _ in range(n))
            control = i % 256
            seg = rng.random() < 0.4
            want = ref.frame(bytes(da.content), bytes(sa.content), control, info, seg)
            f = Frame(DA=da, SA=sa, control=Control(control), info=info, is_segmentation=seg)
            ctx.case(want)
            ctx.state((len(da), len(sa), control, bool(info), seg))
            ctx.eq(bytes(f.content), want, "built", da=da.content, sa=sa.content, control=control, info=info, seg=seg)
            ctx.eq(len(f), len(want) - 2, "length-field")
            tail = rng.choice((b"", b"\x7e", rng.randbytes(rng.randrange(20)), want[1:]))
            buf = bytearray(want + tail)
            g = Frame(buf) if rng.random() < 0.5 else Frame.try_from(buf)
            if not ctx.check(g is not None, "parsed", "a valid frame wasn't found", frame=want):
                continue
            ctx.eq((bytes(g.info), int(g.control), g.is_segmentation), (info, control, seg), "parsed-parts", frame=want)
            ctx.eq(tuple(bytes(a.content) for a in g.get_header()), (bytes(da.content), bytes(sa.content)), "parsed-addresses", frame=want)
            ctx.eq(bytes(g.content), want, "parsed-octets", frame=want)
            ctx.eq(bytes(buf), b"\x7e" + tail, "parsed-consumed", "the closing flag may open the next frame; everything before it is consumed", frame=want, tail=tail)
            ctx.check(g.is_for_me(sa, da), "for-me")
            ctx.eq(g.is_for_me(da, sa), da.content == sa.content, "own-echo", "a frame heard back isn't a frame for the sender", da=da.content, sa=sa.content)
            was = bytes(g.info), bytes(g.content)
            buf[:] = b"\x00" * 40
            ctx.eq((bytes(g.info), bytes(g.content)), was, "buffer-reused")
            da2 = gen_addr(rng, Address, AddressLength)
            ctx.eq(g.is_for_me(da2, da), da2.content == sa.content, "not-for-me")
            ctx.eq(g.is_for_me(sa, da2), da2.content == da.content, "not-for-me")
    for _ in range(ctx.n(200, 2000)):
        da, sa = gen_addr(rng, Address, AddressLength), gen_addr(rng, Address, AddressLength)
        room = 2047 - 7 - len(da) - len(sa)
        for n in (room, room + 1, room + rng.randrange(2, 5000)):
            ctx.case(f"big/{len(da)}/{len(sa)}/{n}")
            if n == room:
                with ctx.guard("largest"):
                    info = bytes(n)
                    for seg in (False, True):
                        want = ref.frame(bytes(da.content), bytes(sa.content), 0x10, info, seg)
                        ctx.eq(bytes(Frame(DA=da, SA=sa, control=Control(0x10), info=info, is_segmentation=seg).content), want, "largest", seg=seg)
                        g = Frame.try_from(bytearray(want))
                        if ctx.check(g is not None, "largest-found", seg=seg):
                            ctx.eq((bytes(g.info), g.is_segmentation), (info, seg), "largest-parsed", seg=seg)
            else:
                ctx.rejects(lambda: Frame(DA=da, SA=sa, control=Control(0x10), info=bytes(n), is_segmentation=False), "oversized", size=n)
    # a header check of its own and no information: the frame check still covers it
    for _ in range(ctx.n(100, 1000)):
        da, sa = gen_addr(rng, Address, AddressLength), gen_addr(rng, Address, AddressLength)
        head = (0xa000 | (7 + len(da) + len(sa))).to_bytes(2, "big") + bytes(da.content) + bytes(sa.content) + bytes((rng.randrange(256),))
        body = head + ref.crc(head)
        ctx.case(("bare", body))
        if ref.crc(head) != ref.crc(body):
            ctx.check(Frame.try_from(bytearray(b"\x7e" + body + ref.crc(head) + b"\x7e")) is None, "frame-check-covers-header-check", head=head)
    ctx.require("checked:built", 3000)
    ctx.require("checked:parsed-parts", 3000)
