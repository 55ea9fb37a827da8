"""LLC sub-layer header."""

RULE = "messages of 0..2030 octets wrapped and unwrapped; headers over all 65536 LSAP pairs, all control octets and truncated headers. Non-trivial: distinct octet strings."
MODULES = ("hdlc.sub_layer",)


def run(ctx):
    from src.DLMS_SPODES.hdlc.sub_layer import LLC
    rng = ctx.sub("llc")
    for _ in range(ctx.n(5000, 50000)):
        msg = rng.randbytes(rng.choice((0, 1, 2, 3, rng.randrange(100), rng.randrange(2031), rng.choice((2040, 2047, 5000, 70000)) if rng.random() < 0.1 else 9)))
        if rng.random() < 0.2:
            msg = rng.choice((b"\xe6\xe6\x00", b"\xe6\xe7\x00", b"\xe6")) + msg
        ctx.case(msg)
        with ctx.guard("wrap", msg=msg):
            x = LLC(message=msg)
            ctx.eq(bytes(x.content), b"\xe6\xe6\x00" + msg, "wrapped", msg=msg)
            ctx.eq((bytes(x.info), len(x)), (msg, len(msg) + 3), "wrapped-info")
            for dst in (0xe6, 0xff):
                for src in (0xe6, 0xe7):
                    head = bytes((dst, src, 0))
                    y = LLC(bytearray(head + msg))
                    ctx.eq((bytes(y.info), bytes(y.content), len(y)), (msg, head + msg, len(msg) + 3), "unwrapped", head=head, msg=msg)
            ctx.eq(bytes(LLC(bytearray(x.content)).info), msg, "round-trip")
            buf = bytearray(x.content)
            y = LLC(buf)
            buf[:] = b"\xe6\xe7\x00another"
            ctx.eq((bytes(y.info), bytes(y.content)), (msg, bytes(x.content)), "buffer-reused")
    for dst in range(256):
        for src in range(256):
            ok = dst in (0xe6, 0xff) and src in (0xe6, 0xe7)
            ctx.case(f"{dst}/{src}")
            data = bytearray((dst, src, 0, 1, 2))
            if ok:
                with ctx.guard("header"):
                    ctx.eq(bytes(LLC(data).info), b"\x01\x02", "header")
            else:
                ctx.rejects(lambda: LLC(data), "wrong-lsap", dst=dst, src=src)
    for q in range(1, 256):
        ctx.case(f"q{q}")
        ctx.rejects(lambda: LLC(bytearray((0xe6, rng.choice((0xe6, 0xe7)), q)) + b"abc"), "wrong-quality", quality=q)
    for part in (b"", b"\xe6", b"\xe6\xe7", b"\xff\xe6", b"\x00", b"\xe7\xe6"):
        ctx.case(b"short" + part)
        ctx.rejects(lambda: LLC(bytearray(part)), "truncated-header", data=part)
    ctx.require("checked:unwrapped", 4000)
