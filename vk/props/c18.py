"""Every intact frame of a stream is delivered once, in order."""
from .. import hdlcref as ref
from .c16 import gen_addr

RULE = ("streams of intact and damaged frames (shared or separate flags, idle flags, flag-free noise), cut into chunks of random sizes and fed to the receiver as they arrive; the sequence of delivered frames is compared with the sequence sent intact. "
        "Non-trivial: distinct streams and chunkings.")
MODULES = ("hdlc.frame",)


def run(ctx):
    from src.DLMS_SPODES.hdlc.frame import Address, AddressLength, Frame
    rng = ctx.sub("stream")
    for i in range(ctx.n(700, 9000)):
        stream, want = bytearray(), []
        noisy = rng.random() < 0.6
        for _ in range(rng.randrange(1, 7)):
            da, sa = gen_addr(rng, Address, AddressLength), gen_addr(rng, Address, AddressLength)
            info = rng.randbytes(rng.choice((0, 0, 3, 17, rng.randrange(140))))
            if rng.random() < 0.3:
                info = info.replace(b"\x01", b"\x7e").replace(b"\x02", b"\xa0")
            fr = ref.frame(bytes(da.content), bytes(sa.content), rng.randrange(256), info, rng.random() < 0.3)
            kind = rng.random()
            if noisy and kind < 0.25:
                bad = bytearray(fr)
                j = rng.randrange(3, len(fr) - 1)
                bad[j] ^= 1 << rng.randrange(8)
                if rng.random() < 0.3:
                    del bad[rng.randrange(3, len(bad) - 1)]
                stream += bad
                ctx.count("damaged")
            else:
                if stream[-1:] == b"\x7e" and rng.random() < 0.4 and want and bytes(stream).endswith(want[-1]):
                    stream += fr[1:]       # shared flag
                    ctx.count("shared-flag")
                else:
                    stream += fr
                want.append(fr)
            if rng.random() < 0.3:
                stream += b"\x7e" * rng.randrange(1, 5)
            if noisy and rng.random() < 0.3:
                stream += rng.randbytes(rng.randrange(1, 12)).replace(b"\x7e", b"\x55")
        # enough to satisfy any length read from a damaged frame
        full = bytes(stream) + (bytes(2100) if noisy else b"")
        ctx.case(full[:4000])
        buf, got, i = bytearray(), [], 0
        with ctx.guard("stream", stream=stream):
            while i < len(full):
                n = rng.choice((1, 2, 3, 8, 9, 10, 64, 500, 5000)) if i < len(stream) else 3000
                buf += full[i:i + n]
                i += n
                ctx.count("chunks")
                while True:
                    before = len(buf)
                    f = Frame.try_from(buf)
                    if f is not None:
                        got.append(bytes(f.content))
                    elif len(buf) == before:
                        break
            # anything the damaged parts form by chance is legitimate only if its checks match
            extra = [g for g in got if g not in want]
            if ctx.check(all(type(ref.parse(g)) is tuple for g in extra), "invented", extra=extra, stream=stream):
                kept = [g for g in got if g in want]
                ctx.eq(kept, want, "delivered-in-order", "intact frames were lost, repeated or reordered", stream=stream)
                ctx.count("delivered", len(kept))
    ctx.require("delivered", 500)
    ctx.require("damaged", 100)
