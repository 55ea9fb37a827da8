"""Segments are joined into exactly the message that was sent."""
import collections
from .. import hdlcref as ref
from .c16 import gen_addr

RULE = ("messages cut into 1..20 information frames (send numbers modulo 8 from any start, final bit per window of 1..7), with leading and interleaved supervisory/unnumbered frames, repeated segments, a lost segment or a lost end. "
        "Non-trivial: distinct frame sequences.")
MODULES = ("hdlc.frame",)


def run(ctx):
    from src.DLMS_SPODES.hdlc.frame import Address, AddressLength, Control, Frame
    rng = ctx.sub("join")
    for i in range(ctx.n(3000, 40000)):
        with ctx.guard("join"):
            da, sa = gen_addr(rng, Address, AddressLength), gen_addr(rng, Address, AddressLength)
            k = rng.choice((1, 1, 2, 3, 5, 8, 9, rng.randrange(1, 20)))
            parts = [rng.randbytes(rng.choice((0, 1, 5, 30, 128))) for _ in range(k)]
            s0, r = rng.randrange(8), rng.randrange(8)
            window = rng.choice((1, 1, 2, 3, 7))
            ack_moves = window == 1 and rng.random() < 0.3

            def frame(control, info=b"", seg=False):
                octets = ref.frame(bytes(da.content), bytes(sa.content), control, info, seg)
                return Frame(bytearray(octets)) if rng.random() < 0.5 else Frame(DA=da, SA=sa, control=Control(control), info=info, is_segmentation=seg)
            seq = []
            for j, p in enumerate(parts):
                last = j == k - 1
                final = last or (j + 1) % window == 0
                control = r << 5 | (0x10 if final else 0) | ((s0 + j) % 8) << 1
                seq.append((frame(control, p, not last), j))
            how = rng.choice(("plain", "plain", "noise", "repeat", "lost", "no-end", "after"))
            stray = (0x11, 0x31, 0x73, 0x1f, 0xd1, 0x15)
            want = b"".join(parts)
            if how == "noise":
                for _ in range(rng.randrange(1, 4)):
                    c = rng.choice(stray + (0x03, 0x13))        # (unnumbered information isn't a segment)
                    seq.insert(rng.randrange(len(seq) + 1), (frame(c, b"unnumbered" if c & 0xef == 3 else b""), None))
                # (frames after the end of the message stay in the queue)
            elif how == "repeat":
                j = rng.randrange(k)
                pos = rng.randrange(j + 1, k + 1)
                if pos - j < 7:
                    seq.insert(pos, seq[j])
            elif how == "lost" and k > 1:
                j = rng.randrange(1, k)
                if j == k - 1 or True:
                    del seq[j]
            elif how == "no-end" and k > 1:
                seq = seq[:rng.randrange(1, k)]
            elif how == "after":
                seq += [(frame((s0 + k) % 8 << 1, b"next", False), "n")]
            q = collections.deque(f for f, _ in seq)
            ctx.case(repr([(bytes(f.content)) for f, _ in seq]), sample=(how, k, s0, window))
            ctx.count(f"joins:{how}")
            broken = how in ("lost", "no-end") and k > 1
            # losing segment j makes the rest unacceptable unless the numbers wrap onto it
            if how == "lost" and broken:
                have = [x for _, x in seq]
                exp, wrap = 1, False
                done = 0
                for x in have[1:]:
                    if (x - done) % 8 == 1:
                        wrap = wrap or x != done + 1
                        done = x
                if wrap:
                    continue
            if broken:
                ctx.rejects(lambda: Frame.join_info(q), "incomplete", how=how, segments=k, start=s0)
                continue
            got = Frame.join_info(q)
            ctx.eq(bytes(got), want, "joined", how=how, segments=k, start=s0, window=window, frames=[bytes(f.content) for f, _ in seq])
            if how == "after":
                ctx.eq(len(q), 1, "next-message-kept", "a frame of the next message was consumed")
                ctx.eq(bytes(Frame.join_info(q)), b"next", "next-message")
            elif how == "plain":
                ctx.eq(len(q), 0, "queue-drained")
    for k, size in ((40, 2030), (700, 128), (9, 2030)):     # messages longer than any 16-bit length
        with ctx.guard("join-long"):
            parts = [rng.randbytes(size) for _ in range(k)]
            q = collections.deque(Frame(DA=Address(upper_address=1), SA=Address(upper_address=16), control=Control((j % 8) << 1), info=p, is_segmentation=j != k - 1) for j, p in enumerate(parts))
            ctx.case(("long", k, size))
            ctx.check(bytes(Frame.join_info(q)) == b"".join(parts) and not q, "joined-long", segments=k, size=size)
    for stray in ((), (0x11,), (0x73, 0x11)):
        q = collections.deque(Frame(DA=Address(upper_address=1), SA=Address(upper_address=16), control=Control(c), info=b"", is_segmentation=False) for c in stray)
        ctx.case(f"none/{stray}")
        ctx.rejects(lambda: Frame.join_info(q), "no-information")
    ctx.require("checked:joined", 1000)
    ctx.require("rejected:incomplete", 100)
