"""Control octets: classes and sequence numbers."""
from .. import hdlcref as ref

RULE = "all 256 control octets (exhaustive), chains of successive numbers, frame pairs for every (send, receive, final) combination. Non-trivial: distinct octets and pairs."
MODULES = ("hdlc.frame",)
NAMED = {"UI": 0x03, "UI_PF": 0x13}
# ISO/IEC 13239 5.5.3: modifier bits with the poll/final bit cleared
for _names, _bit in ((dict(SNRM=0x83, SARM=0x0f, SABM=0x2f, DISC=0x43, SNRME=0xcf, SARME=0x4f, SABME=0x6f, UP=0x23, SIM=0x07, SM=0xc3, RSET=0x8f), "_P"),
                     (dict(UA=0x63, FRMR=0x87, DM=0x0f, RD=0x43, RIM=0x07), "_F"), (dict(XID=0xaf, TEST=0xe3, UIH=0xef), "_PF")):
    for _n, _v in _names.items():
        NAMED[_n], NAMED[_n + _bit] = _v, _v | 0x10


def run(ctx):
    from src.DLMS_SPODES.hdlc.frame import Address, Control, Frame
    rng = ctx.sub("control")
    for name, v in NAMED.items():
        with ctx.guard("named", name=name):
            ctx.eq(int(getattr(Control, name)), v, "named", name=name)
    for s in range(8):
        for r in range(8):
            for pf in (0, 1):
                with ctx.guard("named-info"):
                    ctx.eq(int(getattr(Control, f"S{s}_R{r}" + "_PF" * pf)), r << 5 | pf << 4 | s << 1, "named-info", s=s, r=r, pf=pf)
        for pf in (0, 1):
            for name, code in (("RR", 1), ("RNR", 5), ("REJ", 9), ("SREJ", 13)):
                with ctx.guard("named-supervisory"):
                    ctx.eq(int(getattr(Control, f"{name}_R{s}" + "_PF" * pf)), s << 5 | pf << 4 | code, "named-supervisory", r=s, name=name)
    for v in range(256):
        ctx.case(v)
        with ctx.guard("control", value=v):
            c = Control(v)
            info, sup, un = not v & 1, v & 3 == 1, v & 3 == 3
            ctx.eq((c.is_info(), c.is_supervisory(), c.is_unnumbered()), (info, sup, un), "class", value=v)
            ctx.eq((c.is_receive_ready(), c.is_receive_not_ready(), c.is_reject(), c.is_selective_reject()),
                   tuple(sup and v >> 2 & 3 == k for k in range(4)), "supervisory-class", value=v)
            ctx.eq(c.is_information(), info or v in (0x03, 0x13), "carries-information", value=v)
            if not un:
                ctx.eq(bool(c.is_poll), bool(v & 0x10), "poll-final", value=v)
            ctx.eq(bytes(c.content), bytes((v,)), "octet", value=v)
            tail = rng.randbytes(rng.randrange(3))
            buf = bytearray((v,)) + tail
            ctx.eq((int(Control.from_frame(buf)), bytes(buf)), (v, tail), "from-frame", value=v)
            if info:
                n = Control.next_send_sequence(c)
                ctx.eq(int(n), v & 0xf1 | ((v >> 1 & 7) + 1 & 7) << 1, "next-send", value=v)
                n = Control.next_receiver_sequence(c)
                ctx.eq(int(n), ((v >> 5) + 1 & 7) << 5 | 0x10 | v & 0x0e, "next-receive", value=v)
                x = c
                for _ in range(8):
                    x = Control.next_send_sequence(x)
                ctx.eq(int(x), v, "send-modulo-8", value=v)
            if sup:
                # (the type bits are the caller's: only the numbers are judged)
                n = Control.next_receiver_sequence(c)
                ctx.eq(int(n) >> 5, (v >> 5) + 1 & 7, "next-receive-supervisory", value=v)
    ctx.rejects(lambda: Control.from_frame(bytearray()), "no-control")
    A, B = Address(upper_address=1), Address(upper_address=16)
    frames = {v: Frame(DA=A, SA=B, control=Control(v), info=b"x", is_segmentation=False) for v in range(0, 256, 2)}
    for a, f in frames.items():
        for b, g in frames.items():
            ctx.case(f"{a}/{b}")
            with ctx.guard("pair", previous=a, following=b):
                step = ((a >> 1 & 7) + 1) % 8 == (b >> 1 & 7)
                if not step:
                    ctx.check(not g.is_next_send(f), "not-next-send", previous=a, following=b)
                elif a >> 5 == b >> 5:
                    ctx.check(g.is_next_send(f), "next-send-pair", previous=a, following=b)
                full = step and ((a >> 5) + 1) % 8 == b >> 5 and b & 0x10
                ctx.eq(bool(g.is_next(f)), bool(full), "next-pair", previous=a, following=b)
    others = {v: Frame(DA=A, SA=B, control=Control(v), info=b"", is_segmentation=False) for v in range(1, 256, 2)}
    for a, f in frames.items():
        for b, g in others.items():
            with ctx.guard("other-pair", previous=a, following=b):
                ctx.check(not g.is_next_send(f) and not g.is_next(f), "other-is-no-successor", "a frame without a send number was taken as the next information frame", previous=a, following=b)
    ctx.require("checked:class", 256)
