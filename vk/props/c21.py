"""HDLC parameter negotiation."""

RULE = ("all combinations of default/limit/random maximum information lengths and windows announced in SNRM and read by an independent parser; UA responses with any subset and order of parameters and field widths, out-of-range values, "
        "truncations and wrong identifiers, in histories on one instance. Non-trivial: distinct announcements and responses.")
MODULES = ("hdlc.negotiation",)
DEF = {5: 128, 6: 128, 7: 1, 8: 1}


def parse(data: bytes):
    if not data:
        return {}
    assert data[:2] == b"\x81\x80", "identifiers"
    assert data[2] == len(data) - 3, "group length"
    out, i = {}, 3
    while i < len(data):
        n = data[i + 1]
        assert n in (1, 2, 4) and i + 2 + n <= len(data), "parameter length"
        assert data[i] not in out and data[i] in DEF, "parameter identifier"
        out[data[i]] = int.from_bytes(data[i + 2:i + 2 + n], "big")
        i += 2 + n
    return out


def run(ctx):
    from src.DLMS_SPODES.hdlc.negotiation import Negotiation
    rng = ctx.sub("negotiation")

    def size():
        return rng.choice((128, 128, 32, 33, 127, 129, 255, 256, 257, 511, 512, 1024, 2029, 2030, rng.randint(32, 2030)))

    def win():
        return rng.choice((1, 1, 2, 3, 4, 5, 6, 7))

    def state(n):
        return n.max_info_transmit, n.max_info_receive, n.window_transmit, n.window_receive

    with ctx.guard("defaults"):
        ctx.eq(state(Negotiation()), (128, 128, 1, 1), "defaults")
        ctx.eq(bytes(Negotiation().SNRM), b"", "defaults-announce-nothing")
    for i in range(ctx.n(4000, 40000)):
        want = (size(), size(), win(), win())
        ctx.case(("snrm", want))
        with ctx.guard("announce", parameters=want):
            n = Negotiation(max_info_transmit=want[0], max_info_receive=want[1], window_transmit=want[2], window_receive=want[3])
            for step in range(2):
                data = bytes(n.SNRM)
                try:
                    got = parse(data)
                except (AssertionError, IndexError) as e:
                    ctx.fail("announce-format", f"malformed: {e}", data=data, parameters=want)
                    break
                ctx.eq(tuple({**DEF, **got}[k] for k in (5, 6, 7, 8)), want, "announced", data=data)
                ctx.eq((bytes(n.info), bytes(n.content), len(n)), (data, data, len(data)), "info-octets")
                # changed parameters are announced next time
                want = (size(), size(), win(), win())
                n.max_info_transmit, n.max_info_receive, n.window_transmit, n.window_receive = want
    for i in range(ctx.n(1500, 15000)):
        with ctx.guard("history"):
            n = Negotiation()
            cur = (128, 128, 1, 1)
            for step in range(5):
                vals = {k: v for k, v in ((5, size()), (6, size()), (7, win()), (8, win())) if rng.random() < 0.7}
                keys = list(vals)
                rng.shuffle(keys)
                body = b""
                for k in keys:
                    w = rng.choice((2, 4) if vals[k] > 255 else (1, 2, 4) if k < 7 else (1, 4))
                    body += bytes((k, w)) + vals[k].to_bytes(w, "big")
                data = b"\x81\x80" + bytes((len(body),)) + body
                how = rng.choice(("good", "good", "good", "empty", "format", "group", "length", "cut", "range", "tag"))
                if how == "good":
                    ctx.case(data)
                    n.set_from_UA(data)
                    full = {**DEF, **vals}
                    # what the server transmits is what the client receives
                    cur = (full[6], full[5], full[8], full[7])
                    ctx.eq(state(n), cur, "negotiated", data=data)
                    continue
                if how == "empty":
                    ctx.case("empty")
                    n.set_from_UA(b"")
                    cur = (128, 128, 1, 1)
                    ctx.eq(state(n), cur, "negotiated-empty")
                    continue
                if how == "format":
                    bad = bytes((rng.choice([x for x in range(256) if x != 0x81]),)) + data[1:]
                elif how == "group":
                    bad = data[:1] + bytes((rng.choice([x for x in range(256) if x != 0x80]),)) + data[2:]
                elif how == "length":
                    bad = data[:2] + bytes((rng.choice([x for x in range(256) if x != data[2]]),)) + data[3:]
                elif how == "cut":
                    bad = data[:rng.randrange(1, len(data))] if len(data) > 3 and rng.random() < 0.5 else b"\x81\x80" + bytes((len(body) + 2,)) + body + b"\x05\x02"
                    if rng.random() < 0.5:
                        extra = rng.choice((b"\x06\x02\x80", b"\x05\x04\x07\xd0", b"\x05\x03\x00\x80", b"\x07\x04\x01", b"\x08\x02\x03", b"\x07\x02\x07", b"\x05", b"\x06\x02\x01", b"\x07\x04\x00\x00\x00", b"\x08\x01", b"\x05\x04\x00\x01\x00"))
                        bad = b"\x81\x80" + bytes((len(body + extra),)) + body + extra
                elif how == "range":
                    k = rng.choice((5, 6, 7, 8))
                    v = rng.choice((0, 1, 31, 2031, 4096, 65535) if k < 7 else (0, 8, 9, 128, 255))
                    extra = bytes((k, 2)) + v.to_bytes(2, "big")
                    bad = b"\x81\x80" + bytes((len(body + extra),)) + rng.choice((body + extra, extra + body))
                else:
                    extra = bytes((rng.choice([x for x in range(256) if x not in DEF]), 1, 1))
                    bad = b"\x81\x80" + bytes((len(body + extra),)) + body + extra
                ctx.case(bad)
                ctx.rejects(lambda: n.set_from_UA(bad), "malformed-response", data=bad, how=how)
                ctx.eq(state(n), cur, "kept-after-malformed", "a refused response changed the parameters", data=bad, how=how)
    # both sides agree: what one announces, the other receives, swapped
    for _ in range(ctx.n(600, 6000)):
        want = (size(), size(), win(), win())
        ctx.case(("peer", want))
        with ctx.guard("peer"):
            a, b = Negotiation(*want), Negotiation()
            b.set_from_UA(bytes(a.SNRM))
            ctx.eq((b.max_info_receive, b.max_info_transmit, b.window_receive, b.window_transmit), want, "peer")
    ctx.require("checked:announced", 3000)
    ctx.require("rejected:malformed-response", 500)
