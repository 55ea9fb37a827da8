"""PDU buffer codec."""
from .. import axdr

RULE = ("random Data trees (every alternative, nested to depth 3, counts around 127/128), sequences with optional members, sequences of and octet strings up to 70000 octets, independently encoded; written to exact, roomy and short buffers and read from exact, followed and truncated ones. "
        "Non-trivial: distinct encodings.")
MODULES = ("types.cosem_pdu", "types.byte_buffer")
INTS = {"Integer8": (1, True), "Integer16": (2, True), "Integer32": (4, True), "Integer64": (8, True),
        "Unsigned8": (1, False), "Unsigned16": (2, False), "Unsigned32": (4, False), "Unsigned64": (8, False)}
STR = {"OctetString4": 4, "OctetString5": 5, "OctetString6": 6, "OctetString8": 8, "OctetString12": 12}
DATA = {0: "null", 3: "BOOLEAN", 5: "Integer32", 6: "Unsigned32", 9: "OctetString", 13: "Integer8", 15: "Integer8", 16: "Integer16", 17: "Unsigned8", 18: "Unsigned16",
        20: "Integer64", 21: "Unsigned64", 22: "Unsigned8", 23: "OctetString4", 24: "OctetString8", 25: "OctetString12", 26: "OctetString5", 27: "OctetString4", 255: "null"}


def gen_simple(rng, name):
    """octets of a member and the Python value a reader sees"""
    if name == "null":
        return b"", None
    if name == "BOOLEAN":
        v = rng.randrange(2)
        return bytes((v,)), v
    if name in INTS:
        w, s = INTS[name]
        v = axdr.edge_int(rng, -(1 << 8 * w - 1) if s else 0, (1 << 8 * w - (1 if s else 0)) - 1)
        return v.to_bytes(w, "big", signed=s), v
    if name in STR:
        b = rng.randbytes(STR[name])
        return b, b
    b = rng.randbytes(rng.choice((0, 1, 5, 126, 127, 128, 129, 255, 256, 300)))
    return axdr.length(len(b)) + b, b


def gen_data(rng, depth):
    """(tag, payload, octets)"""
    if depth and rng.random() < 0.4:
        n = rng.choice((0, 1, 2, 3, 5)) if rng.random() < 0.97 else rng.choice((127, 128, 130))
        els = [gen_data(rng, depth - 1 if n < 100 else 0) for _ in range(n)]
        tag = rng.choice((1, 2))
        return tag, els, bytes((tag,)) + axdr.length(n) + b"".join(e[2] for e in els)
    tag = rng.choice(list(DATA))
    raw, val = gen_simple(rng, DATA[tag])
    return tag, val, bytes((tag,)) + raw


def run(ctx):
    from src.DLMS_SPODES.types import cosem_pdu as cp
    rng = ctx.sub("buffer")

    def same(x, model, where):
        tag, val, enc = model
        ctx.eq(x.element.tag, tag, "read-tag", enc=enc)
        v = x.value
        if tag in (1, 2):
            if ctx.eq(len(v.values), len(val), "read-count", enc=enc):
                for a, b in zip(v.values, val):
                    same(a, b, where)
        elif val is None:
            ctx.eq(len(v), 0, "read-null")
        elif isinstance(val, bytes):
            ctx.eq(bytes(v), val, "read-octets", enc=enc)
        else:
            ctx.eq(int(v), val, "read-number", enc=enc, tag=tag)

    def write_read(x, get, enc, key):
        """x: value with these octets; written to buffers and read back"""
        ctx.eq(len(x), len(enc), "declared-size", kind=key, enc=enc)
        b = cp.create_buf(x)
        ctx.eq((bytes(b), b.get_pos()), (enc, 0), "create-buf", kind=key)
        pre, post = rng.randrange(4), rng.randrange(4)
        fill = rng.randrange(256)
        b = cp.Buffer(memoryview(bytearray([fill]) * (pre + len(enc) + post)))
        b.set_pos(pre)
        n = x.put(b)
        ctx.eq((n, b.get_pos()), (len(enc), pre + len(enc)), "write-count", kind=key, enc=enc)
        ctx.eq(bytes(b), bytes([fill]) * pre + enc + bytes([fill]) * post, "write-octets", kind=key)
        if enc:
            short = cp.Buffer.allocate(rng.randrange(len(enc)))
            ctx.rejects(lambda: x.put(short), "no-room", (BufferError,), kind=key, enc=enc)

    def read(get, enc, key):
        pre, tail = rng.randbytes(rng.randrange(3)), rng.randbytes(rng.randrange(4))
        b = cp.Buffer.wrap(pre + enc + tail)
        b.set_pos(len(pre))
        y = get(b)
        ctx.eq(b.get_pos(), len(pre) + len(enc), "read-position", kind=key, enc=enc)
        ctx.eq(bytes(b), pre + enc + tail, "read-leaves-buffer")
        ctx.check(y == get(cp.Buffer.wrap(enc)), "read-equal", "the same octets read twice give different values", kind=key, enc=enc)
        cuts = range(len(enc)) if len(enc) < 40 else {len(enc) - 1, rng.randrange(len(enc)), rng.randrange(len(enc))}
        for c in cuts:
            ctx.rejects(lambda: get(cp.Buffer.wrap(enc[:c])), "truncated-read", (BufferError, ValueError), kind=key, enc=enc, cut=c)
        return y

    for i in range(ctx.n(2500, 30000)):
        m = gen_data(rng, 3)
        enc = m[2]
        ctx.case(enc)
        with ctx.guard("data", enc=enc):
            x = read(cp.Data.get, enc, "Data")
            same(x, m, "read")
            write_read(x, cp.Data.get, enc, "Data")
            ctx.eq(bytes(x), enc, "data-bytes")
            if m[0] in (1, 2) and m[1]:
                j = rng.randrange(len(m[1]))
                same(x[j], m[1][j], "index")
    for t in range(256):
        if t not in DATA and t not in (1, 2):
            ctx.case(f"tag{t}")
            ctx.rejects(lambda: cp.Data.get(cp.Buffer.wrap(bytes((t,)) + bytes(20))), "unknown-alternative", tag=t)
    names = [k for k in list(INTS) + list(STR) + ["OctetString", "BOOLEAN"]]
    for i in range(ctx.n(1500, 20000)):
        fields = [rng.choice(names) for _ in range(rng.randrange(1, 8))]
        spec = []
        ann, enc = {}, b""
        with ctx.guard("sequence", fields=fields):
            for j, f in enumerate(fields):
                T = getattr(cp, f)
                how = rng.choice(("plain", "plain", "optional", "of"))
                if how == "plain":
                    raw, val = gen_simple(rng, f)
                    ann[f"f{j}"] = T
                elif how == "optional":
                    ann[f"f{j}"] = cp.OPTIONAL(T)
                    if rng.random() < 0.5:
                        raw, val = b"\x00", None
                    else:
                        raw, val = gen_simple(rng, f)
                        raw = b"\x01" + raw
                else:
                    ann[f"f{j}"] = cp.SEQUENCE_OF(T)
                    els = [gen_simple(rng, f) for _ in range(rng.choice((0, 1, 3, 127, 128)) if len(fields) == 1 else rng.randrange(4))]
                    raw, val = axdr.length(len(els)) + b"".join(e[0] for e in els), [e[1] for e in els]
                enc += raw
                spec.append((how, f, val))
            S = type("S", (cp.Sequence,), {"__annotations__": ann})
            ctx.case(repr(fields).encode() + enc)
            x = read(S.get, enc, "Sequence")

            def val_of(v, f):
                return bytes(v) if f in STR or f == "OctetString" else int(v)
            for j, (how, f, val) in enumerate(spec):
                v = getattr(x, f"f{j}")
                ctx.check(v is x[j], "member-name")
                if how == "plain":
                    ctx.eq(val_of(v, f), val, "member", field=f)
                elif how == "optional":
                    if val is None:
                        ctx.check(v.value is cp.NULL_, "optional-absent")
                    else:
                        ctx.eq(val_of(v.value, f), val, "optional-present", field=f)
                else:
                    ctx.eq([val_of(e, f) for e in v.values], val, "sequence-of", field=f)
            if not any(h == "of" and len(v) > 100 for h, _, v in spec):
                write_read(x, S.get, enc, "Sequence")
            ctx.eq(bytes(cp.create_buf(x)), enc, "sequence-octets")
            d = S.default()
            ctx.eq(len(bytes(cp.create_buf(d))), len(d), "default-size")
            S.get(cp.create_buf(d))
    for n in [0, 1, 127, 128, 255, 256, 65535, 65536, 70000]:
        data = rng.randbytes(n)
        ctx.case(f"octets/{n}")
        with ctx.guard("octet-string", size=n):
            x = cp.OctetString(memoryview(data))
            enc = axdr.length(n) + data
            write_read(x, cp.OctetString.get, enc, "OctetString")
            ctx.eq(bytes(read(cp.OctetString.get, enc, "OctetString")), data, "octet-string")
    # values made here: the alternative is the first one of their type, in any order of making
    first = {}
    for t, f in DATA.items():
        if f != "null":
            first.setdefault(f, t)
    for i in range(ctx.n(400, 4000)):
        f, g = rng.choice(list(first)), rng.choice(list(first))
        (raw, _), (raw2, _) = gen_simple(rng, f), gen_simple(rng, g)
        ctx.case(f"made/{f}/{raw.hex()}/{g}/{raw2.hex()}")
        with ctx.guard("made", type=f, raw=raw, other=g):
            mk = lambda name, r: getattr(cp, name).get(cp.Buffer.wrap(r))
            x, y = cp.Data(mk(f, raw)), cp.Data(mk(g, raw2))
            ctx.eq(bytes(cp.create_buf(x)), bytes((first[f],)) + raw, "made-octets", type=f)
            ctx.eq(bytes(cp.create_buf(y)), bytes((first[g],)) + raw2, "made-octets", type=g, after=f)
            write_read(x, cp.Data.get, bytes((first[f],)) + raw, "made")
            # the same object at several places of a sequence
            S = type("S", (cp.Sequence,), {"__annotations__": {"a": getattr(cp, f), "b": getattr(cp, g), "c": getattr(cp, f)}})
            v = mk(f, raw)
            write_read(S((v, mk(g, raw2), v)), S.get, raw + raw2 + raw, "shared member")
            many = cp.SEQUENCE_OF(getattr(cp, f))
            write_read(many([v, v, v]), many.get, b"\x03" + raw * 3, "shared element")
    # equality: alternative and value
    for i in range(ctx.n(800, 8000)):
        m = gen_data(rng, 0)
        n = m if rng.random() < 0.3 else gen_data(rng, 0) if rng.random() < 0.4 else (0, None, b"")
        if n[2] == b"":
            others = [t for t, f in DATA.items() if f == DATA[m[0]] and t != m[0]]
            if not others:
                continue
            n = None, m[1], bytes((rng.choice(others),)) + m[2][1:]
        ctx.case(b"equal" + m[2] + n[2])
        with ctx.guard("equality", a=m[2], b=n[2]):
            x, y = (cp.Data.get(cp.Buffer.wrap(e)) for e in (m[2], n[2]))
            ctx.eq(x == y, m[2] == n[2], "data-equality", a=m[2], b=n[2])
    for i in range(ctx.n(800, 8000)):
        f = rng.choice(list(INTS))
        (r1, v1), (r2, v2) = gen_simple(rng, f), gen_simple(rng, f)
        if rng.random() < 0.4:
            v2 = v1 ^ (1 << rng.randrange(INTS[f][0] * 8 - 1))
            r2 = v2.to_bytes(INTS[f][0], "big", signed=INTS[f][1])
        ctx.case(f"order/{f}/{v1}/{v2}")
        with ctx.guard("order", type=f, a=v1, b=v2):
            T = getattr(cp, f)
            a, b, c = T.from_int(v1), T.from_int(v2), T.get(cp.Buffer.wrap(r1))
            ctx.eq((a > b, b > a, a < b, a == b), (v1 > v2, v2 > v1, v1 < v2, v1 == v2), "order", type=f, a=v1, b=v2)
            ctx.check(a == c and hash(a) == hash(c) and bytes(a) == r1 and str(a) == str(v1), "made-equals-read", type=f, a=v1)
            ctx.check(T.from_str(str(v1)) == a, "number-text", type=f, a=v1)
            w, s = INTS[f]
            for out in ((1 << 8 * w - (1 if s else 0)), -(1 << 8 * w - 1) - 1 if s else -1):
                ctx.rejects(lambda: T.from_int(out), "number-range", (ValueError, OverflowError), type=f, number=out)
    for v in (0, 1, 2, 127, 128, 255, 256, -1, -5):
        with ctx.guard("boolean-number"):
            ctx.eq(bool(cp.BOOLEAN.from_int(v)), v != 0, "boolean-number", number=v)
    # presence flags, forms of length, texts of sequences
    for i in range(ctx.n(300, 3000)):
        f = rng.choice(list(INTS))
        raw, val = gen_simple(rng, f)
        flag = rng.choice((0, 1, 2, 0x7f, 0x80, 0xff, rng.randrange(256)))
        ctx.case(f"flag/{flag}/{f}/{val}")
        with ctx.guard("presence", flag=flag):
            b = cp.Buffer.wrap(bytes((flag,)) + raw)
            o = cp.OPTIONAL(getattr(cp, f)).get(b)
            ctx.eq((o.value is cp.NULL_, b.get_pos()), (True, 1) if flag == 0 else (False, 1 + len(raw)), "presence-flag", flag=flag)
        n, k = rng.choice((0, 1, 3, 127, 128)), rng.randrange(0, 13)
        body = rng.randbytes(n)
        if k and n < 1 << 8 * k:
            head = bytes((0x80 | k,)) + n.to_bytes(k, "big")
            ctx.case(f"length/{head.hex()}")
            try:
                b = cp.Buffer.wrap(head + body + b"tail")
                x = cp.OctetString.get(b)
                ctx.eq((bytes(x), b.get_pos()), (body, len(head) + n), "long-form-length", head=head)
            except (ValueError, BufferError):
                ctx.count("long-form-refused")
        elif not k:
            ctx.rejects(lambda: cp.OctetString.get(cp.Buffer.wrap(b"\x80" + body)), "indefinite-length", (ValueError, BufferError))
        fields = [rng.choice(list(INTS)) for _ in range(rng.randrange(1, 6))]
        opt = [rng.random() < 0.5 for _ in fields]
        S = type("S", (cp.Sequence,), {"__annotations__": {f"f{j}": cp.OPTIONAL(getattr(cp, g)) if o else getattr(cp, g) for j, (g, o) in enumerate(zip(fields, opt))}})
        text, want = [], b""
        for g, o in zip(fields, opt):
            raw, val = gen_simple(rng, g)
            if rng.random() < 0.2:
                raw, val = bytes(len(raw)), 0
            if o and rng.random() < 0.4:
                text.append("")
                want += b"\0"
            else:
                text.append(str(val))
                want += (b"\1" if o else b"") + raw
        ctx.case(f"sequence-text/{fields}/{opt}/{text}")
        with ctx.guard("sequence-text", fields=fields, optional=opt, text=text):
            ctx.eq(bytes(cp.create_buf(S.from_str(" ".join(text)))), want, "sequence-text", fields=fields, optional=opt, text=text)
    for n in (0, 1, 127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, 70001):
        ctx.case(f"many/{n}")
        with ctx.guard("many", count=n):
            raw = rng.randbytes(2 * n)
            many = cp.SEQUENCE_OF(cp.Unsigned16)
            x = many.get(cp.Buffer.wrap(axdr.length(n) + raw))
            ctx.eq(len(x.values), n, "many-count", count=n)
            ctx.eq(bytes(cp.create_buf(x)), axdr.length(n) + raw, "many-octets", count=n)
            # a value made by default is nobody else's
            d = many.default()
            d.values.append(cp.Unsigned16.from_int(7))
            ctx.eq((len(many.default().values), len(cp.SEQUENCE_OF(cp.Unsigned8).default().values)), (0, 0), "default-shared")
    with ctx.guard("text"):
        for v in ("0", "False", "1", "True"):
            ctx.eq(bool(cp.BOOLEAN.from_str(v)), v in ("1", "True"), "boolean-text", text=v)
        for v in ("2", "", "x"):
            ctx.rejects(lambda: cp.BOOLEAN.from_str(v), "boolean-text-wrong", text=v)
        for t, f in DATA.items():
            if f in INTS:
                for _ in range(20):
                    raw, val = gen_simple(rng, f)
                    x = cp.Data.from_str(f"{t}:{val}")
                    ctx.case(f"text/{t}/{val}")
                    ctx.eq(bytes(x), bytes((t,)) + raw, "data-text", tag=t, value=val)
    ctx.require("checked:read-number", 1000)
    ctx.require("rejected:no-room", 1000)
    ctx.require("rejected:truncated-read", 3000)
