"""Length octets."""
RULE = ("lengths 0..2^40 around every form border, followed by random tails, through the three length codecs "
        "(A-XDR types, PDU types, PDU buffer) plus strings that long; malformed length octets. Non-trivial: every distinct (codec, length, tail) and every malformed input.")
MODULES = ("types.common_data_types", "types.useful_types", "types.cosem_pdu")


def borders(rng, n):
    out = set(range(0, 300)) | {65534, 65535, 65536, 65537, 0xffffff, 0x1000000, 0xfffffffe, 0xffffffff}
    for b in range(8, 33):
        for d in (-1, 0, 1):
            v = (1 << b) + d
            if v < 1 << 32:
                out.add(v)
    while len(out) < n:
        out.add(rng.randrange(1 << rng.randrange(9, 33)))
    return sorted(out)


def ref_decode(enc: bytes):
    if enc[0] < 0x80:
        return enc[0], 1
    w = enc[0] & 0x7f
    assert w and len(enc) >= 1 + w
    return int.from_bytes(enc[1:1 + w], "big"), 1 + w


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, useful_types as ut, cosem_pdu as cp
    rng = ctx.sub("len")

    def buf(data):
        return cp.Buffer(memoryview(bytearray(data)))

    def buf_put(n):
        b = cp.Buffer.allocate(16)
        start = rng.randrange(0, 6)
        b.set_pos(start)
        w = b.put_len(n)
        ctx.eq(b.get_pos(), start + w, "put-position", n=n)
        whole = bytes(b)
        ctx.check(whole[:start] == bytes(start) and not any(whole[start + w:]), "put-outside", "length octets written outside their place", n=n, whole=whole, start=start)
        return whole[start:start + w]

    def buf_get(enc):
        b = buf(enc)
        try:
            n = b.get_length()
        except BufferError as e:
            raise ValueError(str(e))
        return n, bytes(enc[b.get_pos():])

    codecs = {"axdr": (cdt.encode_length, cdt.get_length_and_pdu), "pdu": (ut.encode_length, ut.get_length_and_pdu), "buffer": (buf_put, buf_get),
              "pdu-bytes": (cp.encode_length, None)}
    for name, (enc_fn, dec_fn) in codecs.items():
        for n in borders(rng, ctx.n(1500, 40000)):
            tail = rng.randbytes(rng.choice((0, 1, 3, 17)))
            ctx.case(f"{name}/{n}/{len(tail)}", sample=(name, n))
            with ctx.guard("encode-length", codec=name, n=n):
                enc = bytes(enc_fn(n))
                try:
                    got, used = ref_decode(enc)
                except (AssertionError, IndexError):
                    got = used = None
                ctx.check(got == n and used == len(enc), "encode-length", "not a definite-form length", codec=name, n=n, enc=enc)
                short = n < 0x80
                ctx.check(len(enc) == 1 if short else (len(enc) >= 2), "encode-form", codec=name, n=n, enc=enc)
                if 0x80 <= n <= 0xffff:
                    ctx.eq(len(enc), 2 if n < 0x100 else 3, "encode-minimal", codec=name, n=n, enc=enc)
                if dec_fn:
                    r = dec_fn(enc + tail)
                    ctx.eq(r[0], n, "decode-length", codec=name, enc=enc)
                    ctx.eq(bytes(r[1]), tail, "decode-rest", codec=name, enc=enc, n=n)
        if dec_fn is None:
            continue
        # wider than necessary forms are legal BER; every width
        for _ in range(ctx.n(800, 10000)):
            w = rng.randrange(1, 9)
            n = rng.randrange(1 << (8 * rng.randrange(1, w + 1)))
            tail = rng.randbytes(rng.randrange(5))
            enc = bytes((0x80 | w,)) + n.to_bytes(w, "big")
            ctx.case(f"{name}/wide{w}/{n}")
            with ctx.guard("decode-wide", codec=name, enc=enc):
                r = dec_fn(enc + tail)
                ctx.eq((r[0], bytes(r[1])), (n, tail), "decode-wide", codec=name, enc=enc)
            cut = enc[:rng.randrange(0, len(enc))]
            if not cut or cut[0] & 0x80:
                ctx.case(f"{name}/cut/{cut.hex()}")
                ctx.rejects(lambda: dec_fn(cut), "truncated-length", codec=name, data=cut)
        for tail in (b"", b"\x00", b"\x01\x02\x03", bytes(200)):
            ctx.case(f"{name}/indefinite/{len(tail)}")
            ctx.rejects(lambda: dec_fn(b"\x80" + tail), "indefinite-length", codec=name, tail=tail)
        for first in range(0x81, 0x100):
            for have in {0, 1, (first & 0x7f) - 1}:
                if have < (first & 0x7f):
                    data = bytes((first,)) + bytes(have)
                    ctx.case(f"{name}/short/{first}/{have}")
                    ctx.rejects(lambda: dec_fn(data), "truncated-length", codec=name, data=data)
        ctx.rejects(lambda: dec_fn(b""), "empty-length", codec=name)

    # values of exactly these sizes
    for n in [0, 1, 126, 127, 128, 129, 254, 255, 256, 257, 4095, 65535, 65536, 65537] + [rng.randrange(70000) for _ in range(ctx.n(30, 400))]:
        data = rng.randbytes(n)
        ctx.case(f"value/{n}")
        with ctx.guard("sized-value", n=n):
            el = cdt.OctetString(bytearray(data))
            got, used = ref_decode(el.encoding[1:])
            ctx.eq((got, el.encoding[1 + used:]), (n, data), "sized-octet-string", n=n)
            bs = cdt.BitString("1" * min(n, 3000))
            got, used = ref_decode(bs.encoding[1:])
            ctx.eq((got, len(bs.encoding) - 1 - used), (min(n, 3000), (min(n, 3000) + 7) // 8), "sized-bit-string", n=n)
            us = ut.OctetString(data)
            got, used = ref_decode(us.contents)
            ctx.eq((got, us.contents[used:]), (n, data), "sized-pdu-string", n=n)
            b = cp.Buffer.allocate(n + 8)
            w = b.write_with_length(memoryview(data))
            b.set_pos(0)
            ctx.eq(bytes(b.read_by_length()), data, "sized-buffer", n=n)
            ctx.eq(b.get_pos(), w, "sized-buffer-position", n=n)
            ctx.eq(w, n + cp.decide_len(n), "reserved-length", "space reserved for length differs from the space used", n=n)
            if n <= 300:
                ar = cdt.Array([cdt.Unsigned(i & 0xff) for i in range(n)], type_=cdt.Unsigned)
                got, used = ref_decode(ar.encoding[1:])
                ctx.eq((got, len(ar.encoding) - 1 - used), (n, 2 * n), "sized-array", n=n)
    ctx.require("checked:decode-length", 1000)
    ctx.require("rejected:truncated-length", 300)
