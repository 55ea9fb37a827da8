"""Bit strings and conformance blocks."""
from .. import axdr

RULE = ("bit strings of 0..300 bits (and 3000) driven by random histories of bit assignment, inversion, rotation, clearing and set, against a list model; conformance blocks from strings, octets and integers; PDU bit strings. "
        "Non-trivial: distinct (bits, operation).")
MODULES = ("types.common_data_types", "types.useful_types", "types.implementations.bitstrings")

SERVICES = ("reserved-zero general-protection general-block-transfer read write unconfirmed-write reserved-six reserved-seven attribute0-supported-with-set priority-mgmt-supported "
            "attribute0-supported-with-get block-transfer-with-get-or-read block-transfer-with-set-or-write block-transfer-with-action multiple-references information-report "
            "data-notification access parameterized-access get set selective-access event-notification action").split()     # Green Book, bit 0 first


def enc(bits: str) -> bytes:
    return axdr.encode(("BitString", bits))


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, useful_types as ut
    from src.DLMS_SPODES.types.implementations import bitstrings
    rng = ctx.sub("bits")

    def bits(n):
        return "".join(rng.choice("01") for _ in range(n))

    for i in range(ctx.n(500, 6000)):
        n = rng.choice((0, 1, 7, 8, 9, 15, 16, 17, 31, 33, 64, 127, 128, 129, rng.randrange(40), 300))
        s = bits(n)
        with ctx.guard("bits", s=s):
            form = rng.choice(("str", "list", "bytes", "copy"))
            x = {"str": lambda: cdt.BitString(s), "list": lambda: cdt.BitString([int(c) for c in s]), "bytes": lambda: cdt.BitString(enc(s) + b"\xff"),
                 "copy": lambda: cdt.BitString(cdt.BitString(s))}[form]()
            model = [int(c) for c in s]

            def agree(op):
                want = "".join(map(str, model))
                ctx.case(f"{op}/{want}")
                ctx.eq(len(x), len(model), f"{op}-length")
                ctx.eq(x.decode(), model, f"{op}-bits", form=form)
                ctx.eq(str(x), want, f"{op}-text")
                ctx.eq(bytes(x.encoding), enc(want), f"{op}-octets")
                for j in {0, len(model) - 1, len(model) // 2}:
                    if 0 <= j < len(model):
                        ctx.eq(x[j], bytes((model[j],)), f"{op}-index")
            agree("new")
            for _ in range(6):
                op = rng.choice(("put", "inverse", "left", "right", "set", "clear", "put", "inverse"))
                if op == "put" and model:
                    j, b = rng.randrange(len(model)), rng.randrange(2)
                    x[j] = rng.choice((b, bool(b)))
                    model[j] = b
                elif op == "inverse" and model:
                    j = rng.randrange(len(model))
                    x.inverse(j)
                    model[j] ^= 1
                elif op in ("left", "right") and model:
                    k = rng.randrange(0, 2 * len(model) + 2) if len(model) < 40 else rng.randrange(5)
                    x << k if op == "left" else x >> k
                    k %= len(model)
                    model = model[k:] + model[:k] if op == "left" else model[len(model) - k:] + model[:len(model) - k]
                elif op == "set":
                    t = bits(rng.randrange(0, 40))
                    x.set(rng.choice((t, enc(t))))
                    model = [int(c) for c in t]
                elif op == "clear":
                    x.clear()
                    model = [0] * len(model)
                else:
                    continue
                agree(op)
        with ctx.guard("pdu-bits", s=s):
            u = ut.BitString([int(c) for c in s])
            ctx.eq(u.contents, enc(s)[1:], "pdu-octets", s=s)
            ctx.eq(ut.BitString.from_contents(enc(s)[1:] + b"\xaa\x55").value, [int(c) for c in s], "pdu-decode", s=s)
            ctx.eq(str(ut.BitString.from_str(s)), s, "pdu-text", s=s)
            r = ut.get_instance_and_context(ut.BitString, enc(s)[1:] + b"\xaa\x55")
            ctx.eq(r[1], b"\xaa\x55", "pdu-rest", s=s)
            if s:
                j = rng.randrange(n)
                u.inverse(j)
                m = [int(c) ^ (k == j) for k, c in enumerate(s)]
                ctx.eq([int(b) for b in u.value], m, "pdu-inverse")
                ctx.eq(u.contents, enc("".join(map(str, m)))[1:], "pdu-inverse-octets", s=s, j=j)
                j, v = rng.randrange(n), rng.choice((0, 1, False, True))
                u[j] = v
                m[j] = int(v)
                ctx.eq((u.contents, str(u)), (enc("".join(map(str, m)))[1:], "".join(map(str, m))), "pdu-put", s=s, j=j, v=v)
            u.clear()
            ctx.eq(list(u.value), [0] * n, "pdu-clear")
        # with fewer octets than bits
        if n:
            short = enc(s)[:-1]
            ctx.rejects(lambda: cdt.BitString(short), "short-bits", data=short)
            ctx.rejects(lambda: ut.BitString.from_contents(short[1:]), "pdu-short-bits", data=short)

    C = bitstrings.Conformance
    for i in range(ctx.n(1500, 20000)):
        s = bits(24)
        v = rng.getrandbits(24) if rng.random() < 0.7 else 1 << rng.randrange(24)
        ctx.case(f"conformance/{s}/{v}")
        with ctx.guard("conformance", s=s, v=v):
            x = C(s)
            ctx.eq(bytes(x.encoding), enc(s), "conformance-octets", s=s)
            ctx.eq(bytes(C(enc(s)).encoding), enc(s), "conformance-from-octets", s=s)
            ctx.eq(bytes(C(bytearray(int(s, 2).to_bytes(3, "big"))).encoding), enc(s), "conformance-from-contents", s=s)
            ctx.eq(bytes(C(x).encoding), enc(s), "conformance-copy", s=s)
            ctx.eq((int(x.general_protection), int(x.general_block_transfer), int(x.selective_access)), (int(s[1]), int(s[2]), int(s[21])), "conformance-names", s=s)
            # bit i of the number is the i-th service bit
            y = C(v)
            ctx.eq(y.decode(), [v >> k & 1 for k in range(24)], "conformance-int", v=v)
            j = rng.randrange(24)
            x.inverse(j)
            ctx.eq(str(x), s[:j] + str(1 - int(s[j])) + s[j + 1:], "conformance-inverse", s=s)
            x.set(s)
            ctx.eq(str(x), s, "conformance-set", s=s)
        n = rng.choice([k for k in range(0, 50) if k != 24])
        t = bits(n)
        ctx.rejects(lambda: C(enc(t)), "conformance-size", bits=t)
        ctx.rejects(lambda: C(t), "conformance-text-size", bits=t)
        ctx.rejects(lambda: C(-v or -1), "conformance-negative", (ValueError, OverflowError), number=-v)
        ctx.rejects(lambda: C(bytearray(rng.choice((0, 1, 2, 4, 5)))), "conformance-contents-size")
    with ctx.guard("conformance-default"):
        ctx.eq(str(C()), "0" + "1" * 23, "conformance-default")
    with ctx.guard("conformance-service-names"):
        from src.DLMS_SPODES.config_parser import get_values
        names = get_values("DLMS", "Conformance")
        ctx.eq(list(C.get_values()), [names[x] if names else x for x in SERVICES], "conformance-service-names")
    # the flags of the security policy of version 1
    from src.DLMS_SPODES.cosem_interface_classes.security_setup.ver1 import SecurityPolicyVer1 as P
    for v in range(256):
        t = f"{v:08b}"
        with ctx.guard("flags", v=v):
            x = P(bytes((22, v)))
            ctx.eq((str(x), x.decode(), int(x), bytes(x.encoding), len(x)), (t, [int(k) for k in t], v, bytes((22, v)), 8), "flags", v=v)
            for form in (t, v, bytearray((v,)), x):
                ctx.eq(bytes(P(form).encoding), bytes((22, v)), "flags-from", v=v, form=type(form).__name__)
            y = P(None)
            ctx.eq(int(y), 0, "flags-default")
            y.set(t)
            ctx.eq(int(y), v, "flags-set", v=v)
            ctx.case(f"flags/{v}")
        w = rng.choice(("2", "x", "-1", "1 1", "0b1", "")) + t[:rng.randrange(7)]
        if w and set(w) - set("01") and not w.startswith("0b"):
            ctx.rejects(lambda: P(w), "flags-text", exc=(ValueError, OverflowError), text=w)
    ctx.rejects(lambda: P(256), "flags-outside")
    ctx.rejects(lambda: P(-1), "flags-outside")
    ctx.require("checked:left-bits", 100)
    ctx.require("checked:inverse-bits", 100)
