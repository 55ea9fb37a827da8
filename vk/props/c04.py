"""Integer ranges."""
import random
from .. import axdr

RULE = ("every integer type at its limits, powers of two, random values, decimal strings and far-out-of-range values; subclasses with declared minimum/maximum/constant; "
        "raw decode of all 1- and 2-octet contents. Non-trivial: distinct (type, limits, value, form).")
MODULES = ("types.common_data_types", "types.useful_types", "types.cosem_pdu")
UT = {"Integer8": (1, True), "Integer16": (2, True), "Integer32": (4, True), "Integer64": (8, True),
      "Unsigned8": (1, False), "Unsigned16": (2, False), "Unsigned32": (4, False), "Unsigned64": (8, False)}


def rng_of(w, s):
    return (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if s else (0, (1 << 8 * w) - 1)


def values(rng, lo, hi, n):
    out = {lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, 0, 1, -1, lo * 2, hi * 2, 1 << 70, -(1 << 70), 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536}
    for _ in range(n):
        out.add(axdr.edge_int(rng, lo, hi) if rng.random() < 0.8 else rng.randint(lo * 3 - 5, hi * 3 + 5))
    return sorted(out)


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, useful_types as ut, cosem_pdu as cp
    rng = ctx.sub("ints")
    for kind, (tag, w, signed) in axdr.INTS.items():
        c = getattr(cdt, kind)
        lo, hi = axdr.int_range(kind)
        for v in values(rng, lo, hi, ctx.n(400, 6000)):
            for form in ("int", "str", "float"):
                if form == "float" and abs(v) > 1 << 52:
                    continue
                arg = {"int": v, "str": str(v), "float": float(v)}[form]
                ctx.case(f"{kind}/{form}/{v}")
                if lo <= v <= hi:
                    with ctx.guard("in-range", type=kind, value=arg):
                        x = c(arg)
                        ctx.eq(int(x), v, "value", type=kind, given=arg)
                        ctx.eq(bytes(x.encoding), bytes((tag,)) + v.to_bytes(w, "big", signed=signed), "octets", type=kind, given=arg)
                        if form == "int":
                            ctx.eq(x.decode(), v, "decode", type=kind)
                            ctx.eq(str(x), str(v), "string", type=kind)
                            y = c(0)
                            y.set(v)
                            ctx.eq(int(y), v, "set", type=kind)
                            ctx.eq(int(c(x)), v, "from-same-type", type=kind)
                            o = rng.choice((lo, hi, 0, v, v - 1, v + 1))
                            ctx.eq(x > o, v > o, "compare-int", type=kind, v=v, other=o)
                            if lo <= o <= hi:
                                ctx.eq(x > c(o), v > o, "compare", type=kind, v=v, other=o)
                else:
                    ctx.count("out-of-range")
                    ctx.rejects(lambda: c(arg), "out-of-range", type=kind, value=arg)
                    if form == "int":
                        keep = axdr.edge_int(rng, lo, hi)
                        y = c(keep)
                        ctx.rejects(lambda: y.set(arg), "set-out-of-range", type=kind, value=arg)
                        ctx.eq(int(y), keep, "set-refused-kept", type=kind, value=arg)
        for bad in ("", "abc", "1x", "0x10", "--1", "1 2", "1,5"):
            ctx.case(f"{kind}/bad/{bad}")
            ctx.rejects(lambda: c(bad), "not-a-number", type=kind, value=bad)
        for raw in (range(256) if w == 1 else [rng.randrange(1 << 8 * w) for _ in range(ctx.n(600, 8000))] + [0, (1 << 8 * w) - 1, 1 << 8 * w - 1]):
            b = raw.to_bytes(w, "big")
            ctx.case(f"{kind}/raw/{raw}")
            with ctx.guard("raw", type=kind, raw=b):
                ctx.eq(c(bytes((tag,)) + b).decode(), int.from_bytes(b, "big", signed=signed), "raw-decode", type=kind, raw=b)
        for _ in range(ctx.n(60, 600)):
            v, k = axdr.edge_int(rng, lo, hi), rng.choice((0, 1, 1, 2, 7, 8, 8 * w - 1, 8 * w))
            ctx.case(f"{kind}/shift/{v}/{k}")
            with ctx.guard("shift", type=kind, value=v, by=k):
                x = c(v)
                raw = int.from_bytes(x.contents, "big")
                x << k
                ctx.eq(int.from_bytes(x.contents, "big"), (raw << k) & ((1 << 8 * w) - 1), "shift-left", type=kind, value=v, by=k)
                x = c(v)
                x >> k
                ctx.eq((int.from_bytes(x.contents, "big"), len(x.contents)), (raw >> k, w), "shift-right", type=kind, value=v, by=k)
        # declared limits and constants
        for _ in range(ctx.n(60, 600)):
            a, b = sorted((axdr.edge_int(rng, lo, hi), axdr.edge_int(rng, lo, hi)))
            mn, mx = rng.choice(((a, b), (a, None), (None, b)))
            L = type("L", (c,), {}, min=mn, max=mx)
            probe = {a, b, a - 1, b + 1, lo, hi, 0, axdr.edge_int(rng, lo, hi)}
            for v in probe:
                if not lo <= v <= hi:
                    continue
                ok = (mn is None or v >= mn) and (mx is None or v <= mx)
                raw = bytes((tag,)) + v.to_bytes(w, "big", signed=signed)
                for form, arg in (("int", v), ("raw", raw), ("str", str(v)), ("contents", bytearray(raw[1:]))):
                    ctx.case(f"{kind}/limit/{mn}/{mx}/{v}/{form}")
                    if ok:
                        with ctx.guard("inside-limits", type=kind, min=mn, max=mx, value=arg):
                            ctx.eq(int(L(arg)), v, "inside-limits", type=kind, min=mn, max=mx)
                    else:
                        ctx.rejects(lambda: L(arg), "outside-limits", type=kind, min=mn, max=mx, value=arg)
            # without a value: the value nearest to zero above the declared minimum; clearing returns to it
            first = max(0, mn) if mn is not None else 0
            if lo <= first <= (hi if mx is None else mx):
                with ctx.guard("default-of-limits", type=kind, min=mn, max=mx):
                    ctx.eq(int(L()), first, "default-of-limits", type=kind, min=mn, max=mx)
                    x = L(next(v for v in sorted(probe, key=lambda _: rng.random()) if lo <= v <= hi and (mn is None or v >= mn) and (mx is None or v <= mx)))
                    x.clear()
                    ctx.eq(int(x), first, "cleared", type=kind, min=mn, max=mx)
            else:
                ctx.rejects(lambda: L(), "default-outside-limits", type=kind, min=mn, max=mx)
            k = axdr.edge_int(rng, lo, hi)
            K = type("K", (c,), {}, value=k)
            for v in {k, k + 1, k - 1, 0, axdr.edge_int(rng, lo, hi)}:
                if lo <= v <= hi:
                    raw = bytes((tag,)) + v.to_bytes(w, "big", signed=signed)
                    ctx.case(f"{kind}/const/{k}/{v}")
                    if v == k:
                        with ctx.guard("constant", type=kind, value=v):
                            ctx.eq(int(K(raw)), k, "constant")
                            ctx.eq(int(K(v)), k, "constant")
                    else:
                        ctx.rejects(lambda: K(raw), "constant-other", type=kind, constant=k, value=v)
                        ctx.rejects(lambda: K(v), "constant-other", type=kind, constant=k, value=v)
    # PDU integers: both implementations
    for name, (w, signed) in UT.items():
        lo, hi = rng_of(w, signed)
        for v in values(rng, lo, hi, ctx.n(300, 4000)):
            ctx.case(f"pdu/{name}/{v}")
            u, p = getattr(ut, name), getattr(cp, name)
            if lo <= v <= hi:
                with ctx.guard("pdu-in-range", type=name, value=v):
                    raw = v.to_bytes(w, "big", signed=signed)
                    tail = rng.randbytes(rng.randrange(3))
                    ctx.eq(u(v).contents, raw, "pdu-octets", type=name, v=v)
                    ctx.eq(int(u.from_contents(raw + tail)), v, "pdu-decode", type=name, v=v)
                    ctx.eq(int(u.from_str(str(v))), v, "pdu-str", type=name, v=v)
                    ctx.eq(bytes(p.from_int(v)), raw, "buffer-octets", type=name, v=v)
                    ctx.eq(int(p.from_str(str(v))), v, "buffer-str", type=name, v=v)
                    b = cp.Buffer(memoryview(bytearray(raw + tail)))
                    ctx.eq((int(p.get(b)), b.get_pos()), (v, w), "buffer-decode", type=name, v=v)
                    o = axdr.edge_int(rng, lo, hi)
                    ctx.eq(u(v) > u(o), v > o, "pdu-compare", type=name, v=v, o=o)
                    ctx.eq(p.from_int(v) > p.from_int(o), v > o, "buffer-compare", type=name, v=v, o=o)
                    ctx.eq(u(v) == u(o), v == o, "pdu-equal", type=name, v=v, o=o)
                    ctx.eq(p.from_int(v) == p.from_int(o), v == o, "buffer-equal", type=name, v=v, o=o)
            else:
                ctx.rejects(lambda: u(v), "pdu-out-of-range", (ValueError, OverflowError), type=name, value=v)
                ctx.rejects(lambda: p.from_int(v), "buffer-out-of-range", (ValueError, OverflowError), type=name, value=v)
        for n in range(w):
            ctx.rejects(lambda: u.from_contents(bytes(n)), "pdu-truncated", type=name, size=n)
            ctx.rejects(lambda: p.get(cp.Buffer(memoryview(bytearray(n)))), "buffer-truncated", (ValueError, BufferError), type=name, size=n)
    ctx.require("checked:octets", 2000)
    ctx.require("rejected:out-of-range", 300)
    ctx.require("rejected:outside-limits", 300)
