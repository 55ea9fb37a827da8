"""IEEE 754 floats."""
import math
import struct

RULE = ("float32/float64: bit patterns of every exponent with edge fractions, random patterns, zeros, subnormals, infinities, NaN; numbers, decimal and hex strings; out-of-range numbers. "
        "Oracle: the host's struct packing. Non-trivial: distinct (type, pattern or text).")
MODULES = ("types.common_data_types",)


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt
    rng = ctx.sub("float")
    for c, fmt, w, ebits, fbits, tag in ((cdt.Float32, ">f", 4, 8, 23, 0x17), (cdt.Float64, ">d", 8, 11, 52, 0x18)):
        pats = set()
        exps = range(1 << ebits) if ebits == 8 or ctx.thorough else sorted(set(list(range(0, 60)) + list(range(990, 1060)) + list(range(1985, 2048)) + list(range(0, 2048, 13))))
        for e in exps:
            for s in (0, 1):
                for f in {0, 1, (1 << fbits) - 1, 1 << (fbits - 1), (1 << fbits - 1) - 1, rng.getrandbits(fbits), rng.getrandbits(fbits)}:
                    pats.add((s << ebits | e) << fbits | f)
        for _ in range(ctx.n(4000, 60000)):
            pats.add(rng.getrandbits(8 * w))
        for p in sorted(pats):
            raw = p.to_bytes(w, "big")
            want = struct.unpack(fmt, raw)[0]
            ctx.case(f"{w}/{p:x}")
            with ctx.guard("decode", raw=raw):
                x = c(bytes((tag,)) + raw + b"\x55")
                got = x.decode()
                same = (math.isnan(want) and isinstance(got, float) and math.isnan(got)) or struct.pack(fmt, got) == raw
                ctx.check(same and isinstance(got, float), "decode", raw=raw, got=got, want=want)
                ctx.eq(x.encoding, bytes((tag,)) + raw, "octets-kept", raw=raw)
                ctx.eq(c(bytearray(raw)).encoding, x.encoding, "contents", raw=raw)
                ctx.eq(c(x).encoding, x.encoding, "same-type", raw=raw)
                if math.isfinite(want):
                    ctx.eq(c(got).contents, raw, "number-round-trip", raw=raw)
                    ctx.eq(c(str(x)).contents, raw, "text-round-trip", raw=raw, text=str(x))
                    ctx.eq(c(want.hex()).contents, raw, "hex-text", text=want.hex())
                    y = c(1.5)
                    y.set(got)
                    ctx.eq(y.contents, raw, "set", raw=raw)
                elif math.isnan(want):
                    ctx.check(math.isnan(c(got).decode()), "nan-kept", raw=raw)
        # arbitrary numbers round to nearest
        for _ in range(ctx.n(4000, 60000)):
            v = rng.choice((rng.uniform(-1e3, 1e3), rng.uniform(-1, 1) * 10.0 ** rng.randint(-44, 38), float(rng.randint(-1 << 30, 1 << 30)), rng.random()))
            ctx.case(f"{w}/num/{v!r}")
            with ctx.guard("number", value=v):
                want = struct.pack(fmt, v)
                ctx.eq(c(v).contents, want, "number", value=v)
                ctx.eq(c(repr(v)).contents, want, "text", value=v)
        for v in [0, 1, -1, 7, 255, -256, 1 << 20, 10 ** 9] + [rng.randint(-10 ** 9, 10 ** 9) for _ in range(200)]:
            with ctx.guard("integer", value=v):
                ctx.case(f"{w}/int/{v}")
                ctx.eq(c(v).contents, struct.pack(fmt, v), "integer", value=v)
        for v in (math.inf, -math.inf, *((1e39, -1e39, 3.5e38) if w == 4 else ())):
            ctx.case(f"{w}/inf/{v}")
            ctx.rejects(lambda: c(v), "overflow", (ValueError, OverflowError), value=v)
            keep = c(2.5)
            ctx.rejects(lambda: keep.set(v), "overflow-set", (ValueError, OverflowError), value=v)
            ctx.eq(keep.decode(), 2.5, "overflow-kept")
        for bad in ("", "xyz", "1,5", "--1", "1.2.3"):
            ctx.case(f"{w}/bad/{bad}")
            ctx.rejects(lambda: c(bad), "not-a-number", value=bad)
        with ctx.guard("clear"):
            x = c(3.25)
            x.clear()
            ctx.eq(x.contents, bytes(w), "clear")
            ctx.eq(c().contents, bytes(w), "default")
    ctx.require("checked:decode", 3000)
