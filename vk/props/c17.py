"""A damaged HDLC frame is never delivered as another frame."""
from .. import hdlcref as ref
from .c16 import gen_addr

RULE = ("valid frames damaged by 1..3 flipped bits, bursts up to 16 bits, lost/added/swapped/duplicated octets, truncation and garbage; the receiver is pumped until it stops and every delivered frame is judged by an independent parser with its own checksum. "
        "Non-trivial: distinct damaged octet strings.")
MODULES = ("hdlc.frame",)


def pump(Frame, buf):
    out = []
    while True:
        before = len(buf)
        f = Frame.try_from(buf)
        if f is not None:
            out.append(f)
        elif len(buf) == before:
            return out


def run(ctx):
    from src.DLMS_SPODES.hdlc.frame import Address, AddressLength, Control, Frame, NotEnoughDataError, FormatDataError
    rng = ctx.sub("damage")
    for i in range(ctx.n(7000, 100000)):
        da, sa = gen_addr(rng, Address, AddressLength), gen_addr(rng, Address, AddressLength)
        info = rng.randbytes(rng.choice((0, 1, 2, 3, 8, rng.randrange(60), rng.randrange(130))))
        seg = rng.random() < 0.3
        good = ref.frame(bytes(da.content), bytes(sa.content), rng.randrange(256), info, seg)
        bad = bytearray(good)
        how = rng.choice(("bits1", "bits2", "bits3", "burst", "lost", "added", "swap", "dup", "cut", "garbage", "head"))
        inner = range(1, len(good) - 1)
        if how.startswith("bits"):
            for b in rng.sample(range(8, 8 * (len(good) - 1)), int(how[4])):
                bad[b // 8] ^= 1 << (b % 8)
        elif how == "burst":
            w = rng.randrange(2, 17)
            start = rng.randrange(8, max(9, 8 * (len(good) - 1) - w))
            for k in range(w):
                if k in (0, w - 1) or rng.random() < 0.5:
                    if (start + k) // 8 < len(good) - 1:
                        bad[(start + k) // 8] ^= 1 << ((start + k) % 8)
        elif how == "lost":
            del bad[rng.choice(inner)]
        elif how == "added":
            bad.insert(rng.choice(inner), rng.randrange(256))
        elif how == "swap":
            j = rng.choice(inner[:-1])
            bad[j], bad[j + 1] = bad[j + 1], bad[j]
        elif how == "dup":
            j = rng.choice(inner)
            bad.insert(j, bad[j])
        elif how == "cut":
            del bad[rng.choice(inner):]
        elif how == "head":
            bad[rng.choice((1, 2, 2, 2, 3, 4))] = rng.randrange(256)
        else:
            bad = bytearray(b"\x7e" + bytes((0xa0 | rng.randrange(16), rng.randrange(40))) + rng.randbytes(rng.randrange(0, 60)) + b"\x7e")
        bad = bytes(bad)
        if bad == good:
            continue
        ctx.case(bad)
        ctx.count(f"damage:{how}")
        with ctx.guard("receiver", how=how, data=bad):
            got = pump(Frame, bytearray(bad))
            allowed = {}
            for k in range(len(bad)):
                if bad[k] == 0x7e:
                    p = ref.parse(bad[k:])
                    if type(p) is tuple:
                        allowed[bad[k:k + p[5] + 2]] = p
            for f in got:
                p = allowed.get(bytes(f.content))
                if ctx.check(p is not None, "damaged-delivered", "the receiver delivered a frame whose check sequence doesn't match", how=how, sent=good, received=bad, delivered=f.content):
                    ctx.eq((bytes(f.info), int(f.control), f.is_segmentation), (p[3], p[2], p[4]), "delivered-parts", received=bad)
            if how.startswith("bits") or how == "burst":
                # within the guaranteed detection of the FCS nothing at all may come out while the length field is intact
                if bad[1:3] == good[1:3]:
                    ctx.check(not got or all(bytes(f.content) != bad for f in got), "undetected", how=how, sent=good, received=bad)
            ctx.count("delivered", len(got))
        # the strict constructor refuses as well
        try:
            f = Frame(bytearray(bad))
            p = ref.parse(bad)
            ctx.check(type(p) is tuple and bytes(f.content) == bad[:p[5] + 2], "damaged-constructed", how=how, sent=good, received=bad)
        except (ValueError, NotEnoughDataError, FormatDataError):
            ctx.count("refused")
        except Exception as e:
            ctx.fail("receiver-crash", f"{type(e).__name__}: {e}", how=how, data=bad)
    # check sequences of special values, octets which no check sequence covers, other frame formats
    for _ in range(ctx.n(1500, 20000)):
        da, sa = gen_addr(rng, Address, AddressLength), gen_addr(rng, Address, AddressLength)
        info = rng.randbytes(rng.choice((0, 0, 1, 20)))
        good = ref.frame(bytes(da.content), bytes(sa.content), rng.randrange(256), info, rng.random() < 0.3)
        bad = bytearray(good)
        how = rng.choice(("fcs", "hcs", "stray", "stray-end", "format"))
        head = 4 + len(da) + len(sa)
        if how == "fcs" or how == "hcs" and not info:
            bad[-3:-1] = rng.choice((b"\0\0", b"\xff\xff", bytes(bad[-3:-1][::-1]), bytes(c ^ 0xff for c in bad[-3:-1]), b"\xf0\xb8"))
        elif how == "hcs":
            bad[head:head + 2] = rng.choice((b"\0\0", b"\xff\xff", bytes(bad[head:head + 2][::-1]), bytes(c ^ 0xff for c in bad[head:head + 2])))
            bad[-3:-1] = ref.crc(bytes(bad[1:-3]))
        elif how == "format":
            bad[1] = bad[1] & 0x0f | rng.choice([t for t in range(16) if t != 0xa]) << 4
            if info:
                bad[head:head + 2] = ref.crc(bytes(bad[1:head]))
            bad[-3:-1] = ref.crc(bytes(bad[1:-3]))
        else:
            # the length counts octets which the check sequences (right for the header) don't cover
            n = rng.choice((1, 2, 3))
            at = head if how == "stray" else -3
            if info and how == "stray":
                at = head + 2
            size = (int.from_bytes(bad[1:3], "big") & 0x7ff) + n
            bad[1:3] = ((bad[1] << 8 & 0xf800) | size).to_bytes(2, "big")
            hdr = bytes(bad[1:head])
            if info:
                bad[head:head + 2] = ref.crc(hdr)
                bad[-3:-1] = ref.crc(bytes(bad[1:-3]))
            else:
                bad[-3:-1] = ref.crc(hdr)
            bad[at:at] = rng.randbytes(n)
        data = bytes(bad)
        if type(ref.parse(data)) is tuple or data == good:
            continue
        ctx.case(data)
        ctx.count(f"crafted:{how}")
        with ctx.guard("crafted", how=how, data=data):
            got = pump(Frame, bytearray(data))
            ctx.check(all(bytes(f.content) in data and type(ref.parse(bytes(f.content))) is tuple for f in got), "crafted-delivered", how=how, data=data)
            try:
                Frame(bytearray(data))
                ctx.fail("crafted-constructed", "a frame which isn't one was constructed", how=how, data=data)
            except (ValueError, NotEnoughDataError, FormatDataError):
                ctx.count("crafted-refused")
    ctx.require("crafted-refused", 500)
    # every single-bit error of some frames
    for _ in range(ctx.n(25, 250)):
        info = rng.randbytes(rng.choice((0, 1, 20)))
        da, sa = gen_addr(rng, Address, AddressLength), gen_addr(rng, Address, AddressLength)
        good = ref.frame(bytes(da.content), bytes(sa.content), rng.randrange(256), info, rng.random() < 0.5)
        for b in range(8, 8 * (len(good) - 1)):
            bad = bytearray(good)
            bad[b // 8] ^= 1 << (b % 8)
            data = bytes(bad)
            ctx.case(data)
            with ctx.guard("single-bit", data=data):
                got = pump(Frame, bad)
                ctx.check(all(ref.parse(bytes(f.content)) and bytes(f.content) in data for f in got) and all(bytes(f.content) != good for f in got), "single-bit", data=data, sent=good)
                if b >= 24:
                    ctx.check(not got or b"\x7e" in data[1:-1], "single-bit-delivered", data=data, sent=good)
    ctx.require("refused", 2000)
