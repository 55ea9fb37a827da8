"""Logical names and what their codes mean."""
from vk import obisref

RULE = ("six-octet names: borders of every group of the OBIS tables +-1, random codes; texts with missing, empty, extra, negative, too big and non-numeric parts; other forms (octets, contents, other instance). Non-trivial: distinct names and texts.")
MODULES = ("cosem_interface_classes.collection",)


def run(ctx):
    from src.DLMS_SPODES.types import cst, cdt, ut
    from src.DLMS_SPODES.types import cosemObjectInstanceId as coi
    from src.DLMS_SPODES.cosem_interface_classes import collection as C
    from src.DLMS_SPODES.obis import media_id as mid
    rng = ctx.sub("names")
    LN = cst.LogicalName
    pool = []
    for i in range(ctx.n(6000, 120000)):
        o = obisref.rand_code(rng)
        ctx.case(bytes(o))
        with ctx.guard("name", o=o):
            raw = bytes(o)
            ln = LN(bytearray(raw))
            text = ".".join(map(str, o))
            ctx.eq(str(ln), text, "text", o=o)
            ctx.eq((ln.a, ln.b, ln.c, ln.d, ln.e, ln.f), tuple(o), "groups", o=o)
            ctx.eq(ln.encoding, b"\x09\x06" + raw, "encoding", o=o)
            for how, other in (("text", LN(text)), ("encoding", LN(b"\x09\x06" + raw)), ("copy", ln.copy()), ("instance", LN(ln))):
                ctx.check(other == ln and hash(other) == hash(ln) and other.encoding == ln.encoding, f"same-from-{how}", o=o)
            match ln:
                case LN(a, b, c, d, e, f):
                    ctx.eq((a, b, c, d, e, f), tuple(o), "match-args", o=o)
                case _:
                    ctx.fail("match-args", "no match", o=o)
            if pool:
                p = rng.choice(pool)
                if rng.random() < 0.3:
                    p = list(o)
                    p[rng.randrange(6)] = rng.randrange(256)
                q = LN(bytearray(p))
                ctx.eq(ln < q, o < p, "order", o=o, p=p)
                ctx.eq(ln == q, o == p, "equality", o=o, p=p)
                ctx.eq(len({ln: 1, q: 2}), 1 if o == p else 2, "dict-key", o=o, p=p)
                q.set(text)                      # renamed: everything follows the new name
                ctx.eq((hash(q) == hash(ln), q == ln, str(q), (q.a, q.b, q.c, q.d, q.e, q.f), q < ln, len({q: 1, ln: 2})), (True, True, text, tuple(o), False, 1), "renamed", o=o, p=p)
            pool = (pool + [o])[-50:]
            # every object that names an instance leads to the same octets
            inst = coi.CosemObjectInstanceId(raw)
            for how, v in (("octets", raw), ("name", ln), ("text", text), ("instance-id", inst),
                           ("attribute-descriptor", ut.CosemAttributeDescriptor(ut.CosemClassId(8), inst, ut.CosemObjectAttributeId(rng.randrange(1, 100)))),
                           ("method-descriptor", ut.CosemMethodDescriptor(ut.CosemClassId(8), inst, ut.CosemObjectMethodId(rng.randrange(1, 100))))):
                ctx.eq(C.get_ln_contents(v), raw, f"ln-of-{how}", o=o)
            m = C.get_media_id(ln)
            want = {0: mid.Abstract, 1: mid.Electricity, 4: mid.Hca, 5: mid.Thermal, 6: mid.Thermal, 7: mid.Gas, 8: mid.Water, 9: mid.Water, 15: mid.Other}.get(o[0], mid.Reserved)
            ctx.check(type(m) is want, "medium", o=o, got=type(m).__name__)
            ctx.check(m == o[0], "medium-number", o=o)
            ctx.check(all((m == x) == (obisref.MEDIUM.get(o[0], o[0] if o[0] != x else x) == obisref.MEDIUM.get(x, x)) for x in range(256)), "medium-numbers", o=o)
            if not obisref.skip(o):
                name = obisref.group(o)
                want = getattr(mid, name)
                g = C.get_relation_group(ln)
                ctx.check(type(g) is type(want), "relation-group", f"got {type(g).__name__}, expected {name}", o=o)
                ctx.check(o[0] not in obisref.MEDIUM or g == o[0] and not any(g == x for x in (0, 1, 4, 5, 7, 8, 15, 77) if obisref.MEDIUM.get(o[0], o[0]) != obisref.MEDIUM.get(x, x)), "group-of-medium", o=o, group=name)
                ctx.count(f"group:{name}")
    rng = ctx.sub("borders")
    for _ in range(ctx.n(3)):
        for o in obisref.borders(rng):
            if obisref.skip(o):
                continue
            name = obisref.group(o)
            ctx.case(("border", *o))
            g = C.get_relation_group(LN(bytearray(o)))
            ctx.check(type(g) is type(getattr(mid, name)), "relation-group", f"got {type(g).__name__}, expected {name}", o=o)
    ctx.require("group:OTHER_MEDIA", 20)
    seen = {k for k in ctx.counters if k.startswith("group:")}
    ctx.count("groups seen", len(seen))
    ctx.require("groups seen", 90)
    # groups are distinct as keys although all groups of one medium equal its number
    groups = {obisref.ROWS[m][i][4] for m in obisref.ROWS for i in range(len(obisref.ROWS[m]))}
    subs = {getattr(mid, g).subgroup for g in groups} | {getattr(mid, m).subgroup for m in obisref.ROWS}
    ctx.eq(len(subs), len(groups) + len(obisref.ROWS), "subgroups-distinct")
    rng = ctx.sub("texts")
    for i in range(ctx.n(5000, 60000)):
        parts = [rng.choice(("0", "1", "255", "256", "", "-1", "a", "300", "1000", str(rng.randrange(256)), str(rng.randrange(256)), str(rng.randrange(256)))) for _ in range(rng.choice((6, 6, 6, 5, 4, 1, 7)))]
        if rng.random() < 0.5:
            parts = [str(rng.randrange(256)) if p in ("a", "256", "-1", "300", "1000") else p for p in parts]
        text = ".".join(parts)
        ctx.case(text)
        want = []
        for j in range(6):
            p = parts[j] if j < len(parts) else ""
            if p == "":
                want.append(255 if j == 5 else 0)
            else:
                want.append(int(p) if p.isdigit() and int(p) < 256 else None)
        if None in want or len(parts) > 6:
            ctx.rejects(lambda: LN(text), "bad-text", text=text)
        else:
            ctx.count("good texts")
            with ctx.guard("text", text=text):
                ctx.eq(LN(text).contents, bytes(want), "from-text", text=text)
            if len(parts) == 6:
                end = rng.choice((" x", " 1", " .", " 0.0", "x", "..", " -"))
                ctx.rejects(lambda: LN(text + end), "text-goes-on", text=text + end)
    ctx.require("good texts", 500)
    for n in (0, 1, 5, 7, 12):
        ctx.rejects(lambda: LN(bytearray(n)), "size", n=n)
        ctx.rejects(lambda: LN(bytes((9, n)) + bytes(n)), "size-encoding", n=n)
    for bad in (None, 1, 1.5, ("0.0.1.0.0.255",), cdt.Unsigned(1)):
        ctx.rejects(lambda: C.get_ln_contents(bad), "not-a-name", exc=(ValueError, AttributeError, TypeError), bad=bad)
