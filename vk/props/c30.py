"""Class selected for a logical name (independent table)."""
from ..core import show

RULE = ("every code listed in the tables and its neighbours, all group B channels sampled, random codes of all six groups, each with random class ids and versions, under all four specifications, "
        "directly and through collections of each specification. Non-trivial: distinct (specification, code, class, version).")
MODULES = ("cosem_interface_classes.collection",)

VERSIONS = {1: 1, 3: 1, 4: 1, 5: 1, 6: 1, 7: 2, 8: 1, 9: 1, 10: 1, 11: 1, 12: 1, 15: 3, 18: 1, 20: 1, 21: 1, 22: 1, 23: 2, 27: 2, 40: 3, 41: 1, 42: 1, 45: 1, 47: 3, 64: 2, 68: 1, 70: 1, 71: 1, 100: 1}
COMMON = [k for k in VERSIONS if k not in (12, 40)]
R = range
# (groups written "A[.B].C[.D[.E]]" with * listing, classes) ; "Data:x" stands for a special kind of class 1
BLUE = """
CD 0 0 1|Data
CD 0 0 2|Data
CDE 0 0 2 1|Data:ActiveFirmwareId
CD 0 0 9|Data
CD 0 1 0|8
CD 0 1 1-6|Data
CDE 0 2 0 0|27
CDE 0 10 0 0,1,125,100-111|9
CD 0 11 0|11
CD 0 12 0|10
CD 0 13 0|20
CD 0 14 0|6
CDE 0 15 0 0-7|22
CD 0 16 0|21
CDE 0 16 1 0-9|21
CD 0 17 0|71
CDE 0 19 50-59 1,2|Data
CD 0 21 0|Data,7
CDE 0 22 0 0|23
CDE 0 23 2 0|Data
CDE 0 23 3 0-9|Data,7
CDE 0 23 3 10-255|Data
CD 0 24 2|4
CD 0 24 3|7
CDE 0 24 4 0|70
CDE 0 24 5 0|7
CDE 0 25 0 0|41
CDE 0 25 1 0|42
CDE 0 25 4 0|45
CDE 0 25 6 0|47
CDE 0 25 9 0|40
CDE 0 25 10 0|100
BCDE 0 0 40 0 0-7|12,15
BCDE 0 0 42 0 0|Data:LDN
BCDE 0 0 43 0 0-255|64
CD 0 43 1|Data
BCDE 0 0 44 0 0-255|18
CDE 0 96 1 0-10|Data:DLMSDeviceIDObject
CDE 0 96 1 255|7
CD 0 96 2|Data:DataDynamic
CDE 0 96 3 0-3|Data
CDE 0 96 3 10|70
CDE 0 96 3 20-28|68
CDE 0 96 4,5 0|Data,7
CDE 0 96 4,5 1-4|Data
CDE 0 96 6 0-6|Data,3,4
CDE 0 96 7 0-21|Data,3,4
CDE 0 96 8 0-63|Data,3,4
CDE 0 96 9 0-2|3,4
CDE 0 96 10 1-9|Data
CDE 0 96 11 0-99|Data:DataDynamic,3,4
CDE 0 96 12 0-3,5,6|Data,3,4
CDE 0 96 12 4|Data:CommunicationPortParameter
CDE 0 96 13 0,1|Data,3,4
CDE 0 96 14 0-15|Data,3,4
CDE 0 96 15 0-99|Data,3,4
CDE 0 96 16 0-9|Data,3,4
CDE 0 96 17 0-127|Data,3,4
CD 0 96 20|Data,3,4
CDE 0 97 97 0-9|Data
CDE 0 97 97,98 255|7
CDE 0 97 98 0-29|Data
C 0 98|7
CD 0 99 98|7
CDE 1 0 0 0-9|Data
CDE 1 0 0 255|7
CD 1 0 1|Data
CD 1 0 2|Data:DataStatic
CD 1 0 3,4,7-9|Data:DataStatic,3,4
CD 1 0 6,10|3,4
CDE 1 0 11 1-7|Data
CDE 1 96 1 0-9|Data
CDE 1 96 1 255|7
CDE 1 96 5 0-5|Data
CDE 1 96 10 0-3|Data
C 1 98|7
CD 1 99 1,2,11,12,97-99|7
CDE 1 99 3,13,14 0|7
CDE 1 99 10 1-3|7
CD 1 M 1,2,11,12,21,22|3,4
CD 1 M 8-10,17-20,29,30,58|3,4
CD 1 M 46|3,4
CD 1 M 31,35,43,44|3,4
CD 1 M 32,36|3,4
CD 1 M 33,37|3,4
CD 1 M 34,38|3,4
CD 1 M 7,39,41,42|3
CD 1 M 3,6,13,16,26,51-54|3,4,7
CD 1 M 0,4,5,14,15,24,25,27,28,49,50,55,56|3,5
CD 1 M 40|Data,3
"""
SPODES = """
CD 0 21 0|1of7:SPODES3DisplayReadout
CDE 0 96 1 0,2,4,5,8-10|Data:SPODES3IDNotSpecific
CDE 0 96 1 6|Data:SPODES3SPODESVersion
CDE 0 96 2 1-3,5-7,11,12|Data:AnyDateTime
CDE 0 96 3 20|68:SPODES3Arbitrator
CDE 0 96 5 1|Data:SPODES3PowerQuality1Event
CDE 0 96 5 4|Data:SPODES3PowerQuality2Event
BCDE 0 0 96 5 132|Data:Unsigned
CDE 0 96 11 0|Data:SPODES3VoltageEvent
CDE 0 96 11 1|Data:SPODES3CurrentEvent
CDE 0 96 11 2|Data:SPODES3CommutationEvent
CDE 0 96 11 3|Data:SPODES3ProgrammingEvent
CDE 0 96 11 4|Data:SPODES3ExternalEvent
CDE 0 96 11 5|Data:SPODES3CommunicationEvent
CDE 0 96 11 6|Data:SPODES3AccessEvent
CDE 0 96 11 7|Data:SPODES3SelfDiagnosticEvent
CDE 0 96 11 8|Data:SPODES3ReactivePowerEvent
BCDE 0 0 96 51 0|Data:OpeningBody
BCDE 0 0 96 51 5|Data:SealStatus
BCDE 0 0 96 51 1,3,4,6,7|Data:Unsigned
BCDE 0 0 96 51 8,9|Data:OctetStringDateTime
CDE 1 0 8 4,5|Data:SPODES3MeasurementPeriod
CD 1 98 1|1of7:SPODES3MonthProfile
CD 1 98 2|1of7:SPODES3DailyProfile
CD 1 99 1,2|1of7:SPODES3LoadProfile
BCDE 1 0 131 35 0|3
BCDE 1 0 133 35 0|3
BCDE 1 0 147 133 0|3
BCDE 1 0 148 136 0|3
CDE 1 94 7 0|1of7:SPODES3CurrentProfile
CDE 1 94 7 1-6|1of7:SPODES3ScalesProfile
BCDE 128 0 0-19 0 0|3
"""
KPZ = """
BCDE 0 128 96 13 1|Data:ITEBitMap
BCDE 0 128 154 0 0|Data:KPZGSMPingIP
BCDE 0 0 128 100-103,150-152,170 *|Data
"""
KPZ = KPZ.replace("BCDE 0 0 128 100-103,150-152,170 *|Data\n", "CDE 0 0 128 100-103,150-152,170|Data\n")   # manufacturer codes: never searched by C, D, E
KPZ1 = "\n".join(f"CDE 0 96 11 {i}|Data:KPZ1SPODES3{n}Event" for i, n in enumerate(
    ("Voltage", "Current", "Commutation", "Programming", "External", "Communication", "Access", "SelfDiagnostic", "ReactivePower")))
MEASURED = [c for c in R(256) if c not in (0, 93, 94, 96, 97, 98, 99)]


def nums(s):
    if s == "M":
        return MEASURED
    out = []
    for p in s.split(","):
        a, _, b = p.partition("-")
        out += list(R(int(a), int(b or a) + 1))
    return out


def classes(s):
    """{class: {version: special name or None}}"""
    out = {}
    for p in s.split(","):
        name, _, kind = p.partition(":")
        if name == "Data":
            out[1] = {0: kind or None}
        elif name == "1of7":
            out[7] = {1: kind}
        else:
            out[int(name)] = {v: kind or None for v in R(VERSIONS[int(name)])}
    return out


def table(*texts):
    import itertools
    t = {}
    for text in texts:
        for line in text.strip().split("\n"):
            codes, cl = line.split("|")
            kind, *groups = codes.split()
            for combo in itertools.product(*map(nums, groups)):
                t[kind, combo] = classes(cl)
    return t


def pick(t, a, b, c, d, e, f):
    common = {k: {v: None for v in R(VERSIONS[k])} for k in COMMON}
    if 128 <= b <= 199 or 128 <= c <= 199 or c == 240 or 128 <= d <= 254 or 128 <= e <= 254 or 128 <= f <= 254:
        return t.get(("BCDE", (a, b, c, d, e)), common), "manufacturer"
    for kind, key in (("CDE", (a, c, d, e)), ("CD", (a, c, d)), ("BCDE", (a, b, c, d, e)), ("C", (a, c))):
        if (kind, key) in t:
            return t[kind, key], kind
    return common, "common"


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col
    from src.DLMS_SPODES.cosem_interface_classes import implementations as impl
    from src.DLMS_SPODES.version import AppVersion
    rng = ctx.sub("codes")
    tables = {"DLMS_6": table(BLUE), "SPODES_3": table(BLUE, SPODES), "KPZ": table(BLUE, SPODES, KPZ), "KPZ1": table(BLUE, SPODES, KPZ, KPZ1)}
    ids = list(VERSIONS) + [2, 13, 17, 43, 48, 62, 69, 111, 200, 8192]
    special = {n: getattr(m, n) for m in (impl.data, impl.profile_generic, impl.arbitrator) for n in dir(m) if isinstance(getattr(m, n), type)}
    # what the special classes of data accept in attribute 2
    takes = {n: {t} for n, t in [("SealStatus", 0x11), ("OpeningBody", 0x11), ("Unsigned", 0x11), ("SPODES3MeasurementPeriod", 0x11), ("CommunicationPortParameter", 0x11), ("LDN", 9), ("OctetStringDateTime", 9)]}
    takes |= {n: {0x12} for n in special if n.startswith("SPODES3") and n.endswith("Event")}
    takes |= {n: {0x06} for n in special if n.startswith("KPZ1SPODES3") and n.endswith("Event")}
    samples = {0x11: b"\x11\x05", 9: b"\x09\x0c" + bytes.fromhex("07e5010105000000ff800000"), 0x12: b"\x12\x00\x01", 6: b"\x06\x00\x00\x00\x01"}

    def colls():
        out = {}
        for spec, (man, cv, sv) in {"DLMS_6": (None, None, None), "SPODES_3": (None, AppVersion(3, 0), None), "KPZ": (b"KPZ", AppVersion(3, 0), None), "KPZ1": (b"KPZ", AppVersion(3, 0), AppVersion(1, 3, 29))}.items():
            c = col.Collection()
            if man:
                c.set_manufacturer(man)
            if cv:
                c.set_country_ver(cv)
            if sv:
                c.set_server_ver(0, sv)
            c.set_spec()
            out[spec] = c
        return out

    coll = colls()

    def allowed_of(spec, code):
        return pick(tables[spec], *code)[0]

    def one(spec, code, cid, ver, via):
        if cid == 12 or (cid, ver) in ((7, 0), (23, 0), (47, 2), (40, 0), (40, 1)):   # not implemented: no such object is ever made
            if cid in allowed_of(spec, code):
                ctx.count("not implemented")
                ctx.rejects(lambda: coll[spec].add(class_id=ut.CosemClassId(cid), version=cdt.Unsigned(ver), logical_name=cst.LogicalName(bytearray(code))), "version-not-implemented", code=code, class_id=cid, version=ver)
            return
        ctx.case((spec, code, cid, ver))
        allowed, how = pick(tables[spec], *code)
        want = allowed.get(cid, {}).get(ver, "refused")
        ln = cst.LogicalName(bytearray(code))
        w = dict(specification=spec, code=code, class_id=cid, version=ver, found_by=how)
        ctx.count(f"found by {how}")
        if via:
            def get():
                o = coll[spec].add(class_id=ut.CosemClassId(cid), version=cdt.Unsigned(ver), logical_name=ln)
                ctx.check(o.collection is coll[spec] and coll[spec].get(bytes(code)) is o, "added-object", "the new object is not in its collection", **w)
                return type(o)
        else:
            def get():
                return col.get_type(ut.CosemClassId(cid), cdt.Unsigned(ver), ln, col.func_maps[spec])
        if want == "refused":
            ctx.rejects(get, "class-not-allowed", **w)
            return
        with ctx.guard("class", **w):
            t = get()
            ctx.eq((int(t.CLASS_ID), int(t.VERSION)), (cid, ver), "class-and-version", **w)
            ctx.count(f"class {cid}.{ver}")
            if want is not None:
                ctx.count(f"special:{want}")
                ctx.check(t is special[want] or issubclass(t, special[want]), "special-class", f"{want} expected", got=t.__name__, **w)
                if want in takes and rng.random() < 0.2:
                    o = t(ln)
                    o.collection = coll[spec]
                    for tag, enc in samples.items():
                        if want == "LDN":
                            continue
                        if tag in takes[want]:
                            if tag != 9 or want == "OctetStringDateTime":
                                o.set_attr(2, enc)
                                ctx.eq(bytes(o.get_attr(2).encoding), enc, "special-value", **w)
                        else:
                            ctx.rejects(lambda: t(ln).set_attr(2, enc), "special-value-type", tag=tag, **w)
            elif cid == 1:   # nothing special: any type of value
                o = t(ln)
                for enc in (b"\x12\x00\x01", b"\x06\x00\x00\x00\x01"):
                    o = t(ln)
                    o.set_attr(2, enc)
                    ctx.eq(bytes(o.get_attr(2).encoding), enc, "plain-value", **w)

    def any_f(k):
        return rng.choice((255,) * 6 + (0, 100, 127, 128, 254))

    listed = {}
    for spec, t in tables.items():
        for (kind, key), cl in t.items():
            listed.setdefault((kind, key), []).append(spec)
    listed_keys = sorted(listed)

    def code_of(kind, key):
        b = rng.choice((0, 0, 0, 1, 2, 64, 65, 127, 128, 199, 200, 255))
        if kind == "BCDE":
            c = list(key)
        elif kind == "CDE":
            c = [key[0], b, *key[1:]]
        elif kind == "CD":
            c = [key[0], b, *key[1:], rng.choice((0, 0, 1, 5, 63, 127, 128, 254, 255))]
        else:
            c = [key[0], b, key[1], rng.randrange(256), rng.choice((0, 1, 127, 128, 255))]
        return (*c, any_f(0))

    # every listed key of every table: its classes, one class it doesn't allow
    small = [k for k in listed_keys if not (k[0] == "CD" and k[1][0] == 1 and k[1][1] in MEASURED)]
    big = [k for k in listed_keys if k not in set(small)]
    def refused(allowed):
        """a class of the common set that this code does not allow"""
        left = [c for c in COMMON if c not in allowed]
        return rng.choice(left) if left else rng.choice(ids)

    for kind, key in small + [("C", (0, 98)), ("C", (1, 98))] * 10:
        for spec in tables:
            if key[-1] not in (0, 1, 9, 10, 255) and kind == "CDE" and spec != rng.choice(list(tables)):   # the long ranges of E
                continue
            code = (key[0], 0, *key[1:], *((0,) * (3 - len(key[1:]))), 255) if kind != "BCDE" else (*key, 255)   # the plainest code of the key
            for code in (code, code_of(kind, key)):
                allowed, _ = pick(tables[spec], *code)
                for cid in (allowed if len(allowed) < 6 else rng.sample(sorted(allowed), 2)):
                    one(spec, code, cid, rng.choice(sorted(allowed[cid])), rng.random() < 0.1)
                one(spec, code, refused(allowed), 0, rng.random() < 0.1)
            one(spec, code, rng.choice(ids), rng.choice((0, 0, 1, 2, 3)), rng.random() < 0.1)
    for kind, key in rng.sample(big, min(ctx.n(1500, len(big)), len(big))):
        spec = rng.choice(list(tables))
        code = code_of(kind, key)
        allowed, _ = pick(tables[spec], *code)
        for cid in (allowed if len(allowed) < 6 else rng.sample(sorted(allowed), 2)):
            one(spec, code, cid, rng.choice(sorted(allowed[cid])), rng.random() < 0.05)
        one(spec, code, refused(allowed), 0, False)
    # neighbours of listed codes in every group
    for _ in range(ctx.n(6000)):
        kind, key = rng.choice(small if rng.random() < 0.7 else big)
        code = list(code_of(kind, key))
        k = rng.randrange(6)
        code[k] = max(0, min(255, code[k] + rng.choice((-1, 1))))
        spec = rng.choice(list(tables))
        allowed, _ = pick(tables[spec], *code)
        cid = rng.choice(sorted(allowed)) if rng.random() < 0.5 else rng.choice(ids)
        one(spec, tuple(code), cid, rng.choice((0, 0, 0, 1, 2, 3)), rng.random() < 0.1)
    for _ in range(ctx.n(4000)):
        code = (rng.choice((0, 0, 1, 1, 6, 7, 8, 128)), rng.choice((0, 0, 1, 128, 199, 200)), rng.randrange(256), rng.randrange(256), rng.choice((0, 1, 2, 127, 128, 254, 255)), any_f(0))
        spec = rng.choice(list(tables))
        allowed, _ = pick(tables[spec], *code)
        cid = rng.choice(sorted(allowed)) if rng.random() < 0.5 else rng.choice(ids)
        one(spec, code, cid, rng.choice((0, 0, 1, 2, 3)), False)

    # which specification a collection follows
    probe = (0, 0, 96, 11, 0, 255)
    kind_of = {}
    for spec in tables:
        kind_of[spec] = pick(tables[spec], *probe)[0][1][0]
    for _ in range(ctx.n(300)):
        man = rng.choice((None, b"KPZ", b"KPZ", b"ITE", b"KP1"))
        cv = rng.choice((None, AppVersion(3, 0), AppVersion(3, 0), AppVersion(2, 0), AppVersion(3, 1)))
        sv = rng.choice((None, None, AppVersion(1, 3, 29), AppVersion(1, 3, 30), AppVersion(1, 4, 15), AppVersion(1, 2, 99), AppVersion(0, 9, 31), AppVersion(2, 0, 0)))
        inst = rng.choice((0, 0, 0, 1))
        country = rng.choice((7, 7, 7, 7, 44))
        w = dict(manufacturer=man, country_ver=cv, server_ver=sv, instance=inst, country=country)
        ctx.case(("spec", repr(w)))
        with ctx.guard("specification", **w):
            c = col.Collection(country=col.CountrySpecificIdentifiers(country))
            if man:
                c.set_manufacturer(man)
            if cv is not None:
                c.set_country_ver(cv)
            if sv is not None:
                c.set_server_ver(inst, sv)
            c.set_spec()
            want = "DLMS_6"
            if country == 7:
                if cv == AppVersion(3, 0):
                    want = "SPODES_3"
                if man == b"KPZ":
                    want = "KPZ"
                    if sv is not None and inst == 0 and (sv.major, sv.minor, sv.patch) < (1, 3, 30):
                        want = "KPZ1"
            ctx.count(f"specification {want}")
            o = c.add(class_id=ut.CosemClassId(1), version=cdt.Unsigned(0), logical_name=cst.LogicalName(bytearray(probe)))
            t2 = c.add(class_id=ut.CosemClassId(1), version=cdt.Unsigned(0), logical_name=cst.LogicalName(bytearray((0, 128, 96, 13, 1, 255))))
            ctx.check(type(o) is special[kind_of[want]], "specification", f"objects of {want} expected", got=type(o).__name__, **w)
            ctx.eq(type(t2) is special["ITEBitMap"], want in ("KPZ", "KPZ1"), "specification-manufacturer", **w)
    for k in ("found by manufacturer", "found by CDE", "found by CD", "found by C", "found by BCDE", "found by common", "specification KPZ1", "rejected:class-not-allowed"):
        ctx.require(k, 10)
