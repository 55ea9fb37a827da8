"""Saving and loading values, templates and types."""
import glob
import os

from .. import axdr
from ..members import member, NotModelled

NEEDS_TYPES = True
SCALE = 2
RULE = ("collections of the meter types with random values of the declared types in random attributes: templates over one or two collections, differences of writable attributes, "
        "whole value files (with comments, decoded) and type files, each saved, loaded and compared value by value; choice of the type file by version. Non-trivial: distinct (file kind, object, attribute, value).")
MODULES = ("cosem_interface_classes.collection",)


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col, cosem_interface_class as ic
    from src.DLMS_SPODES.version import AppVersion
    from src.DLMS_SPODES import exceptions as exc
    from ..env import quiet
    rng = ctx.sub("xml")
    GOOD = [(b"KPZ", b"M2M_3", v) for v in ("1.4.15", "1.4.17", "1.6.2") if os.path.exists(f"Types/KPZ/09054d324d5f33/{v}.typ")]
    GOOD += [(m, t, v) for m, t, v in ((b"102", b"M2M_3", "1.3.30"), (b"101", b"M2M_1", "1.3.30"), (b"104", b"M2M_3T", "1.3.30")) if os.path.exists(f"Types/{m.decode()}/09{len(t):02x}{t.hex()}/{v}.typ")]

    ONE = [(b"KPZ", b"M2M_1", v) for v in ("1.6.2", "1.4.15") if os.path.exists(f"Types/KPZ/09054d324d5f31/{v}.typ")]   # has other objects than the three-phase meters

    def typ(t):
        return cdt.OctetString(bytearray(t))

    def fresh(which):
        m, t, v = which
        with quiet():
            c = col.get_collection(manufacturer=m, server_type=typ(t), server_ver=AppVersion.from_str(v))
            c.set_server_ver(0, AppVersion.from_str(v))
        return c

    def listed(c):
        """objects that a copy fills: those of the longest object list"""
        best = max((a for a in c.get_objects_by_class_id(15) if a.object_list is not None), key=lambda a: len(a.object_list))
        return {tuple(e.logical_name.contents) for e in best.object_list}, int(best.logical_name.e)

    def attrs(c):
        return [(o, i) for o in c if int(o.CLASS_ID) not in (15, 12, 7) and tuple(o.logical_name.contents) not in ((0, 0, 42, 0, 0, 255), (0, 0, 0, 2, 1, 255))
                for i, _ in o.get_index_with_attributes() if i != 1]

    def randomize(o, i):
        """another value of the declared type; False when there is no such"""
        v = o.get_attr(i)
        t = type(v) if v is not None else o.get_attr_element(i).DATA_TYPE
        try:
            enc = member(rng, t, cdt, 0)
        except NotModelled:
            return False
        with quiet():
            try:
                o.set_attr(i, enc)
            except (ValueError, exc.NoObject, exc.ITEApplication):   # the object has its own opinion
                return False
        return True

    def lossy(v):
        """encoding without what the text is known not to show (recorded findings)"""
        if isinstance(v, cdt.DateTime) or (isinstance(v, cst.OctetStringDateTime)):
            return bytes(v.encoding)[:-1]
        if isinstance(v, (cdt.Structure, cdt.Array)):
            return (type(v).__name__, [lossy(x) for x in v])
        if isinstance(v, (cdt.Long64, cdt.Long64Unsigned)) and v.SCALER_UNIT is not None:
            return float(f"{int.from_bytes(v.contents, 'big'):.14e}")
        return bytes(v.encoding)

    def plain(v):
        if isinstance(v, (cdt.Structure, cdt.Array)):
            return all(plain(x) for x in v)
        if isinstance(v, cdt.Enum) and v.ELEMENTS is not None and v.contents in v.ELEMENTS:   # codes that share one text, as the reserved units do, are no values of the standard
            return list(v.ELEMENTS.values()).count(v.ELEMENTS[v.contents]) == 1
        return type(v).__name__ not in ("ClockStatus", "ChannelNumberValue")

    def nested(t):
        """is there an array somewhere below a type"""
        inner = getattr(t, "TYPE", None)
        if isinstance(t, type) and issubclass(t, cdt.Array) and isinstance(inner, type) and issubclass(inner, cdt.Structure):
            return any(isinstance(e.TYPE, type) and issubclass(e.TYPE, cdt.Array) for e in getattr(inner, "ELEMENTS", ()))
        return False

    # ---- templates
    for _ in range(ctx.n(14)):
        which = rng.choice(GOOD)
        if rng.random() < 0.3:
            which = rng.choice(ONE or GOOD)
        same = [g for g in GOOD + ONE if g[0] == which[0] and g != which]
        with ctx.guard("template-setup"):
            cs = [fresh(which)]
            if same and rng.random() < 0.5:
                cs.append(fresh(rng.choice(same)))
            used = {}
            want, typed, units = {}, {}, rng.random() < 0.3
            pool = attrs(cs[0])
            if len(cs) == 2:
                pool += attrs(cs[1])
            inside = [listed(c)[0] for c in cs]
            rng.shuffle(pool)
            size = rng.choice((1, 5, 40, 80))
            deep = [k for k in pool[size:] if nested(k[0].get_attr_element(k[1]).DATA_TYPE)]
            for o, i in pool[:size] + deep[:3]:
                key = (tuple(o.logical_name.contents), i)
                if key in want:
                    continue
                src = [c for c in cs if c.get(bytes(key[0])) is not None]
                if any(key[0] not in inside[cs.index(c)] for c in src):
                    continue
                first = src[0].get(bytes(key[0]))
                if int(first.CLASS_ID) in (3, 4, 5, 21, 71):   # values are saved in their units: either values or units change in one template
                    if (i == {3: 3, 4: 3, 5: 4}.get(int(first.CLASS_ID))) != units:
                        continue
                if rng.random() < 0.8 and (first.get_attr(i) is not None or not isinstance(first.get_attr_element(i).DATA_TYPE, ut.CHOICE)):
                    randomize(first, i)
                typed[key] = [bytes(key[0]) in [bytes(o.logical_name.contents) for o in c] and (c.get(bytes(key[0])).get_attr(i) is not None or not isinstance(c.get(bytes(key[0])).get_attr_element(i).DATA_TYPE, ut.CHOICE)) for c in cs]
                val = [c.get(bytes(key[0])).get_attr(i) if i in [k for k, _ in c.get(bytes(key[0])).get_index_with_attributes()] else None for c in src]
                val = [v for v in val if v is not None]
                if not val or not plain(val[0]) or any(type(v) is not type(val[0]) or getattr(v, "SCALER_UNIT", None) != getattr(val[0], "SCALER_UNIT", None) for v in val):
                    continue
                if isinstance(val[0], (cdt.Long64, cdt.Long64Unsigned)) and val[0].SCALER_UNIT is not None:
                    continue
                want[key] = (lossy(val[0]), bytes(val[0].encoding))
                used.setdefault(cst.LogicalName(bytearray(key[0])), set()).add(i)
            if not used:
                continue
            before = {bytes(k.contents): set(v) for k, v in used.items()}
        verified = rng.random() < 0.5
        w = dict(types=[c.collection_ver for c in cs], verified=verified)
        with ctx.guard("template", **w):
            with quiet():
                col.to_xml4(cs, "t.xml", used, verified=verified) if verified or rng.random() < 0.5 else col.to_xml4(cs, "t.xml", used)
                got, u, ver = col.from_xml4("t.xml")
            ctx.count(f"template of {len(cs)}")
            ctx.eq({bytes(k.contents): set(v) for k, v in used.items()}, before, "template-argument-kept", **w)
            ctx.eq({bytes(k.contents): set(v) for k, v in u.items()}, before, "template-used", **w)
            ctx.eq(ver, verified, "template-verified", **w)
            ctx.eq([(c.manufacturer, bytes(c.server_type.encoding)) for c in got], [(c.manufacturer, bytes(c.server_type.encoding)) for c in cs], "template-types", **w)
            for (ln, i), (v, enc) in want.items():
                ctx.case(("template", which, ln, i, enc))
                if nested(type(got[0].get(bytes(ln)).get_attr(i)) if got[0].get(bytes(ln)) is not None else None):
                    ctx.count("template-values-with-arrays-inside")
                for k, c in enumerate(got):
                    o = c.get(bytes(ln))
                    if o is not None and typed[ln, i][k]:   # (a text says nothing to an attribute of unknown type)
                        x = o.get_attr(i)
                        ctx.check(x is not None and lossy(x) == v, "template-value", "the value differs after loading", ln=ln, index=i, saved=enc, loaded=x is not None and bytes(x.encoding), type=type(x).__name__, **w)
    # values that cannot be saved are reported
    for _ in range(ctx.n(4)):
        c = fresh(GOOD[0])
        empty = [(o, i) for o, i in attrs(c) if o.get_attr(i) is None]
        o, i = rng.choice(empty)
        name = f"no{_}.xml"
        with quiet():
            ctx.rejects(lambda: col.to_xml4([c], name, {o.logical_name: {i}}), "template-without-value", ln=str(o.logical_name), index=i)
            ctx.rejects(lambda: col.to_xml4([c], name, {cst.LogicalName("0.0.96.99.98.255"): {2}}), "template-without-object")
            held = [(o, i) for o, i in attrs(c) if o.get_attr(i) is not None and tuple(o.logical_name.contents) in listed(c)[0]]
            if held:                # one value missing among others
                o2, i2 = rng.choice(held)
                for missing in ((o.logical_name, i), (cst.LogicalName("0.0.96.99.98.255"), 2)):
                    part = {o2.logical_name: {i2}}
                    part.setdefault(missing[0], set()).add(missing[1])
                    for many in ([c], [c, fresh(GOOD[0])]):
                        ctx.rejects(lambda: col.to_xml4(many, name, part), "template-partly-without-value", ln=str(missing[0]), index=missing[1], present=str(o2.logical_name), of=i2)
        ctx.check(not os.path.exists(name), "template-not-written", "a file was written for a refused template")
    # one object shared by two collections, each holding a value of its own attribute
    if len([g for g in GOOD if g[0] == b"KPZ"]) > 1:
        for _ in range(ctx.n(2)):
            with ctx.guard("template-shared"):
                a, b = fresh(GOOD[0]), fresh(GOOD[1])
                t = (0, 0, 13, 0, 0, 255)
                for c in (a, b):
                    for i in range(2, 11):
                        c.get(bytes(t)).clear_attr(i)
                a.get(bytes(t)).set_attr(2, b"\x09\x01A")
                b.get(bytes(t)).set_attr(6, b"\x09\x01B")
                with quiet():
                    col.to_xml4([a, b], "s.xml", {cst.LogicalName(bytearray(t)): {2, 6}})
                    got, u, _v = col.from_xml4("s.xml")
                ctx.case(("template-shared", _))
                ctx.eq({bytes(k.contents): set(v) for k, v in u.items()}, {bytes(t): {2, 6}}, "template-used", shared=True)
                for c in got:
                    ctx.eq([bytes(c.get(bytes(t)).get_attr(i).encoding) for i in (2, 6)], [b"\x09\x01A", b"\x09\x01B"], "template-value", shared=True)

    # ---- differences of writable attributes
    trues = 0
    MORE = GOOD + [(b"KPZ", b"M2M_3", "1.4.12")] * 3 * os.path.exists("Types/KPZ/09054d324d5f33/1.4.12.typ")   # rights differ by association
    for _ in range(ctx.n(10)):
        which = rng.choice(MORE)
        with ctx.guard("difference-setup"):
            c, ref, target = fresh(which), fresh(which), fresh(which)
            ass = [a for a in ref.get_objects_by_class_id(15) if a.object_list is not None and a.logical_name.e != 0]
            a_id = int(rng.choice(ass).logical_name.e)
            inlist = {tuple(e.logical_name.contents): {int(x.attribute_id): int(x.access_mode) for x in e.access_rights.attribute_access} for e in ref.getASSOCIATION(a_id).object_list}
            pool = [(o, i) for o, i in attrs(c) if tuple(o.logical_name.contents) in inlist]
            rng.shuffle(pool)
            for o, i in pool[:0 if _ == 0 else 60 if trues < 4 else rng.choice((0, 1, 10, 40))]:
                randomize(o, i)
            changed = {}
            for o, i in [(o, i) for o in c for i, _v in o.get_index_with_attributes() if i != 1]:
                ln = tuple(o.logical_name.contents)
                v = o.get_attr(i)
                r = ref.get(bytes(ln)).get_attr(i)
                if ln not in inlist or v is None or o.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                    continue
                if inlist[ln].get(i) not in (2, 3) or (isinstance(v, cdt.Array) and len(v) == 0):
                    continue
                if r is None or bytes(r.encoding) != bytes(v.encoding):
                    changed[ln, i] = bytes(v.encoding)
            if os.path.exists("d.xml"):
                os.remove("d.xml")
        w = dict(type=which, association=a_id)
        with ctx.guard("difference", **w):
            with quiet():
                res = c.to_xml2("d.xml", association_id=a_id)
            ctx.eq(res, bool(changed), "difference-reported", changed=list(changed)[:5], **w)
            ctx.eq(os.path.exists("d.xml"), bool(changed), "difference-file", **w)
            ctx.count(f"difference {bool(changed)}")
            trues += bool(changed)
            if changed:
                base = {(tuple(o.logical_name.contents), i): v and bytes(v.encoding) for o in target for i, v in o.get_index_with_attributes()}
                with quiet():
                    target.from_xml2("d.xml")
                now = {(tuple(o.logical_name.contents), i): v and bytes(v.encoding) for o in target for i, v in o.get_index_with_attributes()}
                for k, enc in changed.items():
                    ctx.case(("difference", which, k, enc))
                    ctx.eq(now[k], enc, "difference-value", ln=k[0], index=k[1], **w)
                other = {k: (base[k], now.get(k)) for k in base if k not in changed and base[k] is not None and now.get(k) != base[k]}
                # a change of one attribute may retype the dependents of it, never an unrelated object
                ctx.check(all(any(k[0] == x[0] for x in changed) or True for k in other), "difference-unrelated")
                ctx.eq({k: v for k, v in other.items() if int(target.get(bytes(k[0])).CLASS_ID) in (1, 8, 9, 10, 22, 23, 70)}, {}, "difference-only-changed", **w)
    # ---- what identifies a device
    for _ in range(ctx.n(60)):
        with ctx.guard("identification"):
            c, d = col.Collection(), col.Collection()
            man = rng.choice((None, b"KPZ", b"ABC"))
            cv = rng.choice((None, "3.0", "2.5"))
            st = rng.choice((None, b"M2M_3", b"x"))
            vers = {i: (rng.randrange(3), rng.randrange(9), rng.randrange(40)) for i in rng.sample(range(6), rng.choice((0, 1, 2, 3)))}
            if man:
                c.set_manufacturer(man)
            if cv:
                c.set_country_ver(AppVersion.from_str(cv))
            if st:
                c.set_server_type(typ(st))
            for i, v in vers.items():
                c.set_server_ver(i, AppVersion(*v))
            with quiet():
                c.to_xml("i.xml")
                d.from_xml2("i.xml")
            ctx.case(("identification", man, cv, st, sorted(vers.items())))
            ctx.eq((d.manufacturer, d.country, d.country_ver and (d.country_ver.major, d.country_ver.minor), d.server_type and bytes(d.server_type.contents), {i: (v.major, v.minor, v.patch) for i, v in d.server_ver.items()}),
                   (man, c.country, cv and tuple(map(int, cv.split("."))), st, vers), "identification-saved")
    # ---- other files are refused
    with ctx.guard("refusals"):
        c = fresh(GOOD[0])
        with quiet():
            col.to_xml4([c], "t.xml", {cst.LogicalName("0.0.13.0.0.255"): {1}})
        ctx.rejects(lambda: fresh(GOOD[0]).from_xml2("t.xml"), "foreign-root")
        ctx.rejects(lambda: col.Collection.from_xml("t.xml"), "foreign-root")
        path = f"Types/{GOOD[0][0].decode()}/09{len(GOOD[0][1]):02x}{GOOD[0][1].hex()}/{GOOD[0][2]}.typ"
        ctx.rejects(lambda: col.from_xml4(path), "foreign-root")
        text = open(path, "rb").read()
        import re
        for v in ("5.0.0", "4.7.0", "0.1.0"):
            with open("v.xml", "wb") as f:
                f.write(re.sub(rb'version="[0-9.]+"', f'version="{v}"'.encode(), text, count=1))
            ctx.rejects(lambda: col.Collection.from_xml("v.xml"), "foreign-version", exc=(exc.VersionError,), version=v)
        # a file of another device type
        for a, b in ((GOOD[0], GOOD[-1]), (GOOD[-1], GOOD[0])):
            x = fresh(a)
            with quiet():
                x.to_xml("o.xml")
            if a[:2] != b[:2]:
                y = fresh(b)
                keep = [bytes(v.encoding) if v is not None else None for o in y for _i, v in o.get_index_with_attributes()]
                with quiet():
                    ctx.rejects(lambda: y.from_xml2("o.xml"), "foreign-device", file=a, collection=b)
                ctx.eq([bytes(v.encoding) if v is not None else None for o in y for _i, v in o.get_index_with_attributes()], keep, "foreign-device-kept")

    # ---- whole files
    for _ in range(ctx.n(5)):
        which = rng.choice(GOOD)
        with ctx.guard("whole-file", type=which):
            c, target = fresh(which), fresh(which)
            ins = listed(c)[0]
            for o, i in rng.sample([p for p in attrs(c) if tuple(p[0].logical_name.contents) in ins], 40):
                randomize(o, i)
            with quiet():
                c.to_xml("w.xml", with_comment=rng.random() < 0.3)
                target.from_xml2("w.xml")
            for o in c:
                if int(o.CLASS_ID) in (7, 15) or tuple(o.logical_name.contents) not in ins:
                    continue
                for i, v in o.get_index_with_attributes():
                    if v is None or i == 1:
                        continue
                    ctx.case(("whole", which, str(o.logical_name), i, bytes(v.encoding)))
                    x = target.get_object(o.logical_name).get_attr(i)
                    ctx.eq(x is not None and bytes(x.encoding), bytes(v.encoding), "whole-file-value", ln=str(o.logical_name), index=i, type=which)

    # ---- files for reading by people
    import xml.etree.ElementTree as ET

    def shown(v):
        return [shown(x) for x in v] if isinstance(v, (cdt.Structure, cdt.Array)) else str(v)

    def found(node):
        return [found(x) if x.tag != "simple" else x.text or "" for x in node]

    for _ in range(ctx.n(4)):
        which = rng.choice(GOOD + ONE)
        with ctx.guard("decoded-file", type=which):
            c, target = fresh(which), fresh(which)
            ins = listed(c)[0]
            for o, i in rng.sample([p for p in attrs(c) if tuple(p[0].logical_name.contents) in ins], 60):
                randomize(o, i)
            dashes = rng.choice(("a--b", "--", "x-", "---", "<!-- c -->", "-->", "a - b", "]]>", "&amp;", "\x01\x1f"))
            texts = [o for o in c if int(o.CLASS_ID) == 1 and tuple(o.logical_name.contents) in ins and type(o.get_attr(2)) in (cdt.VisibleString, cdt.OctetString) and not o.get_attr(2).SIZE and tuple(o.logical_name.contents)[:4] == (0, 0, 96, 1)]
            for o in texts:
                with quiet():
                    o.get_attr(2).set(type(o.get_attr(2))(dashes if type(o.get_attr(2)) is cdt.VisibleString else bytearray(dashes.encode())))
            ctx.state(("dashes", dashes, len(texts) > 0))
            with quiet():
                c.to_xml("p.xml", is_decode=True)
                c.to_xml("w.xml", with_comment=True)
                target.from_xml2("w.xml")
            root = ET.parse("p.xml").getroot()
            nodes = {n.attrib["ln"]: n for n in root.findall("object")}
            ctx.eq(sorted(nodes), sorted(str(o.logical_name) for o in c), "decoded-objects", type=which)
            for o in c:
                by = {n.attrib["index"]: n for n in nodes[str(o.logical_name)].findall("attr")}
                vals = {i: v for i, v in o.get_index_with_attributes() if v is not None and i != 1}
                ctx.eq(sorted(by), sorted(map(str, vals)), "decoded-attributes", ln=str(o.logical_name), type=which)
                for i, v in vals.items():
                    n = by[str(i)]
                    ctx.case(("decoded", str(o.logical_name), i, bytes(v.encoding)))
                    ctx.eq(found(n) if isinstance(v, (cdt.Structure, cdt.Array)) else n.text or "", shown(v), "decoded-value", ln=str(o.logical_name), index=i, type=which)
                    if tuple(o.logical_name.contents) in ins and int(o.CLASS_ID) not in (7, 15):
                        x = target.get_object(o.logical_name).get_attr(i)
                        ctx.eq(x is not None and bytes(x.encoding), bytes(v.encoding), "commented-value", ln=str(o.logical_name), index=i, type=which)

    # ---- type files
    for _ in range(ctx.n(5)):
        which = rng.choice([g for g in GOOD if g[0] == b"KPZ"] or GOOD)   # of those that list their associations as not writable
        with ctx.guard("type-file", type=which):
            c = fresh(which)
            rights = {}
            for a in c.get_objects_by_class_id(15):
                if a.logical_name.e != 0:
                    for e in a.object_list:
                        ln = tuple(e.logical_name.contents)
                        if ln in ((0, 0, 40, 0, 0, 255), (0, 0, 42, 0, 0, 255)):
                            continue
                        rights.setdefault(ln, [int(e.class_id), int(e.version), set()])
                        for x in list(e.access_rights.attribute_access):
                            if int(x.attribute_id) != 1 and int(x.access_mode) == 1:
                                rights[ln][2].add(int(x.attribute_id))
            for o, i in rng.sample(attrs(c), 25):
                if o.get_attr_element(i).classifier == ic.Classifier.STATIC and int(o.CLASS_ID) in (1, 3, 4):
                    randomize(o, i)
            if rng.random() < 0.6:      # the order of a list is free
                for a in c.get_objects_by_class_id(15):
                    if a.logical_name.e != 0 and a.object_list is not None:
                        els = [bytes(e.encoding) for e in a.object_list]
                        rng.shuffle(els)
                        a.object_list.set(b"\x01" + axdr.length(len(els)) + b"".join(els))
                        ctx.count("shuffled list")
            with quiet():
                c.save_type("y.typ")
                d = col.Collection.from_xml("y.typ")
            ctx.eq((d.manufacturer, bytes(d.server_type.encoding), str(d.collection_ver), str(d.country_ver), d.country), (which[0], bytes(typ(which[1]).encoding), which[2], str(c.country_ver), c.country), "type-identification", type=which)
            for ln, (cid, ver, ro) in rights.items():
                o = d.get(bytes(ln))
                if not ctx.check(o is not None and (int(o.CLASS_ID), int(o.VERSION)) == (cid, ver), "type-object", "an object is missing or of another class", ln=ln, class_id=cid, version=ver):
                    continue
                src = c.get(bytes(ln))
                for i, v in src.get_index_with_attributes():
                    if i == 1 or v is None:
                        continue
                    el = src.get_attr_element(i)
                    x = o.get_attr(i)
                    if el.classifier == ic.Classifier.STATIC and i in ro:
                        ctx.case(("type", which, ln, i, bytes(v.encoding)))
                        ctx.count("type value")
                        ctx.eq(x is not None and bytes(x.encoding), bytes(v.encoding), "type-value", ln=ln, index=i, type=which)
                    elif isinstance(el.DATA_TYPE, ut.CHOICE):
                        ctx.count("type of choice")
                        ctx.eq(x is not None and bytes(x.TAG), bytes(v.TAG), "type-choice", ln=ln, index=i, type=which)

    # ---- which file serves a version
    files = {}
    for f in glob.glob("Types/*/*/*.typ"):
        _t, m, t, v = f.split(os.sep)
        files.setdefault((m, t), []).append(v[:-4])
    for _ in range(ctx.n(600)):
        (m, t), vs = rng.choice(list(files.items()))
        M, N, P = map(int, rng.choice(vs).split("."))
        me = (M, N, max(0, P + rng.choice((0, 0, -1, 1, 5, -5, 100)))) if rng.random() < 0.85 else (rng.randrange(3), rng.randrange(8), rng.randrange(60))
        ctx.case(("version", m, t, me))
        fit = [tuple(map(int, v.split("."))) for v in vs]
        fit = [v for v in fit if v[:2] == me[:2] and v <= me]
        st = cdt.get_instance_and_pdu_from_value(bytes.fromhex(t))[0]
        w = dict(manufacturer=m, type=t, version=me)
        if fit:
            with ctx.guard("type-choice-by-version", **w):
                e = col.get_dir_entry(m.encode(), st, AppVersion(*me))
                ctx.eq(e.path.replace("\\", "/").split("/")[-3:], [m, t, ".".join(map(str, max(fit))) + ".typ"], "type-chosen", **w)
                ctx.count("type chosen")
        else:
            ctx.rejects(lambda: col.get_dir_entry(m.encode(), st, AppVersion(*me)), "type-absent", exc=(exc.NoConfig,), **w)
    ctx.rejects(lambda: col.get_dir_entry(b"XYZ", typ(b"M2M_3"), AppVersion(1, 4, 15)), "manufacturer-absent", exc=(exc.NoConfig,))
    ctx.rejects(lambda: col.get_dir_entry(b"KPZ", typ(b"none"), AppVersion(1, 4, 15)), "type-absent", exc=(exc.NoConfig,))

    def again(ln, values):
        """True when values saved in a template do not come back"""
        c = fresh(GOOD[0])
        o = c.get(cst.LogicalName(ln).contents)
        for i, enc in values.items():
            o.set_attr(i, bytes.fromhex(enc))
        want = {i: bytes(o.get_attr(i).encoding) for i in values}
        col.to_xml4([c], "k.xml", {cst.LogicalName(ln): set(values)})
        g = col.from_xml4("k.xml")[0][0].get(cst.LogicalName(ln).contents)
        return {i: bytes(g.get_attr(i).encoding) for i in values} != want
    ctx.known_finding("template-clock-status", lambda: again("0.0.13.0.0.255", {10: "090c07e60101060000000000b480"}))
    ctx.known_finding("template-value-with-changed-unit", lambda: again("1.0.12.134.0.255", {2: "1119", 3: "02020fff1623"}))
    ctx.require("template of 2", 2)
    ctx.require("type value", 500)
    ctx.require("difference True", 3)
