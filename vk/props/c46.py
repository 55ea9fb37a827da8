"""Reading of the older kinds of files and of files with damaged entries."""
import glob
import os
import xml.etree.ElementTree as ET

from .. import axdr
from ..members import member, NotModelled

NEEDS_TYPES = True
SCALE = 2
RULE = ("documents of every supported older version written by the harness from random values of the declared types: whole devices that create their objects, values for an existing collection, "
        "templates with raw or readable values; with damaged, foreign and missing entries between good ones, in every order; readable output of the library. "
        "Non-trivial: distinct (kind, version, object, attribute, value).")
MODULES = ("cosem_interface_classes.collection",)


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col
    from src.DLMS_SPODES.version import AppVersion
    from src.DLMS_SPODES import exceptions as exc
    from ..env import quiet
    rng = ctx.sub("old")
    GOOD = [("KPZ", b"M2M_3", v) for v in ("1.4.15", "1.4.17", "1.6.2") if os.path.exists(f"Types/KPZ/09054d324d5f33/{v}.typ")]
    GOOD += [(m, t, v) for m, t, v in (("102", b"M2M_3", "1.3.30"), ("101", b"M2M_1", "1.3.30"), ("104", b"M2M_3T", "1.3.30")) if os.path.exists(f"Types/{m}/09{len(t):02x}{t.hex()}/{v}.typ")]

    KEPT = {}

    def model(which):
        """one never changed collection of each type"""
        if which not in KEPT:
            KEPT[which] = fresh(which)
        return KEPT[which]

    def fresh(which):
        m, t, v = which
        with quiet():
            return col.get_collection(manufacturer=m.encode(), server_type=cdt.OctetString(bytearray(t)), server_ver=AppVersion.from_str(v))

    def lnt(o):
        return tuple(o.logical_name.contents)

    def lns(ln):
        return ".".join(map(str, ln))

    def enc(v):
        return None if v is None else bytes(v.encoding)

    PLAIN = (1, 3, 4, 8, 9, 11, 19, 20, 22, 23, 27, 28, 41, 42, 68, 70, 111)

    def pool(c):
        out = []
        for o in c:
            if int(o.CLASS_ID) in PLAIN and lnt(o) not in ((0, 0, 42, 0, 0, 255), (0, 0, 0, 2, 1, 255)):
                out += [(o, i) for i, _ in o.get_index_with_attributes() if i != 1]
        rng.shuffle(out)
        return out

    SC = {}

    def good(o, i):
        """encoding of a value this attribute of a fresh object accepts; None when not modelled"""
        t = o.get_attr_element(i).DATA_TYPE
        cur = o.get_attr(i)
        if isinstance(t, ut.CHOICE):
            if cur is None:
                els = [e for e in t.ELEMENTS.values() if isinstance(e, ut.SequenceElement)]
                els = [e for e in els if isinstance(e.TYPE, type) and issubclass(e.TYPE, cdt.SimpleDataType)]
                if not els:
                    return None
                t = rng.choice(els).TYPE
            else:
                t = type(cur)
        try:
            e = member(rng, t, cdt, 0)
        except NotModelled:
            return None
        key = (type(o), i, e)
        if key not in SC:     # the object may have its own opinion about single values
            with quiet():
                try:
                    x = type(o)(o.logical_name)
                    x.collection = o.collection
                    x.set_attr(i, e)
                    SC[key] = enc(x.get_attr(i)) == e
                except Exception:
                    SC[key] = False
        return e if SC[key] and len(e.hex()) > 2 else None

    def fresh_value(o, i, e):
        """value of these octets in a fresh object"""
        try:
            x = type(o)(o.logical_name)
            x.collection = o.collection
            x.set_attr(i, e)
            return x.get_attr(i)
        except Exception:
            return None

    def device(version, which, root="Objects", **kw):
        m, t, v = which
        r = ET.Element(root, attrib=dict(version=version, **kw))
        ET.SubElement(r, "dlms_ver").text = "6"
        ET.SubElement(r, "country").text = "7"
        ET.SubElement(r, "country_ver").text = "3.0"
        ET.SubElement(r, "manufacturer").text = m
        ET.SubElement(r, "server_type").text = f"09{len(t):02x}{t.hex()}"
        ET.SubElement(r, "server_ver", attrib={"instance": "0"}).text = v
        return r

    def save(root, name):
        ET.ElementTree(root).write(name, encoding=rng.choice(("utf-8", "cp1251")), xml_declaration=True)

    def damage():
        """an attribute entry that must be skipped alone: (index or None for a wrong one, text)"""
        return rng.choice(("zz", "09", "0905010203", "123", None, "  ", "fe00", "0203120001", "10zz", "1", "99"))

    def foreign(t):
        """octets of a type that is no alternative"""
        return rng.choice([x for x in ("fe000000", "02021105110511", "0101110511", "190000") if int(x[:2], 16) not in t.ELEMENTS])

    def damaged_index():
        return rng.choice(("77", "200"))

    def snapshot(c):
        return {(lnt(o), i): enc(v) for o in c for i, v in o.get_index_with_attributes()}

    # ---- values for an existing collection (2.x, 3.x, 4.0)
    for k in range(ctx.n(24)):
        which = rng.choice(GOOD)
        version = rng.choice(("2.0.0", "2.1.0", "2.2.0", "3.1.0", "3.2.0", "4.0.0", "2.2", "3.1", "4.0", "4.0.7"))
        w = dict(version=version, type=which)
        with ctx.guard("values-setup", **w):
            c = fresh(which)
            base = snapshot(c)
            r = device(version, which)
            want, touched, objs = {}, set(), {}
            for o, i in pool(c)[:rng.choice((1, 12, 80))]:
                ln = lnt(o)
                node = objs.get(ln)
                if node is None:
                    node = objs[ln] = ET.SubElement(r, "object", attrib={"ln": lns(ln), "name": "имя"})
                    if version[0] == "2":
                        ET.SubElement(node, "class_id").text = str(int(o.CLASS_ID))
                        if rng.random() < 0.8:
                            ET.SubElement(node, "version").text = str(int(o.VERSION))
                tag = rng.choice(("attr", "attribute")) if version[0] == "4" else "attribute"
                e = good(o, i)
                if rng.random() < 0.15:       # an entry of an attribute that the class has not
                    ET.SubElement(node, tag, attrib={"index": damaged_index()}).text = "1105"
                    ctx.count("foreign attribute")
                if e is None:
                    if rng.random() < 0.3:
                        ET.SubElement(node, tag, attrib={"index": str(i)}).text = damage()
                        touched.add((ln, i))
                    continue
                x = ET.SubElement(node, tag, attrib={"index": str(i)})
                if rng.random() < 0.15:
                    x.text = damage()
                    t = o.get_attr_element(i).DATA_TYPE
                    if isinstance(t, ut.CHOICE) and o.get_attr(i) is None:
                        x.text = foreign(t)
                        ctx.count("value of a foreign type")
                    touched.add((ln, i))
                    ctx.count("damaged attribute")
                else:
                    x.text = e.hex() if rng.random() < 0.8 else e.hex().upper()
                    want[ln, i] = e
            if version[0] == "3" and rng.random() < 0.5:     # unknown objects are skipped
                node = ET.Element("object", attrib={"ln": "0.0.96.99.98.255"})
                ET.SubElement(node, "attribute", attrib={"index": "2"}).text = "1105"
                r.insert(6, node)
                ctx.count("unknown object")
            save(r, "v.xml")
        with ctx.guard("values-read", **w):
            with quiet():
                c.from_xml2("v.xml")
        now = snapshot(c)
        ctx.count("values " + version[0])
        for (ln, i), e in want.items():
            ctx.case(("values", version, ln, i, e))
            ctx.eq(now.get((ln, i)), e, "value-read", ln=ln, index=i, **w)
        mine = {ln for ln, _ in want} | {ln for ln, _ in touched}
        diff = {k: (base[k], now.get(k)) for k in base if k not in want and k not in touched and now.get(k) != base[k] and k[0] not in mine}
        ctx.eq(diff, {}, "other-objects-kept", **w)
        ctx.eq(set(now) - set(base), set(), "no-new-objects", **w)
        if version[0] == "4":                     # unknown objects refuse the file
            node = ET.Element("object", attrib={"ln": "0.0.96.99.98.255"})
            ET.SubElement(node, "attr", attrib={"index": "2"}).text = "1105"
            r.insert(rng.randrange(6, len(r) + 1), node)
            save(r, "v.xml")
            with quiet():
                ctx.rejects(lambda: c.from_xml2("v.xml"), "unknown-object-refused", **w)
    for version in ("1.0.0", "2.3.0", "3.0.0", "3.3.0", "4.1.0", "5.0.0", "0.0.0"):
        save(device(version, GOOD[0]), "v.xml")
        with quiet():
            ctx.rejects(lambda: model(GOOD[0]).from_xml2("v.xml"), "values-foreign-version", exc=(exc.VersionError,), version=version)
    for version in ("2.2.0", "3.2.0", "4.0.0"):
        a = fresh(GOOD[0])
        for tag, text in (("dlms_ver", "5"), ("country", "8"), ("country_ver", "2.0"), ("manufacturer", "KPW"), ("server_type", "09024142")):
            r = device(version, GOOD[0])
            r.find(tag).text = text
            save(r, "v.xml")
            with quiet():
                ctx.rejects(lambda: a.from_xml2("v.xml"), "values-of-another-device", version=version, tag=tag)
        r = device(version, GOOD[0], root="objects")
        save(r, "v.xml")
        ctx.rejects(lambda: a.from_xml2("v.xml"), "values-foreign-root", version=version)
        r = device(version, GOOD[0])
        o = ET.SubElement(r, "object", attrib={"ln": "0.0.1.0.0.255"})
        ET.SubElement(o, "class_id").text = "8"
        ET.SubElement(o, "attribute", attrib={"index": "x2"}).text = "1105"
        save(r, "v.xml")
        with quiet():
            ctx.rejects(lambda: a.from_xml2("v.xml"), "values-index-not-a-number", version=version)
    # objects that are missing are created by the files that carry classes
    for k in range(ctx.n(8)):
        which = rng.choice(GOOD)
        version = rng.choice(("2.0.0", "2.1.0", "2.2.0"))
        with ctx.guard("values-create", version=version, type=which):
            c = fresh(which)
            objs = [o for o in c if int(o.CLASS_ID) in (1, 8, 9, 70) or int(o.CLASS_ID) == 3 and 0 < lnt(o)[2] < 90]
            src = rng.choice(objs)
            ln = (0, 0, 96, 77, rng.randrange(50), 255) if int(src.CLASS_ID) == 1 else (1, rng.randrange(1, 60), *lnt(src)[2:5], 255) if int(src.CLASS_ID) == 3 else (0, rng.randrange(1, 60), *lnt(src)[2:5], 255)
            if c.get(bytes(ln)) is not None:
                continue
            r = device(version, which)
            node = ET.SubElement(r, "object", attrib={"ln": lns(ln), "name": "x"})
            ET.SubElement(node, "class_id").text = str(int(src.CLASS_ID))
            explicit = rng.random() < 0.5
            if explicit:
                ET.SubElement(node, "version").text = str(int(src.VERSION))
            lost = ET.SubElement(r, "object", attrib={"ln": "0.0.96.99.98.255", "name": "x"})     # no class: skipped
            save(r, "v.xml")
            n = len(c)
            with quiet():
                c.from_xml2("v.xml")
            o = c.get(bytes(ln))
            ctx.case(("create", version, ln))
            ctx.eq(o is not None and (int(o.CLASS_ID), int(o.VERSION)), (int(src.CLASS_ID), int(c.find_version(src.CLASS_ID)) if not explicit else int(src.VERSION)), "missing-object-created", ln=ln, version=version)
            ctx.eq(len(c), n + 1, "one-object-created", version=version)

    # ---- whole devices that create their objects (3.x)
    for k in range(ctx.n(25)):
        which = rng.choice(GOOD)
        version = rng.choice(("3.0.0", "3.1.0", "3.2.0", "3.0", "3.2.9"))
        w = dict(version=version, type=which)
        with ctx.guard("device-setup", **w):
            c = model(which)
            r = device(version, which)
            chosen = [o for o in c if int(o.CLASS_ID) in PLAIN and lnt(o) != (0, 0, 42, 0, 0, 255)]
            chosen = rng.sample(chosen, rng.choice((1, 12, 60)))
            want, kinds, times, forced, later = {}, {}, {}, {}, []
            for o in chosen:
                ln = lnt(o)
                node = ET.SubElement(r, "object", attrib={"ln": lns(ln), "name": "имя"})
                ET.SubElement(node, "class_id").text = str(int(o.CLASS_ID))
                ET.SubElement(node, "version").text = str(int(o.VERSION))
                kinds[ln] = (int(o.CLASS_ID), int(o.VERSION))
                blank = type(o)(o.logical_name)
                for i, _ in blank.get_index_with_attributes():
                    if i == 1:
                        continue
                    dice = rng.random()
                    t = blank.get_attr_element(i).DATA_TYPE
                    if dice < 0.35:
                        continue
                    if dice < 0.45:
                        ET.SubElement(node, "attribute", attrib={"index": str(i)}).text = rng.choice(("zz", "0203120001", "10zz", None))
                        want[ln, i] = enc(blank.get_attr(i))
                        ctx.count("damaged attribute of a device")
                        continue
                    if dice < 0.6 and isinstance(t, ut.CHOICE):
                        tag = rng.choice(list(t.ELEMENTS))
                        if isinstance(t.ELEMENTS[tag], dict) or tag in (1, 2, 19):
                            continue
                        ET.SubElement(node, "attribute", attrib={"index": str(i)}).text = str(tag)
                        want[ln, i] = enc(t.ELEMENTS[tag].TYPE())
                        ctx.count("kind only")
                        continue
                    if dice < 0.65 and isinstance(t, ut.CHOICE):
                        tags = [x for x in (1, 3, 4, 6, 9, 10, 16, 17, 18, 20, 22, 25) if x not in t.ELEMENTS]
                        if tags:
                            tag = rng.choice(tags)
                            f = rng.random() < 0.6
                            ET.SubElement(node, "attribute", attrib=dict({"index": str(i)}, **({"forced": "1"} if f else {}))).text = str(tag)
                            if f and tag not in (1,):
                                forced[ln, i] = tag
                            elif not f:
                                want[ln, i] = None
                            continue
                    if dice < 0.75 and isinstance(t, type) and blank.get_attr(i) is None:
                        ET.SubElement(node, "attribute", attrib={"index": str(i)}).text = str(t.TAG[0])   # type only
                        want[ln, i] = None
                        continue
                    e = good(blank, i)
                    if e is None:
                        continue
                    x = ET.SubElement(node, "attribute", attrib={"index": str(i)})
                    x.text = e.hex()
                    if rng.random() < 0.2:
                        d = b"\x07\xe8" + bytes((rng.randrange(1, 13), rng.randrange(1, 28), 255, rng.randrange(24), rng.randrange(60), rng.randrange(60), 0, 0x80, 0, 0))
                        x.set("record_time", (b"\x19" + d).hex())
                        times[ln, i] = d
                    want[ln, i] = e
            if rng.random() < 0.4:
                ET.SubElement(r, "object", attrib={"ln": "0.0.96.99.98.255", "name": "no class"})
            if rng.random() < 0.4:
                node = ET.SubElement(r, "object", attrib={"ln": "0.0.96.99.97.255", "name": "unknown class"})
                ET.SubElement(node, "class_id").text = "64999"
                ET.SubElement(node, "version").text = "0"
            body = list(r)[6:]
            for n in body:
                r.remove(n)
            rng.shuffle(body)
            r.extend(body)
            save(r, "d.xml")
        with ctx.guard("device-read", **w):
            with quiet():
                d = col.Collection.from_xml("d.xml")
        ctx.count("device " + version[:3])
        ctx.eq(dict(d.server_ver), {}, "device-device-version", **w)
        ctx.eq((d.manufacturer, enc(d.server_type), str(d.collection_ver), int(d.country.value), d.country_ver == AppVersion(3, 0), d.dlms_ver),
               (which[0].encode(), b"\x09" + bytes((len(which[1]),)) + which[1], which[2], 7, True, 6), "device-identification", **w)
        ctx.check(d.get(bytes((0, 0, 96, 99, 98, 255))) is None and d.get(bytes((0, 0, 96, 99, 97, 255))) is None, "device-object-not-created", "an object without known class was created", **w)
        for ln, kind in kinds.items():
            o = d.get(bytes(ln))
            ctx.eq(o is not None and (int(o.CLASS_ID), int(o.VERSION)), kind, "device-object", ln=ln, **w)
        ctx.eq({lnt(o) for o in d} - set(kinds) - {(0, 0, 42, 0, 0, 255)}, set(), "device-only-listed", **w)
        for (ln, i), e in want.items():
            o = d.get(bytes(ln))
            if o is None:
                continue
            ctx.case(("device", version, ln, i, e))
            ctx.eq(enc(o.get_attr(i)), e, "device-value", ln=ln, index=i, **w)
        for (ln, i), t in times.items():
            x = d.get(bytes(ln)).get_record_time(i)
            ctx.eq(x is not None and bytes(x.contents), t, "device-record-time", ln=ln, index=i, **w)
        for (ln, i), tag in forced.items():
            x = d.get(bytes(ln)).get_attr(i)
            ctx.count("forced")
            ctx.eq(x is not None and x.TAG[0], tag, "device-forced-type", ln=ln, index=i, **w)
    for version in ("1.0.0", "2.0.0", "2.2.0", "3.3.0", "4.1.0", "5.0.0"):
        save(device(version, GOOD[0]), "d.xml")
        with quiet():
            ctx.rejects(lambda: col.Collection.from_xml("d.xml"), "device-foreign-version", exc=(exc.VersionError,), version=version)
    for version in ("3.0.0", "4.0.0"):
        save(device(version, GOOD[0], root="template.objects"), "d.xml")
        ctx.rejects(lambda: col.Collection.from_xml("d.xml"), "device-foreign-root", version=version)

    # ---- device descriptions of version 4.0: objects come from the lists of the associations
    for k in range(ctx.n(20)):
        which = rng.choice(GOOD)
        version = rng.choice(("4.0.0", "4.0", "4.0.5"))
        w = dict(version=version, type=which)
        with ctx.guard("description-setup", **w):
            c = model(which)
            r = device(version, which)
            if rng.random() < 0.5:
                r.find("country_ver").text = "4.0"
            no = rng.randrange(1, 8)
            ass_ver = rng.choice((0, 1, 1, 2))
            first = ET.SubElement(r, "obj", attrib={"ln": f"0.0.40.0.{no}.255"})
            ET.SubElement(first, "ver").text = str(ass_ver)
            chosen = [o for o in c if int(o.CLASS_ID) in PLAIN and lnt(o) not in ((0, 0, 42, 0, 0, 255), (0, 0, 0, 2, 1, 255))]
            chosen = rng.sample(chosen, rng.choice((1, 12, 60)))
            listed = [(int(o.CLASS_ID), int(o.VERSION), lnt(o)) for o in chosen] + [(15, ass_ver, (0, 0, 40, 0, no, 255)), (1, 0, (0, 0, 42, 0, 0, 255))]
            if rng.random() < 0.5:
                listed.append((15, ass_ver, (0, 0, 40, 0, no % 7 + 1, 255)))
            rng.shuffle(listed)
            lst = b"\x01" + axdr.length(len(listed)) + b"".join(b"\x02\x04\x12" + a.to_bytes(2, "big") + b"\x11" + bytes((b,)) + b"\x09\x06" + bytes(l) + b"\x02\x02\x01\x01\x02\x03\x0f\x01\x16\x01\x00\x01\x00" for a, b, l in listed)
            ET.SubElement(first, "attr", attrib={"i": "2"}).text = lst.hex()
            if rng.random() < 0.5:      # what fails in the association keeps the rest of it
                ET.SubElement(first, "attr", attrib={"i": rng.choice(("77", "4"))}).text = "zzz"
                ctx.count("damaged attribute of an association")
            sap = bytes((2, 2, 0x0f if ass_ver else 0x0f, rng.choice((0x10, 0x20, 0x30)), 0x12, 0, 1))
            ET.SubElement(first, "attr", attrib={"i": "3"}).text = sap.hex()
            want, forced, body = {((0, 0, 40, 0, no, 255), 2): lst, ((0, 0, 40, 0, no, 255), 3): sap}, {}, []
            for o in chosen:
                ln = lnt(o)
                node = ET.Element("obj", attrib={"ln": lns(ln)})
                body.append(node)
                blank = type(o)(o.logical_name)
                for i, _ in blank.get_index_with_attributes():
                    if i == 1:
                        continue
                    dice = rng.random()
                    t = blank.get_attr_element(i).DATA_TYPE
                    if dice < 0.35:
                        continue
                    if dice < 0.45:
                        ET.SubElement(node, "attr", attrib={"i": rng.choice((str(i), "77"))}).text = x = rng.choice(("zzz", "0203120001", "10zz"))
                        if node[-1].get("i") == str(i):
                            want[ln, i] = enc(blank.get_attr(i))
                        ctx.count("damaged attribute of a description")
                    elif dice < 0.6 and isinstance(t, ut.CHOICE):
                        tag = rng.choice(list(t.ELEMENTS))
                        if isinstance(t.ELEMENTS[tag], dict) or tag in (1, 2, 19):
                            continue
                        ET.SubElement(node, "attr", attrib={"i": str(i)}).text = str(tag)
                        want[ln, i] = enc(t.ELEMENTS[tag].TYPE())
                        ctx.count("kind only in a description")
                    elif dice < 0.65 and isinstance(t, ut.CHOICE):
                        tags = [x for x in (3, 4, 6, 9, 10, 16, 17, 18, 20, 22, 25) if x not in t.ELEMENTS]
                        if tags:
                            tag = rng.choice(tags)
                            f = rng.random() < 0.6
                            ET.SubElement(node, "attr", attrib=dict({"i": str(i)}, **({"forced": "1"} if f else {}))).text = str(tag)
                            if f:
                                forced[ln, i] = tag
                            else:
                                want[ln, i] = None
                    else:
                        e = good(blank, i)
                        if e is not None:
                            ET.SubElement(node, "attr", attrib={"i": str(i)}).text = e.hex() if rng.random() < 0.8 else e.hex().upper()
                            want[ln, i] = e
            rng.shuffle(body)
            r.extend(body)
            save(r, "d.xml")
        with ctx.guard("description-read", **w):
            with quiet():
                d = col.Collection.from_xml("d.xml")
            ctx.count("description")
            ctx.eq(dict(d.server_ver), {}, "description-device-version", **w)
            ctx.eq((d.manufacturer, enc(d.server_type), str(d.collection_ver), int(d.country.value), d.country_ver == AppVersion.from_str(r.find("country_ver").text), d.dlms_ver),
                   (which[0].encode(), b"\x09" + bytes((len(which[1]),)) + which[1], which[2], 7, True, 6), "description-identification", **w)
            kinds = {l: (a, b) for a, b, l in listed} | {(0, 0, 40, 0, 0, 255): (15, ass_ver)}
            ctx.eq({lnt(o): (int(o.CLASS_ID), int(o.VERSION)) for o in d}, kinds, "description-objects", **w)
            for (ln, i), e in want.items():
                o = d.get(bytes(ln))
                if o is None:
                    continue
                ctx.case(("description", version, ln, i, e))
                ctx.eq(enc(o.get_attr(i)), e, "description-value", ln=ln, index=i, **w)
            for (ln, i), tag in forced.items():
                x = d.get(bytes(ln)).get_attr(i)
                ctx.count("forced in a description")
                ctx.eq(x is not None and x.TAG[0], tag, "description-forced-type", ln=ln, index=i, **w)
    # a value that needs an object which is listed later
    for order in range(2):
        with ctx.guard("description-order", order=order):
            r = device("4.0.0", GOOD[0])
            d2 = []
            for no, objs in ((1, ((7, 1, (1, 0, 99, 1, 0, 255)),)), (2, ((8, 0, (0, 0, 1, 0, 0, 255)),))):
                a = ET.Element("obj", attrib={"ln": f"0.0.40.0.{no}.255"})
                ET.SubElement(a, "ver").text = "1"
                ET.SubElement(a, "attr", attrib={"i": "2"}).text = (b"\x01\x01" + b"".join(b"\x02\x04\x12" + x.to_bytes(2, "big") + b"\x11" + bytes((y,)) + b"\x09\x06" + bytes(l) + b"\x02\x02\x01\x00\x01\x00" for x, y, l in objs)).hex()
                d2.append(a)
            so = b"\x02\x04\x12\x00\x08\x09\x06" + bytes((0, 0, 1, 0, 0, 255)) + b"\x0f\x02\x12\x00\x00"
            p = ET.Element("obj", attrib={"ln": "1.0.99.1.0.255"})
            ET.SubElement(p, "attr", attrib={"i": "6"}).text = so.hex()
            ET.SubElement(p, "attr", attrib={"i": "3"}).text = (b"\x01\x01" + so).hex()
            r.extend([d2[0], p, d2[1]] if order else [*d2, p])
            save(r, "d.xml")
            with quiet():
                d = col.Collection.from_xml("d.xml")
            o = d.get(bytes((1, 0, 99, 1, 0, 255)))
            ctx.eq([enc(o.get_attr(6)), enc(o.get_attr(3))], [so, b"\x01\x01" + so], "description-order", order=order)
            ctx.case(("description-order", order))

    # a description tells a blank device what it is; what is absent stays unknown
    for k in range(ctx.n(60)):
        version = rng.choice(("2.2.0", "3.2.0", "4.0.0"))
        r = ET.Element("Objects", attrib=dict(version=version))
        says = {t: rng.random() < 0.7 for t in ("dlms_ver", "country", "country_ver", "manufacturer", "server_type")}
        for t in sorted(says, key=lambda _t: rng.random()):
            if says[t]:
                ET.SubElement(r, t).text = {"dlms_ver": "6", "country": "7", "country_ver": "3.0", "manufacturer": "KPZ", "server_type": "09054d324d5f33"}[t]
        vers = {i: (1, rng.randrange(9), rng.randrange(30)) for i in rng.sample(range(4), rng.choice((0, 1, 2)))}
        for i, v in vers.items():
            ET.SubElement(r, "server_ver", attrib={"instance": str(i)} if i or rng.random() < 0.5 else {}).text = ".".join(map(str, v))
        save(r, "h.xml")
        w = dict(version=version, tags=sorted(t for t in says if says[t]), versions=vers)
        how = rng.choice(("values", "device")) if version[0] != "2" else "values"
        with ctx.guard("header", how=how, **w), quiet():
            if how == "values":
                d = col.Collection()
                d.from_xml2("h.xml")
                ctx.eq({i: (x.major, x.minor, x.patch) for i, x in d.server_ver.items()}, vers, "header-versions", **w)
            else:
                d = col.Collection.from_xml("h.xml")
                ctx.eq(d.collection_ver and (d.collection_ver.major, d.collection_ver.minor, d.collection_ver.patch), next((v for v in vers.values()), None), "header-version", **w)
            ctx.eq((d.dlms_ver or None, d.country and int(d.country.value), d.country_ver and str(d.country_ver)[:3], d.manufacturer or None, enc(d.server_type)),
                   (6, 7, "3.0" if says["country_ver"] else None, b"KPZ" if says["manufacturer"] else None,
                    bytes.fromhex("09054d324d5f33") if says["server_type"] else None), "header-read", how=how, **w)
        ctx.case(("header", how, version, sorted(says.items()), sorted(vers.items())))

    # ---- order does not matter: values that need another object are set when it appears
    with ctx.guard("device-order"):
        which = GOOD[0]
        cap = b"\x01\x01" + b"\x02\x04" + b"\x12\x00\x08" + b"\x09\x06" + bytes((0, 0, 1, 0, 0, 255)) + b"\x0f\x02" + b"\x12\x00\x00"
        for order in range(2):
            r = device("3.2.0", which)
            p = ET.Element("object", attrib={"ln": "1.0.99.1.0.255", "name": "profile"})
            ET.SubElement(p, "class_id").text = "7"
            ET.SubElement(p, "version").text = "1"
            ET.SubElement(p, "attribute", attrib={"index": "3"}).text = cap.hex()
            k = ET.Element("object", attrib={"ln": "0.0.1.0.0.255", "name": "clock"})
            ET.SubElement(k, "class_id").text = "8"
            ET.SubElement(k, "version").text = "0"
            ET.SubElement(k, "attribute", attrib={"index": "3"}).text = "100078"
            r.extend((p, k) if order else (k, p))
            save(r, "d.xml")
            with quiet():
                d = col.Collection.from_xml("d.xml")
            ctx.case(("order", order))
            ctx.eq([enc(d.get(bytes((1, 0, 99, 1, 0, 255))).get_attr(3)), enc(d.get(bytes((0, 0, 1, 0, 0, 255))).get_attr(3))], [cap, bytes.fromhex("100078")], "device-order", order=order)

    # ---- a value isn't lost by a following entry of its type
    for k in range(ctx.n(12)):
        version = rng.choice(("3.0.0", "3.1.0", "3.2.0"))
        with ctx.guard("value-then-type", version=version):
            r = device(version, GOOD[0])
            n = ET.SubElement(r, "object", attrib={"ln": "0.0.96.1.5.255", "name": "x"})
            ET.SubElement(n, "class_id").text = "1"
            ET.SubElement(n, "version").text = "0"
            tag, e = rng.choice(((17, b"\x11" + rng.randbytes(1)), (18, b"\x12" + rng.randbytes(2)), (6, b"\x06" + rng.randbytes(4)), (9, b"\x09\x03" + rng.randbytes(3))))
            last = rng.choice((tag, 3, 16))
            ET.SubElement(n, "attribute", attrib={"index": "2"}).text = e.hex()
            ET.SubElement(n, "attribute", attrib={"index": "2"}).text = str(last)
            save(r, "d.xml")
            with quiet():
                d = col.Collection.from_xml("d.xml")
            ctx.case(("value-then-type", version, e, last))
            ctx.eq(enc(d.get(bytes((0, 0, 96, 1, 5, 255))).get_attr(2)), e, "value-then-type", version=version, then=last)

    # ---- templates of version 4.0 for one type
    SIMPLE = (cdt.Digital, cdt.OctetString, cdt.VisibleString, cdt.Boolean, cdt.Enum, cdt.BitString)

    def readable(v, top=True):
        """tree of texts; None when the text is not unambiguous"""
        if isinstance(v, (cdt.Array, cdt.Structure)):
            out = [readable(x, False) for x in v]
            return None if any(x is None for x in out) else out
        if not isinstance(v, SIMPLE) or getattr(v, "SCALER_UNIT", None) is not None:
            return None
        try:
            t = type(v)(str(v))
        except Exception:
            return None
        return str(v) if str(v) and enc(t) == enc(v) and str(v).strip() == str(v) else None

    def fill(node, v):
        for x in v:
            if isinstance(x, list):
                fill(ET.SubElement(node, rng.choice(("array", "struct"))), x)
            else:
                ET.SubElement(node, "simple").text = x

    for k in range(ctx.n(24)):
        which = rng.choice(GOOD)
        decode = rng.random() < 0.6
        w = dict(type=which, decode=decode)
        with ctx.guard("template-setup", **w):
            c = model(which)
            kw = {"decode": "1"} if decode else {} if rng.random() < 0.5 else {"decode": "0"}
            r = device(rng.choice(("4.0.0", "4.0", "4.0.3")), which, root="template.objects", **kw)
            want, used, objs = {}, {}, {}
            for o, i in pool(c)[:rng.choice((1, 20, 120))]:
                ln = lnt(o)
                e = good(o, i)
                node = objs.get(ln)
                if node is None:
                    node = objs[ln] = ET.SubElement(r, "object", attrib={"ln": lns(ln)})
                    used[bytes(ln)] = set()
                dice = rng.random()
                if dice < 0.1:
                    j = rng.choice((i, 77))
                    x = ET.SubElement(node, "attr", attrib={"index": str(j)})
                    x.text = rng.choice(("zz", "0203120001", "?!"))
                    t = o.get_attr_element(i).DATA_TYPE
                    if j == i and isinstance(t, ut.CHOICE) and o.get_attr(i) is None and not decode:
                        x.text = foreign(t)
                    used[bytes(ln)].add(j)
                    ctx.count("damaged attribute of a template")
                    if j == i:
                        want[ln, i] = ("any",)
                    continue
                if e is None:
                    continue
                if decode:
                    with quiet():
                        probe = fresh_value(o, i, e)
                    t = probe is not None and int(o.CLASS_ID) not in (3, 4, 5) and readable(probe)   # registers show values in their units
                    if not t and t != []:
                        continue
                    cur = o.get_attr(i)
                    if cur is None and isinstance(o.get_attr_element(i).DATA_TYPE, ut.CHOICE):
                        continue
                    x = ET.SubElement(node, "attr", attrib={"index": str(i), "name": "имя"})
                    if isinstance(t, list):
                        x.set("type", "array" if isinstance(probe, cdt.Array) else "struct")
                        fill(x, t)
                        ctx.count("nested")
                    else:
                        x.text = t
                        if rng.random() < 0.3:
                            x.set("type", "simple")
                else:
                    ET.SubElement(node, "attr", attrib={"index": str(i)}).text = e.hex()
                want[ln, i] = e
                used[bytes(ln)].add(i)
            save(r, "t.xml")
        with ctx.guard("template-read", **w):
            with quiet():
                d, u = col.Collection.from_xml3("t.xml")
        ctx.count(f"template decode={decode}")
        ctx.eq({bytes(x.contents): set(v) for x, v in u.items()}, used, "template-used", **w)
        ctx.eq((d.manufacturer, enc(d.server_type), str(d.collection_ver)), (which[0].encode(), b"\x09" + bytes((len(which[1]),)) + which[1], which[2]), "template-type", **w)
        for (ln, i), e in want.items():
            if e == ("any",):
                continue
            ctx.case(("template", decode, ln, i, e))
            ctx.eq(enc(d.get(bytes(ln)).get_attr(i)), e, "template-value", ln=ln, index=i, **w)
        node = ET.Element("object", attrib={"ln": "0.0.96.99.98.255"})
        ET.SubElement(node, "attr", attrib={"index": "2"}).text = "1105"
        r.insert(rng.randrange(6, len(r) + 1), node)
        save(r, "t.xml")
        with quiet():
            ctx.rejects(lambda: col.Collection.from_xml3("t.xml"), "template-unknown-object", **w)
    for version in ("1.0.0", "3.2.0", "4.1.0", "5.0.0"):
        save(device(version, GOOD[0], root="template.objects"), "t.xml")
        with quiet():
            ctx.rejects(lambda: col.Collection.from_xml3("t.xml"), "template-foreign-version", exc=(exc.VersionError,), version=version)
    save(device("4.0.0", GOOD[0]), "t.xml")
    with quiet():
        ctx.rejects(lambda: col.Collection.from_xml3("t.xml"), "template-foreign-root")
    save(device("4.0.0", ("KPZ", b"unknown", "1.0.0"), root="template.objects"), "t.xml")
    with quiet():
        ctx.rejects(lambda: col.Collection.from_xml3("t.xml"), "template-unknown-type", exc=(exc.NoConfig,))
    ctx.require("values 2", 2)
    ctx.require("values 3", 2)
    ctx.require("values 4", 2)
    ctx.require("device 3.0", 2)
    ctx.require("template decode=True", 3)
    ctx.require("nested", 2)
    ctx.require("description", 5)
    ctx.require("kind only in a description", 5)
