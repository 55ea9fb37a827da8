"""Secrets of associations, objects seen by a client, objects the collection names."""

RULE = ("secrets of every length and octet in every representation, from text and octets; histories of mechanism and secret sets with cleared attributes on every association version; collections with up to seven associations with own clients and object lists, associations without partners or lists, current association, repeated and removed objects; every named accessor with its channel. "
        "Non-trivial: distinct secrets, histories and object lists.")
NEEDS_TYPES = False
MODULES = ("cosem_interface_classes.association_ln.ver0", "cosem_interface_classes.association_ln.ver1", "cosem_interface_classes.association_ln.ver2", "cosem_interface_classes.collection")

SAPS = (0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 1)
ACCESSORS = {"PUBLIC_ASSOCIATION": (15, 1, "0.0.40.0.1.255"), "COMMUNICATION_PORT_PARAMETER": (1, 0, "0.0.96.12.4.255"), "clock": (8, 0, "0.0.1.0.0.255"), "activity_calendar": (20, 0, "0.0.13.0.0.255"),
             "special_day_table": (11, 0, "0.0.11.0.0.255"), "TCP_UDP_setup": (41, 0, "0.0.25.0.0.255"), "IPv4_setup": (42, 0, "0.0.25.1.0.255"), "boot_image_transfer": (18, 0, "0.0.44.0.128.255"),
             "firmware_image_transfer": (18, 0, "0.0.44.0.0.255"), "RU_EXTENDED_PASSPORT_DATA": (7, 1, "0.0.94.7.1.255"), "firmware_version": (1, 0, "0.0.96.1.2.255"), "device_type": (1, 0, "0.0.96.1.1.255"),
             "manufacturing_date": (1, 0, "0.0.96.1.4.255"), "RU_LOAD_LOCK_STATUS": (1, 0, "0.0.96.4.3.255"), "firmwares_description": (1, 0, "0.0.128.100.0.255"), "serial_number": (1, 0, "0.0.96.1.0.255"),
             "RU_MAGNETIC_EFFECT": (1, 0, "0.0.96.51.3.255"), "RU_HF_FIELD_EFFECT": (1, 0, "0.0.96.51.4.255"), "RU_ELECTRIC_SEAL_STATUS": (1, 0, "0.0.96.51.5.255"), "RU_CLOSE_ELECTRIC_SEAL": (1, 0, "0.0.96.51.6.255"),
             "RU_ERASE_MAGNETIC_EVENTS": (1, 0, "0.0.96.51.7.255"), "RU_ALARM_REGISTER_2": (1, 0, "0.0.97.98.1.255"), "RU_FILTER_ALARM_2": (1, 0, "0.0.97.98.11.255"), "RU_DAILY_PROFILE": (7, 1, "1.0.98.2.0.255"),
             "RU_MAXIMUM_CURRENT_EXCESS_LIMIT": (3, 0, "1.0.11.134.0.255"), "RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT": (3, 0, "1.0.12.134.0.255")}
CHANNELS = {"getIECHDLCSetup": (23, 1, "0.{}.22.0.0.255"), "getIPv4Setup": (42, 0, "0.{}.25.1.0.255"), "getDISCONNECT_CONTROL": (70, 0, "0.{}.96.3.10.255"), "getARBITRATOR": (68, 0, "0.{}.96.3.20.255")}
NEAR = tuple((3, 0, ln) for ln in ("1.0.1.8.0.255", "1.1.1.8.0.255", "1.2.1.8.0.255", "1.0.1.9.0.255", "1.0.1.8.1.255", "1.0.1.8.0.101", "1.0.2.8.0.255")) + tuple((1, 0, ln) for ln in ("0.0.96.1.0.255", "0.1.96.1.0.255", "1.0.96.1.0.255"))
POOL = ((1, 0, "0.0.96.1.0.255"), (3, 0, "1.0.1.8.0.0"), (3, 0, "1.0.1.8.0.101"), (1, 0, "0.0.96.1.0.1"), (1, 0, "0.0.96.1.1.255"), (8, 0, "0.0.1.0.0.255"), (3, 0, "1.0.1.8.0.255"), (3, 0, "1.0.2.8.0.255"), (3, 0, "1.0.12.7.0.255"), (4, 0, "1.0.1.6.0.255"), (5, 0, "1.0.1.4.0.255"),
        (7, 1, "1.0.99.1.0.255"), (9, 0, "0.0.10.0.100.255"), (11, 0, "0.0.11.0.0.255"), (20, 0, "0.0.13.0.0.255"), (22, 0, "0.0.15.0.0.255"), (23, 1, "0.0.22.0.0.255"), (70, 0, "0.0.96.3.10.255"), (18, 0, "0.0.44.0.0.255"))


def text_of(raw):
    """octets of a visible string as text, '?' for what can't be shown"""
    out = []
    for b in raw:
        if b < 0x20:
            out.append("?")
            continue
        try:
            out.append(bytes((b,)).decode("cp1251"))
        except UnicodeDecodeError:
            out.append("?")
    return "".join(out)


def run(ctx):
    from src.DLMS_SPODES.types import cdt, cst, ut
    from src.DLMS_SPODES.types.implementations import enums
    from src.DLMS_SPODES.cosem_interface_classes.collection import Collection
    from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver0, ver1
    from src.DLMS_SPODES import exceptions as exc
    from .. import env
    rng = ctx.sub("secrets")
    rep = ver0.Representation
    all_reps = (rep.HEX, rep.ASCII, rep.HIDDEN, rep.ASCII_HIDDEN)

    def mode(r):
        rng.choice((ver0.LLCSecret, ver0.LLCSecretHigh))().representation = r
    try:
        # text
        for i in range(ctx.n(1500)):
            high = rng.random() < 0.4
            n = 16 if high else rng.choice((0, 1, 2, 5, 8, 8, 16, 17, 40))
            kind = rng.random()
            raw = bytes(rng.randrange(256) if kind < 0.3 else rng.randrange(0x21, 0x7f) if kind < 0.7 else rng.choice(b"ab *0?") for _ in range(n))
            cls = ver0.LLCSecretHigh if high else ver0.LLCSecret
            r = rng.choice(all_reps)
            w = dict(raw=raw.hex(), cls=cls.__name__, rep=str(r))
            ctx.case(("text", raw, high, str(r)))
            with ctx.guard("secret", **w):
                mode(rep.HEX)
                s, other = cls(bytearray(raw)), cdt.OctetString(bytearray(raw))
                mode(r)
                ctx.eq(s.representation, r, "representation", **w)
                ctx.eq(str(other), raw.hex(" "), "other-octets", **w)
                plain = text_of(raw) if r & rep.ASCII else raw.hex(" ")
                shown = str(s)
                if r & rep.HIDDEN:
                    ctx.check(set(shown) <= {"*", " "}, "secret-shown", shown=shown, **w)
                    ctx.eq(len(shown), len(plain), "hidden-length", **w)
                    ctx.eq([c == " " for c in shown], [c == " " for c in plain], "hidden-form", **w)
                    ctx.count("hidden")
                else:
                    ctx.eq(shown, plain, "plain-text", **w)
                # enter it in the same form
                if r & rep.ASCII:
                    try:
                        entered = raw.decode("cp1251")
                    except UnicodeDecodeError:
                        entered = None
                    if entered:
                        ctx.eq(cls(entered).contents, raw, "entered-text", **w)
                        ctx.count("entered:ascii")
                elif raw:
                    ctx.eq(cls(raw.hex(" ")).contents, raw, "entered-octets", **w)
                    ctx.eq(cls(raw.hex()).contents, raw, "entered-octets", **w)
                    ctx.count("entered:hex")
                ctx.eq((s.contents, s.encoding), (raw, b"\x09" + bytes((n,)) + raw), "secret-kept", **w)
                for bad in (None, 0, "HEX", True, 2):
                    ctx.rejects(lambda: setattr(s, "representation", bad), "no-representation", bad=repr(bad))
                ctx.eq(s.representation, r, "representation-after-refusal", **w)
                if high:
                    m = rng.choice((0, 1, 15, 17, 32))
                    ctx.rejects(lambda: cls(bytearray(m)), "high-length", m=m)
                    ctx.rejects(lambda: s.set(bytearray(m)), "high-length-set", m=m)
                    ctx.eq(s.contents, raw, "high-kept", **w)
    finally:
        ver0.LLCSecret().representation = rep.HEX

    # mechanism and secret
    def oid(version, m):
        full = (2, 16, 756, 5, 8, 2, m)
        if version and rng.random() < 0.6:
            return b"\x09\x07\x60\x85\x74\x05\x08\x02" + bytes((m,))
        if rng.random() < 0.5:
            return full
        return b"\x02\x07\x11\x02\x11\x10\x12\x02\xf4\x11\x05\x11\x08\x11\x02\x11" + bytes((m,))
    rng = ctx.sub("mechanism")
    for i in range(ctx.n(400)):
        version = rng.choice((0, 1, 2))
        e = rng.randrange(5)
        log = []
        col = Collection()
        with ctx.guard("mechanism", version=version, log=log):
            o = col.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(version), logical_name=cst.LogicalName(f"0.0.40.0.{e}.255"))
            ctx.eq((int(o.associated_partners_id.client_SAP), int(o.associated_partners_id.server_SAP), o.source_address), (0x10 * e, 1, bytes((0x20 * e + 1,))), "partners", e=e)
            secret, mech = None, None
            for _ in range(rng.randrange(1, 7)):
                if mech is None or rng.random() < 0.5:
                    if mech is not None:
                        o.clear_attr(6)
                    m = rng.choice((0, 1, 1, 2))
                    value = oid(version, m)
                    log.append(("mechanism", m, type(value).__name__))
                    o.set_attr(6, value)
                    was, mech = mech, m
                    ctx.eq(int(o.authentication_mechanism_name.mechanism_id_element), m, "mechanism-id", log=log)
                    if m == 2 and was != 2:
                        secret = bytes(o.LLS_secret.contents)
                        ctx.eq(len(secret), 16, "high-default", log=log)
                    elif secret is None:
                        ctx.check(o.LLS_secret is not None, "secret-made", log=log)
                        secret = bytes(o.LLS_secret.contents)
                else:
                    n = rng.choice((0, 1, 8, 15, 16, 16, 17, 20))
                    raw = bytes(rng.randrange(256) for _ in range(n))
                    log.append(("secret", n))
                    if mech == 2 and n != 16:
                        ctx.rejects(lambda: o.set_attr(7, bytearray(raw)), "high-secret-length", log=log)
                    else:
                        o.set_attr(7, bytearray(raw))
                        secret = raw
                ctx.eq(bytes(o.LLS_secret.contents), secret, "secret", log=log)
                ctx.count("mechanism:steps")
            ctx.case(("mechanism", version, tuple(log)))
            # without a mechanism a secret means nothing
            o.clear_attr(6)
            o.clear_attr(7)
            o.set_attr(7, bytearray(b"12345678"))
            ctx.check(o.LLS_secret is None, "secret-without-mechanism", log=log)
            o.set_attr(7, bytearray(b"87654321"))
            ctx.check(o.LLS_secret is None, "secret-without-mechanism-again", log=log)
            for i in range(1, 9):
                if i != 2:
                    ctx.eq(bytes(o.get_attr_descriptor(i, True).contents), bytes(o.get_attr_descriptor(i).contents), "selection-of-object-list-only", attribute=i)
            for _k in range(rng.randrange(3)):
                o.set_attr(7, bytearray(b"87654321"))
                ctx.check(o.LLS_secret is None, "secret-without-mechanism-again", log=log)
            o.set_attr(6, oid(version, 1))
            o.set_attr(7, bytearray(b"12345"))
            ctx.eq(bytes(o.LLS_secret.contents), b"12345", "secret-after-mechanism", log=log)
            # versions of the protocol of one device
            n = int(o.xDLMS_context_info.dlms_version_number)
            ctx.eq(col.dlms_ver, n, "dlms-version")
            enc = bytes(o.xDLMS_context_info.encoding)
            at = enc.index(b"\x11") + 1
            for v in (n, rng.choice([k for k in range(1, 256) if k != n]), n):
                o.clear_attr(5)
                new = enc[:at] + bytes((v,)) + enc[at + 1:]
                if v == n:
                    o.set_attr(5, new)
                else:
                    ctx.rejects(lambda: o.set_attr(5, new), "another-dlms-version", version=v)
                ctx.eq(col.dlms_ver, n, "dlms-version-kept", version=v)

    # objects of clients
    rng = ctx.sub("objects")

    def element(version, spec, depth=2):
        c, v, ln = spec
        attrs = b"".join(b"\x02\x03\x0f" + bytes((a,)) + b"\x16" + bytes((rng.choice((0, 1, 3)),)) + b"\x00" for a in range(1, depth))
        meths = b"\x01\x00"
        return b"\x02\x04\x12" + c.to_bytes(2, "big") + b"\x11" + bytes((v,)) + b"\x09\x06" + bytes(map(int, ln.split("."))) + b"\x02\x02\x01" + bytes((depth - 1,)) + attrs + meths
    for i in range(ctx.n(250)):
        version = rng.choice((0, 1, 2))
        ids = rng.sample(range(1, 8), rng.randrange(1, 6))
        saps = rng.sample(SAPS, len(ids))
        col = Collection()
        lists, made = {}, {}
        w = dict(version=version, ids=ids, saps=saps)
        with ctx.guard("objects", **w):
            order = list(zip(ids, saps))
            if rng.random() < 0.5:
                order.insert(rng.randrange(len(order) + 1), (0, rng.choice(saps)))       # the current association, of one of the clients
            if rng.random() < 0.3:
                order.insert(rng.randrange(len(order) + 1), (9, None))                   # nothing is known of its partners
            for e, sap in order:
                made[e] = o = col.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(version), logical_name=cst.LogicalName(f"0.0.40.0.{e}.255"))
                if sap is None:
                    if o.associated_partners_id is not None:
                        o.clear_attr(3)
                else:
                    o.set_attr(3, (sap, 1))
                specs = None if rng.random() < 0.15 else [rng.choice(POOL) for _ in range(rng.choice((1, 2, 4, 8)))] if rng.random() < 0.2 else rng.sample(NEAR, rng.randint(2, len(NEAR))) if rng.random() < 0.2 else rng.sample(POOL, rng.choice((0, 1, 3, 6, 12)))
                lists[e] = specs
                if specs is not None:
                    o.set_attr(2, b"\x01" + bytes((len(specs),)) + b"".join(element(version, s) for s in specs))
            ctx.case(("objects", version, tuple((e, s, tuple(lists[e]) if lists[e] is not None else None) for e, s in order)))
            for e, specs in lists.items():
                for c, v, ln in specs or ():
                    obj = col.get_object(cst.LogicalName(ln))
                    ctx.eq((int(obj.CLASS_ID), int(obj.VERSION), str(obj.logical_name)), (c, v, ln), "object-added", e=e, **w)
            for e, sap in zip(ids, saps):
                s = enums.ClientSAP(sap)
                ctx.eq(col.get_association_id(s), e, "association-id", sap=sap, **w)
                ctx.check(col.getAssociationBySAP(s) is made[e] and col.getASSOCIATION(e) is made[e], "association-of-client", sap=sap, **w)
                ctx.eq(made[e].source_address, bytes((sap * 2 + 1,)), "source-address", sap=sap)
                specs = lists[e]
                if specs is None:
                    ctx.rejects(lambda: col.get_objects_list(s), "no-object-list", exc=exc.EmptyObj, e=e)
                    ctx.rejects(lambda: made[e].client_objects_list(s), "no-object-list", exc=exc.EmptyObj, e=e)
                    ctx.count("objects:no-list")
                    continue
                names = [ln for _, _, ln in specs]
                once = list(dict.fromkeys(names))
                ctx.eq([str(o.logical_name) for o in col.get_objects_list(s)], names, "objects-list", sap=sap, **w)
                ctx.eq([str(o.logical_name) for o in made[e].get_objects()], names, "objects-of-association", e=e, **w)
                with env.quiet():
                    for got in (made[e].client_objects_list(s), made[e].objects, made[rng.choice(ids)].client_objects_list(s)):
                        ctx.eq([str(o.logical_name) for o in got], once, "objects-once", e=e, **w)
                        ctx.check(all(o is col.get_object(o.logical_name) for o in got), "objects-of-collection", e=e, **w)
                ctx.count("objects:lists")
                if specs and rng.random() < 0.2:
                    gone = rng.choice(once)
                    removed = col.get_object(cst.LogicalName(gone))
                    col.try_remove(cst.LogicalName(gone))
                    ctx.rejects(lambda: col.get_objects_list(s), "removed-object", exc=exc.NoObject, gone=gone)
                    with env.quiet():
                        ctx.eq([str(o.logical_name) for o in made[e].client_objects_list(s)], [n for n in once if n != gone], "objects-without-removed", gone=gone, **w)
                    again = col.add_if_missing(class_id=removed.CLASS_ID, version=removed.VERSION, logical_name=cst.LogicalName(gone))
                    ctx.check(again is not removed and col.get_object(cst.LogicalName(gone)) is again, "added-again", gone=gone)
            for sap in set(SAPS) - set(saps):
                s = enums.ClientSAP(sap)
                ctx.rejects(lambda: col.get_objects_list(s), "unknown-client", sap=sap)
                ctx.rejects(lambda: col.get_association_id(s), "unknown-client", sap=sap)
    # named objects
    rng = ctx.sub("accessors")
    for i in range(ctx.n(6)):
        col = Collection()
        names = list(ACCESSORS)
        rng.shuffle(names)
        for name in names:
            c, v, ln = ACCESSORS[name]
            ctx.case(("accessor", name, i))
            with ctx.guard("accessor", name=name):
                col.try_remove(cst.LogicalName(ln))
                ctx.rejects(lambda: getattr(col, name), "accessor-no-object", exc=exc.NoObject, name=name)
                o = col.add(class_id=ut.CosemClassId(c), version=cdt.Unsigned(v), logical_name=cst.LogicalName(ln))
                ctx.check(getattr(col, name) is o, "accessor", name=name, ln=ln)
        for name, (c, v, ln) in CHANNELS.items():
            ch = rng.sample(range(0, 65), 3) + [0]
            made = {}
            for b in dict.fromkeys(ch):
                name_b = cst.LogicalName(ln.format(b))
                ctx.case((name, b))
                with ctx.guard("channel", name=name, b=b):
                    col.try_remove(name_b)
                    ctx.rejects(lambda: getattr(col, name)(b), "channel-no-object", exc=exc.NoObject, name=name, b=b)
                    made[b] = col.add(class_id=ut.CosemClassId(c), version=cdt.Unsigned(v), logical_name=name_b)
            for b, o in made.items():
                ctx.check(getattr(col, name)(b) is o, "channel", name=name, b=b)
            ctx.check(getattr(col, name)() is made[0], "channel-default", name=name)
        with ctx.guard("boot-version"), env.quiet():
            col.firmwares_description.set_attr(2, b"\x09\x08" + b"0005PWRM")
            ctx.eq(col.boot_version, "0005", "boot-version")
            col.try_remove(cst.LogicalName("0.0.128.100.0.255"))
            ctx.eq(col.boot_version, "unknown", "no-boot-version")
