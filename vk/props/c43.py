"""Codes of the protocol: numbers of services, results, units, classes, countries, speeds; results as exceptions."""
from .. import codes

RULE = ("every named code of the services, results, diagnostics, units, accesses, policies, countries and classes against the number of the standard; every name and number read back by both; speeds by code and by number with neighbours; every error as an exception with every result. Non-trivial: named codes checked.")
MODULES = ("enums", "pdu_enums", "exceptions", "types.cosemClassID", "types.implementations.enums", "types.implementations.long_unsigneds", "cosem_interface_classes.overview", "cosem_interface_classes.attr_indexes")

SPEED = (300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)
JOINED_CLASS = {"ASSOCIATION_SN": "ASSOCIATION_SN_CLASS", "ASSOCIATION_LN": "ASSOCIATION_LN_CLASS", "IEC_TWISTED_PAIR_1_SETUP": "IEC_TWISTED_PAIR__1__SETUP"}
CONFORMANCE = ("RESERVED_ZERO GENERAL_PROTECTION GENERAL_BLOCK_TRANSFER READ WRITE UN_CONFIRMED_WRITE RESERVED_SIX RESERVED_SEVEN ATTRIBUTE_0_SUPPORTED_WITH_SET PRIORITY_MGMT_SUPPORTED"
               " ATTRIBUTE_0_SUPPORTED_WITH_GET BLOCK_TRANSFER_WITH_GET_OR_READ BLOCK_TRANSFER_WITH_SET_OR_WRITE BLOCK_TRANSFER_WITH_ACTION MULTIPLE_REFERENCES INFORMATION_REPORT"
               " DATA_NOTIFICATION ACCESS PARAMETERIZED_ACCESS GET SET SELECTIVE_ACCESS EVENT_NOTIFICATION ACTION").split()
CALENDAR = ("CALENDAR_NAME_ACTIVE SEASON_PROFILE_ACTIVE WEEK_PROFILE_TABLE_ACTIVE DAY_PROFILE_TABLE_ACTIVE CALENDAR_NAME_PASSIVE SEASON_PROFILE_PASSIVE"
            " WEEK_PROFILE_TABLE_PASSIVE DAY_PROFILE_TABLE_PASSIVE ACTIVATE_PASSIVE_CALENDAR_TIME").split()


def run(ctx):
    import importlib
    from enum import IntFlag

    def mod(name):
        return importlib.import_module(f"src.DLMS_SPODES.{name}")

    # enumerations
    for (module, name), table in codes.ENUMS.items():
        cls = getattr(mod(module), name)
        short = name
        with ctx.guard("enum", name=name):
            for key, number in table.items():
                ctx.case((short, key))
                member = getattr(cls, key, None)
                if member is None:
                    ctx.fail("name-missing", cls=short, key=key, number=number)
                    continue
                ctx.eq(int(member), number, "number", cls=short, key=key)
                ctx.check(member == number, "equal-to-number", cls=short, key=key)
                if number or not issubclass(cls, IntFlag):
                    ctx.eq(cls(number).name, key, "name-of-number", cls=short, number=number)
            numbers = set(table.values())
            if not issubclass(cls, IntFlag):
                for n in range(-1, 300):
                    if n in numbers:
                        continue
                    try:
                        extra = cls(n)
                    except ValueError:
                        ctx.count("no-name")
                        continue
                    ctx.check(extra.name not in table, "second-number", cls=short, number=n, key=extra.name)
        ctx.count("enumerations")
    enums = mod("enums")
    for name in ("Interface", "ChannelNumber", "ContextId"):
        cls = getattr(enums, name)
        for key, number in codes.ENUMS["enums", name].items():
            ctx.case(("text", name, key))
            with ctx.guard("from-text", cls=name, key=key):
                ctx.eq(int(cls.from_str(key)), number, "from-text", cls=name, key=key)
        for text in ("", "NO SUCH NAME", name):
            ctx.rejects(lambda: cls.from_str(text), "unknown-name", exc=(ValueError, StopIteration, KeyError), cls=name, text=text)
    # bits of the conformance block, in the order of the standard; reserved units are called by their number
    with ctx.guard("conformance"):
        for i, key in enumerate(CONFORMANCE):
            ctx.eq(int(getattr(enums.Conformance, key)), 1 << i, "conformance-bit", key=key)
            ctx.case(("conformance", key))
        ctx.eq(int(enums.Conformance.NONE), 0, "conformance-bit", key="NONE")
        for u in enums.Unit:
            if u.name.startswith("RESERVED_"):
                ctx.eq(u.name, f"RESERVED_{int(u)}", "reserved-unit")
        ctx.eq(len(enums.Unit.__members__), len(set(enums.Unit.__members__.values())), "two-names-of-a-unit")
    # classes
    class_id, ln_cdt, ut, cdt = mod("types.cosemClassID"), mod("types.implementations.long_unsigneds"), mod("types.useful_types"), mod("types.common_data_types")
    for key, number in codes.CLASSES.items():
        ctx.case(("class", key))
        with ctx.guard("class", key=key):
            one = getattr(class_id, key)
            ctx.eq((int(one), bytes(one.contents)), (number, number.to_bytes(2, "big")), "class-number", key=key)
            other = getattr(ln_cdt.ClassIDCDT, JOINED_CLASS.get(key, key), None)
            if other is not None:
                ctx.eq((int(other), other.encoding), (number, b"\x12" + number.to_bytes(2, "big")), "class-number-data", key=key)
                ctx.count("class:data")
    # attributes of the calendar
    attr = mod("cosem_interface_classes.attr_indexes")
    ver0 = mod("cosem_interface_classes.activity_calendar").ActivityCalendar
    cst = mod("types.cosem_service_types")
    calendar = ver0(cst.LogicalName("0.0.13.0.0.255"))
    for i, key in enumerate(CALENDAR, start=2):
        ctx.case(("attribute", key))
        with ctx.guard("attribute-index", key=key):
            ctx.eq(getattr(attr, key), i, "attribute-index", key=key)
            ctx.eq(str(calendar.get_attr_element(i).NAME).lower(), key.lower(), "attribute-name", index=i)
    # speeds
    speed = mod("types.implementations.enums").CommSpeed
    for i, value in enumerate(SPEED):
        ctx.case(("speed", value))
        with ctx.guard("speed", value=value):
            for v in (speed(i), speed(value), speed(str(i)), speed(bytes((0x16, i)))):
                ctx.eq((v.decode(), v.encoding, int(v)), (value, bytes((0x16, i)), i), "speed", code=i)
    for value in (10, 11, 255, 299, 301, 601, 1201, 9601, 115199, 115201, 96000, -1):
        ctx.rejects(lambda: speed(value), "no-such-speed", exc=(ValueError, OverflowError), value=value)
        ctx.case(("speed", value))
    # errors
    exc, pdu = mod("exceptions"), mod("pdu_enums")
    for cls in (enums.Transmit, enums.Application):
        for member in cls:
            ctx.case((cls.__name__, member.name))
            with ctx.guard("status", name=member.name):
                ctx.eq(member.is_ok(), member.name == "OK", "is-ok", name=member.name)
                ctx.check(isinstance(member.value, str) and member.value != "" and isinstance(member.importance, int), "status-text", name=member.name)
                ctx.check(member.importance > cls.OK.importance or member is cls.OK, "status-importance", name=member.name)
        ctx.eq(len({m.value for m in cls}), len(list(cls)), "status-texts-differ", cls=cls.__name__)
    ctx.check(all(enums.Transmit.UNKNOWN.importance > m.importance for m in enums.Transmit if m is not enums.Transmit.UNKNOWN), "unknown-is-worst")
    want = {"DLMSException": "UNKNOWN", "AssociationResultError": "NO_ACCESS", "Timeout": "TIMEOUT", "NoPort": "NO_PORT", "Abort": "ABORT", "ITEConnection": "UNKNOWN", "NoTransport": "NO_TRANSPORT",
            "NoObject": "MISSING_OBJ", "IDError": "ID_ERROR", "EmptyObj": "EMPTY_OBJ", "NoConfig": "NO_CONFIG", "TypeErr": "TYPE_ERROR", "VersionError": "VERSION_ERROR", "ResultError": "RESULT_ERROR", "UnknownError": "UNKNOWN"}
    for name, error in want.items():
        ctx.case(("exception", name))
        with ctx.guard("exception", name=name):
            cls = getattr(exc, name)
            ctx.eq(cls.error.name, error, "exception-error", name=name)
            ctx.check(issubclass(cls, exc.DLMSException), "exception-base", name=name)
    version = mod("version").AppVersion
    for cls in (pdu.DataAccessResult, pdu.ActionResult):
        for member in cls:
            ctx.case(("result", cls.__name__, member.name))
            with ctx.guard("result-error", name=member.name):
                e = exc.ResultError(member, "note 7")
                ctx.check(e.result is member and e.error is enums.Application.RESULT_ERROR, "result-kept", name=member.name)
                ctx.check(cls.__name__ in str(e) and member.name in str(e) and "note 7" in str(e), "result-text", text=str(e), name=member.name)
                ctx.check(member.name in str(exc.ResultError(member)), "result-text", name=member.name)
    for member in (*enums.AssociationResult, *enums.AcseServiceUser):
        ctx.case(("association", member.name))
        with ctx.guard("association-error", name=member.name):
            e = exc.AssociationResultError(member)
            ctx.check(e.result_source_diagnostics is member and member.name in str(e), "association-result", text=str(e))
    # service access points
    sap, lu = mod("types.implementations.enums").ClientSAP, mod("types.implementations.long_unsigneds")
    for v in range(256):
        ctx.case(("client", v))
        if v in (0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60):
            with ctx.guard("client-sap", v=v):
                ctx.eq((int(sap(v)), bytes(sap(bytes((0x0f, v))).encoding)), (v, bytes((0x0f, v))), "client-sap", v=v)
    for v in (0, 1, 2, 0xff, 0x100, 0x1fff, 0x2000, 0x3ffe, 0x3fff, 0x4000, 0x4001, 0x7fff, 0x8000, 0xffff):
        ctx.case(("server", v))
        enc = b"\x12" + v.to_bytes(2, "big")
        if v <= 0x3fff:
            with ctx.guard("server-sap", v=v):
                ctx.eq((int(lu.ServerSAP(v)), bytes(lu.ServerSAP(enc).encoding)), (v, enc), "server-sap", v=v)
        else:
            ctx.rejects(lambda: lu.ServerSAP(v), "server-sap-range", v=v)
            ctx.rejects(lambda: lu.ServerSAP(enc), "server-sap-range", v=v)
    rng = ctx.sub("version")
    for _ in range(ctx.n(200)):
        v = version(rng.randrange(300), rng.randrange(300), rng.randrange(300))
        ctx.case(("version", str(v)))
        with ctx.guard("version-error", v=str(v)):
            e = exc.VersionError(v, "firmware")
            ctx.check(e.version == v and str(v) in str(e) and "firmware" in str(e), "version-text", text=str(e))
            ctx.check("device" in str(exc.VersionError(v)), "version-text", text=str(e))
