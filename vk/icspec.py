"""Interface classes as the COSEM Blue Book describes them: (class_id, version) -> attributes and methods.

Written from the standard (order, types, defaults); names are those of the public accessors of the library.
An entry is (name, type) or (name, type, default) or (name, type, default, flags); flags: "x" is not set on its own
(it depends on other objects; other checks cover it).
"""
import struct

from . import axdr

SU = ("s", "i8", "E:1-255")
LNSEL = ("s", "ln", "u16")
VALDEF = ("s", "class", "ln", "i8")
CAPT = ("s", "class", "ln", "i8", "u16")
OBJ = ("s", "class", "ln")
QOS = ("s", "u8", "u8", "u8", "u8", "u8")
SEASON = ("a1", ("s", "os", "dt", "os"))
WEEK = ("a1", ("s", "os") + ("u8",) * 7)
DAY = ("a1", ("s", "u8", ("a1", ("s", "time", "ln", "u16"))))
SCHED = ("s", "u16:1:9999", "bool", "ln", "u16", "time", "u16", "bits", "bits", "date", "date")
SPEC = ("s", "u16", "date", "u8")
PARTNERS = ("s", "i8:16:16", "u16:0:16383")
XDLMS = ("s", "bits24", "u16", "u16", "u8:6:6", "i8", "os")
OBJEL0 = ("s", "class", "u8", "ln", ("s", ("a", ("s", "i8", "E:0-3", "null")), ("a", ("s", "i8", "bool"))))
OBJEL1 = ("s", "class", "u8", "ln", ("s", ("a", ("s", "i8", "E:0-6", "null")), ("a", ("s", "i8", "E:0-2"))))
MASK = ("s", "os", ("a", "u8"))
KEY = ("s", "E:0-2", "os")
CERT = ("s", "E:0-3", "E:0-3", "os", "os", "os", "os")
CERTID = ("s", "E:0-0", ("s", "E:0-3", "E:0-3", "os"))
PUSHOBJ = ("s", "u16", "ln", "i8", "u16", ("restriction",), ("a", CAPT))
U32S = "u32"
REG_RESET = [("reset", "zero")]

_assoc0 = [("object_list", ("a", OBJEL0), None, "x"), ("associated_partners_id", PARTNERS), ("application_context_name", ("name", "u8:1:4")),
           ("xDLMS_context_info", XDLMS, None, "x"), ("authentication_mechanism_name", ("name2", "u8:0:7"), None, "x"), ("LLS_secret", "os", None, "x"),
           ("association_status", "E:0-2")]
_assoc1 = [("object_list", ("a", OBJEL1), None, "x")] + _assoc0[1:2] + [("application_context_name", ("xname", 1), b"\x09\x07\x60\x85\x74\x05\x08\x01\x01"),
           _assoc0[3], ("authentication_mechanism_name", ("xname", 2), None, "x"), _assoc0[5], _assoc0[6], (None, "ln")]

CLASSES = {
    (1, 0): ([("value", "any")], []),
    (3, 0): ([("value", "digital"), ("scaler_unit", SU)], REG_RESET),
    (4, 0): ([("value", "digital"), ("scaler_unit", SU), ("status", "st"), ("capture_time", "dt")], REG_RESET),
    (5, 0): ([("current_average_value", "digital"), ("last_average_value", "digital"), ("scaler_unit", SU), ("status", "st"), ("capture_time", "dt"),
              ("start_time_current", "dt"), ("period", "u32"), ("number_of_periods", "u16", b"\x12\x00\x01")], [(None, "zero"), (None, "zero")]),
    (6, 0): ([("register_assignment", ("a", OBJ)), ("mask_list", ("a", MASK)), ("active_mask", "os")],
             [("add_register", OBJ), ("add_mask", MASK), ("delete_mask", "os")]),
    (7, 1): ([("buffer", ("a", "u8"), None, "x"), ("capture_objects", ("a", CAPT), None, "x"), ("capture_period", "u32"), ("sort_method", "E:1-6"),
              ("sort_object", CAPT, None, "x"), ("entries_in_use", "u32", b"\x06\0\0\0\0"), ("profile_entries", "u32", b"\x06\0\0\0\1")],
             [("reset", "zero"), ("capture", "zero")]),
    (8, 0): ([("time", "dt"), ("time_zone", "i16"), ("status", "u8"), ("daylight_savings_begin", "dt"), ("daylight_savings_end", "dt"),
              ("daylight_savings_deviation", "i8:-120:120"), ("daylight_savings_enabled", "bool"), ("clock_base", "E:0-5")],
             [("adjust_to_quarter", "zero"), ("adjust_to_measuring_period", "zero"), ("adjust_to_minute", "zero"), ("adjust_to_preset_time", "zero"),
              ("preset_adjusting_time", ("s", "dt", "dt", "dt")), ("shift_time", "i16:-900:900")]),
    (9, 0): ([("scripts", ("a1", ("s", "u16", ("a", ("s", "E:1-2", "class", "ln", "i8", "any")))))], [("execute", "u16")]),
    (10, 0): ([("entries", ("a1", SCHED))], [("enable_disable", ("s",) + ("u16:1:9999",) * 4), ("insert", SCHED), ("delete", ("s", "u16:1:9999", "u16:1:9999"))]),
    (11, 0): ([("entries", ("a1", SPEC))], [("insert", SPEC), ("delete", "u16")]),
    (15, 0): (_assoc0, [("reply_to_HLS_authentication", "os"), ("change_HLS_secret", "os"), ("add_object", OBJEL0), ("remove_object", OBJEL0)]),
    (15, 1): (_assoc1, [("reply_to_HLS_authentication", "os"), ("change_HLS_secret", "os"), ("add_object", OBJEL1), ("remove_object", OBJEL1)]),
    (15, 2): (_assoc1, [("reply_to_HLS_authentication", "os"), ("change_HLS_secret", "os"), ("add_object", OBJEL1), ("remove_object", OBJEL1)]),
    (18, 0): ([("image_block_size", "u32"), ("image_transferred_blocks_status", "bits"), ("image_first_not_transferred_block_number", "u32"),
               ("image_transfer_enabled", "bool"), ("image_transfer_status", "E:0-7"), ("image_to_activate_info", ("a", ("s", "u32", "os", "os")))],
              [("image_transfer_initiate", ("s", "os", "u32")), ("image_block_transfer", ("s", "u32", "os")), ("image_verify", "zero"), ("image_activate", "zero")]),
    (20, 0): ([("calendar_name_active", "os"), ("season_profile_active", SEASON), ("week_profile_table_active", WEEK), ("day_profile_table_active", DAY),
               ("calendar_name_passive", "os"), ("season_profile_passive", SEASON), ("week_profile_table_passive", WEEK), ("day_profile_table_passive", DAY),
               ("activate_passive_calendar_time", "dt")], [("activate_passive_calendar", "zero")]),
    (21, 0): ([("thresholds", ("a", "u16"), None, "x"), ("monitored_value", VALDEF, None, "x"), (None, ("a", ("s", LNSEL, LNSEL)))], []),
    (22, 0): ([("executed_script", LNSEL), (None, "E:1-5"), ("execution_time", ("a", ("s", "time", "date")))], []),
    (23, 1): ([("comm_speed", "E:0-9", b"\x16\5"), ("windows_size_transmit", "u8", b"\x11\1"), ("windows_size_receive", "u8", b"\x11\1"),
               ("max_info_field_length_transmit", "u16", b"\x12\0\x80"), ("max_info_field_length_receive", "u16", b"\x12\0\x80"),
               ("inter_octet_time_out", "u16", b"\x12\0\x19"), ("inactivity_time_out", "u16", b"\x12\0\x78"), ("device_address", "u16", b"\x12\0\x10")], []),
    (27, 0): ([("comm_speed", "E:0-9", b"\x16\5"), ("initialization_string", ("a", ("s", "os", "os"))), ("modem_profile", ("a", "modem"))], []),
    (27, 1): ([(None, "E:0-9", b"\x16\5"), ("initialization_string", ("a", ("s", "os", "os", "u16"))), (None, ("a", "modem"))], []),
    (41, 0): ([("TCP_UDP_port", "u16", b"\x12\x0f\xdb"), ("IP_reference", "ln"), ("MMS", "u16"), ("nb_of_sim_conn", "u8"), ("inactivity_time_out", "u16", b"\x12\0\xb4")], []),
    (42, 0): ([("DL_reference", "os"), ("IP_address", "u32"), ("multicast_IP_address", ("a", "u32")), ("IP_options", ("a", ("s", "u8", "u8", "os"))), ("subnet_mask", "u32"),
               ("gateway_IP_address", "u32"), ("use_DHCP_flag", "bool"), ("primary_DNS_address", "u32"), ("secondary_DNS_address", "u32")], []),
    (45, 0): ([("APN", "os"), ("PIN_code", "u16"), ("quality_of_service", ("s", QOS, QOS))], []),
    (47, 0): ([("operator", "vs"), ("status", "E:0-5", b"\x16\0"), ("cs_attachment", "E:0-2", b"\x16\0"), ("ps_status", "E:0-4", b"\x16\0"),
               ("cell_info", ("s", "u16", "u16", "u8:0:31", "u8")), ("adjacent_cell", ("a", ("s", "u16", "u8:0:31"))), ("capture_time", "dt25")], []),
    (47, 1): ([("operator", "vs"), ("status", "E:0-5", b"\x16\0"), ("cs_attachment", "E:0-2", b"\x16\0"), ("ps_status", "E:0-6", b"\x16\0"),
               ("cell_info", ("s", "u32", "u16", "u8:0:31", "u8", "u16", "u16", "u32")), ("adjacent_cell", ("a", ("s", "u32", "u8:0:31"))), ("capture_time", "dt25")], []),
    (64, 0): ([("security_policy", "e:0-3", b"\x16\0"), ("security_suite", "e:0-0", b"\x16\0"), ("client_system_title", "os"), ("server_system_title", "os")],
              [("security_activate", "e:0-3"), ("global_key_transfer", ("a", KEY))]),
    (64, 1): ([("security_policy", "e:0-7"), ("security_suite", "e:0-2"), ("client_system_title", "os"), ("server_system_title", "os"), ("certificates", ("a", CERT))],
              [("security_activate", "e:0-7"), ("key_transfer", ("a", ("s", "E:0-3", "os"))), ("key_agreement", ("a", ("s", "e:0-2", "os"))), ("generate_key_pair", "e:0-2"),
               ("generate_certificate_request", "e:0-2"), ("import_certificate", "os"), ("export_certificate", CERTID), ("remove_certificate", CERTID)]),
    (68, 0): ([("actions", ("a", LNSEL), None, "x"), ("permissions_table", ("a", "bits")), ("weightings_table", ("a", ("a", "u16"))), ("most_recent_request_table", ("a", "bits")),
               ("last_outcome", "u8", b"\x11\0")], [("request_action", ("s", "u8", "bits")), ("reset", "zero")]),
    (70, 0): ([("output_state", "bool"), ("control_state", "E:0-2"), ("control_mode", "e:0-6")], [("remote_disconnect", "zero"), ("remote_reconnect", "zero")]),
    (71, 0): ([("monitored_value", VALDEF, None, "x"), ("threshold_active", "u16", None, "x"), ("threshold_normal", "u16", None, "x"), ("threshold_emergency", "u16", None, "x"),
               ("min_over_threshold_duration", "u32"), ("min_under_threshold_duration", "u32"), ("emergency_profile", ("s", "u16", "dt", "u32")),
               ("emergency_profile_group_id_list", ("a", "u16")), ("emergency_profile_active", "bool"), ("actions", ("s", LNSEL, LNSEL))], []),
    (100, 0): ([("activated", "bool", b"\x03\0"), ("server_address", "os"), ("server_port", "u16", b"\x12\0\x7b"), ("authentication_method", "E:0-2"),
                ("authentication_keys", ("a", ("s", "u32", "os"))), ("client_key", "os")], [(None, "zero"), (None, ("s", "u32", "os")), (None, "u32")]),
    (40, 2): ([("push_object_list", ("a", PUSHOBJ)), ("send_destination_and_method", ("s", "E:0-8,200-255", "os", "E:0-1,128-255")), ("communication_window", ("a", ("s", "dt", "dt"))),
               ("randomisation_start_interval", "u16"), ("number_of_retries", "u8"), ("repetition_delay", ("s", "u16", "u16", "u16")), ("port_reference", "ln"),
               ("push_client_SAP", "i8"), ("push_protection_parameters", ("a", ("s", "E:0-3", ("s", "os", "os", "os", "os", ("keyinfo",))))), ("push_operation_method", "E:0-2"),
               ("confirmation_parameters", ("s", "dt25", "u32")), ("last_confirmation_date_time", "dt25")], [("push", "zero"), ("reset", "zero")]),
}

NUM = {"u8": ("Unsigned",), "i8": ("Integer",), "u16": ("LongUnsigned",), "i16": ("Long",), "u32": ("DoubleLongUnsigned",), "i32": ("DoubleLong",)}
TAG = {"u8": 17, "i8": 15, "u16": 18, "i16": 16, "u32": 6, "i32": 5, "bool": 3, "os": 9, "ln": 9, "dt": 9, "date": 9, "time": 9, "vs": 10, "modem": 9, "bits": 4, "bits24": 4,
       "dt25": 25, "zero": 15, "class": 18, "null": 0}


def tag(t):
    """expected tag, or None where several are allowed"""
    if isinstance(t, tuple):
        return {"s": 2, "a": 1, "a1": 1, "xname": 9, "name": 2, "name2": 2, "restriction": 2, "keyinfo": 2}[t[0]]
    if t[:2] in ("E:", "e:"):
        return 22
    return TAG.get(t.split(":")[0])


def spans(t):
    """declared codes of an enumeration"""
    return [tuple(map(int, x.split("-"))) for x in t[2:].split(",")]


def octets(b):
    return b"\x09" + axdr.length(len(b)) + b


def gen(rng, t, kind=None):
    """encoding of a value of the type"""
    if isinstance(t, tuple):
        match t[0]:
            case "s":
                return bytes((2, len(t) - 1)) + b"".join(gen(rng, x) for x in t[1:])
            case "a":
                n = rng.choice((0, 1, 2, 3, 5))
                return b"\x01" + axdr.length(n) + b"".join(gen(rng, t[1]) for _ in range(n))
            case "a1":
                n = rng.choice((0, 1, 1))
                return b"\x01" + bytes((n,)) + b"".join(gen(rng, t[1]) for _ in range(n))
            case "name" | "name2":
                k = 1 if t[0] == "name" else 2
                return bytes((2, 7, 17, 2, 17, 16, 18, 2, 0xf4, 17, 5, 17, 8, 17, k)) + gen(rng, t[1])
            case "xname":
                return octets(b"\x60\x85\x74\x05\x08" + bytes((t[1], rng.randint(1, 4) if t[1] == 1 else rng.randint(0, 7))))
            case "restriction":
                k = rng.randrange(3)
                return bytes((2, 2, 22, k)) + (b"\0", gen(rng, ("s", "date", "date")), gen(rng, ("s", "u32", "u32")))[k]
            case "keyinfo":
                k = rng.randrange(3)
                return bytes((2, 2, 22, k)) + (bytes((22, rng.randrange(2))), b"\x02\x02\x16\0" + gen(rng, "os"), gen(rng, ("s", "os", "os")))[k]
    if t[:2] in ("E:", "e:"):
        a, b = rng.choice(spans(t))
        return bytes((22, rng.choice((a, b, rng.randint(a, b)))))
    name, *lim = t.split(":")
    if name in NUM:
        k = NUM[name][0]
        lo, hi = map(int, lim) if lim else axdr.int_range(k)
        tg, w, sg = axdr.INTS[k]
        return bytes((tg,)) + max(lo, min(hi, axdr.edge_int(rng, lo, hi))).to_bytes(w, "big", signed=sg)
    match name:
        case "zero":   return b"\x0f\0"
        case "null":   return b"\0"
        case "bool":   return bytes((3, rng.randrange(2)))
        case "os":     return octets(rng.randbytes(rng.choice((0, 1, 2, 8, 12, 16, 130))))
        case "modem":  return octets(rng.choice((b"OK", b"CONNECT", b"RING", b"NO CARRIER", b"ERROR", b"BUSY", b"NO ANSWER", b"CONNECT 600")))
        case "vs":     return axdr.encode(axdr.gen_simple(rng, "VisibleString", False))
        case "bits":   return axdr.encode(axdr.gen_simple(rng, "BitString", False))
        case "bits24": return b"\x04\x18" + rng.randbytes(3)
        case "ln":     return octets(rng.randbytes(6))
        case "dt":     return octets(axdr.gen_datetime(rng))
        case "dt25":   return b"\x19" + axdr.gen_datetime(rng)
        case "date":   return octets(axdr.gen_date(rng))
        case "time":   return octets(axdr.gen_time(rng))
        case "class":  return b"\x12" + struct.pack(">H", rng.choice((1, 3, 4, 5, 7, 8, 9, 15, 20, 70)))
        case "st":
            return axdr.encode(axdr.gen_simple(rng, kind or "Unsigned", False))
        case "digital":
            return axdr.encode(axdr.gen_simple(rng, kind or rng.choice(("Unsigned", "Long", "DoubleLongUnsigned", "Long64", "Integer")), False))
        case "any":
            return axdr.encode(axdr.gen_simple(rng, kind or rng.choice(axdr.SIMPLE), False))
    raise AssertionError(t)


def other(rng, t):
    """encoding of a value whose outermost type is another one"""
    while True:
        v = axdr.gen_simple(rng, rng.choice(axdr.SIMPLE), False)
        if axdr.TAGS[v[0]] not in (tag(t), 0):
            return axdr.encode(v)


def leaves(t, path=()):
    """paths of the elements of a type with a declared range, set of codes or length, one element of every array"""
    if isinstance(t, tuple):
        if t[0] in ("s", "a", "a1"):
            for k, x in enumerate(t[1:]):
                yield from leaves(x, path + (k,))
    elif t[:2] == "E:" or ":" in t and t[0] in "ui" or t in ("ln", "dt", "date", "time", "zero"):
        yield path


def outside(rng, t, path):
    """encoding of a value with the element of the path outside of what is declared, all the others inside"""
    if path:
        if t[0] == "s":
            return bytes((2, len(t) - 1)) + b"".join(outside(rng, x, path[1:]) if k == path[0] else gen(rng, x) for k, x in enumerate(t[1:]))
        n = 1 if t[0] == "a1" else rng.randint(1, 3)
        at = rng.randrange(n)
        return b"\x01" + bytes((n,)) + b"".join(outside(rng, t[1], path[1:]) if k == at else gen(rng, t[1]) for k in range(n))
    if t == "zero":
        return b"\x0f" + bytes((rng.choice((1, 255, rng.randint(1, 255))),))
    if t[:2] == "E:":
        out = [x for x in range(256) if not any(a <= x <= b for a, b in spans(t))]
        near = [x for a, b in spans(t) for x in (a - 1, b + 1, 255) if x in out] or out
        return out and bytes((22, rng.choice(near + [rng.choice(out)])))
    if ":" in t:
        name, lo, hi = t.split(":")
        lo, hi = int(lo), int(hi)
        tg, w, sg = axdr.INTS[NUM[name][0]]
        a, b = axdr.int_range(NUM[name][0])
        out = [x for x in (lo - 1, hi + 1, a, b, rng.randint(a, b)) if a <= x <= b and not lo <= x <= hi]
        return out and bytes((tg,)) + (out[0] if rng.random() < 0.3 else rng.choice(out[:2]) if rng.random() < 0.7 else rng.choice(out)).to_bytes(w, "big", signed=sg)
    n = {"ln": 6, "dt": 12, "date": 5, "time": 4}[t]
    return octets(rng.randbytes(rng.choice((n - 1, n + 1, n + 6, 1))))


# names of members of the structures: names -> where (class_id, version, a(ttribute) or m(ethod), its number, the way inside of it: * an element, a digit a member)
MEMBERS = {
    'scaler unit': (
        (3, 0, 'a', 3, ''), (4, 0, 'a', 3, ''), (5, 0, 'a', 4, ''),),
    'class_id logical_name': (
        (6, 0, 'a', 2, '*'), (6, 0, 'm', 1, ''),),
    'mask_name index_list': (
        (6, 0, 'a', 3, '*'), (6, 0, 'm', 2, ''),),
    'class_id logical_name attribute_index data_index': (
        (7, 1, 'a', 3, '*'), (7, 1, 'a', 6, ''), (40, 2, 'a', 2, '*5*'),),
    'preset_time validity_interval_start validity_interval_end': (
        (8, 0, 'm', 5, ''),),
    'script_identifier actions': (
        (9, 0, 'a', 2, '*'),),
    'service_id class_id logical_name index parameter': (
        (9, 0, 'a', 2, '*1*'),),
    'index enable script_logical_name script_selector switch_time validity_window exec_weekdays exec_specdays begin_date end_date': (
        (10, 0, 'a', 2, '*'), (10, 0, 'm', 2, ''),),
    'firstIndexA lastIndexA firstIndexB lastIndexB': (
        (10, 0, 'm', 1, ''),),
    'firstIndex lastIndex': (
        (10, 0, 'm', 3, ''),),
    'index specialday_date day_id': (
        (11, 0, 'a', 2, '*'), (11, 0, 'm', 1, ''),),
    'class_id version logical_name access_rights': (
        (15, 0, 'a', 2, '*'), (15, 0, 'm', 3, ''), (15, 0, 'm', 4, ''), (15, 1, 'a', 2, '*'), (15, 1, 'm', 3, ''), (15, 1, 'm', 4, ''),
        (15, 2, 'a', 2, '*'), (15, 2, 'm', 3, ''), (15, 2, 'm', 4, ''),),
    'attribute_access method_access': (
        (15, 0, 'a', 2, '*3'), (15, 0, 'm', 3, '3'), (15, 0, 'm', 4, '3'), (15, 1, 'a', 2, '*3'), (15, 1, 'm', 3, '3'), (15, 1, 'm', 4, '3'),
        (15, 2, 'a', 2, '*3'), (15, 2, 'm', 3, '3'), (15, 2, 'm', 4, '3'),),
    'attribute_id access_mode access_selectors': (
        (15, 0, 'a', 2, '*30*'), (15, 0, 'm', 3, '30*'), (15, 0, 'm', 4, '30*'), (15, 1, 'a', 2, '*30*'), (15, 1, 'm', 3, '30*'),
        (15, 1, 'm', 4, '30*'), (15, 2, 'a', 2, '*30*'), (15, 2, 'm', 3, '30*'), (15, 2, 'm', 4, '30*'),),
    'method_id access_mode': (
        (15, 0, 'a', 2, '*31*'), (15, 0, 'm', 3, '31*'), (15, 0, 'm', 4, '31*'), (15, 1, 'a', 2, '*31*'), (15, 1, 'm', 3, '31*'),
        (15, 1, 'm', 4, '31*'), (15, 2, 'a', 2, '*31*'), (15, 2, 'm', 3, '31*'), (15, 2, 'm', 4, '31*'),),
    'client_SAP server_SAP': (
        (15, 0, 'a', 3, ''), (15, 1, 'a', 3, ''), (15, 2, 'a', 3, ''),),
    'joint_iso_ctt_element country_element country_name_element identified_organization_element DLMS_UA_element application_context_element context_id_element': (
        (15, 0, 'a', 4, ''), (15, 1, 'a', 4, ''), (15, 2, 'a', 4, ''),),
    'conformance max_receive_pdu_size max_send_pdu_size dlms_version_number quality_of_service cyphering_info': (
        (15, 0, 'a', 5, ''), (15, 1, 'a', 5, ''), (15, 2, 'a', 5, ''),),
    'joint_iso_ctt_element country_element country_name_element identified_organization_element DLMS_UA_element authentication_mechanism_name_element mechanism_id_element': (
        (15, 0, 'a', 6, ''), (15, 1, 'a', 6, ''), (15, 2, 'a', 6, ''),),
    'image_to_activate_size image_to_activate_identification image_to_activate_signature': (
        (18, 0, 'a', 7, '*'),),
    'image_identifier image_size': (
        (18, 0, 'm', 1, ''),),
    'image_block_number image_block_value': (
        (18, 0, 'm', 2, ''),),
    'season_profile_name season_start week_name': (
        (20, 0, 'a', 3, '*'), (20, 0, 'a', 7, '*'),),
    'week_profile_name monday tuesday wednesday thursday friday saturday sunday': (
        (20, 0, 'a', 4, '*'), (20, 0, 'a', 8, '*'),),
    'day_id day_schedule': (
        (20, 0, 'a', 5, '*'), (20, 0, 'a', 9, '*'),),
    'start_time script_logical_name script_selector': (
        (20, 0, 'a', 5, '*1*'), (20, 0, 'a', 9, '*1*'),),
    'class_id logical_name attribute_index': (
        (21, 0, 'a', 3, ''), (71, 0, 'a', 2, ''),),
    'action_up action_down': (
        (21, 0, 'a', 4, '*'),),
    'script_logical_name script_selector': (
        (21, 0, 'a', 4, '*0'), (21, 0, 'a', 4, '*1'), (22, 0, 'a', 2, ''), (68, 0, 'a', 2, '*'), (71, 0, 'a', 11, '0'), (71, 0, 'a', 11, '1'),),
    'time date': (
        (22, 0, 'a', 4, '*'),),
    'request response': (
        (27, 0, 'a', 3, '*'),),
    'request response delay_after_response': (
        (27, 1, 'a', 3, '*'),),
    'IP_Option_Type IP_Option_Length IP_Option_Data': (
        (42, 0, 'a', 5, '*'),),
    'default requested': (
        (45, 0, 'a', 4, ''),),
    'precedence delay reliability peak_throughput mean_throughput': (
        (45, 0, 'a', 4, '0'), (45, 0, 'a', 4, '1'),),
    'cell_ID location_ID signal_quality ber': (
        (47, 0, 'a', 6, ''),),
    'cell_ID signal_quality': (
        (47, 0, 'a', 7, '*'), (47, 1, 'a', 7, '*'),),
    'cell_ID location_ID signal_quality ber mcc mnc channel_number': (
        (47, 1, 'a', 6, ''),),
    'key_id key_wrapped': (
        (64, 0, 'm', 2, '*'), (64, 1, 'm', 2, '*'),),
    'certificate_entity certificate_type serial_number issuer subject subject_alt_name': (
        (64, 1, 'a', 6, '*'),),
    'key_id key_data': (
        (64, 1, 'm', 3, '*'),),
    'certificate_identification_type certification_identification_options': (
        (64, 1, 'm', 7, ''), (64, 1, 'm', 8, ''),),
    'request_actor request_action_list': (
        (68, 0, 'm', 1, ''),),
    'emergency_profile_id emergency_activation_time emergency_duration': (
        (71, 0, 'a', 8, ''),),
    'action_over_threshold action_under_threshold': (
        (71, 0, 'a', 11, ''),),
    'key_id key': (
        (100, 0, 'a', 6, '*'), (100, 0, 'm', 2, ''),),
    'class_id logical_name attribute_index data_index restriction column': (
        (40, 2, 'a', 2, '*'),),
    'restriction_type restriction_value': (
        (40, 2, 'a', 2, '*4'),),
    'transport_service destination message': (
        (40, 2, 'a', 3, ''),),
    'start_time end_time': (
        (40, 2, 'a', 4, '*'),),
    'repetition_delay_min repetition_delay_exponent repetition_delay_max': (
        (40, 2, 'a', 7, ''),),
    'protection_type protection_options': (
        (40, 2, 'a', 10, '*'),),
    'transaction_id originator_system_title recipient_system_title other_information key_info': (
        (40, 2, 'a', 10, '*1'),),
    'key_info_type key_info_options': (
        (40, 2, 'a', 10, '*14'),),
    'confirmation_start_date confirmation_interval': (
        (40, 2, 'a', 12, ''),),
}
