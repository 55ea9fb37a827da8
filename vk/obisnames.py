"""What OBIS codes mean, from the Blue Book (chapter 7) and the country-specific standard: code -> key of the text."""

import re

if __package__:
    from . import obistable
else:
    import os
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import obistable
    del sys.path[0]

ABSTRACT = {}


def _t(c, d, text):
    for part in text.split():
        e, k = part.split("=")
        ABSTRACT[c, d, int(e)] = k


_t(0, 2, "0=ACTIVE_FIRMWARE_IDENTIFIER 1=ACTIVE_FIRMWARE_VERSION 8=ACTIVE_FIRMWARE_SIGNATURE")
_t(10, 0, "0=GLOBAL_METER_RESET_SCRIPT_TABLE 1=MDI_RESET_END_OF_BILLING_PERIOD_SCRIPT_TABLE 100=TARIFFICATION_SCRIPT_TABLE 103=SET_OUTPUT_SIGNALS_SCRIPT_TABLE "
          "106=DISCONNECT_CONTROL_SCRIPT_TABLE 107=IMAGE_ACTIVATION_SCRIPT_TABLE 108=PUSH_SCRIPT_TABLE")
_t(15, 0, "0=END_OF_BILLING_PERIOD_SINGLE_ACTION_SCHEDULE 1=DISCONNECT_CONTROL_SINGLE_ACTION_SCHEDULE 2=IMAGE_ACTIVATION_SINGLE_ACTION_SCHEDULE "
          "3=OUTPUT_CONTROL_SINGLE_ACTION_SCHEDULE 4=PUSH_SINGLE_ACTION_SCHEDULE 5=LOAD_PROFILE_CONTROL_SINGLE_ACTION_SCHEDULE "
          "6=M_BUS_PROFILE_CONTROL_SINGLE_ACTION_SCHEDULE 7=FUNCTION_CONTROL_SINGLE_ACTION_SCHEDULE")
_t(17, 0, "0=RU_LIMITER_BY_POWER 1=RU_LIMITER_BY_CURRENT 2=RU_LIMITER_BY_VOLTAGE 3=RU_LIMITER_BY_MAGNETIC 4=RU_LIMITER_BY_DIFFERENCE_CURRENT 5=RU_LIMITER_BY_TEMPERATURE")
_t(96, 1, "0=RU_DEVICE_FACTORY_NUMBER 1=RU_DEVICE_TYPE 2=RU_DEVICE_METROLOGICAL_VERSION 3=RU_PRODUCER_NAME 4=RU_DEVICE_RELEASE_DATE 6=RU_SPODES_VERSION 10=RU_COUNTER_POINT_DATA")
_t(96, 2, "0=NUMBER_OF_CONFIGURATION_PROGRAM_CHANGES 1=DATE_A_OF_LAST_CONFIGURATION_PROGRAM_CHANGE 2=DATE_A_OF_LAST_TIME_SWITCH_PROGRAM_CHANGE "
          "3=DATE_A_OF_LAST_RIPPLE_CONTROL_RECEIVER_PROGRAM_CHANGE 4=STATUS_OF_SECURITY_SWITCHES 5=DATE_A_OF_LAST_CALIBRATION 6=DATE_A_OF_NEXT_CONFIGURATION_PROGRAM_CHANGE "
          "7=DATE_A_OF_ACTIVATION_OF_THE_PASSIVE_CALENDAR 10=NUMBER_OF_PROTECTED_CONFIGURATION_PROGRAM_CHANGES 11=DATE_A_OF_LAST_PROTECTED_CONFIGURATION_PROGRAM_CHANGE "
          "12=DATE_A_CORRECTED_OF_LAST_CLOCK_SYNCHRONIZATION_SETTING 13=DATE_OF_LAST_FIRMWARE_ACTIVATION")
_t(96, 8, "0=TIME_OF_OPERATION")
_t(96, 9, "0=RU_AMBIENT_TEMPERATURE")
_t(96, 11, "0=EVENTS_RELATED_TO_VOLTAGE 1=RU_EVENTS_RELATED_TO_CURRENT 2=RU_EVENTS_RELATED_TO_LOAD_RELAY 3=RU_EVENTS_FOR_PROGRAMMING_DEVICE_PARAMETERS 4=RU_EXTERNAL_IMPACT_EVENTS "
           "5=RU_COMMUNICATION_EVENTS 6=RU_ACCESS_CONTROL_EVENTS 7=RU_EVENT_CODES_FOR_THE_SELF_DIAGNOSIS_LOG 8=RU_EVENTS_FOR_EXCEEDING_THE_REACTIVE_POWER")
_t(96, 12, "6=COMMUNICATION_ADDRESS")
_t(96, 13, "0=LOCAL_CONSUMER_MESSAGE 1=DISPLAY_CONSUMER_MESSAGE")
for _i, _k in enumerate(("METER_OPEN_EVENT", "TERMINAL_COVER_OPEN_EVENT", "TILT_EVENT", "STRONG_DC_MAGNETIC_FIELD_EVENT", "SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT", "METROLOGY_TAMPER_EVENT",
                         "COMMUNICATION_TAMPER_EVENT")):
    _t(96, 20, f"{5 * _i}={_k}_COUNTER {5 * _i + 1}={_k}_TIME_STAMP {5 * _i + 2}={_k}_DURATION {5 * _i + 3}={_k}_CUMULATIVE" + ("" if _i == 1 else "_DURATION"))
_t(99, 98, "0=RU_VOLTAGE_LOG 1=RU_CURRENT_LOG 2=RU_COMMUTATION_LOG 3=RU_DATA_CORRECTION_LOG 4=RU_EXTERNAL_IMPACT_LOG 5=RU_COMMUNICATION_LOG 6=RU_ACCESS_LOG 7=RU_SELF_DIAGNOSTIC_LOG "
           "8=RU_REACTIVE_POWER_LOG 9=RU_QUALITY_POWER_LOG 10=RU_STATUS_I_O_LOG 13=RU_TIME_CORRECTION_LOG")

ELECTRIC0 = {(0, 3, 3): "ACTIVE_ENERGY_OUTPUT_PULSE", (0, 3, 4): "REACTIVE_ENERGY_OUTPUT_PULSE", (0, 4, 2): "TRANSFORMER_RATIO_CURRENT", (0, 4, 3): "TRANSFORMER_RATIO_VOLTAGE",
             (0, 6, 0): "NOMINAL_VOLTAGE", (0, 6, 1): "NOMINAL_CURRENT", (0, 6, 2): "NOMINAL_FREQUENCY", (0, 6, 3): "MAXIMUM_CURRENT", (0, 8, 4): "RECORDING_INTERVAL_1_FOR_LOAD_PROFILE",
             (0, 8, 5): "RECORDING_INTERVAL_2_FOR_LOAD_PROFILE", (0, 2, 0): "ACTIVE_FIRMWARE_IDENTIFIER", (0, 2, 8): "ACTIVE_FIRMWARE_SIGNATURE"}

QUANTITY = ("ACTIVE_POWER_PLUS ACTIVE_POWER_MINUS REACTIVE_POWER_PLUS REACTIVE_POWER_MINUS REACTIVE_POWER_QI REACTIVE_POWER_QII REACTIVE_POWER_QIII REACTIVE_POWER_QIV APPARENT_POWER_PLUS "
            "APPARENT_POWER_MINUS CURRENT VOLTAGE POWER_FACTOR SUPPLY_FREQUENCY ACTIVE_POWER_ABS_PLUS ACTIVE_POWER_ABS_MINUS ACTIVE_POWER_QI ACTIVE_POWER_QII ACTIVE_POWER_QIII ACTIVE_POWER_QIV").split()

PROCESSING = dict(enumerate(
    "BILLING_PERIOD_AVERAGE_SINCE_LAST_RESET CUMULATIVE_MINIMUM_1 CUMULATIVE_MAXIMUM_1 MINIMUM_1 CURRENT_AVERAGE_1 LAST_AVERAGE_1 MAXIMUM_1 INSTANTANEOUS_VALUE TIME_INTEGRAL_1 TIME_INTEGRAL_2 "
    "TIME_INTEGRAL_3 CUMULATIVE_MINIMUM_2 CUMULATIVE_MAXIMUM_2 MINIMUM_2 CURRENT_AVERAGE_2 LAST_AVERAGE_2 MAXIMUM_2 TIME_INTEGRAL_7 TIME_INTEGRAL_8 TIME_INTEGRAL_9 TIME_INTEGRAL_10 "
    "CUMULATIVE_MINIMUM_3 CUMULATIVE_MAXIMUM_3 MINIMUM_3 CURRENT_AVERAGE_3 LAST_AVERAGE_3 MAXIMUM_3 CURRENT_AVERAGE_5 CURRENT_AVERAGE_6 TIME_INTEGRAL_5 TIME_INTEGRAL_6 UNDER_LIMIT_THRESHOLD "
    "UNDER_LIMIT_OCCURRENCE_COUNTER UNDER_LIMIT_DURATION UNDER_LIMIT_MAGNITUDE OVER_LIMIT_THRESHOLD OVER_LIMIT_OCCURRENCE_COUNTER OVER_LIMIT_DURATION OVER_LIMIT_MAGNITUDE MISSING_THRESHOLD "
    "MISSING_OCCURRENCE_COUNTER MISSING_DURATION MISSING_MAGNITUDE TIME_THRESHOLD_FOR_UNDER_LIMIT TIME_THRESHOLD_FOR_OVER_LIMIT TIME_THRESHOLD_FOR_MISSING_MAGNITUDE CONTRACTED_VALUE".split())) | {
    49: "AVERAGE_VALUE_FOR_RECORDING_INTERVAL_1", 50: "AVERAGE_VALUE_FOR_RECORDING_INTERVAL_2", 51: "MINIMUM_FOR_RECORDING_INTERVAL_1", 52: "MINIMUM_FOR_RECORDING_INTERVAL_2",
    53: "MAXIMUM_FOR_RECORDING_INTERVAL_1", 54: "MAXIMUM_FOR_RECORDING_INTERVAL_2", 55: "TEST_AVERAGE", 56: "CURRENT_AVERAGE_4_FOR_HARMONICS_MEASUREMENT", 58: "TIME_INTEGRAL_4"}

HARMONICS = ((124, "THD"), (125, "TDD"), (126, "ALL_HARMONICS"), (127, "ALL_HARMONICS_TO_NOMINAL_VALUE_RATIO"))
ANGLE = {0: "U_L1", 1: "U_L2", 2: "U_L3", 4: "I_L1", 5: "I_L2", 6: "I_L3", 7: "I_L0"}


def monitor(get_name, make, rn, rng, n, unknown, class_name):
    """-> (number of names, list of (kind, code, name)). Judges get_name of logical names of every group."""
    bad, seen = [], 0

    def name(*code):
        nonlocal seen
        seen += 1
        try:
            r = get_name(make(code))
        except Exception as e:                        # any exception is a name not given
            bad.append(("raised", code, repr(e)))
            return ""
        if not isinstance(r, str) or not r.strip():
            bad.append(("empty", code, repr(r)))
            return ""
        return r

    def has(kind, code, text, *keys):
        for k in keys:
            if getattr(rn, k) not in text:
                bad.append((kind, code, f"{text!r} has no {k}"))

    for (c, d, e), k in ABSTRACT.items():
        t = getattr(rn, k)
        r = name(0, 0, c, d, e, 255)
        if r and r != t:
            bad.append(("abstract", (c, d, e), f"{r!r} not {t!r}"))
        b = rng.randrange(1, 256)
        r = name(0, b, c, d, e, rng.randrange(256))
        if r and not (r.startswith(t) and str(b) in r[len(t):]):
            bad.append(("abstract-channel", (b, c, d, e), f"{r!r} not {t!r} and {b}"))
    for (c, d, e), k in ELECTRIC0.items():
        has("electricity-general", (c, d, e), name(1, rng.randrange(3), c, d, e, 255), k)

    # numbering: channel B, instance or rate E
    def suffix_b(b):
        return "" if b == 0 else f", {rn.CHANNEL} {b}" if b <= 64 else f", {rn.UTILITY_SPECIFIC} {b}" if b < 128 else f", {rn.MANUFACTURER_SPECIFIC} {b}" if b < 200 else f", {rn.RESERVED} {b}"

    def suffix_e(e):
        return "" if e == 0 else f", {rn.INSTANCE} {e}" if e < 128 else f", {rn.MANUFACTURER_SPECIFIC} {e}"

    def entries(text):
        t = text.split()
        for i in range(0, len(t), 2):
            yield t[i].split("."), t[i + 1]

    def channels(b):
        return (int(b),) if b != "*" else (0, 1, 2, 64, 65, 127, 128, 199, 200, 255)
    CH = {}
    for (a, b, c, d, e), k in entries(obistable.SINGLE):
        for ch in channels(b):
            want = getattr(rn, k) + (suffix_b(ch) if b == "*" else "")
            code = (int(a), ch, int(c), int(d), int(e))
            if b == "*" and code in CH:
                continue                                 # a channel with a name of its own
            CH[code] = want
            r = name(*code, rng.choice((255, 255, 0)))
            if r and r != want:
                bad.append(("single", code, f"{r!r} not {want!r}"))
    for (a, b, c, d, e), keys in entries(obistable.JOINED):
        for ch in channels(b):
            code = (int(a), ch, int(c), int(d), int(e))
            r = name(*code, 255)
            has("joined", code, r, *keys.split("+"))
            if suffix_b(ch)[2:] not in r:
                bad.append(("joined-channel", code, r))
    for table, text in ((obistable.GROUP, lambda k: getattr(rn, k)), (obistable.CLASS, lambda k: class_name(int(k)))):
        for (a, b, c, d), k in entries(table):
            for ch in channels(b):
                for e in (0, 1, 29, 99, 127, 128, 255) if d == "98" else (6, 77, 128, 255) if c == "17" else (0, 1, 127, 128, 255):
                    code = (int(a), ch, int(c), int(d), e)
                    if code in CH or d == "98" and e < 29:
                        continue
                    r = name(*code, 255)
                    t = text(k)
                    if r and not (r.startswith(t) and r.endswith((suffix_b(ch) if b == "*" else "") + suffix_e(e))):
                        bad.append(("group", code, f"{r!r}: {t!r}, {suffix_b(ch)!r}, {suffix_e(e)!r} expected"))
    for (a, b, c, d, e), k in entries(obistable.CLASS0):
        for ch in channels(b):
            code = (int(a), ch, int(c), int(d), int(e))
            r = name(*code, 255)
            if code not in CH and r and r != class_name(int(k)) + suffix_b(ch):
                bad.append(("class-object", code, r))

    # electricity: quantity, processing, rate or harmonic, channel
    def rate(e):
        return rn.TOTAL if e == 0 else f"{rn.RATE} {e}" if e < 64 else f"{rn.MANUFACTURER_SPECIFIC} {e}" if e < 255 else rn.RESERVED

    def harmonic(e):
        return rn.TOTAL_FUND_ALL if e == 0 else f"{rn.HARMONIC} {e}" if e <= 120 else getattr(rn, dict(HARMONICS)[e]) if e in dict(HARMONICS) else unknown
    proc = {d: getattr(rn, k) for d, k in PROCESSING.items()} | {128: rn.RU_POSITIVE_DEVIATION, 129: rn.RU_NEGATIVE_DEVIATION, 133: rn.RU_TOTAL_DEVIATION_TIME, 134: rn.RU_CHANGE_LIMIT_LEVEL}
    quant = {c: (getattr(rn, QUANTITY[(c - 1) % 20]), *(() if c <= 20 else (getattr(rn, f"L{(c - 1) // 20}"),))) for c in range(1, 81)}
    quant |= {c: (getattr(rn, k),) for c, k in ((88, "CUMULATIVE_AMPERE_SQUARED_HOURS"), (89, "CUMULATIVE_VOLT_SQUARED_HOURS"), (91, "L0_CURRENT_NEUTRAL"), (133, "VOLTAGE_ASYMMETRY_COEFFICIENT"))}
    quant |= {124 + i: (rn.RU_LINEAR_VOLTAGE, getattr(rn, k)) for i, k in enumerate(("L1_L2", "L2_L3", "L3_L1"))}
    quant |= {128 + i: (rn.POWER_REACTIVE_FACTOR, getattr(rn, k)) for i, k in enumerate(("L1", "L2", "L3", "ALL_PHASE"))}
    for c, texts in quant.items():
        for d in (*range(48), *proc, 47, 48, 57, 59, 60, 127, 130, 132, 135, 255):
            for b in (0, rng.choice((1, 63, 64)), rng.choice((65, 127)), rng.choice((128, 199)), rng.choice((200, 255))) if d in (7, 8, 128, 134) else (0,):
                for e in (0, 1, 62, 63, 64, 253, 254, 255) if c not in (11, 12, 91) else (0, 1, 119, 120, 121, 123, 124, 125, 126, 127, 128, 255):
                    if c in (11, 12) and (d, e) == (134, 0) or c == 91 and (d > 127 or d == 7 and e in (131, 132)):
                        continue
                    r = name(1, b, c, d, e, 255)
                    want = list(texts) + ([] if c in (11, 12) and d == 7 else [proc.get(d, unknown)]) + [harmonic(e) if c in (11, 12, 91) else rate(e)] + ([suffix_b(b)[2:]] if b else [])
                    left = r
                    for t in sorted(want, key=len, reverse=True):
                        if t not in left:
                            bad.append(("electricity", (1, b, c, d, e), f"{r!r} has no {t!r}"))
                        left = left.replace(t, " ", 1)
                    if unknown in left or c > 20 and any(re.search(rf"\b{re.escape(t)}\b", left) for t in (rn.CHANNEL, rn.RATE, rn.HARMONIC, rn.RESERVED, rn.L1, rn.L2, rn.L3)):
                        bad.append(("electricity-more", (1, b, c, d, e), f"{r!r}: {left!r} left"))
    for c in (0, *range(82, 88), 90, 92, 93, 95, 96, 97, 100, 123, 127, 132, 134, 135, 136, 138, 146, 149, 200, 255):
        for d in (7, 8, 29, 134):
            r = name(1, 0, c, d, 0, 255)
            if r != unknown:
                bad.append(("not-unknown", (1, 0, c, d, 0), r))
    for e in range(256):
        r = name(1, 0, 81, 7, e, 255)
        if (e >= 78 or e % 10 > 7) and r != unknown:
            bad.append(("angle-unknown", (e,), r))
        if e < 78 and e % 10 < 8 and r == unknown:
            bad.append(("angle-known", (e,), r))
    # reserved values of D
    for c in (1, 2, 10, 11, 12, 13, 14, 15, 17, 21, 22, 40, 42, 43, 44):
        for d in (*range(20, 128, 9), 127, rng.randrange(20, 128)):
            for b, e in ((0, 0), (0, 1), (1, 0), (rng.randrange(65), rng.randrange(256))):
                r = name(0, b, c, d, e, 255)
                if r != unknown:
                    bad.append(("reserved", (0, b, c, d, e), r))
    for b in (0, 2):
        if not re.search(r"\b2\b", name(1, b, 99, 2, 0, 255).replace(suffix_b(b), "")):
            bad.append(("load-profile-2", (1, b, 99, 2, 0), name(1, b, 99, 2, 0, 255)))
    for d in (127, 128, 129, 255):
        if (name(1, 0, 91, d, 0, 255) == unknown) != (d > 127):
            bad.append(("neutral", (1, 0, 91, d, 0), name(1, 0, 91, d, 0, 255)))

    PH = {1: None, 21: "L1", 41: "L2", 61: "L3"}
    for q, k in enumerate(QUANTITY):
        for d, p in PROCESSING.items():
            e, b = rng.choice((0, 1, 4, 63)), rng.choice((0, 0, 1, 2, 64))
            rest = {}
            for base, ph in PH.items():
                if ph is None and q in (10, 11) and (d == 7 or e):
                    continue                              # harmonics of any phase: below
                code = (1, b, base + q, d, e, rng.choice((255, 0, 101)))
                r = name(*code)
                has("quantity", code, r, k, p)
                if b and f"{rn.CHANNEL} {b}" not in r:
                    bad.append(("channel", code, r))
                if e and f"{rn.RATE} {e}" not in r:
                    bad.append(("rate", code, r))
                if ph:
                    has("phase", code, r, ph)
                    for o in set(PH.values()) - {ph, None}:
                        if getattr(rn, o) in r.replace(getattr(rn, k), "").replace(getattr(rn, p), ""):
                            bad.append(("foreign-phase", code, r))
                    rest[ph] = r.replace(getattr(rn, ph), "#", 1)
            if len(set(rest.values())) > 1:
                bad.append(("phases-differ", (q, d, e), repr(rest)))
    for c in (11, 12):
        for h in range(1, 121):
            r = name(1, 0, c, 7, h, 255)
            if f"{rn.HARMONIC} {h}" not in r or getattr(rn, QUANTITY[c - 1]) not in r:
                bad.append(("harmonic", (c, h), r))
        for h, k in HARMONICS:
            has("harmonic", (c, h), name(1, 0, c, 7, h, 255), k)
    for to, a in ANGLE.items():
        for fr, b in ANGLE.items():
            r = name(1, 0, 81, 7, 10 * to + fr, 255)
            i = r.find(getattr(rn, b))
            if to != fr and (i < 0 or r.find(getattr(rn, a), i + 1) < 0):
                bad.append(("angle", (to, fr), r))
    # every code has a name; the name does not depend on the billing period and is the same again
    for _ in range(n):
        a = rng.choice((0, 0, 1, 1, 128, rng.randrange(256)))
        c = rng.choice((0, 1, 10, 15, 40, 96, 99, 81, 94, 128, rng.randrange(256), rng.randrange(256)))
        d = rng.choice((0, 1, 2, 7, 8, 98, rng.randrange(256), rng.randrange(256)))
        code = (a, rng.choice((0, 0, 1, 63, 64, 65, 128, 199, 200, 255, rng.randrange(256))), c, d, rng.choice((0, 1, 2, 10, 63, 64, 100, 127, 128, 255, rng.randrange(256))))
        r = name(*code, 255)
        if name(*code, rng.randrange(255)) != r:
            bad.append(("billing-period-in-name", code, r))
        if a not in (0, 1, 128) and r != unknown:
            bad.append(("name-of-other-medium", code, r))
    return seen, bad


if __name__ == "__main__":           # child: <repo> <language> <seed> <n>
    import importlib.util
    import json
    import random
    import sys
    repo, lang, seed, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo + "/src")
    sp = importlib.util.spec_from_file_location("DLMS_SPODES.settings", repo + "/src/DLMS_SPODES/settings.py")
    st = importlib.util.module_from_spec(sp)
    sys.modules["DLMS_SPODES.settings"] = st
    sp.loader.exec_module(st)
    st.set_current_language(lang)
    from DLMS_SPODES import relation_to_OBIS as r
    from DLMS_SPODES.types import cosem_service_types as cst
    from DLMS_SPODES.types import useful_types as ut
    from DLMS_SPODES.cosem_interface_classes import events
    rn = __import__(f"DLMS_SPODES.Values.{'EN' if lang == 'English' else 'RU'}.relation_to_obis_names", fromlist=["x"])
    seen, bad = monitor(r.get_name, lambda code: cst.LogicalName(bytearray(code)), rn, random.Random(seed), n, rn.UNKNOWN, lambda k: str(ut.CosemClassId(k)))
    ev = __import__(f"DLMS_SPODES.Values.{'EN' if lang == 'English' else 'RU'}.events", fromlist=["x"])
    for i in range(1, 12):
        if getattr(ev, f"VOLTAGE_{i}") not in events.voltage_events.get_report(i):
            bad.append(("event-language", (i,), events.voltage_events.get_report(i)))
    print("RESULT " + json.dumps([seen, [[k, list(c), str(t)] for k, c, t in bad[:20]], len(bad)]))
