"""Names: of OBIS codes, enumerations, classes, attributes, elements; of scripts and of captured elements."""
import json
import os
import random
import subprocess
import sys
import tomllib

from .. import axdr, icspec, obisnames, texts as standard
from ..env import REPO

RULE = ("all codes of the standard's tables, every quantity x processing x phase, harmonics, angles and random codes of all groups, in both languages (child process for English); "
        "every element of every enumeration; every class, attribute, method and structure element; random script tables and capture objects. Non-trivial: distinct (kind, code).")
MODULES = ("relation_to_OBIS", "Values", "types.common_data_types", "cosem_interface_classes.cosem_interface_class", "config_parser")


def run(ctx):
    from ..env import load, quiet
    cdt, ut, cst = load("types.common_data_types"), load("types.useful_types"), load("types.cosem_service_types")
    col, rel, exc, ic = load("cosem_interface_classes.collection"), load("relation_to_OBIS"), load("exceptions"), load("cosem_interface_classes.cosem_interface_class")
    settings = load("settings")
    rng = ctx.rng
    n = ctx.n(6000, 150000)
    with open(f"{REPO}/src/DLMS_SPODES/config.toml", "rb") as f:
        conf = tomllib.load(f)["DLMS"]

    # OBIS names
    if hasattr(settings, "set_current_language"):
        env = {k: v for k, v in os.environ.items() if not k.startswith("VK_")}
        r = subprocess.run([sys.executable, obisnames.__file__, str(REPO), "English", str(rng.getrandbits(30)), str(n // 3)], capture_output=True, text=True, timeout=600, env=env)
        res = [k for k in r.stdout.splitlines() if k.startswith("RESULT ")]
        if ctx.check(bool(res), "english-names", "child gave no answer", err=r.stderr[-400:]):
            seen, bad, many = json.loads(res[0][7:])
            ctx.count("names-english", seen)
            for k, c, t in bad:
                ctx.fail("english-" + k, f"{many} in all", code=c, name=t)
    rn = load("Values.RU.relation_to_obis_names")
    codes = set()

    def get_name(ln):
        codes.add(bytes(ln.contents))
        return rel.get_name(ln)
    seen, bad = obisnames.monitor(get_name, lambda code: cst.LogicalName(bytearray(code)), rn, random.Random(rng.getrandbits(40)), n, rn.UNKNOWN, lambda k: str(ut.CosemClassId(k)))
    for k, c, t in bad[:20]:
        ctx.fail("name-" + k, f"{len(bad)} in all", code=c, name=t)
    for c in codes:
        ctx.case(("obis", c))
    ctx.count("names", seen)
    ctx.require("names", 5000)

    # enumerations: text of every element, text back to the element
    def subs(c):
        for s in c.__subclasses__():
            yield s
            yield from subs(s)
    for E in sorted(set(subs(cdt.Enum)), key=lambda c: (c.__module__, c.__name__)):
        if not E.ELEMENTS or "DLMS_SPODES" not in E.__module__:
            continue
        table = {k["e"]: k["v"] for k in conf.get(E.__name__.removesuffix("Const"), []) if isinstance(k, dict) and "e" in k}
        said = dict(standard.rows(standard.ENUMS.get(E.__name__.removesuffix("Const"), "-1 x")))
        flag = issubclass(E, cdt.FlagMixin) or E.__name__ == "Unit"
        texts = []
        tag = E.TAG[0]                 # a few are constrained integers; C40 decides their tags
        for el in E.ELEMENTS:
            v = el if isinstance(el, int) else el[0]
            with ctx.guard("enumeration", enum=E.__name__, element=v):
                x = E(bytes((tag, v)))
                ctx.eq(int(x), v, "element", enum=E.__name__)
                ctx.eq(bytes(x.encoding), bytes((tag, v)), "element-encoding", enum=E.__name__)
                if flag:
                    continue
                t = str(x)
                texts.append(t)
                if v in table:
                    ctx.eq(t, table[v], "text-of-element", enum=E.__name__, element=v)
                else:
                    ctx.check(str(v) in t, "element-without-text", enum=E.__name__, element=v, text=t)
                ctx.eq(bytes(E(t).encoding), bytes((tag, v)), "element-from-text", enum=E.__name__, text=t)
                ctx.eq(x.validate_from(t, len(t)), (t, len(t)), "text-validated", enum=E.__name__, text=t)
                ctx.case(("enum", E.__name__, v))
                if E.__name__.endswith("Const"):
                    ctx.rejects(lambda: x.set(v), "constant-set", exc=(AttributeError, ValueError), enum=E.__name__)
                    continue
                # a change by text, and a refused one
                y = E(None)
                y.set(t)
                ctx.eq(bytes(y.encoding), bytes((tag, v)), "set-by-text", enum=E.__name__, text=t)
                ctx.rejects(lambda: y.set(t + "?"), "unknown-text", enum=E.__name__, text=t)
                ctx.eq(bytes(y.encoding), bytes((tag, v)), "kept-after-refusal", enum=E.__name__, text=t)
                if (k := said.get(v)) is not None:
                    ctx.check(standard.says(t, k) is None, "text-of-the-standard", enum=E.__name__, element=v, text=t, missing=standard.says(t, k))
                    ctx.count("standard-texts")
        ctx.eq(len(set(texts)), len(texts), "texts-of-elements-differ", enum=E.__name__)
        if not flag:
            ctx.eq(sorted(E.get_values()), sorted(texts), "list-of-texts", enum=E.__name__)
            own = {el if isinstance(el, int) else el[0] for el in E.ELEMENTS}
            if E.__name__ != "CommSpeed":
                for v in {rng.randrange(256), max(own) + 1, 255} - own:
                    if v < 256:
                        ctx.rejects(lambda: E(bytes((tag, v))), "element-outside", enum=E.__name__, element=v)
        ctx.count("enumerations")
    ctx.require("enumerations", 30)

    # exactly the elements of the standard are taken
    where = {m.__name__.split(".DLMS_SPODES.", 1)[1]: m for k, m in list(sys.modules.items()) if m is not None and ".DLMS_SPODES." in k and k.startswith("src.")}
    for key, elements in standard.ELEMENTS.items():
        tail, name = key.split(":")
        for mod in (m for k, m in sorted(where.items()) if ("." + k).endswith("." + tail)):
            E = vars(mod).get(name)
            if E is None or elements is None or E.__module__ != mod.__name__:
                continue
            ctx.count("element tables")
            for v in range(256):
                enc = bytes((E.TAG[0], v))
                ctx.case(("element", key, v))
                if v in elements:
                    with ctx.guard("standard-element", enum=key, element=v):
                        ctx.eq(bytes(E(enc).encoding), enc, "standard-element", enum=key, element=v)
                        ctx.eq(int(E(bytearray((v,)))), v, "standard-element-contents", enum=key, element=v)
                else:
                    ctx.rejects(lambda: E(enc), "element-not-of-the-standard", enum=key, element=v)
    ctx.require("element tables", 30)
    ctx.require("standard-texts", 100)
    for code, words in (*((("class", k), w) for k, w in standard.rows(standard.CLASSES)), *((("type", k), w) for k, w in standard.rows(standard.TYPES))):
        t = str(ut.CosemClassId(code[1]) if code[0] == "class" else cdt.TAG(bytes((code[1],))))
        ctx.check(standard.says(t, words) is None, "text-of-the-standard", code=code, text=t, missing=standard.says(t, words))
        ctx.case(code)
    mid = load("obis.media_id")
    for k, words in standard.MEDIA.items():
        t = str(getattr(mid, k)())
        ctx.check(standard.says(t, words) is None, "text-of-the-standard", group=k, text=t, missing=standard.says(t, words))
        ctx.case(("group", k))
    scaled = {k["e"] for k in conf["Unit"] if k.get("scaler")}
    for k, t in standard.UNITS.items():
        if k not in scaled:
            ctx.eq(str(cdt.Unit(bytes((22, k)))).lower().replace(" ", ""), t, "text-of-unit", unit=k)
            ctx.case(("unit", k))

    # classes, attributes, methods, elements of structures
    for k in range(0, 300):
        t = str(ut.CosemClassId(k))
        if str(k) in conf["class_name"]:
            ctx.eq(t, conf["class_name"][str(k)], "class-name", cls=k)
        else:
            ctx.check(str(k) in t, "class-without-name", cls=k, text=t)
        ctx.case(("class", k))
    for (c, v), (attrs, meths) in icspec.CLASSES.items():
        if c == 40:
            continue
        T = col.get_interface_class(col.common_interface_class_map, ut.CosemClassId(c), cdt.Unsigned(v))
        o = T(cst.LogicalName("0.0.1.0.0.255"))
        texts = []
        for i in range(1, len(attrs) + 2):
            el = o.get_attr_element(i)
            ctx.eq(str(el), conf["am_names"].get(el.NAME) or el.NAME, "attribute-name", cls=(c, v), attribute=i)
            if i > 1 and attrs[i - 2][0]:
                ctx.check(hasattr(o, attrs[i - 2][0]), "attribute-accessor", cls=(c, v), attribute=i)
            texts.append(el.NAME)
            ctx.case(("attribute", c, v, i))
        ctx.eq(len(set(texts)), len(texts), "attribute-names-differ", cls=(c, v), names=texts)
        for i in range(1, len(meths) + 1):
            el = o.get_meth_element(i)
            ctx.eq(str(el), conf["am_names"].get(el.NAME) or el.NAME, "method-name", cls=(c, v), method=i)
            ctx.case(("method", c, v, i))
        for bad in (0, len(attrs) + 2, -3):
            ctx.rejects(lambda: o.get_attr_element(bad), "attribute-name-outside", exc=(IndexError, ValueError, exc.DLMSException), cls=(c, v), attribute=bad)
        for bad in (0, len(meths) + 1, -1):
            ctx.rejects(lambda: o.get_meth_element(bad), "method-name-outside", exc=(IndexError, ValueError, exc.DLMSException), cls=(c, v), method=bad)
    for S in sorted(set(subs(cdt.Structure)), key=lambda c: (c.__module__, c.__name__)):
        if "DLMS_SPODES" in S.__module__ and hasattr(S, "ELEMENTS"):
            names = [el.NAME for el in S.ELEMENTS]
            ctx.eq(len(set(names)), len(names), "element-names-differ", struct=S.__name__)
            for el in S.ELEMENTS:
                ctx.eq(str(el), conf["struct_name"].get(el.NAME) or el.NAME, "element-name", struct=S.__name__, element=el.NAME)
                ctx.case(("element", S.__name__, el.NAME))
    for tag in range(256):
        t = str(cdt.TAG(bytes((tag,))))
        ctx.eq(t, conf["type_name"].get(str(tag)) or f"TAG({tag})", "type-name", tag=tag)

    with quiet():
        scripts(ctx, cdt, ut, cst, col, rel, exc)


def scripts(ctx, cdt, ut, cst, col, rel, exc):
    rng = ctx.sub("scripts")
    REF = (ValueError, TypeError, exc.DLMSException)
    CL = ((3, 0), (8, 0), (70, 0), (22, 0), (20, 0), (18, 0), (6, 0))
    for _ in range(ctx.n(60, 900)):
        c = col.Collection()
        objs = {}
        for k in range(rng.randint(2, 5)):
            cl = rng.choice(CL)
            ln = f"0.{k}.{ {3: 96, 8: 1, 70: 96, 22: 15, 20: 13, 18: 44, 6: 14}[cl[0]]}.{ {3: 8, 70: 3}.get(cl[0], 0)}.{ {70: 10}.get(cl[0], 0)}.255"
            try:
                objs[ln] = c.add(class_id=ut.CosemClassId(cl[0]), version=cdt.Unsigned(cl[1]), logical_name=cst.LogicalName(ln)), cl
            except REF:
                continue
        if not objs:
            continue
        t = c.add(class_id=ut.CosemClassId(9), version=cdt.Unsigned(0), logical_name=cst.LogicalName("0.0.10.0.100.255"))
        model, enc = {}, []
        for sid in sorted({rng.choice((0, 1, 0xffff, rng.randrange(65536))) for _k in range(rng.randint(1, 5))}, key=lambda _x: rng.random()):
            acts, names, fate = [], [], None
            for _a in range(rng.choice((0, 1, 1, 2, 4))):
                ln = rng.choice(list(objs))
                o, (cid, ver) = objs[ln]
                attrs, meths = icspec.CLASSES[cid, ver]
                service = rng.choice((1, 2)) if meths else 1
                i = rng.randint(1, len(meths) if service == 2 else len(attrs) + 1)
                kind = rng.choice(("ok",) * 6 + ("param", "class"))
                par = b"\x00" if kind != "param" else b"\x11\x05"
                cls = cid if kind != "class" else rng.choice((cid - 1, cid + 1))
                acts.append(b"\x02\x05" + bytes((22, service)) + b"\x12" + cls.to_bytes(2, "big") + b"\x09\x06" + bytes(map(int, ln.split("."))) + b"\x0f" + bytes((i,)) + par)
                if kind != "ok":
                    fate = "refused"
                names.append(str(o.get_attr_element(i) if service == 1 else o.get_meth_element(i)))
            enc.append(b"\x02\x02\x12" + sid.to_bytes(2, "big") + b"\x01" + bytes((len(acts),)) + b"".join(acts))
            model[sid] = fate or names
        w = dict(objects=[(k, v[1]) for k, v in objs.items()], scripts=model)
        with ctx.guard("scripts", **w):
            t.set_attr(2, b"\x01" + bytes((len(enc),)) + b"".join(enc))
            for sid, want in model.items():
                sel = cdt.LongUnsigned(sid)
                if want == "refused":
                    ctx.rejects(lambda: c.get_script_names(t.logical_name, sel), "script-refused", exc=REF, script=sid, **w)
                else:
                    ctx.eq(c.get_script_names(t.logical_name, sel), ", ".join(want), "script-names", script=sid, **w)
                ctx.case(("script", sid, tuple(want)))
            for sid in {rng.randrange(65536), (max(model) + 1) & 0xffff} - set(model):
                ctx.rejects(lambda: c.get_script_names(t.logical_name, cdt.LongUnsigned(sid)), "script-absent", exc=REF, script=sid, **w)
            o = rng.choice(list(objs.values()))[0]
            ctx.rejects(lambda: c.get_script_names(o.logical_name, cdt.LongUnsigned(1)), "not-a-script-table", exc=REF, **w)
            # actions of an arbitrator are named in their order
            good = [sid for sid, want in model.items() if want != "refused"]
            a = c.add(class_id=ut.CosemClassId(68), version=cdt.Unsigned(0), logical_name=cst.LogicalName("0.0.96.3.20.255"))
            ctx.eq(a.get_action_names(), [], "no-actions", **w)
            if good:
                acts = [rng.choice(good) for _a in range(rng.randint(1, 5))]
                a.set_attr(2, b"\x01" + bytes((len(acts),)) + b"".join(b"\x02\x02\x09\x06\x00\x00\x0a\x00\x64\xff\x12" + sid.to_bytes(2, "big") for sid in acts))
                ctx.eq(a.get_action_names(), [", ".join(model[sid]) for sid in acts], "action-names", actions=acts, **w)
            # captured elements
            for ln, (o, (cid, ver)) in objs.items():
                attrs, _m = icspec.CLASSES[cid, ver]
                i = rng.randint(1, len(attrs) + 1)
                D = o.get_attr_data_type(i)
                if not isinstance(D, type):
                    continue
                els = getattr(D, "ELEMENTS", ()) if issubclass(D, cdt.Structure) else ()
                di = rng.choice((0, rng.randint(0, len(els)), len(els) + 1)) if els else 0
                v = load_def(cid, ln, i, di)
                if di > len(els):
                    ctx.rejects(lambda: c.get_name_and_type(v), "element-outside", exc=REF, ln=ln, attribute=i, element=di)
                    continue
                names, T = c.get_name_and_type(v)
                want = [rel.get_name(o.logical_name), str(o.get_attr_element(i))] + ([els[di - 1].NAME] if di else [])
                ctx.eq(list(map(str, names)), want, "captured-names", ln=ln, attribute=i, element=di)
                ctx.check(T is (els[di - 1].TYPE if di else D), "captured-type", ln=ln, attribute=i, element=di)
                ctx.case(("captured", cid, i, di))
        ctx.count("tables")
    ctx.require("tables", 40)


def load_def(cid, ln, i, di):
    from ..env import load
    s = load("types.implementations.structs")
    return s.CaptureObjectDefinition(b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x09\x06" + bytes(map(int, ln.split("."))) + b"\x0f" + bytes((i,)) + b"\x12" + di.to_bytes(2, "big"))
