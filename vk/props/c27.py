"""Arrays and structures stay well-formed through every history of changes."""
from .. import axdr
from ..core import show

RULE = ("random histories of append/insert/remove/pop/clear/set/set_type and in-place element changes on arrays of random types, mirrored by a plain list of encodings; unique arrays; structures with "
        "member replacement. Non-trivial: distinct (type, operation, model state).")
MODULES = ("types.common_data_types",)
BAD = (ValueError, TypeError, AttributeError, IndexError, OverflowError)


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt
    rng = ctx.sub("array")
    simple = [k for k in axdr.SIMPLE if k != "NullData"]

    def look(x, model, what, **w):
        ctx.eq([bytes(e.encoding) for e in x], model, what, **w)
        ctx.eq(len(x), len(model), what + "-len", **w)
        ctx.eq(bytes(x.encoding), b"\x01" + axdr.length(len(model)) + b"".join(model), what + "-encoding", **w)
        ctx.check(all(type(e) is x.TYPE for e in x), what + "-types", "an element of another type", **w)
        if model:
            i = rng.randrange(len(model))
            ctx.eq(bytes(x[i].encoding), model[i], what + "-item", **w)

    for n in range(ctx.n(1200, 12000)):
        kind = rng.choice(simple)
        T = getattr(cdt, kind)
        deep = rng.random() < 0.3
        if deep:
            T = type("S", (cdt.Structure,), {"__annotations__": {"a": cdt.LongUnsigned, "b": T}})
        unique = rng.random() < 0.4
        A = type("A", (cdt.Array,), {"TYPE": T, "unique": unique})
        few = [None] * 3

        def el():
            s = axdr.gen_simple(rng, kind, False)
            v = axdr.encode(("Structure", [("LongUnsigned", rng.randrange(3)), s]) if deep else s)
            i = rng.randrange(6)
            if i < 3:
                few[i] = few[i] or v
                return few[i]
            return v
        with ctx.guard("array", kind=kind, deep=deep, unique=unique):
            model = []
            for _ in range(rng.randrange(5)):
                e = el()
                if not (unique and e in model):
                    model.append(e)
            x = A(b"\x01" + axdr.length(len(model)) + b"".join(model)) if rng.random() < 0.7 else A([T(e) for e in model])
            look(x, model, "start", kind=kind)
            for name, value in (("TYPE", cdt.NullData), ("values", [])):
                ctx.rejects(lambda: setattr(x, name, value), "array-member-replaced", (ValueError, AttributeError, TypeError), kind=kind, member=name)
            for step in range(12):
                op = rng.choice(("append", "append", "append-raw", "append-bad", "insert", "insert", "remove", "pop", "pop-i", "clear", "set", "set-dup", "in-place", "none", "set_type"))
                before = list(model)
                e = el()
                dup = unique and e in model
                if op in ("append", "append-raw"):
                    arg = T(e) if op == "append" else e
                    if dup:
                        ctx.rejects(lambda: x.append(arg), "duplicate-appended", BAD, kind=kind, element=e)
                    else:
                        x.append(arg)
                        model.append(e)
                elif op == "append-bad":
                    o = rng.choice([k for k in simple if k != kind])
                    bad = axdr.encode(axdr.gen_simple(rng, o, False))
                    ctx.rejects(lambda: x.append(bad), "foreign-element", BAD, kind=kind, element=bad)
                elif op == "insert":
                    i = rng.randrange(len(model) + 1)
                    if dup:
                        ctx.rejects(lambda: x.insert(i, T(e)), "duplicate-inserted", BAD, kind=kind, element=e)
                    else:
                        x.insert(i, T(e))
                        model.insert(i, e)
                elif op == "remove":
                    if model:
                        v = rng.choice(model)
                        x.remove(T(v))
                        model.remove(v)
                    if e not in model:
                        ctx.rejects(lambda: x.remove(T(e)), "remove-absent", BAD, kind=kind)
                elif op == "pop":
                    if model:
                        ctx.eq(bytes(x.pop().encoding), model.pop(), "pop", kind=kind)
                    else:
                        ctx.rejects(lambda: x.pop(), "pop-empty", BAD)
                elif op == "pop-i":
                    if model:
                        i = rng.randrange(-len(model), len(model))
                        ctx.eq(bytes(x.pop(i).encoding), model.pop(i), "pop-index", kind=kind)
                elif op == "clear" and rng.random() < 0.3:
                    x.clear()
                    model = []
                elif op == "set":
                    new = []
                    for _ in range(rng.randrange(5)):
                        v = el()
                        if not (unique and v in new):
                            new.append(v)
                    x.set(b"\x01" + axdr.length(len(new)) + b"".join(new))
                    model = new
                elif op == "set-dup" and unique:
                    bad = b"\x01\x02" + e + e
                    ctx.rejects(lambda: x.set(bad), "duplicates-set", BAD, kind=kind)
                    ctx.rejects(lambda: A(bad), "duplicates-created", BAD, kind=kind)
                elif op == "in-place" and model and not unique:
                    i = rng.randrange(len(model))
                    x[i].set(e)
                    model[i] = e
                elif op == "none" and not deep and kind not in ("Enum",):
                    d = bytes(T().encoding)
                    if not (unique and d in model):
                        x.append()
                        model.append(d)
                elif op == "set_type" and rng.random() < 0.2:
                    x.set_type(T)
                    model = []
                ctx.case(f"{kind}{deep}{unique}/{op}/{b''.join(before).hex()}/{e.hex()}")
                ctx.count(op)
                look(x, model, "after-" + op, kind=kind, deep=deep, unique=unique)

    for n in range(ctx.n(800, 8000)):
        ks = [rng.choice(simple) for _ in range(rng.randrange(1, 11))]
        S = type("S", (cdt.Structure,), {"__annotations__": {f"m{j}": getattr(cdt, k) for j, k in enumerate(ks)}})
        model = [axdr.encode(axdr.gen_simple(rng, k, False)) for k in ks]
        with ctx.guard("structure", kinds=ks):
            x = S(b"\x02" + axdr.length(len(ks)) + b"".join(model))
            for step in range(6):
                i = rng.randrange(len(ks))
                e = axdr.encode(axdr.gen_simple(rng, ks[i], False))
                op = rng.choice(("item", "item-set", "bad-item", "attr", "bad-len", "seq"))
                ctx.case(f"S/{op}/{i}/{b''.join(model).hex()}/{e.hex()}")
                if op == "item":
                    x[i] = getattr(cdt, ks[i])(e)
                    model[i] = e
                elif op == "item-set":
                    getattr(x, f"m{i}").set(e)
                    model[i] = e
                elif op == "bad-item":
                    o = rng.choice([k for k in simple if k != ks[i]])
                    bad = getattr(cdt, o)(axdr.encode(axdr.gen_simple(rng, o, False)))

                    def put():
                        x[i] = bad
                    ctx.rejects(put, "foreign-member", BAD, kinds=ks, index=i)
                elif op == "attr":
                    def attr():
                        setattr(x, f"m{i}", getattr(cdt, ks[i])(e))
                    ctx.rejects(attr, "member-by-name", BAD, kinds=ks)
                elif op == "bad-len":
                    for bad in ([e] * (len(ks) + 1), tuple(model[:-1])):
                        ctx.rejects(lambda: S(type(bad)(bad)), "wrong-number-of-members", BAD, kinds=ks)
                        ctx.rejects(lambda: x.set(bad), "wrong-number-of-members-set", BAD, kinds=ks)
                else:
                    new = [axdr.encode(axdr.gen_simple(rng, k, False)) for k in ks]
                    ctx.eq(bytes(S(tuple(new)).encoding), b"\x02" + axdr.length(len(ks)) + b"".join(new), "from-sequence", kinds=ks)
                    x.set(rng.choice((tuple(new), list(new), b"\x02" + axdr.length(len(ks)) + b"".join(new))))
                    model = new
                ctx.eq([bytes(m.encoding) for m in x.values], model, "members-after-" + op, kinds=ks)
                ctx.eq(bytes(x.encoding), b"\x02" + axdr.length(len(ks)) + b"".join(model), "encoding-after-" + op, kinds=ks)
                ctx.eq(len(x), len(ks), "structure-len")
                for j, k in enumerate(ks):
                    ctx.eq(bytes(getattr(x, f"m{j}").encoding), model[j], "member-name", kinds=ks, index=j)
                    ctx.check(type(x[j]) is getattr(cdt, k), "member-type", kinds=ks, index=j)
    # a member is replaced by a value of its own type only, not by one that looks the same
    for k in simple:
        T = getattr(cdt, k)
        with ctx.guard("same-tag-member", kind=k):
            Sub = type("Sub", (T,), {}, **({"elements": tuple(range(256))} if k == "Enum" else {}))
            S = type("S", (cdt.Structure,), {"__annotations__": {"a": cdt.Unsigned, "b": Sub}})
            e = axdr.encode(axdr.gen_simple(rng, k, False))
            x = S(b"\x02\x02\x11\x01" + e)

            def put():
                x[1] = T(axdr.encode(axdr.gen_simple(rng, k, False)))
            ctx.case(("same-tag", k))
            ctx.rejects(put, "same-tag-member", BAD, kind=k)
            y = Sub(axdr.encode(axdr.gen_simple(rng, k, False)))
            x[1] = y
            ctx.check(x[1] is y, "own-type-member", kind=k)
