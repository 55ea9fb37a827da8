"""Message templates and configuration look-up."""
import os
import subprocess
import sys

RULE = ("messages of random text with $key$ (known, unknown, non-ASCII), $$ escapes and empty keys, compared with an independent template expander; look-up of every key path of the configuration and of absent ones; "
        "fresh interpreters with generated configuration files. Non-trivial: distinct messages and key paths.")
MODULES = ("config_parser",)

CHILD = """
import sys, io, contextlib, json
sys.path.insert(0, sys.argv[1])
with contextlib.redirect_stdout(io.StringIO()):
    from src.DLMS_SPODES import config_parser as c
print(json.dumps([[c.get_message(m) for m in json.loads(sys.argv[2])], [c.get_values(*p) for p in json.loads(sys.argv[3])]]))
"""


def expand(text, names):
    out, i = "", 0
    while i < len(text):
        if text.startswith("$$", i):
            out += "$"
            i += 2
        elif text[i] == "$":
            j = text.find("$", i + 1)
            key = text[i + 1:] if j < 0 else text[i + 1:j]
            out += names.get(key) or key
            i = len(text) if j < 0 else j + 1
        else:
            out += text[i]
            i += 1
    return out


def run(ctx):
    from src.DLMS_SPODES import config_parser as c
    rng = ctx.sub("messages")
    names = (c.config.get("DLMS") or {}).get("messages") or {}
    known = list(names) or ["or"]
    ctx.count("known-messages", len(names))

    def text(keys):
        parts = []
        for _ in range(rng.randrange(0, 7)):
            m = rng.random()
            if m < 0.35:
                parts.append(f"${rng.choice(keys)}$")
            elif m < 0.45:
                parts.append(f"${rng.choice(('nokey', 'x y', 'ключ', '0', 'or ', 'OR'))}$")
            elif m < 0.6:
                parts.append("$$")
            else:
                parts.append("".join(rng.choice("abz 019().,-–Жя€") for _ in range(rng.randrange(1, 9))))
        return "".join(parts)
    for i in range(ctx.n(6000, 60000)):
        t = text(known)
        ctx.case(t)
        with ctx.guard("message", text=t):
            ctx.eq(c.get_message(t), expand(t, names), "message", text=t)

    # every path of the configuration
    def walk(node, path):
        yield path, node
        if isinstance(node, dict):
            for k, v in node.items():
                yield from walk(v, (*path, k))
    for path, node in walk(c.config, ()):
        if all(isinstance(k, str) for k in path):
            ctx.case(path)
            with ctx.guard("values", path=path):
                ctx.check(c.get_values(*path) == node and c.get_values2(*path) == (node, 0), "values", path=path)
                if isinstance(node, dict):
                    ctx.eq(c.get_values(*path, "absent key"), None, "absent", path=path)
                    ctx.eq(c.get_values2(*path, "absent key"), (".".join((*path, "absent key")), -1), "absent", path=path)
    # other configurations: the file of the working directory comes first
    import json
    from .. import env
    packaged = open(os.path.join(os.path.dirname(c.__file__), "config.toml"), encoding="utf-8").read()
    home = os.getcwd()
    for i in range(ctx.n(4, 24)):
        d = os.path.join(home, f"conf{i}")
        os.makedirs(d, exist_ok=True)
        table = {f"k{j}": rng.choice(("или", "a$b", "x y", "€", "")) for j in range(5)}
        with open(os.path.join(d, "config.toml"), "w", encoding="utf-8") as f:
            head, _, rest = packaged.partition("[DLMS.messages]\n")
            rest = rest[rest.index("\n["):] if "\n[" in rest else ""
            f.write(head + "\n[DLMS.messages]\n" + "".join(f"{k} = {json.dumps(v, ensure_ascii=False)}\n" for k, v in table.items()) + rest + "\n[other.part]\nvalue = %d\n" % i)
        msgs = [text(list(table)) for _ in range(40)]
        paths = [["other", "part", "value"], ["DLMS", "messages", "k1"], ["DLMS", "nothing"], ["nothing"]]
        p = subprocess.run([sys.executable, "-B", "-c", CHILD, env.REPO, json.dumps(msgs), json.dumps(paths)], cwd=d, capture_output=True, text=True, timeout=60)
        ctx.case(("config", tuple(sorted(table.items()))))
        if ctx.check(p.returncode == 0, "config-file", p.stderr[-500:]):
            got, values = json.loads(p.stdout.splitlines()[-1])
            ctx.eq(got, [expand(m, table) for m in msgs], "config-messages", table=table)
            ctx.eq(values, [i, table["k1"], None, None], "config-values", table=table)
    ctx.require("checked:message", 1000)
    ctx.require("checked:values", 100)
