"""Rust syntax trees of /repo's current sources (through astdump, a thin wrapper around syn)."""
import json, os, re, subprocess, functools, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


class ToolError(Exception):
    """the machinery cannot read or analyse the code: never a violation"""


def sh_env(target):
    return f". /opt/vp/env.sh; export CARGO_TARGET_DIR={BUILD}/{target}; export RUSTFLAGS=; unset RUSTFLAGS; "


def cargo_build(crate):
    """build /verif/<crate> against /repo's working tree; returns (ok, log)"""
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run(
        ["bash", "-c", sh_env(crate) + f"cd {VERIF}/{crate} && cargo build --offline 2>&1"],
        capture_output=True, text=True)
    return p.returncode == 0, p.stdout + p.stderr


@functools.lru_cache(None)
def astdump_bin():
    ok, log = cargo_build("astdump")
    if not ok:
        raise ToolError("astdump does not build: " + log[-2000:])
    return f"{BUILD}/astdump/debug/astdump"


@functools.lru_cache(None)
def load(rel):
    """(source bytes, list of items) of a file of /repo;
    `macro:file:name:arg` is the expansion of the one-rule item macro `name` for `$name` = arg"""
    if rel.startswith("macro:"):
        return load_macro(*rel.split(":")[1:])
    path = os.path.join(REPO, rel)
    try:
        src = open(path, "rb").read()
    except OSError as e:
        raise ToolError(f"{rel}: {e}")
    out = subprocess.run([astdump_bin(), path], capture_output=True, text=True)
    if out.returncode:
        raise ToolError(f"astdump {rel}: {out.stderr[-500:]}")
    d = json.loads(out.stdout)[path]
    if not d["ok"]:
        raise ToolError(f"{rel} does not parse: {d['error']}")
    return src, d["items"]


def load_macro(rel, name, arg):
    src, _ = load(rel)
    t = src.decode()
    m = re.search(r"macro_rules!\s*" + name + r"\s*\{", t)
    if not m:
        raise ToolError(f"anchor lost: no macro {name} in {rel}")
    i = t.index("=>", m.end())
    i = t.index("{", i)
    d = 0
    for j in range(i, len(t)):
        d += {"{": 1, "}": -1}.get(t[j], 0)
        if d == 0:
            break
    if re.search(r"=>", t[j:t.find("macro_rules!", j) if t.find("macro_rules!", j) > 0 else None]):
        raise ToolError(f"{rel}: macro {name} has several rules")
    body = t[i + 1:j]
    if set(re.findall(r"\$(\w+)", body)) != {"name"}:
        raise ToolError(f"{rel}: macro {name} has other fragments")
    body = body.replace("$name", arg)
    with tempfile.NamedTemporaryFile("w", suffix=".rs", delete=False) as f:
        f.write(body)
    try:
        p = subprocess.run([astdump_bin(), f.name], capture_output=True, text=True)
        d = json.loads(p.stdout)[f.name]
    finally:
        os.unlink(f.name)
    if not d["ok"]:
        raise ToolError(f"{rel}: expanded macro does not parse: {d['error']}")
    return body.encode(), d["items"]


def text(src, sp):
    return src[sp[0]:sp[1]].decode()


def path_last(p):
    return p[-1]["id"] if p else ""


def type_name(t):
    return path_last(t["path"]) if t and t.get("k") == "Path" else None


def items_flat(items):
    for it in items:
        yield it
        if it.get("k") == "Mod" and it.get("items") and not it.get("test"):
            yield from items_flat(it["items"])


def find_fn(rel, name):
    """name: `f`, `Type::f` or `Trait for Type::f`"""
    src, items = load(rel)
    tr = None
    if " for " in name:
        tr, name = name.split(" for ")
    if "::" in name:
        ty, fn = name.split("::")
        for it in items_flat(items):
            if it["k"] == "Impl" and type_name(it["ty"]) == ty and ((tr is None and not it["trait"]) or (it["trait"] and path_last(it["trait"]) == tr)):
                for f in it["items"]:
                    if f.get("k") == "Fn" and f["name"] == fn:
                        return src, f, it
            if it["k"] == "Trait" and it["name"] == ty:
                for f in it["items"]:
                    if f.get("k") == "Fn" and f["name"] == fn:
                        return src, f, it
    else:
        for it in items_flat(items):
            if it.get("k") == "Fn" and it["name"] == name:
                return src, it, None
    raise ToolError(f"anchor lost: no function {name} in {rel}")


def find_struct(rel, name):
    src, items = load(rel)
    for it in items_flat(items):
        if it.get("k") in ("Struct", "Enum") and it["name"] == name:
            return src, it
    raise ToolError(f"anchor lost: no type {name} in {rel}")


def find_const(rel, name):
    src, items = load(rel)
    for it in items_flat(items):
        if it.get("k") == "Const" and it["name"] == name:
            return src, it
        if it.get("k") == "Impl":
            for c in it["items"]:
                if c.get("k") == "Const" and c["name"] == name:
                    return src, c
    raise ToolError(f"anchor lost: no constant {name} in {rel}")


def walk(node):
    """all dict nodes, in source order of the dump"""
    if isinstance(node, dict):
        yield node
        for v in node.values():
            yield from walk(v)
    elif isinstance(node, list):
        for v in node:
            yield from walk(v)


TOK = re.compile(r"\s+|[A-Za-z_][A-Za-z0-9_]*|\"(?:[^\"\\]|\\.)*\"|'[A-Za-z_]\w*(?!')|\d[\w.]*|.", re.S)


def tokens(s):
    return [t for t in TOK.findall(s) if not t.isspace()]


def _group(ts, i):
    """ts[i] opens a group; index after its end"""
    cl = {"(": ")", "{": "}", "[": "]"}[ts[i]]
    d = 0
    for j in range(i, len(ts)):
        if ts[j] in "({[":
            d += 1
        elif ts[j] in ")}]":
            d -= 1
            if d == 0:
                if ts[j] != cl:
                    raise ToolError("macro tokens")
                return j + 1
    raise ToolError("macro tokens")


@functools.lru_cache(None)
def expand_items(rel):
    """the items produced by the file's own item macros: `macro_rules!` with one rule whose
    pattern has only `$x:ident` / `$x:ty` / `$x:expr` one-token fragments; expanded textually"""
    src, items = load(rel)
    rules, out = {}, []
    for it in items:
        if it.get("k") != "MacroItem":
            continue
        ts = tokens(it["s"])
        if it["name"] == "macro_rules":
            a = _group(ts, 0)
            if ts[a:a + 2] != ["=", ">"]:
                raise ToolError(f"{rel}: macro {it['id']}")
            b = _group(ts, a + 2)
            if [t for t in ts[b:] if t != ";"]:
                raise ToolError(f"{rel}: macro {it['id']} has several rules")
            rules[it["id"]] = (ts[1:a - 1], ts[a + 3:b - 1])
            continue
        if it["name"] not in rules:
            continue
        pat, body = rules[it["name"]]
        env, i, j = {}, 0, 0
        while i < len(pat):
            if pat[i] == "$" and i + 3 < len(pat) + 1 and pat[i + 2] == ":":
                env[pat[i + 1]] = ts[j]
                i, j = i + 4, j + 1
            elif j < len(ts) and pat[i] == ts[j]:
                i, j = i + 1, j + 1
            else:
                raise ToolError(f"{rel}: macro {it['name']} does not match")
        if j != len(ts) and ts[j:] != [","]:
            raise ToolError(f"{rel}: macro {it['name']} does not match")
        o, i = [], 0
        while i < len(body):
            if body[i] == "$":
                o.append(env[body[i + 1]])
                i += 2
            else:
                o.append(body[i])
                i += 1
        out.append(" ".join(o))
    if not out:
        return []
    with tempfile.NamedTemporaryFile("w", suffix=".rs", delete=False) as f:
        f.write(glue("\n".join(out)))
    try:
        p = subprocess.run([astdump_bin(), f.name], capture_output=True, text=True)
        d = json.loads(p.stdout)[f.name]
    finally:
        os.unlink(f.name)
    if not d["ok"]:
        raise ToolError(f"{rel}: expanded macros do not parse: {d['error']}")
    return d["items"]


def glue(s):
    """re-join the multi-character operators that tokens() split"""
    for op in ("- >", "= >", ": :", "& &", "| |", "= =", "! =", "< =", "> =", "+ =", "- =", "* =", "/ =", ". ."):
        if op == "& &":
            continue
        s = s.replace(op, op.replace(" ", ""))
    return s
