"""Loads the syntax trees of /repo's crate, evaluates cfg, resolves modules, names and types."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLOW_REPO", "/repo")
BIN = os.path.join(ROOT, "astdump", "target", "release", "astdump")

INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
UNK = ("unk",)
FELT = ("felt",)
USIZE = ("int", "usize")
BOOL = ("bool",)


def build_tool():
    """Build the AST dumper when it is missing or older than its source."""
    src = os.path.join(ROOT, "astdump", "src", "main.rs")
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= os.path.getmtime(src):
        return
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(ROOT, "astdump"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0 and not os.path.exists(BIN):
        sys.stderr.write(r.stdout.decode())
        raise SystemExit(2)


def load_asts(repo=None):
    repo = repo or REPO
    build_tool()
    files = []
    for d, ds, fs in os.walk(os.path.join(repo, "src")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".rs"):
                files.append(os.path.join(d, f))
    r = subprocess.run([BIN] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        sys.stderr.write(r.stderr.decode())
        raise SystemExit(2)
    j = json.loads(r.stdout)
    return {os.path.relpath(k, repo): v for k, v in j.items()}


def load_file(path):
    build_tool()
    r = subprocess.run([BIN, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        sys.stderr.write(r.stderr.decode())
        raise SystemExit(2)
    return list(json.loads(r.stdout).values())[0]["items"]


class Fn:
    """A function with a body, in its context."""
    __slots__ = ("name", "item", "mod", "impl", "trait", "file", "qual")

    def __init__(s, name, item, mod, impl=None, trait=None):
        s.name, s.item, s.mod, s.impl, s.trait = name, item, mod, impl, trait
        s.file = mod.file
        s.qual = (("::".join(mod.path) + "::") if mod.path else "") + (
            (ty_text(impl["ty"]) + "::") if impl else (trait["n"] + "::" if trait else "")) + name

    @property
    def sig(s):
        return s.item["sig"]

    def __repr__(s):
        return "<fn %s>" % s.qual


class Mod:
    def __init__(s, path, file):
        s.path, s.file = path, file
        s.names = {}     # type/fn/const name -> (kind, item, Mod)
        s.uses = {}      # name -> path list
        s.globs = []
        s.items = []


def ty_text(t):
    if t is None:
        return "()"
    if t["k"] == "path":
        return t["p"][-1]["n"]
    return t["k"]


class Crate:
    """One configuration of the crate."""

    def __init__(s, asts, features=(), debug=False, root="src/lib.rs", flags=()):
        s.asts, s.features, s.debug = asts, set(features), debug
        s.flags = set(flags)
        s.mods = {}
        s.impls = {}       # type name -> list of (impl item, Mod)
        s.trait_impls = {}  # trait name -> list of (impl item, Mod)
        s.fns = []
        s.structs, s.enums, s.traits, s.aliases = {}, {}, {}, {}
        s.missing = []
        if root in asts:
            s._mod([], root, asts[root]["items"], os.path.dirname(root), True)
        s._types = {}

    # ------------------------------------------------ cfg
    def cfg(s, m):
        k = m["k"]
        if k == "flag":
            n = m["n"]
            if n == "test":
                return False
            if n == "debug_assertions":
                return s.debug
            if n in ("overflow_checks",):
                return s.debug
            return n in s.flags
        if k == "nv":
            if m["n"] == "feature":
                return m["v"] in s.features
            if m["n"] == "target_pointer_width":
                return m["v"] == "64"
            return False
        if k == "list":
            xs = [s.cfg(a) for a in m["a"]]
            if m["n"] == "not":
                return not all(xs)
            if m["n"] == "all":
                return all(xs)
            if m["n"] == "any":
                return any(xs)
        return False

    def cfg_expr(s, e):
        """the predicate of a `cfg!` invocation"""
        k = e["k"]
        if k == "path":
            return s.cfg({"k": "flag", "n": e["p"][-1]["n"]})
        if k == "assign" and e["l"]["k"] == "path":
            return s.cfg({"k": "nv", "n": e["l"]["p"][-1]["n"], "v": e["r"].get("v")})
        if k == "call" and e["f"]["k"] == "path":
            n = e["f"]["p"][-1]["n"]
            xs = [s.cfg_expr(x) for x in e["a"]]
            return not all(xs) if n == "not" else any(xs) if n == "any" else n == "all" and all(xs)
        return False

    def on(s, at):
        for a in at or []:
            if a["k"] == "list" and a["n"] == "cfg":
                if not all(s.cfg(x) for x in a["a"]):
                    return False
            if a["k"] == "flag" and a["n"] in ("test",):
                return False
        return True

    # ------------------------------------------------ modules
    def _mod(s, path, file, items, d, is_root=False):
        m = Mod(path, file)
        s.mods[tuple(path)] = m
        for it in items:
            if not s.on(it.get("at")):
                continue
            s._item(m, it, d)
        return m

    def _item(s, m, it, d):
        k = it["k"]
        if k == "mod":
            if it.get("i") is not None:
                s._mod(m.path + [it["n"]], m.file, it["i"], os.path.join(d, it["n"]))
            else:
                for c in (os.path.join(d, it["n"] + ".rs"), os.path.join(d, it["n"], "mod.rs")):
                    if c in s.asts:
                        nd = os.path.join(d, it["n"])
                        s._mod(m.path + [it["n"]], c, s.asts[c]["items"], nd)
                        break
                else:
                    s.missing.append("::".join(m.path + [it["n"]]))
            return
        m.items.append(it)
        if k == "use":
            for u in it["u"]:
                p = u["path"]
                if p and p[-1] == "*":
                    m.globs.append(p[:-1])
                elif u.get("as") == "*":
                    m.globs.append(p)
                else:
                    m.uses[u["as"]] = p
        elif k == "fn":
            f = Fn(it["sig"]["n"], it, m)
            m.names[f.name] = ("fn", f, m)
            s.fns.append(f)
        elif k in ("struct", "enum", "type", "trait", "const", "static"):
            n = it["n"]
            m.names[n] = (k, it, m)
            q = "::".join(m.path + [n])
            {"struct": s.structs, "enum": s.enums, "trait": s.traits, "type": s.aliases}.get(k, {})[q] = (it, m)
            if k == "trait":
                for x in it["i"]:
                    if x["k"] == "fn" and x.get("b"):
                        s.fns.append(Fn(x["sig"]["n"], x, m, trait=it))
        elif k == "impl":
            tn = ty_text(it["ty"])
            s.impls.setdefault(tn, []).append((it, m))
            if it.get("tr"):
                s.trait_impls.setdefault(it["tr"]["p"][-1]["n"] if isinstance(it["tr"], dict) else it["tr"][-1]["n"], []).append((it, m))
            for x in it["i"]:
                if x["k"] == "fn" and s.on(x.get("at")):
                    s.fns.append(Fn(x["sig"]["n"], x, m, impl=it))

    # ------------------------------------------------ names
    def resolve(s, mod, path, depth=0):
        """path (list of names) as seen from mod -> (kind, item, Mod) | ('mod', Mod, Mod) | ('ext', path, None)"""
        if depth > 12:
            return ("ext", path, None)
        if not path:
            return ("ext", path, None)
        h = path[0]
        if h == "crate" or h in ("lambdaworks_stark",):
            return s._walk((), path[1:], path, depth)
        if h == "self":
            return s._walk(tuple(mod.path), path[1:], path, depth)
        if h == "super":
            mp = tuple(mod.path)
            i = 0
            while i < len(path) and path[i] == "super":
                mp = mp[:-1]
                i += 1
            return s._walk(mp, path[i:], path, depth)
        if h in mod.names:
            k, it, m = mod.names[h]
            if len(path) == 1:
                return (k, it, m)
            return ("in", (k, it, m), path[1:])
        if h in mod.uses:
            p = mod.uses[h]
            if p[0] == h and len(p) == 1:
                return ("ext", path, None)
            return s.resolve(mod, list(p) + list(path[1:]), depth + 1)
        if tuple(mod.path) + (h,) in s.mods:
            return s._walk(tuple(mod.path), path, path, depth)
        for g in mod.globs:
            r = s.resolve(mod, list(g) + list(path), depth + 1)
            if r[0] != "ext":
                return r
        if (h,) in s.mods and depth > 0:
            r = s._walk((), path, path, depth)
            if r[0] != "ext":
                return r
        return ("ext", path, None)

    def _walk(s, mp, rest, full, depth):
        m = s.mods.get(mp)
        if m is None:
            return ("ext", full, None)
        if not rest:
            return ("mod", m, m)
        nx = mp + (rest[0],)
        if nx in s.mods:
            return s._walk(nx, rest[1:], full, depth)
        if rest[0] in m.names:
            k, it, mm = m.names[rest[0]]
            if len(rest) == 1:
                return (k, it, mm)
            return ("in", (k, it, mm), rest[1:])
        if rest[0] in m.uses:
            return s.resolve(m, list(m.uses[rest[0]]) + list(rest[1:]), depth + 1)
        for g in m.globs:
            r = s.resolve(m, list(g) + list(rest), depth + 1)
            if r[0] != "ext":
                return r
        return ("ext", full, None)

    def fn(s, qual):
        """find by 'mod::path::name' or 'Type::name'"""
        for f in s.fns:
            if f.qual == qual:
                return f
        c = [f for f in s.fns if f.qual.endswith("::" + qual)]
        if len(c) == 1:
            return c[0]
        c2 = [f for f in c if f.impl is None or f.impl.get("tr") is None]
        if len(c2) == 1:
            return c2[0]
        return None

    def fns_named(s, suffix):
        return [f for f in s.fns if f.qual == suffix or f.qual.endswith("::" + suffix)]

    # ------------------------------------------------ types
    def ty(s, t, ctx):
        """type AST -> type; ctx: Ctx with mod, generics {name: type}, selfty"""
        if t is None:
            return ("tuple", ())
        k = t["k"]
        if k == "tref":
            return s.ty(t["t"], ctx)
        if k == "tslice":
            return ("seq", s.ty(t["t"], ctx), None)
        if k == "tarray":
            n = s.const_int(t["n"], ctx)
            return ("seq", s.ty(t["t"], ctx), n)
        if k == "ttuple":
            return ("tuple", tuple(s.ty(x, ctx) for x in t["a"]))
        if k == "path":
            return s.ty_path(t, ctx)
        if k == "timpl" or k == "tdyn":
            for b in t["b"]:
                if b.get("p") and b["p"][-1]["n"] in ("Iterator", "IntoIterator"):
                    return ("iter",)
                if b.get("p") and b["p"][-1]["n"] in ("Fn", "FnMut", "FnOnce"):
                    return ("fn",)
            return UNK
        return UNK

    def ty_path(s, t, ctx):
        p = t["p"]
        if t.get("qself"):
            q = s.ty(t["qself"], ctx)
            return s.assoc(q, p[-1]["n"], ctx)
        names = [x["n"] for x in p]
        g = [s.ty(x, ctx) for x in (p[-1].get("g") or []) if isinstance(x, dict) and x.get("k") in
             ("path", "tref", "tslice", "tarray", "ttuple", "tinfer", "timpl", "tdyn")]
        n = names[-1]
        if len(names) == 1:
            if n in INTS:
                return ("int", n)
            if n == "bool":
                return BOOL
            if n in ("str", "String"):
                return ("str",)
            if n == "Self" and ctx.selfty is not None:
                return ctx.selfty
            if n in ctx.generics:
                return ctx.generics[n]
        if len(names) == 2 and names[0] == "Self" and ctx.selfty is not None:
            return s.assoc(ctx.selfty, n, ctx)
        if len(names) == 2 and names[0] in ctx.generics:
            return s.assoc(ctx.generics[names[0]], n, ctx)
        r = s.resolve(ctx.mod, names)
        if r[0] in ("struct", "enum"):
            return ("adt", "::".join(r[2].path + [r[1]["n"]]), tuple(g))
        if r[0] == "type":
            it, m = r[1], r[2]
            sub = Ctx(m, {}, None)
            for a, b in zip(generic_names(it.get("g")), g):
                sub.generics[a] = b
            return s.ty(it["t"], sub)
        if r[0] == "ext":
            n = r[1][-1]
        if n in ("Vec", "VecDeque", "Box", "Rc", "Arc", "Cow", "Cell", "RefCell"):
            if n in ("Vec", "VecDeque"):
                return ("seq", g[0] if g else UNK, None)
            return g[0] if g else UNK
        if n in ("FieldElement", "Felt252"):
            return FELT
        if n in ("Polynomial",):
            return ("poly",)
        if n in ("HashMap", "BTreeMap", "IndexMap", "FxHashMap"):
            return ("map", g[0] if g else UNK, g[1] if len(g) > 1 else UNK, n)
        if n in ("HashSet", "BTreeSet"):
            return ("set", g[0] if g else UNK, n)
        if n == "Option":
            return ("adt", "Option", tuple(g) or (UNK,))
        if n == "Result":
            return ("adt", "Result", tuple(g) or (UNK, UNK))
        if n == "Range":
            return ("range", g[0] if g else UNK)
        if len(names) == 1 and len(n) == 1 and n.isupper():
            return ("param", n)
        return ("adt", n, tuple(g))

    def assoc(s, ty, n, ctx):
        if ty[0] == "adt":
            short = ty[1].split("::")[-1]
            for it, m in s.impls.get(short, []):
                for x in it["i"]:
                    if x["k"] == "type" and x["n"] == n:
                        return s.ty(x["t"], Ctx(m, {}, ty))
        if n == "Err" or n == "Error":
            return UNK
        if n == "BaseType":
            return UNK
        return ("adt", "%s::%s" % (ty[1] if len(ty) > 1 and isinstance(ty[1], str) else "?", n), ())

    def const_int(s, e, ctx):
        if e is None:
            return None
        if e["k"] == "int":
            return int(e["v"])
        if e["k"] == "path":
            r = s.resolve(ctx.mod, [x["n"] for x in e["p"]])
            if r[0] == "const":
                return s.const_int(r[1]["e"], Ctx(r[2], {}, None))
        if e["k"] == "bin":
            a, b = s.const_int(e["l"], ctx), s.const_int(e["r"], ctx)
            if a is None or b is None:
                return None
            return {"+": a + b, "-": a - b, "*": a * b}.get(e["op"])
        return None

    def struct_of(s, name):
        return s.structs.get(name)

    def field_ty(s, ty, n):
        if ty[0] == "tuple" and n.isdigit() and int(n) < len(ty[1]):
            return ty[1][int(n)]
        if ty[0] == "range" and n in ("start", "end"):
            return ty[1]
        if ty[0] != "adt":
            return UNK
        r = s.structs.get(ty[1])
        if not r:
            return EXT_FIELDS.get((ty[1], n), UNK)
        it, m = r
        gs = dict(zip(generic_names(it.get("g")), ty[2])) if ty[2] else {}
        for i, f in enumerate(it["f"]):
            if (f["n"] or str(i)) == n:
                return s.ty(f["t"], Ctx(m, gs, ty))
        return UNK


EXT_FIELDS = {("Proof", "merkle_path"): ("seq", ("seq", ("int", "u8"), 32), None),
              ("MerkleTree", "root"): ("seq", ("int", "u8"), 32)}


def generic_names(g):
    out = []
    for x in g or []:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, dict):
            if x.get("lt"):
                continue
            out.append(x.get("n"))
    return out


class Ctx:
    __slots__ = ("mod", "generics", "selfty")

    def __init__(s, mod, generics, selfty):
        s.mod, s.generics, s.selfty = mod, generics, selfty
