"""S24: proofs and verdicts are functions of the arguments alone."""
import random
import re
from . import airs, stark, pmodel, s11, s12, s22, s23, s25
from .. import terms as X
from ..terms import sym, mk, T, TRUE, find, show, fv
from ..front import USIZE
from ..ev import Ev, Undecided
from ..interp import un

META = {
    "level": "proof",
    "hard": ("source:", "static:", "schedule:", "pick:"),
    "explanation": "Information-flow analysis: the summaries of prove, verify, the two Cairo entry points, every method of every "
                   "constraint system, the trace builders and the public-input constructor (returned values, written arguments, "
                   "transcript events, panic conditions) may contain no value read from a clock, the environment, a random "
                   "source, a file, a thread, an address or mutable global state; summaries that iterate over hash maps are "
                   "evaluated under different iteration orders and must not change; operations whose result depends on the "
                   "thread schedule are reported.",
}
FLOOR = 20
SOURCES = [
    ("the clock", r"(^|::)(Instant|SystemTime|UNIX_EPOCH)\b|^(m:)?(elapsed|duration|instant|duration_since)$|(Utc|Local)::now"),
    ("the environment", r"(^|::)env::|^(var|var_os|vars|args_os)$|(^|::)(hostname|process::id|temp_dir|home_dir|current_dir)$"),
    ("a random source", r"thread_rng|from_entropy|OsRng|getrandom|(^|::)rand::|rand::random|(^|::)(StdRng|SmallRng)::from_(entropy|rng)|RandomState|Uuid"),
    ("the file system", r"(^|::)fs::|(^|::)File::|OpenOptions|read_dir|(^|::)Path(Buf)?::.*exists"),
    ("standard input or the network", r"(^|::)stdin$|(^|::)net::|Tcp(Stream|Listener)|UdpSocket"),
    ("the threads of the machine", r"current_num_threads|current_thread_index|available_parallelism|thread::current|(^|::)num_cpus|park_timeout"),
    ("an address", r"^m:(as_ptr|as_mut_ptr|addr|expose_addr)$|ptr::addr_of|(^|::)addr_of"),
    ("global state", r"^m:(lock|try_lock|load|fetch_\w+|compare_exchange\w*|borrow_mut_static)$|^m:with$|(^|::)Atomic\w+::new$|^m:(try_recv|recv)$"),
]
RX = [(n, re.compile(r)) for n, r in SOURCES]
REGS, MEM, PUB = (("adt", q, ()) for q in ("cairo::register_states::RegisterStates", "cairo::cairo_mem::CairoMemory", "cairo::air::PublicInputs"))


class Unit:
    def __init__(s, label, where, terms, ip, crate, ev=None):
        s.label, s.where, s.terms, s.ip, s.crate, s.ev = label, where, [t for t in terms if isinstance(t, T)], ip, crate, ev

    def all(s):
        out = list(s.terms)
        for o in s.ip.obls:
            if o.cond is not TRUE:
                out.append(o.cond)
                out += list(o.facts)
        return out


def source(name):
    for what, r in RX:
        if r.search(name):
            return what
    return None


def calls(t):
    out = set()
    for x in find(t, lambda t: t.op in ("call", "bcall")):
        if isinstance(x.args[0], str):
            out.add((x.args[0], x))
    return out


def sources(ck, u):
    """values from outside the arguments that reach the outcome"""
    hits, n = {}, 0
    for t in u.all():
        for name, x in calls(t):
            n += 1
            w = source(name)
            if name == "m:with" and not find(x, lambda t: t.op == "sym" and str(t.args[0]).startswith("const:") or t.op == "call" and str(t.args[0]).startswith("const:")):
                w = None
            if name.startswith("m:get_or") and find(x, lambda t: t.op == "call" and re.search(r"(OnceLock|OnceCell|Lazy\w*)::new$", str(t.args[0]))):
                # a cell filled once is a constant only if what fills it is
                w = "global state" if any(v.op == "sym" for v in fv(x)) else None
            if w:
                hits.setdefault(w, show(x, maxd=5)[:160])
    for w, d in sorted(hits.items()):
        ck.ob("source:%s:%s" % (u.label, w.split()[-1]), False, "the outcome depends on %s: %s" % (w, d), u.where)
    if not hits:
        ck.ob("source:%s" % u.label, True, "%d values, %d opaque calls, none from outside" % (len(u.all()), n), u.where)


def hashed(u):
    """does the unit touch a hash map: an operation that makes one, or a field declared as one"""
    names = u.crate.__dict__.get("_maps")
    if names is None:
        names = set()
        for q, (item, _) in u.crate.structs.items():
            for f in item.get("f") or []:
                n = f["n"] or ""
                try:
                    ty = u.crate.field_ty(("adt", q, ()), n)
                except Exception:
                    continue
                if ty and ty[0] in ("map", "set"):
                    names.add(n)
        u.crate._maps = names

    def m(t):
        if t.op in ("entries", "mapfrom", "setfrom", "mapnew", "setnew", "mapins", "setins", "mapext"):
            return True
        return t.op == "field" and t.args[1] in names
    return any(find(t, m) for t in u.terms)


def picks(u):
    """one element of a hash map taken by its position in the iteration order"""
    def isset(ty):
        return bool(ty) and (ty[0] == "map" and str(ty[3:4]).find("Hash") >= 0 or ty[0] == "set" and str(ty[2:3]).find("Hash") >= 0)

    def base(t):
        if t.op == "entries":
            t = t.args[0]
        return isinstance(t, T) and t.op in ("sym", "field", "idx", "payload") and isset(X.type_hook(t))

    def m(t):
        return t.op == "idx" and isinstance(t.args[1], T) and not find(t.args[1], lambda x: x.op == "bv") and isinstance(t.args[0], T) and base(t.args[0])
    out = {}
    for t in u.all():
        for x in find(t, m):
            out[show(x, maxd=5)[:120]] = x
    return sorted(out)


def orders(ck, u):
    """the outcome under different iteration orders of the hash maps"""
    key = "order:%s" % u.label
    p = picks(u)
    if p:
        return ck.ob("pick:%s" % u.label, False, "the outcome uses %s: an element of a hash map chosen by the iteration order" % p[0], u.where)
    if not hashed(u):
        return ck.ob(key, True, "no map is iterated over", u.where)
    bad, und, good = "", "", 0
    for i in range(16 if ck.thorough else 6):
        try:
            vals = []
            for h in range(4):
                e = u.ev(i) if u.ev else Ev("s24.%s.%d" % (u.label, i), u.crate, [("FELT_BYTES", 32)])
                e.hashseed = "order%d" % h
                vals.append([e.ck(e.ev(t)) if t.op != "tr" else None for t in u.terms])
        except (Undecided, RecursionError) as x:
            und = str(x)
            continue
        good += 1
        for h in range(1, 4):
            if vals[h] != vals[0] and not bad:
                k = next(k for k in range(len(u.terms)) if vals[h][k] != vals[0][k])
                bad = "instance %d: two iteration orders give %s" % (i, " | ".join(str(x)[:150] for x in pmodel.diff(vals[0][k], vals[h][k])))
    ck.ob(key, False if bad else True if good else None, bad or und or "the same in %d instances under 4 orders" % good, u.where)


# ---------------------------------------------------------------- what is analysed
def protocol(ck, out, features=(), debug=False, tag=""):
    where = "starks::prover::prove"

    def p():
        s = stark.prover(ck, features=features, debug=debug)
        m = [m for _, m in pmodel.instances(ck, s.crate)]
        out.append(Unit("prove" + tag, where, [s.raw] + list(s.trs), s.ip, s.crate, m and (lambda i: m[i % len(m)].ev(s.trs))))

    def v():
        s = stark.verifier(ck, features=features, debug=debug)
        out.append(Unit("verify" + tag, "starks::verifier::verify", [s.raw] + list(s.trs), s.ip, s.crate))
    ck.guarded("prove" + tag, p, where)
    ck.guarded("verify" + tag, v, "starks::verifier::verify")


def entries(ck, out):
    c = ck.crate(spec=("verifier",))
    for q, inner in (("cairo::air::generate_cairo_proof", "starks::prover::prove"), ("cairo::air::verify_cairo_proof", "starks::verifier::verify")):
        def one():
            def h(ip, a, fn):
                return mk("call", inner.split("::")[-1], *[ip.freeze(ip.deref(x)) for x in a])
            v, ip, cells = ck.run(c, q, {}, hooks={inner: h})
            out.append(Unit(q.split("::")[-1], q, [v] + list(cells.values()), ip, c))
        ck.guarded(q.split("::")[-1], one, q)


def systems(ck, out):
    for name in airs.AIRS:
        def one():
            ks = airs.cases(ck, name)
            pub = X.sym_type(sym("arg1"))
            for k in ks:
                own = {g.name for g in k.c.fns if g.qual.rsplit("::", 1)[0] == k.qual and g.impl and g.impl.get("tr") is not None}
                for g in list(k.c.fns):
                    at = g.qual.rsplit("::", 1)[0]
                    if at == "starks::traits::AIR":
                        if g.name in own or not g.item.get("b"):
                            continue        # a method of the trait that this system does not define itself
                    elif at != k.qual or not g.impl or g.impl.get("tr") is None:
                        continue
                    label = "%s:%s" % (k.label, g.name)

                    def meth():
                        sym("arg1", pub)        # other methods may have used the name
                        args = {"#": [k.air]}
                        ev = None
                        if g.name == "boundary_constraints":
                            args = {"#": [k.air, sym("rap", s11.RAP) if name == "cairo" else sym("rap")]}
                        if g.name == "new":
                            args = {"#": [sym("n", USIZE), None, sym("options", airs.OPTIONS)]}
                        elif g.name == "compute_transition":
                            fr = k.frame()
                            args = {"#": [k.air, fr[0], sym("rap", k.rap_type(g))]}
                        elif g.name == "build_auxiliary_trace":
                            args = {"#": [k.air, sym("main", s11.TRACE), sym("rap", s11.RAP) if name == "cairo" else None]}
                        elif g.name == "build_rap_challenges":
                            args = {"#": [k.air]}
                        hooks = stark.hooks(ck, k.c) if g.name == "build_rap_challenges" else None
                        v, ip, cells = ck.run(k.c, g, args, hooks=hooks)
                        if name == "cairo":
                            def ev(i, k=k):
                                return s11.evaluator("s24.%s" % ck.seed, i, k.rc, k.c)[0]
                        out.append(Unit(label, g.qual, [v] + [cells[n] for n in cells if isinstance(n, str)], ip, k.c, ev))
                    ck.guarded(label, meth, g.qual)
        ck.guarded(name, one, airs.AIRS[name])


def builders(ck, out):
    c = ck.crate(spec=("cairo",))

    def execution():
        q = s23.EXEC
        v, ip, cells = ck.run(c, q, {"#": [sym("arg0", REGS), sym("arg1", MEM), sym("arg2", PUB)]})
        out.append(Unit("execution trace", q, [v], ip, c, lambda i: s12.evaluator("s24.%s" % ck.seed, i, i % 2, c)[0]))

    def main():
        q = s23.BUILD
        tr = sym("main", s23.TRACE)
        v, ip, cells = ck.run(c, q, {"#": [sym("regs", REGS), sym("mem", MEM), sym("public", PUB)]}, hooks={s23.EXEC: lambda ip, a, f: tr})
        out.append(Unit("main trace", q, [v, cells[2]], ip, c, lambda i: s23.evaluator("s24.%s" % ck.seed, i, 34, c)[0]))

    def public():
        q = s25.NEW
        t = c.field_ty(("adt", "cairo::air::PublicInputs", ()), "memory_segments")
        v, ip, _ = ck.run(c, q, {"#": [sym("regs", REGS), sym("mem", MEM), sym("size", USIZE), sym("seg", t)]})
        out.append(Unit("public inputs", q, [v], ip, c, lambda i: s25.evaluator("s24.%s" % ck.seed, i, c)[0]))
    ck.guarded("execution trace", execution, s23.EXEC)
    ck.guarded("main trace", main, s23.BUILD)
    ck.guarded("public inputs", public, s25.NEW)


def samplers(ck, out):
    c = ck.crate()
    for q in stark.SAMPLERS:
        def one():
            v, ip, cells = ck.run(c, q, {})
            out.append(Unit(q.split("::")[-1], q, [v] + list(cells.values()), ip, c))
        ck.guarded(q, one, q)


def statics(ck, quals):
    """mutable statics read by the analysed functions"""
    hits, n = [], 0
    for feats in ((), ("parallel", "instruments")):
        c = ck.crate(features=feats)
        muts = {}
        for path, m in c.mods.items():
            for it in m.items:
                if it["k"] == "static" and it.get("mut"):
                    muts[it["n"]] = path
        if not muts:
            continue
        for f in c.fns:
            if f.qual in quals:
                n += 1
                for name in sorted(muts.keys() & s22.names_in(s22.strip(f.item, c), set())):
                    hits.append((f.qual, name))
    for q, name in sorted(set(hits)):
        ck.ob("static:%s:%s" % (q, name), False, "uses the mutable static %s" % name, q)
    if not hits:
        ck.ob("static:none", True, "no mutable static is used by the %d functions analysed" % len(quals))


class Judge:
    """units are judged as they are made: the types of their symbols are those of the last run"""

    def __init__(s, ck):
        s.ck = ck

    def append(s, u):
        s.ck.guarded("source:" + u.label, lambda: sources(s.ck, u), u.where)
        s.ck.guarded("order:" + u.label, lambda: orders(s.ck, u), u.where)


def check(ck):
    out = Judge(ck)
    protocol(ck, out)
    protocol(ck, out, ("parallel", "instruments"), True, " (parallel, instruments, debug)")
    entries(ck, out)
    samplers(ck, out)
    systems(ck, out)
    builders(ck, out)
    ck.guarded("static", lambda: statics(ck, set(ck.analysed)))
    ck.guarded("schedule", lambda: s22.racy(ck, ck.crate(features=("parallel",))))
