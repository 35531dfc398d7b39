"""S22: build configurations do not change what is proved or verified."""
import json
from . import stark, models, pmodel
from ..ev import Undecided, same
from ..check import Missing
from ..terms import show

META = {
    "level": "proof",
    "hard": ("schedule:",),
    "explanation": "The summaries of prove (every field of the proof, the nonce, every transcript event) and of verify are "
                   "computed in each build configuration and compared with those of the default configuration: identical "
                   "normal form, or equal in random instances; every other function whose body, imports or constants change "
                   "with the configuration is compared by its summary; parallel operations whose result depends on the "
                   "schedule are reported.",
}
FLOOR = 12
CONFIGS = [("parallel", ("parallel",), False), ("instruments", ("instruments",), False), ("debug", (), True),
           ("parallel+instruments+debug", ("parallel", "instruments"), True)]
RACY = {"find_any", "find_map_any", "position_any", "par_bridge", "take_any", "skip_any", "take_any_while", "skip_any_while"}


# ---------------------------------------------------------------- what changes with the configuration
def at_of(x):
    for k in ("at",):
        if x.get(k):
            yield x[k]
    for k in ("e", "i"):
        if isinstance(x.get(k), dict) and x.get("k") in ("expr", "item", "semi") and x[k].get("at"):
            yield x[k]["at"]


def strip(n, c):
    """the tree as compiled in this configuration, without positions"""
    if isinstance(n, dict):
        if n.get("k") == "mac" and n.get("n") == "cfg" and n.get("a"):
            return {"k": "bool", "v": all(c.cfg_expr(x) for x in n["a"])}
        return {k: strip(v, c) for k, v in n.items() if k not in ("ln", "at")}
    if isinstance(n, list):
        return [strip(x, c) for x in n if not (isinstance(x, dict) and not all(c.on(a) for a in at_of(x)))]
    return n


def text(n, c):
    return json.dumps(strip(n, c), sort_keys=True)


def names_in(n, out):
    if isinstance(n, dict):
        for k, v in n.items():
            if k == "path" and isinstance(v, list):
                out.update(x if isinstance(x, str) else x.get("n", "") for x in v if isinstance(x, (str, dict)))
            names_in(v, out)
    elif isinstance(n, list):
        for x in n:
            names_in(x, out)
    elif isinstance(n, str):
        out.add(n)
    return out


def changed(base, c):
    """functions compiled differently, and functions using a name that means something else"""
    b = {}
    for f in base.fns:
        b.setdefault(f.qual, f)
    e = {}
    for f in c.fns:
        e.setdefault(f.qual, f)
    out = {q for q in e if q in b and text(b[q].item, base) != text(e[q].item, c)}
    for q in list(e):
        if q not in b or q in out:
            continue
        mb, me = b[q].mod, e[q].mod
        diff = {n for n in set(mb.uses) | set(me.uses) if mb.uses.get(n) != me.uses.get(n)}

        def items(m, cr):
            return {it["n"]: text(it, cr) for it in m.items if it["k"] in ("const", "static", "macro") and it.get("n")}
        ib, ie = items(mb, base), items(me, c)
        diff |= {n for n in set(ib) | set(ie) if ib.get(n) != ie.get(n)}
        if diff and names_in(e[q].item, set()) & diff:
            out.add(q)
    return sorted(out), sorted(set(e) - set(b)), sorted(set(b) - set(e))


# ---------------------------------------------------------------- comparisons
def prover(ck, name, feats, debug):
    where = "starks::prover::prove"
    a, b = stark.prover(ck), stark.prover(ck, features=feats, debug=debug)
    bad, und, good, ev = {}, {}, {}, None
    fields = sorted(set(a.fields) | set(b.fields))
    for f in fields:
        if f not in a.fields or f not in b.fields:
            bad[f] = "only one configuration has this field"
    for i, m in pmodel.instances(ck, b.crate):
        try:
            ea, eb = m.ev(a.trs), m.ev(b.trs)
            xa, xb = pmodel.events(ea, a.trs), pmodel.events(eb, b.trs)
            if xa != xb:
                ev = False
        except (Undecided, RecursionError) as x:
            und["transcript"] = str(x)
            continue
        ev = True if ev is None else ev
        for f in fields:
            if f in bad:
                continue
            if a.fields[f] is b.fields[f]:
                good[f] = "identical normal form"
                continue
            try:
                x, y = ea.ck(ea.ev(a.fields[f])), eb.ck(eb.ev(b.fields[f]))
            except (Undecided, RecursionError) as e:
                und[f] = str(e)
                continue
            if x != y:
                bad[f] = "instance %d: default %s | %s %s" % ((i, pmodel.diff(x, y)[0], name, pmodel.diff(x, y)[1]))
            else:
                good.setdefault(f, "equal in random instances")
    ck.ob("%s:prove:transcript" % name, ev, und.get("transcript", ""), where)
    for f in fields:
        ck.ob("%s:prove:%s" % (name, f), False if f in bad else None if f in und else f in good or None,
              bad.get(f) or und.get(f) or good.get(f, ""), where)


def verifier(ck, name, feats, debug):
    where = "starks::verifier::verify"
    a, b = stark.verifier(ck), stark.verifier(ck, features=feats, debug=debug)
    key = "%s:verify" % name
    if a.raw is b.raw or (set(a.conjs) == set(b.conjs) and a.conjs):
        return ck.ob(key, True, "identical normal form", where)
    spec = stark.verifier(ck, "spec::verifier::verify")
    n = und = 0
    why = ""
    for i, S in models.solvers(ck, spec, b.crate):
        try:
            m = S.build()
            ms = [("honest model", m)] + [("requirement %s broken" % x[1], S.build(x)) for x in S.atoms(m) if x[0] != "pow2"]
        except (Undecided, RecursionError) as x:
            why = str(x)
            continue
        for what, m in ms:
            try:
                x, y = S.decide(m, a), S.decide(m, b)
            except (Undecided, RecursionError) as x:
                und += 1
                why = str(x)
                continue
            n += 1
            if x != y:
                return ck.ob(key, False, "%s (model %d): default %s, %s %s" % (what, i, x, name, y), where)
        for what, ch in models.deviations():
            try:
                x, y = models.accepts_shape(S, a, ch), models.accepts_shape(S, b, ch)
            except (Undecided, RecursionError, IndexError):
                continue
            n += 1
            if x != y:
                return ck.ob(key, False, "shape %s (model %d): default accepts %s, %s %s" % (what, i, x, name, y), where)
    ck.ob(key, True if n else None, "the same verdict in %d models" % n if n else why, where)


def function(ck, name, feats, debug, q, base, c):
    x, _, cx = ck.run(base, [f for f in base.fns if f.qual == q][0])
    y, _, cy = ck.run(c, [f for f in c.fns if f.qual == q][0])
    key = "%s:fn:%s" % (name, q)
    if x is y and cx == cy:
        return ck.ob(key, True, "identical normal form", q)
    from ..terms import mk
    tx = mk("tuple", x, *[cx[k] for k in sorted(cx, key=str)])
    ty = mk("tuple", y, *[cy[k] for k in sorted(cy, key=str)])
    v = same(tx, ty, c)
    if v.same is False and len(cx) == len(cy):
        # values the instances do not interpret (effects, opaque calls) are not comparable
        return ck.ob(key, v, "default: %s || %s: %s" % (show(tx, maxd=8)[:300], name, show(ty, maxd=8)[:300]), q)
    ck.ob(key, v if v.same else None, v.detail, q)


def racy(ck, c):
    hits = []

    def walk(n, f):
        if isinstance(n, dict):
            if n.get("k") == "mcall" and n.get("m") in RACY:
                hits.append((f, n["m"]))
            for v in n.values():
                walk(v, f)
        elif isinstance(n, list):
            for v in n:
                walk(v, f)
    for f in c.fns:
        walk(strip(f.item, c), f.qual)
    if not hits:
        ck.ob("schedule:none", True, "no operation whose result depends on the schedule in %d functions" % len(c.fns))
    for f, m in hits:
        ck.ob("schedule:%s:%s" % (f, m), False, "`%s` returns whichever item a thread finds first" % m, f)


def check(ck):
    base = ck.crate()
    for name, feats, debug in CONFIGS:
        c = ck.crate(features=feats, debug=debug)
        ck.guarded(name + ":prove", lambda: prover(ck, name, feats, debug), "starks::prover::prove")
        ck.guarded(name + ":verify", lambda: verifier(ck, name, feats, debug), "starks::verifier::verify")
        reach = set(ck.analysed)
        diff, new, gone = changed(base, c)
        ck.extra.setdefault("functions_compiled_differently", {})[name] = diff + ["+" + q for q in new] + ["-" + q for q in gone]
        for q in diff:
            if q not in reach:
                ck.guarded("%s:fn:%s" % (name, q), lambda: function(ck, name, feats, debug, q, base, c), q)
        for q in gone:
            ck.ob("%s:fn:%s" % (name, q), None, "exists only in the default configuration", q)
    ck.guarded("schedule", lambda: racy(ck, ck.crate(features=("parallel",))))
