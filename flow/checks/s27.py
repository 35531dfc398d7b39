"""S27: proving an admissible execution never panics, in any build configuration."""
from .. import terms as X
from ..front import USIZE
from ..terms import sym, TRUE
from ..ev import Undecided, En
from . import stark, pmodel, airs, s11, s12, s23, s25

META = {
    "level": "proof",
    "explanation": "Every index, slice, unwrap, division, assertion and (in overflow-checked arithmetic) operation that building "
                   "the traces, building the public inputs and proving can execute is an obligation over the path that reaches "
                   "it. Obligations that do not hold on every path are evaluated in random admissible executions: options and "
                   "constraint systems of several shapes, tables with and without gaps, output and range-check cells; in the "
                   "default, overflow-checked and parallel configurations.",
    "hard": [],
}
FLOOR = 12
PROVE = "starks::prover::prove"
MEMORY = ("adt", "cairo::cairo_mem::CairoMemory", ())
PUBLIC = ("adt", "cairo::air::PublicInputs", ())


def decide(ck, label, where, always, obls, worlds):
    """obligations that may fail, in each world"""
    bad, und, good = {}, {}, {}
    n = 0
    for what, e in worlds:
        n += 1
        for o in obls:
            k = (o.kind, o.fn)
            good.setdefault(k, 0)
            if k in bad:
                continue
            try:
                if ck.refusal(e, [o]) is not None:
                    bad[k] = what
                else:
                    good[k] += 1
            except (Undecided, RecursionError, OverflowError) as x:
                und[k] = str(x)
    for k in sorted(set(good) | set(bad)):
        ck.ob("%s:%s:%s" % (label, k[0], k[1]), False if k in bad else None if k in und or not good[k] else True,
              "fails in %s" % bad[k] if k in bad else und.get(k) or "holds in %d executions" % good[k], k[1])
    ck.ob("%s:always" % label, True, "%d obligations hold on every path, %d evaluated in %d executions" % (always, len(obls), n), where)


def split(obls):
    todo = [o for o in obls if o.cond is not TRUE]
    return len(obls) - len(todo), todo


def prover(ck, tag, feats, debug):
    p = stark.prover(ck, features=feats, debug=debug, overflow=debug)
    obls = stark.obligations(p)
    ws, err, n = [], [], 0
    for i, m in pmodel.instances(ck, p.crate, 5):
        e = m.ev()
        # an error returned for admissible input is no proof either
        ws.append(("instance %d" % i, e))
        try:
            for t in p.trs:
                e.t_tr(t, {})
            r = e.ev(X.mk("tuple", X.isv(p.raw, "Ok")))[0] if p.raw.op != "enum" else p.raw.args[1] == "Ok"
            n += 1
            if not e.truth(r):
                err.append(i)
        except (Undecided, RecursionError, AttributeError) as x:
            ck.extra.setdefault("undecided results", []).append(str(x)[:80])
    decide(ck, "prove" + tag, PROVE, len(p.ip.obls) - len(obls), obls, ws)
    ck.ob("prove%s:result" % tag, False if err else True if n else None,
          "an error is returned in instance %s" % err[:3] if err else "a proof is returned in %d instances" % n, PROVE)


def completed(ck, tag, debug):
    c = ck.crate(debug=debug)
    f = ck.fn(c, s23.BUILD)
    main = sym("main", s23.TRACE)
    calls = []

    def exe(ip, args, fn):
        calls.append(1)
        return main
    _, ip, _ = ck.run(c, f, {"#": [sym("regs", ("adt", "cairo::register_states::RegisterStates", ())), sym("mem", MEMORY),
                                   sym("public", PUBLIC)]}, hooks={s23.EXEC: exe}, overflow=debug)
    if not calls:
        return ck.ob("completed trace" + tag, None, "%s does not call %s" % (s23.BUILD, s23.EXEC), f.qual)
    al, todo = split(ip.obls)
    decide(ck, "completed trace" + tag, f.qual, al, todo,
           [("instance %d" % i, s23.evaluator(ck.seed, i, 43 if i % 4 == 3 else 34, c)[0]) for i in range(100 if ck.thorough else 30)])


def executed(ck, tag, debug):
    c = ck.crate(debug=debug)
    f = ck.fn(c, s23.EXEC)
    _, ip, _ = ck.run(c, f, {"#": [sym("arg0", ("adt", "cairo::register_states::RegisterStates", ())), sym("arg1", MEMORY),
                                   sym("arg2", PUBLIC)]}, overflow=debug)
    al, todo = split(ip.obls)
    decide(ck, "executed trace" + tag, f.qual, al, todo,
           [("instance %d, %s" % (i, "range-check builtin" if rc else "plain"), s12.evaluator(ck.seed, i, rc, c)[0])
            for rc in (False, True) for i in range(60 if ck.thorough else 20)])


def auxiliary(ck, tag, debug):
    f = ck.fn(ck.crate(), airs.CAIRO + "::build_auxiliary_trace")
    for k in airs.cases(ck, "cairo", overflow=debug):
        _, ip, _ = ck.run(k.c, f, {"#": [k.air, sym("main", s11.TRACE), sym("rap", s11.RAP)]}, overflow=debug)
        g = ck.fn(k.c, airs.CAIRO + "::boundary_constraints")
        _, jp, _ = ck.run(k.c, g, {"#": [k.air, sym("rap", s11.RAP)]}, overflow=debug)
        al, todo = split(ip.obls + jp.obls + k.ip.obls)
        ws = []
        for i in range(24 if ck.thorough else 8):
            e, _ = s11.evaluator(ck.seed, i, k.rc, k.c, [
                (r"arg1\.num_steps", 1 + i % 2),
                (r"arg1\.range_check_min", En("Option", "Some", [5])),
                (r"arg1\.range_check_max", En("Option", "Some", [5 + i]))])
            ws.append(("instance %d" % i, e))
        decide(ck, "%s:constraint system%s" % (k.label, tag), f.qual, al, todo, ws)


def public(ck, tag, debug):
    c = ck.crate(debug=debug)
    f = ck.fn(c, s25.NEW)
    t = c.field_ty(("adt", "cairo::air::PublicInputs", ()), "memory_segments")
    _, ip, _ = ck.run(c, f, {"#": [sym("regs", s25.REGS), sym("mem", s25.MEM), sym("size", USIZE), sym("seg", t)]}, overflow=debug)
    al, todo = split(ip.obls)
    decide(ck, "public inputs" + tag, f.qual, al, todo,
           [("instance %d" % i, s25.evaluator(ck.seed, i, c)[0]) for i in range(60 if ck.thorough else 24)])


def check(ck):
    for tag, feats, debug in (("", (), False), (" (overflow checked)", (), True), (" (parallel)", ("parallel",), False)):
        ck.guarded("prove" + tag, lambda: prover(ck, tag, feats, debug), PROVE)
        if not feats:
            ck.guarded("completed trace" + tag, lambda: completed(ck, tag, debug), s23.BUILD)
            ck.guarded("executed trace" + tag, lambda: executed(ck, tag, debug), s23.EXEC)
            ck.guarded("constraint system" + tag, lambda: auxiliary(ck, tag, debug), airs.CAIRO)
            ck.guarded("public inputs" + tag, lambda: public(ck, tag, debug), s25.NEW)
