"""Obligations, evidence, known findings and the verdict of a check."""
import importlib
import json
import os
import signal
import sys
import threading
import time
import traceback

from . import front
from .front import Crate, Ctx, load_asts, ROOT
from . import terms as X
from .terms import T, sym, mk, show, TRUE, FALSE
from .interp import FOREIGN, Interp, Diverge, TooDeep, Ref, py, generic_names
from .ev import same, Verdict

KNOWN = os.path.join(ROOT, "known_findings.txt")


class OutOfTime(BaseException):
    pass


class Missing(Exception):
    """a function the property is anchored on does not exist any more"""


class Check:
    def __init__(s, prop, tier="quick", seed=1):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.t0 = time.time()
        s.obs = []          # (key, status, detail, where)
        s.analysed = set()
        s.rules = []
        s.extra = {}
        s.asts = load_asts()
        s._crates = {}
        s.floor = 0

    @property
    def thorough(s):
        return s.tier == "thorough"

    # ------------------------------------------------------------ sources
    def crate(s, features=(), debug=False, flags=(), spec=(), main=False):
        k = (tuple(features), debug, tuple(flags), tuple(spec), main)
        if k not in s._crates:
            c = Crate(s.asts, features, debug, flags=flags)
            if main:
                j = s.asts.get("src/main.rs")
                if j:
                    c._mod(["__main__"], "src/main.rs", j["items"], "src")
            for n in spec:
                c._mod(["spec", n], "spec/%s.rs" % n, front.load_file(os.path.join(ROOT, "spec", n + ".rs")), "spec")
            if spec:
                c._mod(["spec"], "spec", [], "spec") if ("spec",) not in c.mods else None
            s._crates[k] = c
        return s._crates[k]

    def fn(s, crate, qual):
        try:
            f = crate.fn(qual)
        except Exception:
            f = None
        if f is None:
            raise Missing(qual)
        return f

    # ------------------------------------------------------------ summaries
    def args(s, crate, f, over=None, ip=None, selfty=None, generics=None):
        """symbolic arguments; &mut parameters become cells, returned by name"""
        over = over or {}
        a, cells = [], {}
        gens = {n: ("param", n) for n in generic_names(f.sig.get("g"))}
        if f.impl:
            for n in generic_names(f.impl.get("g")):
                gens[n] = ("param", n)
        gens.update(generics or {})
        st = selfty or (crate.ty(f.impl["ty"], Ctx(f.mod, gens, None)) if f.impl else ("unk",))
        ctx = Ctx(f.mod, gens, st)
        pos = over.get("#", None)
        for i, p in enumerate(f.sig["in"]):
            if p.get("self"):
                n, t, mut = "self", st, p.get("mut") and p.get("ref")
            else:
                n = p["p"].get("n", "a%d" % i)
                t = crate.ty(p["t"], ctx)
                mut = p["t"]["k"] == "tref" and p["t"]["mut"]
            if pos is not None and i < len(pos) and pos[i] is not None:
                v = pos[i]
            elif n in over:
                v = over[n]
            else:
                v = sym(n if pos is None else "arg%d" % i, t)
            if callable(v) and not isinstance(v, T):
                v = v(t)
            if mut:
                if (n == "transcript" or t == ("transcript",)) and n not in over:
                    v = mk("tr", ())
                c = ip.newcell(v)
                cells[n] = cells[i] = c
                v = py(Ref(c))
            a.append(v)
        return a, cells

    def run(s, crate, qual, over=None, hooks=None, generic_impl=None, overflow=False, generics=None, selfty=None, gens=None, texts=False):
        """value-flow summary of a function: (value, interpreter, cells)"""
        f = s.fn(crate, qual) if isinstance(qual, str) else qual
        ip = Interp(crate, overflow=overflow)
        ip.texts = texts
        ip.casts = [] if getattr(s, "casts", False) else None
        if hooks:
            ip.hooks.update(hooks)
        if generic_impl:
            ip.generic_impl.update(generic_impl)
        a, cells = s.args(crate, f, over, ip, selfty, generics)
        s.analysed.add(f.qual)
        try:
            r = ip.run_fn(f, a, *( [generics, selfty] if generics or selfty else []))
        except Diverge:
            r = mk("bot")
        if isinstance(r, T):
            r = ip.freeze(r)
        out = {n: ip.freeze(ip.deref(ip.store[c])) for n, c in cells.items()}
        s.analysed |= set(ip.seen_fns)
        return r, ip, out

    @staticmethod
    def refusal(e, obls, facts=False):
        """the first panic obligation that fails in interpretation e, None when all hold"""
        def go(o, loops, env):
            if not loops:
                for f in o.facts:
                    if not e.truth(e.ev(X.subst(f, env) if env else f)):
                        return True
                return e.truth(e.ev(X.subst(o.cond, env) if env else o.cond))
            k, n, leaves = loops[-1]
            n = 4096 if n is None else e.integer(e.ev(X.subst(n, env) if env else n))
            for j in range(min(n, 4096)):
                d = dict(env)
                d[k] = X.INT(j)
                if not go(o, loops[:-1], d):
                    return False
                if leaves is not FALSE and e.truth(e.ev(X.subst(leaves, d))):
                    break
            return True
        for o in obls:
            if o.cond is TRUE:
                continue
            if not go(o, o.loops, {}):
                return o
        return None

    # ------------------------------------------------------------ obligations
    def ob(s, key, ok, detail="", where=""):
        """ok: True held / False violated / None not decided"""
        if isinstance(ok, Verdict):
            detail = (ok.how + (": " + ok.detail if ok.detail else "")) + ((" | " + detail) if detail else "")
            ok = ok.same
        s.obs.append((key, ok, str(detail)[:1500], where))
        return ok

    def equal(s, key, code, spec, crate=None, where="", **kw):
        v = same(code, spec, crate, **kw)
        d = ""
        if v.same is False:
            d = "code: %s || required: %s" % (show(code, maxd=14)[:600], show(spec, maxd=14)[:600])
        return s.ob(key, v, d, where)

    def guarded(s, key, f, where=""):
        """run one obligation group; analysis gaps leave it undecided, missing anchors are violations"""
        try:
            return f()
        except Missing as e:
            s.ob("anchor:%s" % e, False, "the function this property is anchored on is missing", str(e))
        except (OutOfTime, KeyboardInterrupt):
            raise
        except (Diverge, TooDeep, RecursionError, Exception) as e:
            tb = traceback.format_exc().splitlines()
            s.ob(key, None, "not decided: %s: %s" % (type(e).__name__, str(e)[:200]), where)
            if os.environ.get("FLOW_TRACE"):
                traceback.print_exc()

    # ------------------------------------------------------------ verdict
    def known(s):
        out = {}
        if os.path.exists(KNOWN):
            for ln in open(KNOWN):
                ln = ln.strip()
                if ln.startswith("known: property=%s key=" % s.prop):
                    k, _, what = ln[len("known: property=%s key=" % s.prop):].partition(" :: ")
                    out[k.strip()] = what
        return out

    def foreign(s):
        """calls in the analysed code that have no model: a difference may be an artefact of the missing model"""
        ok = {"TestTranscript::new", "m:append", "m:challenge", "keccak256", "merkle_build", "merkle_proof", "cmp", "duration", "instant", "py"}
        for c in s._crates.values():
            for it, _ in c.traits.values():
                for x in it["i"]:
                    if x["k"] == "fn":
                        ok |= {x["sig"]["n"], x["sig"]["n"] + ".out"}
        return sorted(n for n in FOREIGN if n not in ok and n.removeprefix("m:") not in ok)

    def finish(s, meta):
        kn = s.known()
        fo = s.foreign()
        if fo:
            s.obs = [(k, None, "depends on calls without a model (%s): %s" % (", ".join(fo)[:200], d), w)
                     if ok is False and k not in kn and not k.startswith(("anchor:",) + tuple(meta.get("hard", ()))) else (k, ok, d, w)
                     for k, ok, d, w in s.obs]
        bad, found, und, good = [], [], [], []
        for key, ok, d, w in s.obs:
            if ok is True:
                good.append(key)
            elif ok is None:
                und.append((key, d))
            elif key in kn:
                found.append((key, d, w))
            else:
                bad.append((key, d, w))
        seen = set()
        for key, d, w in found:
            if key not in seen:
                seen.add(key)
                print("KNOWN-FINDING: property=%s %s: %s" % (s.prop, key, kn[key]))
        for key, d in und:
            print("undecided: %s: %s" % (key, d[:300]))
        print("%s: %d obligations, %d discharged, %d known findings, %d undecided, %d violated (%.1fs)" % (
            s.prop, len(s.obs), len(good), len(found), len(und), len(bad), time.time() - s.t0))
        ev = {
            "property": s.prop, "tier": s.tier, "seed": s.seed, "level": meta["level"],
            "coverage": {
                "obligations": len(s.obs), "discharged": len(good),
                "undecided": len(und), "known_findings": len(found), "violated": len(bad),
                "checker_cmd": "python3 -m flow %s %s" % (s.prop, s.tier),
                "trusted_base": meta.get("trusted", TRUSTED),
                "explanation": meta["explanation"],
                "functions_analysed": len(s.analysed),
                "samples": [{"obligation": k, "status": {True: "discharged", False: "violated", None: "undecided"}[o],
                             "detail": d[:300]} for k, o, d, w in s.obs][:60],
                "functions": sorted(s.analysed)[:120],
            },
            "wall_s": round(time.time() - s.t0, 2),
        }
        ev["coverage"].update(s.extra)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", s.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if bad:
            p = os.path.join(ROOT, "evidence", "%s.violation.json" % s.prop)
            with open(p, "w") as f:
                json.dump([{"key": k, "where": w, "detail": d} for k, d, w in bad], f, indent=1)
            for k, d, w in bad:
                print("violated: %s [%s] %s" % (k, w, d[:800]))
            print("VIOLATION property=%s replay=%s" % (s.prop, p))
            return 1
        return 0


TRUSTED = ("the AST dumper (syn), the value-flow semantics of the Rust subset and the models of the standard library and of "
           "lambdaworks_math/lambdaworks_crypto in /verif/flow, the reference formulas in /verif/flow/checks and /verif/spec")


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("flow.checks." + prop.lower())
    ck = Check(prop, tier, seed)
    limit = 700 if tier == "quick" else 6000

    def alarm(*a):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(os.environ.get("FLOW_LIMIT", limit)))
    try:
        mod.check(ck)
    except OutOfTime:
        ck.ob("time", None, "not decided within the time limit")
    except Missing as e:
        ck.ob("anchor:%s" % e, False, "the function this property is anchored on is missing", str(e))
    except (Diverge, TooDeep, RecursionError, Exception) as e:
        traceback.print_exc()
        ck.ob("internal", None, "not decided: %s: %s" % (type(e).__name__, e))
    signal.alarm(0)
    n = len(ck.obs)
    floor = getattr(mod, "FLOOR", 1)
    if n < floor and not any(o[1] is None for o in ck.obs):
        ck.ob("coverage-floor", False, "only %d obligations were found where at least %d are expected" % (n, floor))
    return ck.finish(mod.META)
