"""S17: security presets and checked constructors."""
from .. import terms as X
from ..terms import sym, mk, isv, ite, assume, TRUE, FALSE, ival, field, show, enum, payload

META = {
    "level": "proof",
    "explanation": "The value-flow summary of each checking constructor (every path, as one guarded value over all option "
                   "values) is compared by value numbering with the reference constructor in /verif/spec/options.rs: same "
                   "guard, same error, same returned fields.  The preset table is evaluated per variant and its claimed bits "
                   "compared with the level in the variant's name.",
}
FLOOR = 8


def near(i):
    """interpretations around the decision boundary"""
    b = [0, 1, 2, 4, 8, 16, 2, 4, 8, 1, 32, 6][i % 12]
    q = [0, 1, 5, 31, 27, 10, 3, 55, 20, 2, 7, 9][i % 12]
    g = [0, 1, 20, 20, 0, 7, 3, 20, 16, 5, 2, 9][i % 12]
    tz = (b & -b).bit_length() - 1 if b else 0
    half = (i // 12) % 2
    c = g + (tz * q // 2 if half else tz * q)
    t = max(0, min(255, c - 2 + (i * 7 // 3) % 4))
    fb = 252 if i % 5 else t + 39 + i % 4
    return [("blowup_factor|arg0", b), ("fri_number_of_queries|arg1", q), ("grinding_factor|arg3", g),
            ("security_target|arg4", t), ("FIELD_BITS", fb)]


PRESETS = {"Conjecturable80Bits": (80, 1), "Conjecturable100Bits": (100, 1), "Conjecturable128Bits": (128, 1),
           "Provable80Bits": (80, 2), "Provable100Bits": (100, 2), "Provable128Bits": (128, 2)}


def check(ck):
    c = ck.crate(spec=("options",))
    T = "starks::proof::options::ProofOptions::"

    def ctor(name, spec):
        pos = {"#": [sym("blowup_factor", ("int", "u8")), sym("fri_number_of_queries", ("int", "usize")),
                     sym("coset_offset", ("int", "u64")), sym("grinding_factor", ("int", "u8")),
                     sym("security_target", ("int", "u8"))]}
        a, ip, _ = ck.run(c, T + name, pos)
        b, _, _ = ck.run(c, "spec::options::" + spec, pos)
        ck.equal(name, a, b, c, T + name, n=72, mk_over=near)
        # arithmetic never leaves its range on the way
        for o in ip.obls:
            if o.kind in ("overflow", "underflow", "div", "unwrap", "index") and o.cond is not TRUE:
                ck.ob("%s:%s" % (name, o.kind), False, show(o.cond), o.fn)

    ck.guarded("new_with_checked_security", lambda: ctor("new_with_checked_security", "conjectured"))
    ck.guarded("new_with_checked_provable_security", lambda: ctor("new_with_checked_provable_security", "proven"))

    def presets():
        lvl = sym("security_level", ("adt", "starks::proof::options::SecurityLevel", ()))
        co = sym("coset_offset", ("int", "u64"))
        v, ip, _ = ck.run(c, T + "new_secure", {"#": [lvl, co]})
        en, m = c.enums["starks::proof::options::SecurityLevel"]
        for var in en["n"] and en["v"]:
            n = var["n"]
            r = X.subst(v, {lvl: enum("starks::proof::options::SecurityLevel", n)})
            bl, q, g = (ival(field(r, k)) for k in ("blowup_factor", "fri_number_of_queries", "grinding_factor"))
            if None in (bl, q, g):
                ck.ob("preset:" + n, None, show(r))
                continue
            import re
            mm = re.match(r"(Conjecturable|Provable)(\d+)Bits$", n)
            if not mm:
                ck.ob("preset:" + n, None, "no level in the name")
                continue
            k = (bl & -bl).bit_length() - 1 if bl else 0
            claimed = g + (k * q - 1 if mm.group(1) == "Conjecturable" else k * q // 2)
            ok = claimed >= int(mm.group(2)) and bl and bl & (bl - 1) == 0
            ck.ob("preset:" + n, bool(ok), "blowup %s, queries %s, grinding %s: %s bits" % (bl, q, g, claimed), T + "new_secure")
            ck.equal("preset:%s:coset" % n, field(r, "coset_offset"), co, c, T + "new_secure")
    ck.guarded("presets", presets)
