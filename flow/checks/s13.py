"""S13: instruction words decode bit by bit as the architecture defines."""
from .. import terms as X
from ..terms import sym, INT, TRUE, isv, payload, field, idx, show, And, find, length
from ..front import USIZE, Ctx

META = {
    "level": "proof",
    "explanation": "The value-flow summaries of every decoder (`try_from` of each flag group, `InstructionOffsets::new`) and of the "
                   "trace representations, on a word given by its bits, are compared with the architecture's decoding "
                   "(/verif/spec/decode.rs): acceptance of each group, each variant, each trace bit and each offset depends on "
                   "exactly its own bits.",
}
FLOOR = 20

M = "cairo::decode::instruction_flags::"
# group: (field of CairoInstructionFlags, lowest flag bit, width, variants by value)
GROUPS = {
    "DstReg": ("dst_reg", 0, 1, {"AP": 0, "FP": 1}),
    "Op0Reg": ("op0_reg", 1, 1, {"AP": 0, "FP": 1}),
    "Op1Src": ("op1_src", 2, 3, {"Op0": 0, "Imm": 1, "FP": 2, "AP": 4}),
    "ResLogic": ("res_logic", 5, 2, {"Op1": 0, "Add": 1, "Mul": 2}),
    "PcUpdate": ("pc_update", 7, 3, {"Regular": 0, "Jump": 1, "JumpRel": 2, "Jnz": 4}),
    "ApUpdate": ("ap_update", 10, 2, {"Regular": 0, "Add": 1, "Add1": 2}),
    "CairoOpcode": ("opcode", 12, 3, {"NOp": 0, "Call": 1, "Ret": 2, "AssertEq": 4}),
}


def words(valid):
    """mk_over for `same`: words covering every pattern of every group"""
    import random

    def f(i):
        r = random.Random(1000 + i)
        w = r.getrandbits(48)
        if i % 5 == 0:
            w = sum(r.choice((0, 0x7fff, 0x8000, 0xffff, 1, 0x80, 0xff, 0x100)) << (16 * k) for k in range(3))
        for n, (g, (fl, lo, wd, vs)) in enumerate(GROUPS.items()):
            vals = sorted(set(vs.values())) if valid else list(range(1 << wd))
            w |= vals[(i + n * (i // 8)) % len(vals)] << (48 + lo)
        return [("word", w)]
    return f


def check(ck):
    c = ck.crate(spec=("decode",))
    word = sym("word", ("int", "u64"))
    mem = X.emb(word)
    FN = 48

    def spec(n, *a):
        return ck.run(c, "spec::decode::" + n, {"#": [word] + [INT(k) for k in a]})[0]

    def try_from(t):
        q = M + t + "::try_from"
        return ck.run(c, q, {"#": [mem]})[0], q

    def eq(key, a, b, q, pre=None, valid=False):
        return ck.equal(key, a, b, c, q, n=FN, pre=pre, mk_over=words(valid))

    def group(t):
        fl, lo, wd, vs = GROUPS[t]
        v, q = try_from(t)
        oks = spec("group_ok", lo, wd)
        eq("%s:accepted" % t, isv(v, "Ok"), oks, q)
        p = payload(v, "Ok")
        en = c.enums.get(M + t)
        names = [x["n"] for x in en[0]["v"]] if en else []
        for n, val in vs.items():
            if n not in names:
                ck.ob("%s:%s" % (t, n), None, "no such variant")
                continue
            want = And(*[spec("is_flag", lo + k) if val >> k & 1 else X.negate(spec("is_flag", lo + k)) for k in range(wd)])
            eq("%s:%s" % (t, n), isv(p, n), want, q, pre=[isv(v, "Ok"), oks])
    for t in GROUPS:
        ck.guarded("group:" + t, lambda t=t: group(t))

    def flags():
        v, q = try_from("CairoInstructionFlags")
        oks = And(*[spec("group_ok", lo, wd) for fl, lo, wd, vs in GROUPS.values()])
        eq("flags:accepted", isv(v, "Ok"), oks, q)
        fl = payload(v, "Ok")
        rep, ip, _ = ck.run(c, M + "CairoInstructionFlags::to_trace_representation", {"#": [fl]})
        q = M + "CairoInstructionFlags::to_trace_representation"
        eq("flags:bits", length(rep), INT(16), q)
        for k in range(15):
            eq("flags:bit%d" % k, idx(rep, INT(k)), spec("flag", k), q, pre=[oks], valid=True)
        eq("flags:bit15", idx(rep, INT(15)), X.emb(X.ZERO), q, pre=[oks], valid=True)
    ck.guarded("flags", flags)

    def offsets():
        q = "cairo::decode::instruction_offsets::InstructionOffsets::"
        v, _, _ = ck.run(c, q + "new", {"#": [mem]})
        rep, _, _ = ck.run(c, q + "to_trace_representation", {"#": [v]})
        for k, n in enumerate(("off_dst", "off_op0", "off_op1")):
            eq("offset:%s" % n, field(v, n), spec("offset", k), q + "new")
            eq("offset:trace:%d" % k, idx(rep, INT(k)), spec("raw_offset", k), q + "to_trace_representation")
    ck.guarded("offsets", offsets)
