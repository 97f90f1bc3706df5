"""Which harness, with which concrete sizes, decides which property."""
from engine import Case

TYPES = {  # name -> (C type, DataType constant, is floating)
    "i8": ("int8_t", "kInt8", 0), "u8": ("uint8_t", "kUint8", 0),
    "i16": ("int16_t", "kInt16", 0), "u16": ("uint16_t", "kUint16", 0),
    "i32": ("int32_t", "kInt32", 0), "u32": ("uint32_t", "kUint32", 0),
    "i64": ("int64_t", "kInt64", 0), "u64": ("uint64_t", "kUint64", 0),
    "f32": ("float", "kFloat", 1), "f64": ("double", "kDouble", 1),
}
INTS = [t for t in TYPES if not TYPES[t][2]]


def ty(t):
    c, k, f = TYPES[t]
    return {"VP_T": c, "VP_K": k, "VP_FLT": f}


def arr(d):
    return "{" + ",".join(str(x) for x in d) + "}"


def prod(d):
    r = 1
    for x in d:
        r *= x
    return r


def nm(d):
    return "x".join(str(x) for x in d) if d else "scalar"


def shp(d):
    return {"VP_DIMS": arr(d) if d else "{1}", "VP_ND": len(d), "VP_N": prod(d)}


COMMON_ASSUMPTIONS = [
    "CBMC 6.11 symbolic execution and the SMT/SAT back ends (cvc5 1.1.2, z3 4.8.12, MiniSat) are sound",
    "IEEE-754 binary32/binary64 arithmetic, round to nearest, no fused multiply-add (x86-64 default)",
    "exp, tanh, sqrt, log, pow are uninterpreted functions constrained by facts every libm satisfies; counterexamples are confirmed against the real libm",
    "rand() returns any value of its documented range; time()/srand() are irrelevant to the claim",
    "malloc succeeds except where the property injects failures; repo sources are compiled with malloc/free/calloc/realloc renamed to counting wrappers",
    "every loop is unrolled to the stated bound with unwinding assertions on",
]
PROPS = {}


def prop(pid, cases, symbolic, bounds, outside, **kw):
    PROPS[pid] = dict(cases=cases, symbolic=symbolic, bounds=bounds, outside=outside, **kw)


# ------------------------------------------------------------------ C09 binary arithmetic
OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
cs = []
for t in TYPES:
    for op, sym in OPS.items():
        d = dict(ty(t), VP_FN="aitisa_" + op, VP_OP=sym, VP_DIVIDE=int(op == "div"))
        q = [(2, 3)]
        if t in ("f32", "i64"):
            q += [(), (1, 2, 1, 3)]
        if t == "f32":
            q += [(3, 5, 5)]
        for s in q:
            big = prod(s) > 20
            cs.append(Case("%s-%s-%s" % (op, t, nm(s)), "ew.c", dict(d, **shp(s)), unwind=prod(s) + 12,
                           backends=("cvc5", "z3", "sat"), witness="quick" if t in ("f32", "i32") and s == (2, 3) else "thorough",
                           cost=3 if big else 1))
        for s in [(17, 2), (2, 2, 2, 2, 2)]:
            cs.append(Case("%s-%s-%s" % (op, t, nm(s)), "ew.c", dict(d, **shp(s)), unwind=prod(s) + 12,
                           backends=("cvc5", "z3"), witness="thorough", tier="thorough", cost=5))
    for op in ("sub", "mul"):
        cs.append(Case("%s-%s-alias" % (op, t), "ew.c", dict(ty(t), VP_FN="aitisa_" + op, VP_OP=OPS[op], VP_ALIAS=1, **shp((3,))),
                       unwind=24, backends=("cvc5", "z3", "sat"), witness="thorough", tier="quick" if t in ("f32", "u16") else "thorough"))
prop("C09", cs, "every element of both operands (all bit patterns)",
     "all 10 element types; shapes scalar, 2x3, 1x2x1x3, 3x5x5 (thorough: 17x2, 2^5); same tensor passed twice",
     "larger shapes; integer division by zero and MIN/-1 (undefined in C)")

# ------------------------------------------------------------------ C10 cast
cs = []
for t in TYPES:
    for g in (0, 1):
        for s in [(2,), (5, 3)]:
            cs.append(Case("from-%s-to-%s-%s" % (t, "small" if g == 0 else "large", nm(s)), "cast.c", dict(ty(t), VP_GROUP=g, **shp(s)),
                           unwind=prod(s) + 12, backends=("cvc5", "z3"), tier="quick" if s == (2,) else "thorough",
                           flags=("--conversion-check",) if t in ("f32", "f64") else (),
                           witness="quick" if s == (2,) and t in ("f32", "i64") else "thorough"))
prop("C10", cs, "every element", "all 100 (from, to) type pairs; 2 elements (thorough: 5x3)",
     "floating values outside the target type's range (undefined in C)")

# ------------------------------------------------------------------ C11..C13 unary
cs = []
for t in TYPES:
    for s in [(2, 3), (5, 7)] + ([()] if t == "f32" else []):
        cs.append(Case("relu-%s-%s" % (t, nm(s)), "unary.c", dict(ty(t), VP_OPN=1, **shp(s)), unwind=prod(s) + 12,
                       backends=("cvc5", "sat"), witness="quick" if t == "f32" and s == (2, 3) else "thorough",
                       tier="quick" if s != (5, 7) or t in ("f32", "i32") else "thorough"))
prop("C11", cs, "every element", "all 10 element types; shapes scalar, 2x3, 5x7", "NaN elements; larger shapes")

cs = []
for op, n in (("sigmoid", 2), ("tanh", 3)):
    for t in ("f32", "f64"):
        for s in [(3,), (2, 1, 2), ()] + [(4, 4)]:
            cs.append(Case("%s-%s-%s" % (op, t, nm(s)), "unary.c", dict(ty(t), VP_OPN=n, **shp(s)), unwind=prod(s) + 30,
                           backends=("z3", "cvc5"), timeout=90, tier="thorough" if s == (4, 4) else "quick",
                           witness="quick" if s == (3,) else "thorough"))
    for t in INTS:
        cs.append(Case("%s-%s-unsupported" % (op, t), "unary.c", dict(ty(t), VP_OPN=n, VP_UNSUPPORTED=1, **shp((2,))), unwind=24,
                       backends=("sat",), witness="thorough"))
prop("C12", cs, "every element", "float and double; 1, 3, 4 elements (thorough 16); the 8 integer types must be refused",
     "accuracy of libm's exp/tanh themselves; larger shapes")

cs = []
for t in TYPES:
    cs.append(Case("sqrt-%s" % t, "unary.c", dict(ty(t), VP_OPN=4, **shp((2, 2))), unwind=30, backends=("cvc5", "z3"),
                   witness="quick" if t in ("f32", "i32") else "thorough"))
    cs.append(Case("sqrt-%s-9" % t, "unary.c", dict(ty(t), VP_OPN=4, **shp((9,))), unwind=30, backends=("cvc5", "z3"),
                   tier="thorough", witness="thorough"))
    if not t.startswith("u"):
        cs.append(Case("sqrt-%s-negative" % t, "unary.c", dict(ty(t), VP_OPN=4, VP_NEG=1, **shp((3,))), unwind=30, backends=("cvc5", "z3"),
                       witness="thorough"))
prop("C13", cs, "every element", "all 10 element types; 4 elements (thorough 9); refusal with any of 3 elements negative",
     "integers above 2^52; accuracy of libm's sqrt")

# ------------------------------------------------------------------ C14 softmax
cs = []
for t in ("f32", "f64"):
    for s, axes in [((3,), (-1, 0)), ((2, 2), (-1, 0, 1)), ((2, 2, 2), (0, 1, 2)), ((2, 3), (0, 1)), ((1, 1, 3, 2), (1, 2, 3))]:
        for ax in axes:
            quick = t == "f32" or s in ((2, 2),)
            cs.append(Case("softmax-%s-%s-axis%d" % (t, nm(s), ax), "softmax.c", dict(ty(t), VP_AXIS=ax, **shp(s)), unwind=40,
                           backends=("cvc5", "z3"), timeout=120, tier="quick" if quick else "thorough",
                           witness="quick" if s == (3,) and t == "f32" else "thorough", cost=8))
prop("C14", cs, "every element (finite)", "float/double; listed shapes, every axis and the whole-tensor mode", "NaN/infinite elements; larger shapes; accuracy of libm's exp")

# ------------------------------------------------------------------ C15 batch norm
cs = []
for t in ("f32", "f64"):
    for s, ax in [((2, 2), 1), ((2, 3), 1), ((2, 2, 1), 1), ((1, 2, 2), 1), ((2, 1, 2), 2), ((1, 2, 1, 2), 1), ((1, 2, 1, 2), 3), ((1, 2, 1, 1, 2), 1), ((1, 1, 2, 1, 2), 4)]:
        cs.append(Case("bn-%s-%s-axis%d" % (t, nm(s), ax), "bn.c", dict(ty(t), VP_AXIS=ax, VP_C=s[ax], VP_VAR="{0.5,2,3.25}", **shp(s)), unwind=40,
                       backends=("cvc5", "z3"), timeout=120, cost=8,
                       tier="quick" if t == "f32" else "thorough", witness="quick" if s == (2, 2) else "thorough"))
prop("C15", cs, "input, scale, bias, mean, variance", "ranks 2..5, both channel axes", "larger shapes")

# ------------------------------------------------------------------ C16 conv
def conv(name, di, df, st, pa, dl, g=1, api=0, **kw):
    d = dict(VP_DI=arr(di), VP_DF=arr(df), VP_SI=prod(di), VP_SF=prod(df), VP_ND=len(di), VP_ST=arr(st), VP_PA=arr(pa), VP_DL=arr(dl),
             VP_GROUPS=g, VP_API=api)
    kw.setdefault("backends", ("cvc5", "z3"))
    kw.setdefault("timeout", 120)
    kw.setdefault("cost", 10)
    kw.setdefault("witness", "thorough")
    return Case("conv-" + name, "conv.c", d, unwind=kw.pop("unwind", 60), **kw)


cs = [
    conv("2d-basic", (1, 1, 3, 3), (1, 1, 2, 2), (1, 1), (0, 0), (1, 1), api=2, witness="quick"),
    conv("2d-pad", (1, 1, 2, 2), (1, 1, 2, 2), (1, 1), (1, 0), (1, 1), api=2),
    conv("2d-stride", (1, 1, 4, 3), (1, 1, 2, 2), (2, 1), (0, 0), (1, 1), api=2),
    conv("2d-dilation", (1, 1, 3, 4), (1, 1, 2, 2), (1, 1), (0, 0), (1, 2), api=2),
    conv("2d-channels", (1, 2, 2, 2), (2, 2, 2, 1), (1, 1), (0, 0), (1, 1), api=2),
    conv("2d-batch", (2, 1, 2, 2), (1, 1, 1, 2), (1, 1), (0, 0), (1, 1), api=2),
    conv("2d-all", (1, 1, 3, 3), (1, 1, 2, 2), (2, 1), (1, 2), (2, 1), api=2),
    conv("2d-groups", (1, 4, 1, 2), (2, 2, 1, 1), (1, 1), (0, 0), (1, 1), g=2, api=2),
    conv("3d-basic", (1, 1, 2, 2, 2), (1, 1, 1, 2, 2), (1, 1, 1), (0, 0, 0), (1, 1, 1), api=3),
    conv("3d-all", (1, 1, 3, 2, 2), (1, 1, 2, 2, 1), (1, 2, 1), (0, 1, 0), (2, 1, 1), api=3),
    conv("1d", (1, 2, 4), (2, 2, 2), (2,), (1,), (1,)),
    conv("2d-big", (2, 2, 4, 4), (2, 2, 3, 3), (1, 1), (1, 1), (1, 1), api=2, tier="thorough", unwind=80, timeout=600),
]
prop("C16", cs, "every input and filter element", "listed shapes/strides/paddings/dilations/groups", "larger shapes; element types other than float (refused)")

# ------------------------------------------------------------------ C17 pooling
def pool(name, d, ks, st, pa, dl, mode, t="f32", **kw):
    defs = dict(ty(t), VP_KS=arr(ks), VP_ST=arr(st), VP_PA=arr(pa), VP_DL=arr(dl), VP_MODE='"%s"' % mode, VP_MAX=int(mode == "max"), **shp(d))
    kw.setdefault("backends", ("cvc5", "sat", "z3") if t in ("f32", "f64") or mode == "avg" else ("sat", "cvc5"))
    kw.setdefault("timeout", 120)
    kw.setdefault("cost", 8)
    kw.setdefault("witness", "thorough")
    return Case("pool-%s-%s-%s" % (mode, t, name), "pool.c", defs, unwind=kw.pop("unwind", 60), **kw)


cs = []
for mode in ("max", "avg"):
    for t in ("f32", "i32", "i64", "f64", "u8"):
        cs += [
            pool("2d-basic", (1, 1, 3, 3), (2, 2), (1, 1), (0, 0), (1, 1), mode, t, witness="quick" if t == "f32" else "thorough",
                 tier="quick" if t in ("f32", "i64") else "thorough"),
            pool("2d-pad", (1, 1, 2, 2), (2, 2), (1, 2), (1, 1), (1, 1), mode, t),
            pool("2d-dil-stride", (1, 1, 4, 3), (2, 2), (1, 1), (0, 0), (3, 2), mode, t, tier="quick" if t == "f32" else "thorough"),
            pool("1d-batch", (2, 2, 3), (2,), (1,), (0,), (1,), mode, t, tier="quick" if t in ("f32", "i32") else "thorough"),
            pool("3d", (1, 1, 2, 2, 2), (1, 2, 2), (1, 1, 1), (1, 0, 0), (1, 1, 1), mode, t, tier="quick" if t in ("f32", "i32") else "thorough"),
        ]
prop("C17", cs, "every element", "listed windows", "NaN; larger shapes")

# ------------------------------------------------------------------ C18 dropout
cs = []
for t in TYPES:
    cs.append(Case("any-rate-%s" % t, "dropout.c", dict(ty(t), VP_CASE=0, **shp((2, 2))), unwind=30, backends=("sat", "cvc5"), timeout=90,
                   witness="quick" if t == "f32" else "thorough"))
cs.append(Case("bad-rate", "dropout.c", dict(ty("f32"), VP_CASE=1, **shp((2,))), unwind=30, backends=("sat", "cvc5")))
for t in ("f32", "i32"):
    for c in (2, 3):
        for i in (0, 2):
            for rate in ("0.5", "0.1", "0.9"):
                cs.append(Case("reach-%s-%s-elem%d-rate%s" % ("keep" if c == 2 else "drop", t, i, rate), "dropout.c",
                               dict(ty(t), VP_CASE=c, VP_I=i, VP_RATE=rate, **shp((3,))), unwind=30, backends=("sat",), stage2=False, witness=False,
                               flags=("--no-standard-checks",), reach="an element can be %s at rate %s" % ("kept" if c == 2 else "dropped", rate)))
prop("C18", cs, "every element, the rate, every random draw", "4 elements, all types", "statistical frequency of drops (not a per-run property); larger shapes")

# ------------------------------------------------------------------ C19/C20 matmul, C21 dot
def mm(name, a, b, t="f32", src="matmul.c", **kw):
    d = dict(ty(t), VP_DA=arr(a) if a else "{1}", VP_NA=len(a), VP_SA=prod(a), VP_DB=arr(b) if b else "{1}", VP_NB=len(b), VP_SB=prod(b))
    kw.setdefault("backends", ("cvc5", "z3"))
    kw.setdefault("timeout", 100)
    kw.setdefault("cost", 5)
    kw.setdefault("witness", "thorough")
    return Case("%s-%s-%s.%s" % (name, t, nm(a), nm(b)), src, d, unwind=kw.pop("unwind", 60), **kw)


cs = []
for t in TYPES:
    cs.append(mm("mm", (2, 3), (3, 2), t, witness="quick" if t in ("f32", "i64") else "thorough"))
    cs.append(mm("vv", (3,), (3,), t))
    cs.append(mm("mv", (2, 3), (3,), t))
    cs.append(mm("vm", (3,), (3, 2), t))
cs += [mm("mm", (4, 4), (4, 4)), mm("mm", (1, 5), (5, 3)), mm("mm", (3, 1), (1, 4)), mm("mm", (2, 0), (0, 3)), mm("vv", (7,), (7,)), mm("mv", (5, 2), (2,)),
       mm("mm", (5, 5), (5, 5), tier="thorough"), mm("mm", (2, 9), (9, 2), tier="thorough"), mm("mm", (6, 3), (3, 5), "f64", tier="thorough")]
prop("C19", cs, "every element", "all 10 types at 2x3.3x2 and vector forms; floats up to 4x4.4x4", "larger shapes")

cs = []
SH = [((2, 2, 2), (2,)), ((2,), (2, 2, 2)), ((2, 2, 2), (2, 2, 2)), ((2, 2, 2), (2, 2)), ((2, 2), (3, 2, 2)), ((2, 1, 1, 2), (3, 2, 1)),
      ((2, 1, 2), (1, 2, 1)), ((1, 3, 1, 2), (2, 1, 2, 1)), ((2, 3, 1, 2), (2,)), ((3,), (2, 2, 3, 1)), ((2, 1, 1, 1, 2), (2, 2, 2, 1)), ((2, 3, 1, 1), (3, 1, 2)),
      ((3, 1, 2, 1, 1), (2, 1, 2))]
for a, b in SH:
    cs.append(mm("bmm", a, b, witness="quick" if a == (2, 2, 2) and b == (2, 2, 2) else "thorough"))
    for t in ("i32", "f64", "u8"):
        cs.append(mm("bmm", a, b, t, tier="quick" if t == "i32" and len(a) + len(b) in (6, 7) else "thorough"))
prop("C20", cs, "every element", "listed shape pairs covering equal, one-sided, two-sided and rank-extending broadcast", "larger shapes")

cs = []
DSH = [((3,), (3,)), ((2, 3), (3, 2)), ((), (2, 2)), ((2, 2), ()), ((), ()), ((3,), ()), ((2, 3), (3,)), ((2, 2, 2), (2,)), ((2, 1, 2), (1, 2, 2)), ((1, 2, 2), (2, 2, 1)), ((1, 2, 1, 2), (2, 2, 1)),
       ((2, 1, 1), (1, 2, 1, 2)), ((1, 2, 0), (2, 0, 1)), ((2, 0), (0,)), ((1, 1, 2), (2, 1, 2, 1)), ((2, 1, 1, 2), (1, 2, 1)), ((1, 2, 2), (2, 1, 2, 1)),
       ((2, 1, 2), (1, 2, 2, 1)), ((1, 1, 2), (2, 1, 1, 2, 1)), ((1, 1, 2, 1, 2), (2,)), ((2, 3, 2), (2, 2, 2)), ((2, 1, 3), (2, 1, 3, 2))]
for a, b in DSH:
    cs.append(mm("dot", a, b, src="dot.c", short=60 if a == (2, 3, 2) else 15, backends=("z3", "cvc5") if not a or not b else ("cvc5", "z3"), witness="quick" if (a, b) == ((2, 1, 2), (1, 2, 2)) else "thorough"))
    for t in ("i64", "f64", "u8"):
        cs.append(mm("dot", a, b, t, src="dot.c", tier="quick" if t == "i64" and len(a) + len(b) < 5 else "thorough"))
for t in TYPES:
    cs.append(mm("dots", (), (3,), t, src="dot.c"))
prop("C21", cs, "every element", "listed shape pairs covering every documented rank combination", "larger shapes")

# ------------------------------------------------------------------ C22 slice
def sl(d, sz, sp, t="f32", **kw):
    defs = dict(ty(t), VP_SZ=arr(sz) if sz else "{1}", VP_SP=arr(sp) if sp else "{1}", **shp(d))
    kw.setdefault("backends", ("sat", "cvc5"))
    kw.setdefault("witness", "thorough")
    return Case("slice-%s-%s-size%s-step%s" % (t, nm(d), nm(sz), nm(sp)), "slice.c", defs, unwind=kw.pop("unwind", 40), cost=3, **kw)


cs = [sl((5,), (3,), (1,)), sl((5,), (5,), (2,)), sl((6,), (4,), (3,)), sl((3, 4), (2, 3), (1, 2), witness="quick"), sl((3, 4), (0, 3), (1, 1)), sl((3, 4), (2, 0), (1, 1)), sl((3, 3), (0, 0), (1, 1)),
      sl((2, 3, 3), (1, 2, 2), (1, 1, 1)), sl((2, 3, 4), (2, 2, 4), (1, 1, 3)), sl((2, 3, 3), (0, 2, 0), (1, 1, 1)), sl((3, 3, 3), (3, 1, 3), (2, 1, 2)), sl((2, 2, 2, 2), (1, 2, 1, 2), (1, 1, 1, 1)), sl((), (), ()),
      sl((2, 2, 2, 2, 2), (2, 1, 2, 1, 1), (1, 1, 1, 1, 1))]
for t in TYPES:
    if t != "f32":
        cs.append(sl((3, 4), (2, 3), (1, 2), t))
prop("C22", cs, "every element and every begin offset", "listed shapes/sizes/steps", "larger shapes")

# ------------------------------------------------------------------ lifecycle of every operator (C04, C06, C07, C30)
OPIDS = {1: "add", 2: "sub", 3: "mul", 4: "div", 5: "cast", 6: "duplicate", 7: "slice", 8: "reshape", 9: "squeeze", 10: "sqrt", 11: "relu",
         12: "sigmoid", 13: "tanh", 14: "dropout", 15: "softmax-axis", 16: "softmax-all", 17: "full", 18: "create",
         20: "matmul-vv", 21: "matmul-mv", 22: "matmul-vm", 23: "matmul-mm", 24: "matmul-batched", 25: "matmul-batched-vec", 26: "matmul-vec-batched",
         30: "dot-vv", 31: "dot-mm", 32: "dot-scalar-left", 33: "dot-scalar-right", 34: "dot-tensor-vec", 35: "dot-multidim",
         40: "batch_norm-2d", 41: "batch_norm-channels", 50: "conv2d", 51: "conv3d", 52: "conv1d",
         53: "maxpool", 54: "avgpool", 55: "maxpool-padded", 56: "avgpool-padded"}
FLOAT_ONLY = {12, 13, 15, 16, 40, 41, 50, 51, 52}


def life(mode, oid, t="f32", **kw):
    d = dict(ty(t), VP_MODE=mode, VP_OPID=oid)
    d.update(kw.pop("defs", {}))
    kw.setdefault("backends", ("sat", "cvc5"))
    kw.setdefault("stage2", False)
    kw.setdefault("witness", "thorough")
    if oid == 41:
        kw.setdefault("short", 60)
    return Case("%s-%s%s" % (OPIDS[oid], t, kw.pop("suffix", "")), "life.c", d, unwind=kw.pop("unwind", 40), **kw)


prop("C04", [life(1, o, t, defs=dict({"VP_OUT_FIRST": 1} if first else {}), suffix="-outfirst" if first else "",
                  tier="quick" if t == "f32" else "thorough", witness="quick" if o in (1, 24, 41) and not first and t == "f32" else "thorough")
             for o in OPIDS for t in ("f32", "i32") for first in (0, 1) if not (t == "i32" and o in FLOAT_ONLY)],
     "every element of every operand (all bit patterns)", "one call per operator route (40 routes: every public operator and every internal shape branch), float (thorough: int32 too); output handle created before or after the call; both destruction orders", "larger operands; allocation failures (the fault property covers them); two calls sharing an output handle")
# allocation requests each operator makes today; two more are explored so that a change may add some
NALLOC = {1: 8, 2: 8, 3: 8, 4: 8, 6: 13, 7: 10, 9: 7, 14: 13, 15: 7, 24: 11, 25: 9, 26: 9, 32: 13, 33: 13, 34: 39, 35: 62, 40: 76, 41: 187,
          50: 13, 51: 13, 52: 13, 53: 11, 54: 11, 55: 11, 56: 11}
cs = []
for o in OPIDS:
    top = NALLOC.get(o, 5) + 2
    step = {40: 4, 41: 3, 35: 5, 34: 6}.get(o, 8)
    for a in range(0, top, step):
        b = min(a + step - 1, top - 1)
        cs.append(life(3, o, "f32", defs={"VP_K0": a, "VP_K1": b, "VP_BATCH": 1}, suffix="-fail%d-%d" % (a, b), cost=6 if o >= 34 else 1,
                       backends=("sat",), timeout=120, tier="quick" if o != 41 or a < 48 or a % 15 == 0 else "thorough",
                       witness="quick" if a == 0 and o in (7, 35) else False))
prop("C06", cs, "which allocation request fails: every position of every route is explored, plus two past the last; the elements are fixed small values", "40 operator routes, one failing request per call, each position in its own execution; quick skips most positions past 48 of the five-dimensional batch normalisation", "two or more failures in one call; failures inside libc other than memory allocation")
prop("C07", [life(2, o, t, tier="quick" if t == "f32" else "thorough", witness="quick" if o in (1, 24, 41) and t == "f32" else "thorough")
             for o in OPIDS for t in ("f32", "i32") if not (t == "i32" and o in FLOAT_ONLY)], "every element of every operand (all bit patterns)", "40 operator routes, float (thorough: int32 too), 1..12 elements", "larger operands")
prop("C30", [life(4, o, t, defs={"VP_BATCH": 1}, cost=9 if o in (40, 41) else 1, tier="quick" if t == "f32" else "thorough", backends=("cvc5", "sat", "z3"), witness="quick" if o in (1, 24, 41) and t == "f32" else "thorough")
             for o in OPIDS for t in ("f32", "i32") if not (t == "i32" and o in FLOAT_ONLY) and o not in (14, 18)], "every element of every operand; the previous contents of every fresh allocation (unconstrained)", "38 operator routes, float (thorough: int32 too); fresh memory is unconstrained in the two executions that are compared", "dropout (random by design) and bare creation without data (documented as uninitialised)")

# ------------------------------------------------------------------ C01..C03 creating, resolving and destroying tensors
def cr(mode, nd, name=None, **kw):
    d = dict(VP_MODE=mode, VP_ND=nd)
    d.update(kw.pop("defs", {}))
    kw.setdefault("backends", ("sat", "cvc5"))
    kw.setdefault("stage2", False)
    kw.setdefault("witness", "quick" if nd == 2 else "thorough")
    return Case(name or "mode%d-rank%d" % (mode, nd), "create.c", d, unwind=kw.pop("unwind", 40), **kw)


prop("C01", [cr(m, 2, ("fresh" if m == 1 else "over-data") + "-empty%d" % z, defs={"VP_ZERO": z}) for m in (1, 2) for z in (0, 1)] +
     [cr(m, n, ("fresh" if m == 1 else "over-data") + "-rank%d" % n) for m in (1, 2) for n in (0, 1, 2, 3)]
     + [cr(m, n, ("fresh" if m == 1 else "over-data") + "-rank%d" % n, tier="thorough") for m in (1, 2) for n in (4, 5)],
     "every dimension (0..3), the element type (all ten), the device type and id, the length argument (any unsigned), every data byte, the byte positions written and read",
     "ranks 0..3 (thorough 0..5), dimensions 0..3; rank 2 with one dimension 0 and the other any value up to 2^63-1",
     "negative dimensions, products that overflow, lengths above 4 GiB; a length strictly between n and n+1 elements (unspecified)")
prop("C02", [cr(3, 2, "roundtrip-empty%d" % z, defs={"VP_ZERO": z}) for z in (0, 1)] + [cr(3, n, "roundtrip-rank%d" % n, backends=("cvc5", "sat"), timeout=120, cost=8, short=60) for n in (0, 1, 2)]
     + [cr(3, 3, "roundtrip-rank3", backends=("cvc5", "sat"), timeout=400, tier="thorough")]
     + [cr(3, 1, "roundtrip-%s" % t, defs={"VP_TY": TYPES[t][1], "VP_DMASK": 7}, backends=("cvc5", "sat"), timeout=200, tier="thorough") for t in TYPES],
     "every dimension (0..3), the element type, the device type and id, every data byte",
     "ranks 0..2 (thorough 3, and dimensions up to 7 per type); rank 2 with one dimension 0 and the other any value up to 2^63-1", "negative dimensions, products that overflow, lengths above 4 GiB")
prop("C03", [cr(4, n, "destroy-rank%d" % n) for n in (0, 1, 2, 3)] + [cr(4, n, "destroy-rank%d" % n, tier="thorough") for n in (4, 5)],
     "every dimension (0..3), the element type, the device type and id",
     "ranks 0..3 (thorough 0..5); two live tensors", "negative dimensions; destroying a tensor twice through two handles (undefined)")

# ------------------------------------------------------------------ C23 squeeze, C24 reshape, C25 duplicate/full
def so(mode, d, t="f32", name=None, defs=None, **kw):
    kw.setdefault("backends", ("sat", "cvc5"))
    kw.setdefault("stage2", False)
    kw.setdefault("witness", "thorough")
    return Case("%s-%s-%s" % (name, t, nm(d)), "shapeops.c", dict(ty(t), VP_MODE=mode, **dict(shp(d), **(defs or {}))), unwind=kw.pop("unwind", 40), **kw)


cs = []
for d in [(1, 2, 1), (2, 1), (1,), (), (2, 2), (1, 1, 1), (1, 3, 1, 2), (1, 0, 1)]:
    for n in (0, 1, 2):
        big = n == 2 and len(d) > 3
        cs.append(so(1, d, name="squeeze%d" % n, defs={"VP_NAX": n}, cost=4 if n else 1, timeout=120, tier="thorough" if big else "quick",
                     witness="quick" if d == (1, 2, 1) else "thorough"))
for t in TYPES:
    if t != "f32":
        cs.append(so(1, (1, 2, 1), t, name="squeeze1", defs={"VP_NAX": 1}, cost=4, tier="quick" if t in ("i64", "u8") else "thorough"))
cs.append(so(1, (1, 2, 1, 2, 1), name="squeeze1", defs={"VP_NAX": 1}, tier="thorough", timeout=300))
cs += [so(5, d, name="squeeze-negative-count") for d in [(1, 2, 1), (2, 2), (1,)]]
prop("C23", cs, "every element; the whole axis list (one axis: any int64; two axes: -1..rank, repeats included); any negative axis count",
     "listed shapes of rank 0..4 (thorough 5), 0, 1 or 2 axes", "three or more axes; larger shapes")
cs = []
for d, rs in [((2, 3), (0, 1, 2, 3)), ((4,), (1, 2, 3)), ((), (0, 1, 2)), ((2, 2, 2), (1, 2)), ((0, 3), (1, 2)), ((1, 1), (0, 1)), ((2, 3, 2), (3, 4))]:
    for r in rs:
        cs.append(so(2, d, name="reshape%d" % r, defs={"VP_NR": r}, timeout=120, tier="thorough" if r == 4 else "quick",
                     witness="quick" if (d, r) == ((2, 3), 2) else "thorough"))
for t in TYPES:
    if t != "f32":
        cs.append(so(2, (2, 3), t, name="reshape2", defs={"VP_NR": 2}, tier="quick" if t in ("i64", "u8", "i16") else "thorough"))
prop("C24", cs, "every element; every requested dimension, 0 .. size+2", "listed shapes, requested ranks 0..3 (thorough 4)",
     "negative requested dimensions, products that overflow")
cs = []
for t in TYPES:
    cs.append(so(3, (2, 3), t, name="duplicate", witness="quick" if t == "f32" else "thorough"))
    cs.append(so(4, (2, 3), t, name="full", flags=("--conversion-check",), backends=("cvc5", "sat"), witness="quick" if t == "f32" else "thorough"))
for d in [(), (0,), (2, 0), (1, 2, 1, 2), (7,)]:
    cs.append(so(3, d, name="duplicate"))
    cs.append(so(4, d, name="full", backends=("cvc5", "sat")))
cs += [so(3, (5, 5), name="duplicate", tier="thorough"), so(4, (5, 5), name="full", backends=("cvc5", "sat"), tier="thorough")]
prop("C25", cs, "every element (duplicate); the fill value, any double in the type's range (full)", "all 10 types at 2x3; scalar, empty and rank-4 shapes",
     "fill values outside the type's range (undefined in C); larger shapes")

# ------------------------------------------------------------------ C26 broadcast, C27 index arithmetic
prop("C26", [Case("shapes-%d-%d" % (x, y), "bcast.c", dict(VP_NA=x, VP_NB=y), unwind=20, backends=("sat", "cvc5"), stage2=False,
                  witness="quick" if x == 2 and y == 3 else "thorough", tier="quick" if x < 5 and y < 5 else "thorough")
             for x in range(6) for y in range(6)],
     "every dimension of both shapes, any int64 >= 0", "ranks 0..4 x 0..4 (thorough 0..5)", "negative dimensions; higher ranks; output rank other than the longer input's")
cs = []
MN = {1: "coords-linidx", 2: "coords-offset", 3: "strides", 4: "linidx-coords"}
for m in MN:
    for n in (1, 2, 3, 4):
        cs.append(Case("%s-rank%d" % (MN[m], n), "index.c", dict(VP_MODE=m, VP_ND=n, VP_DMAX=4), unwind=20, backends=("sat", "cvc5"), timeout=120,
                       stage2=False, witness="quick" if n == 2 else "thorough", cost=n))
    for s in [(7, 5, 6), (1, 9, 1, 4), (2, 3, 2, 3, 2), (17, 13)]:
        cs.append(Case("%s-%s" % (MN[m], nm(s)), "index.c", dict(VP_MODE=m, VP_ND=len(s), VP_DIMS=arr(s)), unwind=20, backends=("sat", "cvc5"), timeout=120,
                       stage2=False, witness="thorough"))
    cs.append(Case("%s-rank5" % MN[m], "index.c", dict(VP_MODE=m, VP_ND=5, VP_DMAX=4), unwind=20, backends=("sat", "cvc5"), timeout=300, tier="thorough", stage2=False, witness=False))
    if m != 1:
        cs += [Case("%s-anyorder-rank%d" % (MN[m], n), "index.c", dict(VP_MODE=m, VP_ND=n, VP_DMAX=4, VP_PERM=1), unwind=20, backends=("sat", "cvc5"), timeout=120,
                    stage2=False, tier="quick" if n < 4 else "thorough", witness="quick" if n == 3 else "thorough") for n in (2, 3, 4)]
prop("C27", cs, "every dimension (1..4), every coordinate or linear index inside the shape, and every storage order (permutation of the dimensions)", "ranks 1..4 (thorough 5) plus fixed shapes up to 17x13 and 2x3x2x3x2; non-default storage orders for ranks 2..3 (thorough 4)",
     "empty and rank-0 tensors (no coordinates exist); index products that overflow")

# ------------------------------------------------------------------ C29 element types
cs = []
TN = {1: "get", 2: "set", 3: "castto", 4: "set_item", 5: "binary-func"}
for t in TYPES:
    for m in TN:
        cs.append(Case("%s-%s" % (TN[m], t), "types.c", dict(ty(t), VP_MODE=m, VP_CODE="TYPE_" + TYPES[t][1][1:].upper()), unwind=60,
                       backends=("cvc5", "sat") if m == 5 else ("sat", "cvc5"), stage2=False, witness="quick" if t in ("f32", "i16") else "thorough",
                       flags=("--conversion-check",) if m == 3 else ()))
prop("C29", cs, "every byte of a small array, the element index, the value stored", "all ten types; arrays of 5 elements", "values outside the target type's range for the cast (undefined in C)")

prop("C28", [life(5, o, t, defs={"VP_BATCH": 1}, cost=9 if o in (40, 41) else 1, tier="quick" if t == "f32" else "thorough", witness="quick" if o in (1, 24, 41) and t == "f32" else "thorough")
             for o in OPIDS for t in ("f32", "i32") if not (t == "i32" and o in FLOAT_ONLY)], "every element of every operand", "40 operator routes with a user-supplied allocator installed for the device; float (thorough: int32 too)", "allocators that themselves fail (fault property); allocators swapped between creating and destroying a tensor")
# ------------------------------------------------------------------ long dimensions (past what a byte holds)
def more(pid, *cs_):
    for c in cs_:
        if str(LONG) in c.name:
            c.short, c.timeout, c.searched = 100, max(c.timeout, 150), True
    PROPS[pid]["cases"] += cs_
    if "; one dimension of %d" % LONG not in PROPS[pid]["bounds"]:
        PROPS[pid]["bounds"] += "; one dimension of %d" % LONG


LONG = 260
for t in ("i32", "u8", "f32"):
    for op in ("add", "mul"):
        more("C09", Case("%s-%s-%d" % (op, t, LONG), "ew.c", dict(ty(t), VP_FN="aitisa_" + op, VP_OP=OPS[op], VP_DIVIDE=0, **shp((LONG,))), unwind=LONG + 12,
                         backends=("cvc5", "sat"), witness=False, cost=5))
    more("C11", Case("relu-%s-%d" % (t, LONG), "unary.c", dict(ty(t), VP_OPN=1, **shp((LONG, 1))), unwind=LONG + 12, backends=("sat", "cvc5"), witness=False, cost=5))
    more("C22", sl((LONG,), (3,), (1,), t, unwind=LONG + 12, witness=False), sl((2, LONG), (1, 256), (1, 128), t, unwind=2 * LONG + 12, witness=False))
    more("C23", so(1, (LONG, 1), t, name="squeeze0", defs={"VP_NAX": 0}, unwind=LONG + 12, witness=False))
    if t != "f32":
        more("C24", so(2, (2, 130), t, name="reshape2", defs={"VP_NR": 2}, unwind=LONG + 12, witness=False))
    more("C25", so(3, (LONG,), t, name="duplicate", unwind=LONG + 12, witness=False, cost=5), so(4, (1, LONG), t, name="full", unwind=LONG + 12, witness=False, cost=5),
         so(3, (1, 2, 1, 2, 1), t, name="duplicate"), so(4, (1, 2, 1, 2, 1), t, name="full", backends=("cvc5", "sat")))
more("C10", Case("from-i32-to-small-%d" % LONG, "cast.c", dict(ty("i32"), VP_GROUP=0, **shp((LONG,))), unwind=LONG + 12, backends=("cvc5", "z3"), witness=False, cost=5))
more("C19", mm("vv", (LONG,), (LONG,), "i32", unwind=LONG + 12), mm("mm", (LONG, 1), (1, 1), "i32", unwind=LONG + 12), mm("mm", (1, 1), (1, LONG), "f32", unwind=LONG + 12))
more("C20", mm("bmm", (LONG, 1, 1), (1, 1), "i32", unwind=LONG + 12), mm("bmm", (2, 1, 2), (2, 2, LONG), "i32", unwind=2 * LONG + 12, tier="thorough"))
more("C21", mm("dot", (LONG,), (LONG,), "i32", src="dot.c", unwind=LONG + 12), mm("dot", (LONG, 1), (1, 1), "f32", src="dot.c", unwind=LONG + 12))
more("C13", Case("sqrt-f32-%d" % LONG, "unary.c", dict(ty("f32"), VP_OPN=4, **shp((LONG,))), unwind=LONG + 12, backends=("cvc5", "z3"), witness=False, tier="thorough"))
more("C15", Case("bn-f32-1x%d-axis1" % LONG, "bn.c", dict(ty("f32"), VP_AXIS=1, VP_C=LONG, VP_VAR="{0.5,2,3.25}", **shp((1, LONG))), unwind=LONG + 12, backends=("cvc5", "z3"),
                 witness=False, tier="thorough", timeout=300))
more("C16", conv("2d-wide", (1, 1, 1, LONG), (1, 1, 1, 2), (1, 129), (0, 0), (1, 130), api=2, unwind=LONG + 12, witness=False),
     conv("2d-many%d" % LONG, (1, 1, 1, 1), (LONG, 1, 1, 1), (1, 1), (0, 0), (1, 1), api=2, unwind=LONG + 12, witness=False))
for m in ("max", "avg"):
    more("C17", pool("wide", (1, 1, LONG), (2,), (129,), (0,), (130,), m, "i32", unwind=LONG + 12, witness=False),
         pool("many%d" % LONG, (1, LONG, 1), (1,), (1,), (0,), (1,), m, "f32", unwind=LONG + 12, witness=False))
# ------------------------------------------------------------------ sweeps: many shapes and parameters in one query
def sweep(pid, name, mode, total, per, quick, thorough, nel, t="i32", be=("cvc5", "sat"), **d):
    """`total` grid points in partitions of about `per`; `quick` (`thorough`) of those partitions are checked."""
    every = max(1, total // per)
    quick, thorough = min(quick, every), min(thorough, every)
    pick = lambda n: {(2 * j + 1) * every // (2 * n) for j in range(n)}
    q = pick(quick) if quick else set()
    for f in sorted(q | pick(thorough)):
        c = Case("sweep-%s-%s-from%d" % (name, t, f), "sweep.c",
                 dict(ty(t), VP_MODE=mode, VP_FROM=f, VP_EVERY=every, VP_NEL=nel, VP_SPLITS=2, **{"VP_" + k: v for k, v in d.items()}),
                 unwind=max(total // every, nel, 32) + 4, backends=be, timeout=150, short=90, cost=7, tier="quick" if f in q else "thorough", witness=False)
        PROPS[pid]["cases"].append(c)
    note = "; grids of parameters walked inside one query (sweep-*)"
    if note not in PROPS[pid]["bounds"]:
        PROPS[pid]["bounds"] += note


SAT1 = ("sat", "cvc5")
sweep("C22", "slice-1d", 3, 6 * 7 * 4, 14, 3, 12, 8, be=SAT1, DIMS="{6}", ND=1, SM=4)
sweep("C22", "slice-2d", 3, 3 * 4 * 3 * 4 * 5 * 3, 14, 6, 100, 12, be=SAT1, DIMS="{3,4}", ND=2, SM=3)
sweep("C22", "slice-3d", 3, (2 * 3) * (3 * 4) ** 2 * 8, 30, 4, 80, 18, "f32", be=SAT1, DIMS="{2,3,3}", ND=3, SM=2)
sweep("C22", "slice-4d", 3, (2 * 3) ** 4 * 16, 20, 3, 60, 16, be=SAT1, DIMS="{2,2,2,2}", ND=4, SM=2)
for m in ("max", "avg"):
    be = SAT1 if m == "max" else ("cvc5", "sat")
    pm = dict(PMODE='"%s"' % m, MAX=int(m == "max"))
    sweep("C17", "pool-%s-1d" % m, 1, 3 * 3 * 3 * 2, 7, 5, 7, 10, be=be, DIMS="{1,2,5}", ND=3, KM=3, SM=3, PM=2, DM=2, **pm)
    sweep("C17", "pool-%s-2d" % m, 1, 16 ** 2, 7, 5, 36, 9, be=be, DIMS="{1,1,3,3}", ND=4, KM=2, SM=2, PM=1, DM=2, **pm)
    sweep("C17", "pool-%s-3d" % m, 1, 16 ** 3, 6, 2, 40, 12, be=be, DIMS="{1,1,2,2,3}", ND=5, KM=2, SM=2, PM=1, DM=2, **pm)
sweep("C16", "conv-1d", 2, 3 * 3 * 2 * 2, 7, 4, 5, 12, "f32", DIMS="{1,2,4}", ND=3, KM=3, SM=3, PM=1, DM=2, OC=2, IC=2)
sweep("C16", "conv-1d-groups", 2, 16, 4, 2, 4, 16, "f32", DIMS="{2,2,3}", ND=3, KM=2, SM=2, PM=1, DM=2, OC=4, IC=1)
sweep("C16", "conv-2d", 2, 16 ** 2, 6, 4, 42, 9, "f32", DIMS="{1,1,3,3}", ND=4, KM=2, SM=2, PM=1, DM=2, OC=1, IC=1)
sweep("C16", "conv-3d", 2, 16 ** 3, 4, 2, 60, 12, "f32", DIMS="{1,1,2,2,3}", ND=5, KM=2, SM=2, PM=1, DM=2, OC=1, IC=1)
for na in range(1, 6):
    for nb in range(1, 6):
        bd = max(na - 2, 0) + max(nb - 2, 0)
        sweep("C19" if bd == 0 else "C20", "matmul-%d-%d" % (na, nb), 4, 8 * 2 ** bd, 8, 1, 8, 32, NA=na, NB=nb, LO=1, MD=2)
for na, nb in ((1, 1), (2, 2), (2, 1), (3, 1), (4, 1), (5, 1), (3, 3), (3, 4), (4, 3), (4, 4), (5, 3), (3, 5), (5, 5)):
    free = na - 1 + (nb - 1 if nb > 1 else 0) + 1
    sweep("C21", "dot-%d-%d" % (na, nb), 5, 2 ** free, 8 if na + nb < 4 else 4 if na + nb < 6 else 2, 1, 8, 32, NA=na, NB=nb, MD=2)
for nd, hi, per, q, th in ((1, 4, 5, 1, 1), (2, 3, 8, 2, 2), (3, 2, 9, 3, 3), (4, 2, 12, 3, 7), (5, 2, 10, 2, 24)):
    for pid, sub, n in (("C23", 0, "squeeze"), ("C25", 1, "duplicate"), ("C09", 2, "sub"), ("C11", 3, "relu")):
        p, k = (12, min(q * 2, 6)) if sub == 0 else (per, q)
        sweep(pid, "%s-rank%d" % (n, nd), 6, (hi + 1) ** nd * (2 ** nd if sub == 0 else 1), p, k, th * 2, max(hi ** nd, 4), SUB=sub, ND=nd, HI=hi, be=SAT1)
# C32, second half: the functional checks again, after unrelated earlier calls of the same operator family
import copy
WARM = [("C09", "BINARY", ("add-f32-2x3", "sub-i64-1x2x1x3", "mul-u8-2x3", "div-f64-2x3", "div-u32-2x3", "add-i32-2x3", "sub-f32-scalar", "mul-i16-2x3")),
        ("C10", "CAST", ("from-i8-to-large-2", "from-f32-to-small-2", "from-u64-to-large-2", "from-i32-to-small-2")),
        ("C11", "UNARY", ("relu-f32-2x3", "relu-i64-2x3", "relu-u8-2x3")),
        ("C12", "UNARY", ("sigmoid-f32-2x1x2", "tanh-f32-2x1x2", "sigmoid-f64-3", "tanh-f64-3", "tanh-i32-unsupported")),
        ("C13", "UNARY", ("sqrt-f32", "sqrt-i64", "sqrt-f32-negative")),
        ("C14", "SOFTMAX", ("softmax-f32-2x2x2-axis1", "softmax-f32-2x3-axis0", "softmax-f32-3-axis-1", "softmax-f64-2x2-axis1")),
        ("C15", "BN", ("bn-f32-2x2-axis1", "bn-f32-1x2x2-axis1", "bn-f32-2x1x2-axis2")),
        ("C16", "CONV", ("conv-2d-basic", "conv-2d-stride", "conv-2d-groups", "conv-3d-basic", "conv-1d")),
        ("C17", "POOL", ("pool-max-f32-2d-pad", "pool-avg-f32-2d-basic", "pool-max-i32-1d-batch", "pool-avg-i32-3d", "pool-avg-f64-1d-batch", "pool-avg-f32-1d-batch", "pool-avg-i32-1d-batch", "pool-avg-f64-2d-pad", "pool-max-f64-2d-pad")),
        ("C18", "DROPOUT", ("any-rate-f32", "any-rate-i64")),
        ("C19", "MATMUL", ("mm-f32-2x3.3x2", "mv-i64-2x3.3", "vm-u8-3.3x2", "vv-f32-7.7", "mm-f32-3x1.1x4")),
        ("C20", "MATMUL", ("bmm-f32-2x2x2.2x2", "bmm-f32-2x1x1x2.3x2x1", "bmm-f32-3.2x2x3x1", "bmm-i32-2x2x2.2x2x2")),
        ("C21", "DOT", ("dot-f32-2x3.3x2", "dot-f32-3.3", "dot-f32-scalar.2x2", "dot-f32-3.scalar", "dot-f32-2x1x2.1x2x2", "dot-i64-2x3.3")),
        ("C22", "SLICE", ("slice-f32-3x4-size2x3-step1x2", "slice-i64-3x4-size2x3-step1x2", "slice-f32-2x3x3-size0x2x0-step1x1x1")),
        ("C23", "SHAPE", ("squeeze0-f32-1x2x1", "squeeze1-f32-1x2x1")),
        ("C24", "SHAPE", ("reshape2-f32-2x3", "reshape3-f32-2x3x2")),
        ("C25", "SHAPE", ("duplicate-f32-2x3", "full-i64-2x3", "full-f32-1x2x1x2")),
        ("C26", "SHAPE", ("shapes-2-3", "shapes-3-1")),
        ("C27", "SHAPE", ("coords-linidx-rank3", "coords-offset-rank3", "strides-rank3", "linidx-coords-rank3"))]
warm = []
for pid, fam, names in WARM:
    have = {c.name: c for c in PROPS[pid]["cases"]}
    for n in names:
        c = copy.copy(have[n])
        c.defs = dict(c.defs, VP_WARM="W_" + fam)
        c.name, c.witness, c.tier, c.unwind = n + "-after-other-calls", "thorough", "quick", max(c.unwind, 24)
        warm.append(c)
    for c in have.values():                      # thorough: every quick case once more
        if c.tier == "quick" and c.name not in names and not c.reach and c.src != "sweep.c" and str(LONG) not in c.name:
            c = copy.copy(c)
            c.defs = dict(c.defs, VP_WARM="W_" + fam)
            c.name, c.witness, c.tier, c.unwind = c.name + "-after-other-calls", False, "thorough", max(c.unwind, 24)
            warm.append(c)
prop("C32", [life(6, o, t, cost=9 if o in (40, 41) else 1, tier="quick" if t == "f32" else "thorough", backends=("cvc5", "sat", "z3"), defs={"VP_BATCH": 1, "VP_DROP": 1},
                  witness="quick" if o in (1, 24, 41) and t == "f32" else "thorough")
             for o in OPIDS for t in ("f32", "i32") if not (t == "i32" and o in FLOAT_ONLY) and o not in (14, 18)]
     + [life(7, o, "f32", backends=("cvc5", "sat", "z3"), defs={"VP_BATCH": 1}, suffix="-fresh", witness=False, flags=("--no-standard-checks",),
             reach="a call can answer differently from the call before it") for o in OPIDS if o not in (14, 17, 18)]
     + warm, "every element of the operands of both calls, and the operands of the call that comes in between", "38 operator routes with a history of one or two earlier calls of the same operator; the functional checks of C09..C27 repeated after a fixed history of up to twelve calls of the same family with other element types, shapes and parameters, some refused", "longer histories; earlier calls of an unrelated operator family")

# ------------------------------------------------------------------ C05 refused calls, C31 any parameters
def rj(name, ins, call, pre="", tier="quick", **kw):
    d = {"VP_IN": ins, "VP_PRE": pre, "VP_CALL": call, "VP_SPLITS": 1}
    d.update(kw.pop("defs", {}))
    kw.setdefault("backends", ("sat", "cvc5"))
    kw.setdefault("stage2", False)
    kw.setdefault("witness", "thorough")
    kw.setdefault("timeout", 120)
    kw.setdefault("short", 40)
    kw.setdefault("cost", 4)
    return Case(name, "reject.c", d, unwind=kw.pop("unwind", 5 if "softmax" in name else 14 if "matmul" in name or "dot" in name else 10), tier=tier, **kw)


ANY = "P(INT_MIN,INT_MAX)"
NEGEL = {"VP_ELEM(i,j)": "((j)==1?-1:(j)+1)"}
cs = []
for op in ("add", "sub", "mul", "div"):
    c = "aitisa_%s(x[0],x[1],&o)" % op
    cs += [rj(op + "-dims", "I(kFloat,2,3);I(kFloat,3,2)", c), rj(op + "-rank", "I(kFloat,2,1);I(kFloat,2)", c),
           rj(op + "-type", "I(kFloat,2);I(kInt32,2)", c), rj(op + "-same-size-type", "I(kInt64,2);I(kDouble,2)", c),
           rj(op + "-device", "I(kFloat,2);ON(DEVICE_CUDA,kFloat,2)", c), rj(op + "-device-left", "ON(DEVICE_CUDA,kFloat,2);I(kFloat,2)", c),
           rj(op + "-scalar", "I(kFloat);I(kFloat,1)", c)]
c = "aitisa_matmul(x[0],x[1],&o)"
for n, i in [("vv", "I(kFloat,2);I(kFloat,3)"), ("mv", "I(kFloat,2,3);I(kFloat,2)"), ("vm", "I(kFloat,2);I(kFloat,3,2)"), ("mm", "I(kFloat,2,3);I(kFloat,2,3)"),
             ("batched-vec", "I(kFloat,2,1,3);I(kFloat,2)"), ("vec-batched", "I(kFloat,3);I(kFloat,2,2,3)"), ("batched-inner", "I(kFloat,2,1,3);I(kFloat,2,2,1)"),
             ("batched-batch", "I(kFloat,2,1,2);I(kFloat,3,2,1)"), ("batched-2d", "I(kFloat,2,1,3);I(kFloat,2,1)"), ("batched-batch4", "I(kFloat,2,1,1,2);I(kFloat,3,1,2,1)"),
             ("batched-last", "I(kFloat,2,2,1,2);I(kFloat,2,3,2,1)"),
             ("scalar", "I(kFloat);I(kFloat,2)"), ("scalar-right", "I(kFloat,2,2);I(kFloat)"), ("type", "I(kFloat,2,2);I(kDouble,2,2)"), ("device", "I(kFloat,2,2);ON(DEVICE_CUDA,kFloat,2,2)")]:
    cs.append(rj("matmul-" + n, i, c))
c = "aitisa_dot(x[0],x[1],&o)"
for n, i in [("vv", "I(kFloat,2);I(kFloat,3)"), ("mm", "I(kFloat,2,3);I(kFloat,2,3)"), ("tensor-vec", "I(kFloat,2,2,3);I(kFloat,2)"), ("mat-vec", "I(kFloat,3,2);I(kFloat,3)"),
             ("multidim", "I(kFloat,2,1,3);I(kFloat,1,2,3)"), ("vec-mat", "I(kFloat,2);I(kFloat,2,2)"), ("vec-tensor", "I(kFloat,2);I(kFloat,2,2,1)"), ("mat-tensor", "I(kFloat,2,2);I(kFloat,1,2,2)"),
             ("type", "I(kFloat,2);I(kInt32,2)"), ("type-scalar", "I(kFloat);I(kInt32,2)"), ("device", "ON(DEVICE_CUDA,kFloat,2);I(kFloat,2)")]:
    cs.append(rj("dot-" + n, i, c))
cs += [
    rj("reshape", "I(kFloat,2,2)", "aitisa_reshape(x[0],d,2,&o)", "int64_t d[2]={L(0,99),L(0,99)};VP_ASSUME(d[0]*d[1]!=4)"),
    rj("reshape-3d", "I(kInt16,2,3)", "aitisa_reshape(x[0],d,3,&o)", "int64_t d[3]={L(0,9),L(0,9),L(0,9)};VP_ASSUME(d[0]*d[1]*d[2]!=6)"),
    rj("reshape-scalar", "I(kFloat,2)", "aitisa_reshape(x[0],d,0,&o)", "int64_t d[1]={1}"),
    rj("squeeze-axis", "I(kFloat,1,2,1)", "aitisa_squeeze(x[0],d,2,&o)", "int64_t d[2]={(int64_t)vp_u64(),(int64_t)vp_u64()};VP_ASSUME(d[0]<0||d[0]>2||d[1]<0||d[1]>2)"),
    rj("squeeze-count", "I(kFloat,1,2)", "aitisa_squeeze(x[0],d,n,&o)", "int64_t d[1]={0};int64_t n=L(INT64_MIN,-1)"),
    rj("slice-1d", "I(kInt32,3)", "aitisa_slice(x[0],b,z,t,&o)",
       "int b[1]={%s},z[1]={%s},t[1]={%s};VP_ASSUME(b[0]<0||b[0]>=3||z[0]<0||z[0]>3-(int64_t)b[0]||t[0]<1)" % (ANY, ANY, ANY)),
    rj("slice-2d", "I(kFloat,3,2)", "aitisa_slice(x[0],b,z,t,&o)",
       "int b[2]={%s,%s},z[2]={%s,%s},t[2]={%s,%s};VP_ASSUME(b[0]<0||b[0]>=3||b[1]<0||b[1]>=2||z[0]<0||z[1]<0||z[0]>3-(int64_t)b[0]||z[1]>2-(int64_t)b[1]||t[0]<1||t[1]<1)" % ((ANY,) * 6)),
    rj("softmax-axis", "I(kFloat,2,2)", "aitisa_softmax(x[0],ax,&o)", "int ax=%s;VP_ASSUME(ax<-1||ax>1)" % ANY, cost=9),
    rj("softmax-axis-1d", "I(kDouble,3)", "aitisa_softmax(x[0],ax,&o)", "int ax=%s;VP_ASSUME(ax<-1||ax>0)" % ANY, cost=9),
    rj("dropout-rate", "I(kFloat,2,2)", "aitisa_dropout(x[0],r,&o)", "double r=D();VP_ASSUME(!(r>=0&&r<=1))"),
    rj("sqrt-float", "I(kFloat,3)", "aitisa_sqrt(x[0],&o)", defs=NEGEL), rj("sqrt-double", "I(kDouble,2,2)", "aitisa_sqrt(x[0],&o)", defs=NEGEL),
    rj("sqrt-int", "I(kInt32,3)", "aitisa_sqrt(x[0],&o)", defs=NEGEL), rj("sqrt-int64", "I(kInt64,3)", "aitisa_sqrt(x[0],&o)", defs=NEGEL),
    rj("sigmoid-int", "I(kInt32,2)", "aitisa_sigmoid(x[0],&o)"), rj("tanh-int", "I(kUint8,2)", "aitisa_tanh(x[0],&o)"),
    rj("tanh-int64", "I(kInt64,2)", "aitisa_tanh(x[0],&o)"), rj("sigmoid-int64", "I(kInt64,2)", "aitisa_sigmoid(x[0],&o)"),
]
BN = "aitisa_batch_norm(x[0],%s,x[1],x[2],x[3],x[4],%s,&o)"


def bnin(x="kFloat,2,2", par=None):
    p = ["kFloat,2"] * 4
    for k, v in (par or {}).items():
        p[k] = v
    return ";".join("I(%s)" % s for s in [x] + p)


cs += [rj("bn-axis", bnin(), BN % ("ax", "1.0"), "int ax=%s;VP_ASSUME(ax!=1)" % ANY, cost=6),
       rj("bn-axis-3d-0", bnin("kFloat,1,2,2"), BN % ("0", "1.0")), rj("bn-axis-3d-neg", bnin("kFloat,1,2,2"), BN % ("-1", "1.0")),
       rj("bn-axis-3d-3", bnin("kFloat,1,2,2"), BN % ("3", "1.0")), rj("bn-axis-4d-2", bnin("kFloat,1,2,2,2"), BN % ("2", "1.0")),
       rj("bn-rank1", bnin("kFloat,2"), BN % ("0", "1.0")), rj("bn-rank6", bnin("kFloat,1,2,1,1,1,1"), BN % ("1", "1.0")),
       rj("bn-epsilon", bnin("kFloat,1,1", {k: "kFloat,1" for k in range(4)}), BN % ("1", "e"), "double e=D();VP_ASSUME(e<0)", cost=9, timeout=200),
       rj("bn-variance", bnin(), BN % ("1", "1.0"), defs={"VP_ELEM(i,j)": "((i)==4&&(j)==1?-2:(j)+1)"}),
       rj("bn-variance-3d", bnin("kFloat,1,2,2"), BN % ("1", "1.0"), defs={"VP_ELEM(i,j)": "((i)==4&&(j)==1?-2:(j)+1)"})]
for k, n in enumerate(("scale", "bias", "mean", "variance")):
    cs += [rj("bn-%s-short" % n, bnin(par={k: "kFloat,1"}), BN % ("1", "1.0")), rj("bn-%s-long" % n, bnin(par={k: "kFloat,3"}), BN % ("1", "1.0")),
           rj("bn-%s-rank" % n, bnin(par={k: "kFloat,1,2"}), BN % ("1", "1.0")), rj("bn-%s-type" % n, bnin(par={k: "kInt32,2"}), BN % ("1", "1.0"))]
C2 = "aitisa_conv2d(x[0],x[1],st,2,pa,2,dl,2,%s,&o)"
OK2 = "int st[2]={1,1},pa[2]={0,0},dl[2]={1,1}"
XW = "I(kFloat,1,1,2,2);I(kFloat,1,1,1,2)"
cs += [rj("conv-double", "I(kDouble,1,1,2,2);I(kDouble,1,1,1,1)", C2 % 1, OK2), rj("conv-int", "I(kInt32,1,1,2,2);I(kInt32,1,1,1,1)", C2 % 1, OK2),
       rj("conv-filter-type", "I(kFloat,1,1,2,2);I(kInt32,1,1,1,1)", C2 % 1, OK2), rj("conv-filter-type2", "I(kFloat,1,1,2,2);I(kDouble,1,1,1,1)", C2 % 1, OK2),
       rj("conv-filter-rank", "I(kFloat,1,1,2,2);I(kFloat,1,1,1)", C2 % 1, OK2), rj("conv2d-rank", "I(kFloat,1,1,2);I(kFloat,1,1,1)", C2 % 1, OK2),
       rj("conv3d-rank", XW, "aitisa_conv3d(x[0],x[1],st,3,pa,3,dl,3,1,&o)", "int st[3]={1,1,1},pa[3]={0,0,0},dl[3]={1,1,1}"),
       rj("conv-channels", "I(kFloat,1,2,1,2);I(kFloat,1,1,1,1)", C2 % 1, OK2), rj("conv-channels-more", "I(kFloat,1,1,1,2);I(kFloat,1,2,1,1)", C2 % 1, OK2),
       rj("conv-groups", "I(kFloat,1,2,1,1);I(kFloat,2,2,1,1)", C2 % "g", OK2 + ";int g=%s;VP_ASSUME(g!=1)" % ANY),
       rj("conv-groups-out", "I(kFloat,1,2,1,1);I(kFloat,3,1,1,1)", C2 % 2, OK2),
       rj("conv-stride", XW, C2 % 1, "int st[2]={%s,%s},pa[2]={0,0},dl[2]={1,1};VP_ASSUME(st[0]<1||st[1]<1)" % (ANY, ANY)),
       rj("conv-padding", XW, C2 % 1, "int st[2]={1,1},pa[2]={P(INT_MIN,1),P(INT_MIN,1)},dl[2]={1,1};VP_ASSUME(pa[0]<0||pa[1]<0)", cost=9),
       rj("conv-dilation", XW, C2 % 1, "int st[2]={1,1},pa[2]={0,0},dl[2]={%s,%s};VP_ASSUME(dl[0]<1||dl[1]<1)" % (ANY, ANY)),
       rj("conv-window", XW, C2 % 1, "int st[2]={1,1},pa[2]={0,0},dl[2]={1,%s};VP_ASSUME(dl[1]>1)" % ANY),
       rj("conv-filter-large", "I(kFloat,1,1,2,2);I(kFloat,1,1,3,1)", C2 % 1, OK2)]
PL = "aitisa_pooling(x[0],%s,ks,st,pa,dl,&o)"
PX = "I(kFloat,1,1,2,2)"
cs += [rj("pool-mode", PX, PL % "m", 'int ks[2]={1,1},st[2]={1,1},pa[2]={0,0},dl[2]={1,1};char m[6];uint64_t v=vp_u64();memcpy(m,&v,5);m[5]=0;VP_ASSUME(strcmp(m,"max")&&strcmp(m,"avg"))'),
       rj("pool-rank2", "I(kFloat,2,2)", PL % '"max"', "int ks[2]={1,1},st[2]={1,1},pa[2]={0,0},dl[2]={1,1}"),
       rj("pool-rank6", "I(kFloat,1,1,1,1,1,2)", PL % '"avg"', "int ks[4]={1,1,1,1},st[4]={1,1,1,1},pa[4]={0,0,0,0},dl[4]={1,1,1,1}")]
for m in ("max", "avg"):
    for n, a in [("ksize", (ANY, "1", "0", "1", "ks[0]<1||ks[0]>3")), ("stride", ("1", ANY, "0", "1", "st[0]<1")), ("padding", ("2", "1", "P(INT_MIN,2)", "1", "pa[0]<0")),
                 ("dilation", ("2", "1", "0", ANY, "dl[0]<1||dl[0]>2")), ("any", (ANY, ANY, "P(INT_MIN,2)", ANY, "ks[0]<1||st[0]<1||pa[0]<0||dl[0]<1"))]:
        cs.append(rj("pool-%s-%s" % (m, n), "I(kInt32,1,1,3)", PL % ('"%s"' % m), "int ks[1]={%s},st[1]={%s},pa[1]={%s},dl[1]={%s};VP_ASSUME(%s)" % a,
                     tier="quick" if m == "max" or n in ("any", "padding") else "thorough"))
for c in cs:
    if c.name in ("add-dims", "slice-2d", "bn-axis", "pool-max-any", "conv-stride"):
        c.witness = "quick"
prop("C05", cs, "the out-of-range parameter(s): any int / int64 / double outside the valid range, any five-character mode string",
     "one or two small inputs per operator; mismatches of type, rank, dimensions, device and channel count as listed in per_case",
     "other shapes; dimensions whose product overflows; unknown element-type codes; null pointers")

cs = []
for d in [(), (2,), (2, 3)]:
    pass
for fn in ("add", "sub", "mul", "div"):
    for a in range(4):
        for b in range(4):
            quick = (fn in ("add", "div") and (a, b) in ((0, 1), (1, 0), (2, 2), (1, 1), (1, 2), (3, 3))) or (a, b) == (2, 2) or (fn in ("sub", "mul") and (a, b) == (1, 2))
            cs.append(Case("%s-rank%d-rank%d" % (fn, a, b), "mism.c", dict(VP_FN="aitisa_" + fn, VP_MATMUL=0, VP_NA=a, VP_NB=b), unwind=8, backends=("sat", "cvc5"), timeout=120,
                           stage2=False, tier="quick" if quick else "thorough", witness="quick" if fn == "add" and (a, b) == (2, 2) else "thorough", cost=2 if a == b else 1))
            if (a, b) == (0, 0):
                cs[-1].witness = False
for a in range(3):
    for b in range(3):
        cs.append(Case("matmul-rank%d-rank%d" % (a, b), "mism.c", dict(VP_FN="aitisa_matmul", VP_MATMUL=1, VP_NA=a, VP_NB=b), unwind=8, backends=("sat", "cvc5"), timeout=120,
                       stage2=False, witness="quick" if (a, b) == (2, 2) else "thorough", cost=4))
for a, b in [(3, 1), (1, 3)]:
    cs.append(Case("matmul-rank%d-rank%d" % (a, b), "mism.c", dict(VP_FN="aitisa_matmul", VP_MATMUL=1, VP_NA=a, VP_NB=b), unwind=8, backends=("sat", "cvc5"), timeout=400, short=100,
                   stage2=False, tier="thorough", witness="thorough"))
for a, b in [((2, 2, 2), (2, 2, 2)), ((2, 2, 2), (2, 3, 2)), ((2, 1, 2), (3, 2, 1)), ((2, 1, 3), (2, 1)), ((2, 1, 3), (2,)), ((3,), (2, 2, 1)), ((3, 2), (2, 1, 2)), ((2, 2, 1, 2), (3, 2, 1)),
             ((2, 1, 1, 2), (3, 1, 2, 1)), ((1, 2, 2, 1), (3, 3, 1, 2)), ((2, 3, 1, 1), (2, 1, 1)), ((0, 2, 2), (2, 2, 2)), ((), (2, 1, 2)), ((2, 1, 2), ())]:
    cs.append(Case("matmul-%s.%s" % (nm(a), nm(b)), "mism.c", dict(VP_FN="aitisa_matmul", VP_MATMUL=1, VP_NA=len(a), VP_NB=len(b), VP_DA=arr(a) if a else "{1}", VP_DB=arr(b) if b else "{1}"),
                   unwind=24, backends=("sat", "cvc5"), timeout=60, stage2=False, witness="thorough"))
prop("C08", cs, "both element types (all pairs), both devices, every dimension (0..3) of both operands for ranks 0..3 (matmul: 0..2)",
     "binary operators: rank pairs 0..3 (quick: a selection); matmul: all rank pairs 0..2 with symbolic dimensions, batched forms on listed shapes with symbolic types and devices",
     "larger dimensions; which status wins when several documented reasons apply at once")

cs = []


def sf(name, ins, call, pre="", **kw):
    d = kw.pop("defs", {})
    d = dict(d, VP_BADIF="0")
    return rj(name, ins, call, pre, defs=d, **kw)


SL = "aitisa_slice(x[0],b,z,t,&o)"
cs += [sf("slice-1d", "I(kInt32,3)", SL, "int b[1]={%s},z[1]={%s},t[1]={%s}" % ((ANY,) * 3)),
       sf("slice-2d", "I(kInt32,2,2)", SL, "int b[2]={%s,%s},z[2]={%s,%s},t[2]={%s,%s}" % ((ANY,) * 6), cost=9),
       sf("slice-empty", "I(kInt32,0,2)", SL, "int b[2]={%s,%s},z[2]={%s,%s},t[2]={%s,%s}" % ((ANY,) * 6)),
       sf("slice-3d", "I(kInt8,2,1,2)", SL, "int b[3]={%s,%s,%s},z[3]={%s,%s,%s},t[3]={%s,%s,%s}" % ((ANY,) * 9), tier="thorough", timeout=300),
       sf("softmax-axis", "I(kFloat,2,2)", "aitisa_softmax(x[0],ax,&o)", "int ax=%s" % ANY, cost=9),
       sf("softmax-scalar", "I(kFloat)", "aitisa_softmax(x[0],ax,&o)", "int ax=%s" % ANY),
       sf("softmax-empty", "I(kDouble,0,2)", "aitisa_softmax(x[0],ax,&o)", "int ax=%s" % ANY),
       sf("softmax-empty2", "I(kFloat,2,0)", "aitisa_softmax(x[0],ax,&o)", "int ax=%s" % ANY),
       sf("reshape", "I(kFloat,2,2)", "aitisa_reshape(x[0],d,2,&o)", "int64_t d[2]={L(0,INT_MAX),L(0,INT_MAX)}"),
       sf("reshape-empty", "I(kFloat,2,0)", "aitisa_reshape(x[0],d,2,&o)", "int64_t d[2]={L(0,INT_MAX),L(0,INT_MAX)}"),
       sf("squeeze", "I(kFloat,1,2,1)", "aitisa_squeeze(x[0],d,2,&o)", "int64_t d[2]={(int64_t)vp_u64(),(int64_t)vp_u64()}"),
       sf("squeeze-three", "I(kFloat,1,1)", "aitisa_squeeze(x[0],d,3,&o)", "int64_t d[3]={(int64_t)vp_u64(),(int64_t)vp_u64(),(int64_t)vp_u64()}"),
       sf("dropout", "I(kFloat,2,2)", "aitisa_dropout(x[0],r,&o)", "double r=D()"), sf("dropout-empty", "I(kInt16,0)", "aitisa_dropout(x[0],r,&o)", "double r=D()"),
       sf("dropout-scalar", "I(kUint8)", "aitisa_dropout(x[0],r,&o)", "double r=D()")]
for m in ("max", "avg"):
    cs += [sf("pool-%s-1d" % m, "I(kInt32,1,1,3)", PL % ('"%s"' % m), "int ks[1]={%s},st[1]={%s},pa[1]={P(INT_MIN,2)},dl[1]={%s}" % (ANY, ANY, ANY), cost=9),
           sf("pool-%s-empty" % m, "I(kInt32,1,1,0)", PL % ('"%s"' % m), "int ks[1]={%s},st[1]={%s},pa[1]={P(INT_MIN,2)},dl[1]={%s}" % (ANY, ANY, ANY)),
           sf("pool-%s-nobatch" % m, "I(kInt32,0,1,2)", PL % ('"%s"' % m), "int ks[1]={%s},st[1]={%s},pa[1]={P(INT_MIN,2)},dl[1]={%s}" % (ANY, ANY, ANY)),
           sf("pool-%s-2d" % m, "I(kInt32,1,1,1,2)", PL % ('"%s"' % m), "int ks[2]={%s,2},st[2]={%s,1},pa[2]={P(INT_MIN,1),0},dl[2]={%s,1}" % (ANY, ANY, ANY), tier="thorough", timeout=300)]
cs += [sf("conv-1d", "I(kFloat,1,1,3);I(kFloat,1,1,2)", "aitisa_conv(x[0],x[1],st,pa,dl,1,&o)", "int st[1]={%s},pa[1]={P(INT_MIN,2)},dl[1]={%s}" % (ANY, ANY), cost=9),
       sf("conv-groups", "I(kFloat,1,2,1);I(kFloat,2,1,1)", "aitisa_conv(x[0],x[1],st,pa,dl,g,&o)", "int st[1]={%s},pa[1]={P(INT_MIN,1)},dl[1]={%s};int g=%s" % (ANY, ANY, ANY), cost=9),
       sf("conv-empty", "I(kFloat,1,1,0);I(kFloat,1,1,2)", "aitisa_conv(x[0],x[1],st,pa,dl,1,&o)", "int st[1]={%s},pa[1]={P(INT_MIN,2)},dl[1]={%s}" % (ANY, ANY)),
       sf("conv-nobatch", "I(kFloat,0,1,2);I(kFloat,1,1,2)", "aitisa_conv(x[0],x[1],st,pa,dl,1,&o)", "int st[1]={%s},pa[1]={P(INT_MIN,2)},dl[1]={%s}" % (ANY, ANY)),
       sf("conv-nofilter", "I(kFloat,1,1,2);I(kFloat,0,1,1)", "aitisa_conv(x[0],x[1],st,pa,dl,g,&o)", "int st[1]={%s},pa[1]={P(INT_MIN,1)},dl[1]={%s};int g=%s" % (ANY, ANY, ANY)),
       sf("conv-nochannel", "I(kFloat,1,0,2);I(kFloat,1,0,1)", "aitisa_conv(x[0],x[1],st,pa,dl,g,&o)", "int st[1]={%s},pa[1]={P(INT_MIN,1)},dl[1]={%s};int g=%s" % (ANY, ANY, ANY)),
       sf("bn-axis", bnin(), BN % ("ax", "1.0"), "int ax=%s" % ANY, cost=9, timeout=200),
       sf("bn-epsilon", bnin("kFloat,1,1", {k: "kFloat,1" for k in range(4)}), BN % ("1", "e"), "double e=D()", cost=9, timeout=200),
       sf("bn-nobatch", bnin("kFloat,0,2"), BN % ("ax", "1.0"), "int ax=%s" % ANY), sf("bn-nochannel", bnin("kFloat,2,0", {k: "kFloat,0" for k in range(4)}), BN % ("1", "1.0")),
       sf("bn-empty-3d", bnin("kFloat,2,2,0"), BN % ("1", "1.0"))]
# zero-size and scalar operands of every operator
for op in ("add", "sub", "mul", "div"):
    cs += [sf("%s-empty" % op, "I(kInt32,2,0);I(kInt32,2,0)", "aitisa_%s(x[0],x[1],&o)" % op)]
for n, i in [("vv", "I(kInt32,0);I(kInt32,0)"), ("mv", "I(kInt32,2,0);I(kInt32,0)"), ("vm", "I(kInt32,0);I(kInt32,0,2)"), ("mm", "I(kInt32,2,0);I(kInt32,0,2)"), ("mm2", "I(kInt32,0,2);I(kInt32,2,0)"),
             ("bmm", "I(kInt32,0,1,2);I(kInt32,0,2,1)"), ("bmm2", "I(kInt32,2,1,0);I(kInt32,2,0,1)"), ("bmm3", "I(kInt32,0,1,2);I(kInt32,1,2,1)"), ("bmv", "I(kInt32,0,1,2);I(kInt32,2)"),
             ("vbm", "I(kInt32,2);I(kInt32,0,2,1)"), ("ss", "I(kInt32);I(kInt32)")]:
    cs.append(sf("matmul-empty-" + n, i, "aitisa_matmul(x[0],x[1],&o)"))
for n, i in [("vv", "I(kInt32,0);I(kInt32,0)"), ("mm", "I(kInt32,2,0);I(kInt32,0,2)"), ("tv", "I(kInt32,2,0);I(kInt32,0)"), ("tv2", "I(kInt32,0,2);I(kInt32,2)"), ("nd", "I(kInt32,1,2,0);I(kInt32,2,0,1)"),
             ("nd2", "I(kInt32,0,1,2);I(kInt32,1,2,1)"), ("nd3", "I(kInt32,1,1,2);I(kInt32,1,2,0)"), ("s", "I(kInt32);I(kInt32,0)"), ("s2", "I(kInt32,0);I(kInt32)")]:
    cs.append(sf("dot-empty-" + n, i, "aitisa_dot(x[0],x[1],&o)"))
for f in ("relu", "sigmoid", "tanh", "sqrt", "duplicate"):
    cs += [sf("%s-empty" % f, "I(kFloat,0)", "aitisa_%s(x[0],&o)" % f), sf("%s-scalar" % f, "I(kFloat)", "aitisa_%s(x[0],&o)" % f)]
cs += [sf("cast-empty", "I(kFloat,0,2)", "aitisa_cast(x[0],kInt64,&o)"), sf("cast-scalar", "I(kInt8)", "aitisa_cast(x[0],kDouble,&o)")]
for c in cs:
    if c.name in ("slice-1d", "squeeze", "pool-max-1d", "conv-1d"):
        c.witness = "quick"
prop("C31", cs, "every integer parameter (any int or int64; paddings up to 2), the dropout rate and epsilon (any double)",
     "one small input per operator, plus zero-size and scalar inputs; CBMC's pointer, bounds, overflow-of-index and division-by-zero checks on every access",
     "paddings above 2; larger inputs; null pointers; parameter arrays shorter than the rank")
