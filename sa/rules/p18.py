"""P18: values are converted before C computes with them."""
from ..core import *
from ..heap import *
from ..ir import show
from .p13 import Values, SKIP, SAME

RULE = """Every place where native code computes with a word as C does is examined: operands of arithmetic and of floating-point conversion, comparisons of order or equality with a number of C, indices and sizes, conversions to
a narrower number, arguments of functions of C or of the program's own that take a number (or that a format prints as one), fields that hold numbers of C, results of functions that return one.  The word is followed back through merges and casts to its
sources; none may be a value: a parameter that holds values, a field or element that holds values, the result of a native function or of a block.  Converting a tagged integer (a shift right by one), testing the tag, hashing and comparing two values are
no computations."""
ASSUME = ("parameters, fields and results declared PN hold values, except parameters of helper functions that no caller gives one",
          "the code generators, the assembler's buffer and the collector handle words whatever they hold and are not examined",
          "the number of arguments potion_vm_proto is given in place of the receiver is below 10")
ARITH = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "xor"}
NOT = ("core/asm.c", "core/vm-x86.c", "core/vm-ppc.c", "core/vm-arm.c", "core/vm-dis.c")
INTS = re.compile(r"\b(char|short|int|long|size_t|ssize_t|off_t|unsigned|PN_SIZE|PNType|PNUniq|_PNUniq|u8|u16|u32|u64|double|float|mode_t|u?int\d+_t|uv_file|PN_OP|_Bool)\b")
FMT = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "asprintf": 1, "pn_printf": 2, "potion_str_format": 1, "potion_fatal": 0}


class Words:
    def __init__(s, ctx):
        s.ctx, s.P, s.V = ctx, ctx.P, Values(ctx)
        s.given = {}
        s.sites = {}
        for F in s.P:
            for I in F.instrs():
                if I.op == "call" and I.callee:
                    T = s.P.resolve(F, I.callee)
                    if T is not None: s.sites.setdefault(T.name, []).append((F, I))

    def leaves(s, F, e, seen=None):
        X = s.ctx.ex(F)
        seen = set() if seen is None else seen
        if e in seen: return
        seen.add(e)
        if e[0] == "phi":
            for b, o in F.val[e[1]]["in"]: yield from s.leaves(F, X.o(o), seen)
        elif e[0] == "select": 
            for x in e[2:]: yield from s.leaves(F, x, seen)
        elif e[0] == "call" and e[1] in SAME: yield from s.leaves(F, X.o(F.val[e[2]].args[SAME[e[1]]]), seen)
        else: yield e

    def param(s, F, k):
        """a parameter holds a value"""
        if str(F.param_type(k)).replace("volatile ", "").replace("const ", "") != "PN": return False
        if F.name in s.V.regs or F.name not in s.sites: return True
        if (F.name, k) not in s.given:
            s.given[F.name, k] = False
            s.given[F.name, k] = any(k < len(I.args) and s.value(C, s.ctx.ex(C).o(I.args[k])) is not None for C, I in s.sites[F.name])
        return s.given[F.name, k]

    def value(s, F, e):
        """a source of the word that is a value"""
        X = s.ctx.ex(F)
        for l in s.leaves(F, e):
            k = l[0]
            if k == "arg" and s.param(F, l[1]): return l
            if k == "load" and (s.V.cell(F, l[1]) or s.register(F, l)): return l
            if k == "bin" and l[1] in ("or", "add") and l[3] == ("c", 1) and l[2][0] == "bin" and l[2][1] == "shl" and l[2][3] == ("c", 1): return l
            if k == "call":
                if not isinstance(l[1], str):
                    c = l[1]
                    if c[0] == "load" and c[1][0] == "fld" and c[1][2:] == ("PNClosure", "method"): return l
                    continue
                T = s.P.resolve(F, l[1])
                if T is not None and T.file not in SKIP and T.ditypes and str(T.ditypes[0]) == "PN": return l
        return None

    def register(s, F, l):
        """a register of the interpreter: a word of its frame, an array as long as the function needs"""
        if F.unit != "core/vm.c" or len(l) < 3 or l[2] not in F.val or F.val[l[2]].get("ty") != "i64": return False
        a = l[1]
        if a[0] != "idx": return False
        b, n = a, 0
        while b[0] == "idx" and b[2][0] == "c": b, n = b[1], n + b[2][1] * b[3]
        if n < 0: return False           # what is kept below a frame is no register
        X = s.ctx.ex(F)
        for b in s.roots(F, a, set()):
            if b[0] == "alloca" and b[1] in F.val and str(F.val[b[1]].get("vty")).startswith("PN["): return True
        return False

    def roots(s, F, a, seen):
        for l in s.leaves(F, a, seen):
            if l[0] in ("idx", "fld"): yield from s.roots(F, l[1], seen)
            else: yield l

    def number(s, F, e):
        """the word is a number of C"""
        X = s.ctx.ex(F)
        for l in s.leaves(F, e):
            k = l[0]
            if k == "c": r = l[1] not in (0, 2, 6) and not l[1] & 1
            elif k == "arg": r = bool(INTS.search(str(F.param_type(l[1])))) and "*" not in str(F.param_type(l[1]))
            elif k == "bin": r = l[1] in ("ashr", "sdiv", "udiv", "srem", "urem", "mul", "add", "sub") and not (l[2][0] == "bin" and l[2][1] == "shl")
            elif k == "load":
                a = l[1]
                r = s.V.cell(F, a) is False and s.cfield(a)
            elif k == "call" and isinstance(l[1], str):
                T = s.P.resolve(F, l[1])
                if T is None: return l[2] in F.val and str(F.val[l[2]].get("ty")).startswith("i")
                r = T is not None and bool(T.ditypes) and bool(INTS.search(str(T.ditypes[0]))) and "*" not in str(T.ditypes[0])
            else: r = False
            if r: return True
        return False

    def cfield(s, a):
        while a[0] == "idx": a = a[1]
        if a[0] != "fld" or a[2] not in s.P.structs: return False
        for f in s.P.structs[a[2]]["fields"]:
            if f["n"] == a[3]: return bool(INTS.search(str(f["ty"]))) and "*" not in str(f["ty"])
        return False


def hashed(F, I, deep=0):
    """the result only goes into a hash"""
    us = F.uses().get(I.id, ())
    return bool(us) and deep < 6 and all(U.op == "xor" or U.op in ("trunc", "shl", "lshr", "zext", "and") and hashed(F, U, deep + 1) for U in us)


def conversions(f):
    out = []
    for m in re.finditer(r"%(?:[-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])", f):
        if m.group(4) == "%": continue
        for g in (1, 2):
            if m.group(g) == "*": out.append("d")
        out.append(m.group(4))
    return out


def run(ctx):
    P, W = ctx.P, Words(ctx)
    for F in P:
        if F.file in SKIP or F.file in NOT: continue
        X = ctx.ex(F)

        def hit(I, o, what, e=None):
            ctx.count("words C computes with")
            e = X.o(o) if e is None else e
            v = W.value(F, e)
            if v is None: return
            if F.name == "potion_vm_proto" and v[0] == "arg" and F.param_name(v[1]) == "self": return
            ctx.report("%s|%s" % (F.name, what), I.where, "%s %s %s, a value that was not converted" % (F.name, what, show(v, F, P)))
        for I in F.instrs():
            if I.op in ARITH or I.op == "lshr" or I.op == "ashr" and X.o(I["ops"][1]) != ("c", 1):
                if I.op in ("shl", "lshr", "xor") and (hashed(F, I) or I.op == "xor"): continue
                for o in I["ops"]: hit(I, o, "computes (%s) with" % I.op)
            elif I.op == "ashr":
                e = X.o(I["ops"][0])
                for l in W.leaves(F, e):
                    if l[0] == "bin" and l[1] == "ashr" and l[3] == ("c", 1) and W.value(F, l[2]) is not None: ctx.report("%s|converts twice" % F.name, I.where, "%s converts %s twice" % (F.name, show(l[2], F, P)))
            elif I.op in ("sitofp", "uitofp"): hit(I, I["ops"][0], "converts to floating point")
            elif I.op == "trunc":
                if I.get("ty") != "i1" and not hashed(F, I) and not X.o(I["ops"][0])[0] == "bin": hit(I, I["ops"][0], "narrows")
            elif I.op == "icmp":
                a, b = (X.o(o) for o in I["ops"])
                for p, q in ((a, b), (b, a)):
                    if W.number(F, q) or I.get("pred") not in ("eq", "ne") and q[0] == "c" and q[1] not in (0, -1):
                        hit(I, None, "compares a number of C with" if I.get("pred") in ("eq", "ne") else "compares the order of a number of C and", p)
            elif I.op == "getelementptr":
                for st in I["path"]:
                    if "ix" in st and "v" in st["ix"]: hit(I, st["ix"], "uses as an index")
            elif I.op in ("call", "invoke"):
                nm = str(I.callee or "").split(".p0")[0]
                T = P.resolve(F, I.callee) if I.callee else None
                fmt = FMT.get(nm.replace("__", "").replace("_chk", ""))
                if fmt is not None and fmt < len(I.args):
                    g = X.o(I.args[fmt])
                    cs = conversions(g[1]) if g[0] == "str" else []
                    for k, c in enumerate(cs):
                        if fmt + 1 + k < len(I.args) and c in "diuc": hit(I, I.args[fmt + 1 + k], "prints as a number")
                for k, o in enumerate(I.args):
                    if fmt is not None and k > fmt: continue
                    if T is not None:
                        if k >= T.nparams: continue
                        t = str(T.param_type(k))
                        if "*" not in t and INTS.search(t): hit(I, o, "hands %s, as its %s," % (T.name, T.param_name(k)))
                    elif nm and not nm.startswith("llvm.") and "asm" not in I.d:
                        if "v" in o and not (o["v"] in F.val and F.val[o["v"]].get("ty") == "ptr"): hit(I, o, "hands %s" % nm)
            elif I.op == "store":
                a = X.o(I["ops"][1])
                if W.V.cell(F, a) is not True and W.cfield(a):
                    b = a
                    while b[0] == "idx": b = b[1]
                    if b[3] == "chars": continue                    # the bytes of any word
                    hit(I, I["ops"][0], "stores into %s of %s" % (b[3], b[2]))
            elif I.op == "ret" and I["ops"] and F.ditypes:
                t = str(F.ditypes[0])
                if "*" not in t and INTS.search(t): hit(I, I["ops"][0], "returns as a number of C")
    ctx.floor("words C computes with", 1500)
