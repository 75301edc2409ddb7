"""P05: arithmetic and comparison operators compute the same in the interpreter, in compiled code and in the number methods."""
from ..core import *
from ..heap import *
from ..facts import Query, ladd as fladd, lin as flin
from ..layout import *
from ..jit import Jit, Decoder, Bad
from ..jitpath import paths, bit_conds, relations, no_overflow
from ..poly import *
from ..poly import fz as pfz, const as pconst
from .p03 import interp

RULE = ("the value each operator produces on two integers is brought to a polynomial over the operands, from the interpreter's SSA, from "
        "the decoded machine code of every emitted variant and from the registered number methods, and compared with the operator's meaning; "
        "every path to such a value must have tested both operands to be integers, and for + - * have seen no overflow; the other paths must "
        "send the operator's own message or compute the same operator on floats")
ASSUME = ("the C library's pow and fmod are not looked into",)

A, B = pv("a"), pv("b")
INTS = {"ADD": ("+", padd(A, B)), "SUB": ("-", padd(A, B, -1)), "MULT": ("*", pmul(A, B)),
        "DIV": ("/", {("sdiv", pfz(A), pfz(B)): 1}), "REM": ("%", {("srem", pfz(A), pfz(B)): 1}),
        "BITL": ("<<", None), "BITR": (">>", None), "BITN": ("~", padd(padd({}, A, -1), pc(-1)))}
INTS["DIV"] = ("/", {(("sdiv", pfz(A), pfz(B)),): 1})
INTS["REM"] = ("%", {(("srem", pfz(A), pfz(B)),): 1})
INTS["BITL"] = ("<<", op2("shl", A, B))
INTS["BITR"] = (">>", op2("ashr", A, B))
CMPS = {"LT": "lt", "LTE": "le", "GT": "gt", "GTE": "ge"}
OVERFLOW = {"ADD": "sadd", "SUB": "ssub", "MULT": "smul"}
FLOAT = {"ADD": "fadd", "SUB": "fsub", "MULT": "fmul", "DIV": "fdiv"}
SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
UNARY = {"BITN"}
IGNORED = {"potion_type_error_want", "potion_type_error", "potion_error"}


class IR:
    """evaluates the values of a function as polynomials over labelled operands"""
    def __init__(s, ctx, F, label, env=None):
        s.ctx, s.P, s.F, s.X, s.label, s.env = ctx, ctx.P, F, ctx.ex(F), label, env or {}
        s.expr = {}

    def poly(s, o, d=0):
        if "c" in o: return pc(o["c"])
        if "null" in o: return {}
        if "v" not in o or d > 40: return pv(("?", str(o)[:40]))
        i = o["v"]
        l = s.label(s.X.o(o))
        if l:
            s.expr.setdefault(l, s.X.o(o))
            return tagged(pv(l))
        I = s.F.val.get(i)
        if I is None: return pv(("arg", i))
        op = I.op
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"): return s.poly(I["ops"][0], d + 1)
        if op in ("sext", "zext"):
            x = I["ops"][0]
            return pv((op, i))
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr", "sdiv", "srem"):
            if I.get("ty") != "i64": return pv((op, I.get("ty"), i))
            return op2(op, s.poly(I["ops"][0], d + 1), s.poly(s.count(I["ops"][1]) if op in ("shl", "ashr", "lshr") else I["ops"][1], d + 1))
        if op == "extractvalue":
            C = s.F.val.get(I["ops"][0].get("v"))
            if C is not None and C.op == "call" and C.callee and ".with.overflow.i64" in C.callee and I.get("ty") == "i64":
                k = C.callee.split(".")[1]
                return op2({"sadd": "add", "ssub": "sub", "smul": "mul"}.get(k, k), s.poly(C.args[0], d + 1), s.poly(C.args[1], d + 1))
        return pv((op, i))

    def count(s, o):
        """a number of places to shift by: a narrower number counts the same"""
        I = s.F.val.get(o.get("v"))
        if I is None or I.op not in ("zext", "sext"): return o
        J = s.F.val.get(I["ops"][0].get("v"))
        return J["ops"][0] if J is not None and J.op == "trunc" and J.get("ty") in ("i32", "i16", "i8") else o

    def number(s, o, d=0):
        """the operand a floating-point value is the value of, or None"""
        I = s.F.val.get(o.get("v"))
        if I is None or d > 6: return None
        if I.op in ("sitofp",):
            p = s.poly(I["ops"][0])
            for l in ("a", "b"):
                if p == pv(l): return l
            return None
        if I.op == "load" and I.get("ty") == "double":
            a = s.X.o(I["ops"][0])
            if a[0] == "fld" and a[2] == "PNDouble": return s.label(a[1])
        if I.op in ("phi",):
            r = {s.number(x, d + 1) for _, x in I["in"]}
            return r.pop() if len(r) == 1 else None
        if I.op == "select":
            r = {s.number(x, d + 1) for x in I["ops"][1:]}
            return r.pop() if len(r) == 1 else None
        return None

    def leaves(s, o, I, seen=None):
        """[(operand, instruction it is wanted at)] of the values a phi or select may stand for"""
        seen = seen if seen is not None else set()
        J = s.F.val.get(o.get("v"))
        if J is not None and J.id in seen: return []
        if J is not None and J.op == "phi":
            seen.add(J.id)
            r = []
            for b, x in J["in"]: r += s.leaves(x, s.F.blocks[b].ins[-1], seen)
            return r
        return [(o, I)]


def run(ctx):
    P = ctx.P
    senders = find_senders(ctx)
    ctx.seen_cmp = set()
    J = Jit(ctx)
    # ---- the interpreter
    vm = P.f("potion_vm")
    hs = interp_blocks(ctx, vm)
    fall = {}
    for k, n in J.ops.items():
        if n not in INTS and n not in CMPS: continue
        if k not in hs: continue
        region = dominated(vm, hs[k])
        X = ctx.ex(vm)
        lab = lambda e, X=X: reg_label(e, n in UNARY)
        N = 0
        for b in region:
            for I in vm.blocks[b].ins:
                if I.op != "store": continue
                a = X.o(I["ops"][1])
                if operand(a) != "a": continue
                N += 1
                E = IR(ctx, vm, lab)
                for o, at in E.leaves(I["ops"][0], I):
                    judge(ctx, E, n, o, at, senders, "the interpreter's %s" % n, "potion_vm|%s" % n, fall)
        if not N: ctx.report("potion_vm|%s|none" % n, vm.blocks[hs[k]].ins[0].where, "the interpreter's %s stores no result" % n)
        ctx.count("interpreter operators")
    # ---- compiled code
    for k, I in J.dispatch:
        n = J.ops.get(k)
        if n in INTS or n in CMPS: machine(ctx, J, k, n, I, senders)
    # ---- methods
    for m in methods(ctx):
        if m["rcv"] not in (1, 3, 4): continue
        op = next((n for n, (t, f) in INTS.items() if t == m["name"]), None)
        if op is None: continue
        F = P.f(m["fn"])
        ctx.count("number methods")
        lab = lambda e, u=op in UNARY: "a" if e == ("arg", 2) else "b" if e == ("arg", 3) and not u else None
        method(ctx, F, op, lab, senders, m["rcv"] == 3)
    ctx.floor("interpreter operators", 12); ctx.floor("machine code paths", 40); ctx.floor("number methods", 18); ctx.floor("messages", 8)


def method(ctx, F, op, lab, senders, floats, outer=None, depth=0):
    E = IR(ctx, F, lab)
    for I in F.instrs():
        if I.op == "ret" and I.get("ops"):
            for o, at in E.leaves(I["ops"][0], I):
                judge(ctx, E, op, o, at, senders, "the %s method %s" % (INTS[op][0] if op in INTS else op, F.name), "%s" % F.name, None, True, floats, outer, depth)


def operand(a):
    """which operand field of the instruction selects a register address"""
    if a[0] != "idx": return None
    i = a[2]
    if i[0] == "bin" and i[1] == "ashr" and i[3] == ("c", 20):
        x = i[2]
        if x[0] == "bin" and x[1] == "shl" and x[3] == ("c", 12): return "a"
        return "b"
    return None


def reg_label(e, unary):
    if e[0] == "load":
        k = operand(e[1])
        return "a" if k and unary else k
    return None


def interp_blocks(ctx, F):
    P = ctx.P
    for k, g in P.globals.items():
        if "jmptbl" in k and g.get("init", {}).get("arr") and "ba" in g["init"]["arr"][0]:
            return {i: x["ba"] for i, x in enumerate(g["init"]["arr"])}
    for I in F.instrs():
        if I.op == "switch" and len(I["cases"]) > 20: return {k: b for k, b in I["cases"]}
    raise Broken("the interpreter's dispatch is not found")


def dominated(F, h): return [b for b in F.blocks if b == h or h in F.dom().get(b, ())]


def find_senders(ctx):
    """functions (P, a, b) that send one message to a with argument b: name -> (message, receiver arg, other args)"""
    P = ctx.P
    strings_of_globals(P, ctx)
    out = {}
    for F in P:
        X = ctx.ex(F)
        cs = [I for I in F.instrs() if I.op == "call"]
        if len(cs) > 8: continue
        b = [I for I in cs if I.callee == "potion_bind"]
        if len(b) != 1: continue
        args = [X.o(a) for a in b[0].args]
        s = string_of(ctx, F, args[2])
        if s is None: continue
        ind = [I for I in cs if I.callee is None and "callee" in I.d]
        if not ind: continue
        last = [X.o(a) for a in ind[-1].args]
        if len(last) < 3: continue
        if args[1][0] != "arg" or last[2] != args[1]: continue
        rets = [X.o(I["ops"][0]) for I in F.instrs() if I.op == "ret" and I.get("ops")]
        out[F.name] = (s, args[1][1], [a[1] if a[0] == "arg" else None for a in last[3:]])
        ctx.count("messages")
    return out


def raw(E, l): return E.expr.get(l)


def overflow_calls(E, op):
    """[(bit expression, value expression)] of the overflow-checked computations of the operator in the function"""
    out = []
    F, X = E.F, E.X
    want = OVERFLOW[op]
    for C in F.instrs():
        if C.op == "call" and C.callee and C.callee.startswith("llvm.%s.with.overflow.i64" % want):
            pa, pb = E.poly(C.args[0]), E.poly(C.args[1])
            if (pa, pb) not in ((A, B),) and not (op != "SUB" and (pa, pb) == (B, A)): continue
            bit, val = [], []
            for I in F.instrs():
                if I.op == "extractvalue" and I["ops"][0].get("v") == C.id:
                    (bit if I.get("ty") == "i1" else val).append(X.o({"v": I.id}))
            for b in bit:
                out.append((b, val, C))
    return out


def judge(ctx, E, op, o, at, senders, who, key, fall=None, complete=False, floats=False, outer=None, depth=0):
    """is the value `o`, wanted at instruction `at`, what the operator computes"""
    P, F, X = ctx.P, E.F, E.X
    ctx.count("values")
    I = F.val.get(o.get("v"))
    e = X.o(o)
    where = I.where if I is not None and I.line else at.where
    def rep(msg, k): ctx.report("%s|%s" % (key, k), where, msg)
    def guard(goals_list, at=at):
        """each goal set holds on all paths"""
        Q = Query(ctx, F)
        for gs in goals_list:
            if Q.holds(at, [(k, v) for k, v in gs], about=tuple(E.expr.values())) is not None: return False
        return True
    def isint(l): return [("ne", {("bin", "and", raw(E, l), ("c", 1)): 1}), ("eq", {("bin", "and", raw(E, l), ("c", 1)): 1, 1: -1})]
    # --- errors
    if I is not None and I.op == "call":
        fn = I.callee
        if fn in IGNORED or fn and ("error" in fn or "fatal" in fn): return
        if fn == "potion_double":
            if op in FLOAT: floating(ctx, E, op, I.args[1], rep, who)
            if complete and not floats:
                # integers reach this only on overflow, or with a zero divisor
                for l in ("a", "b"):
                    if l not in E.expr:
                        for k in range(len(F.params)):
                            if E.label(("arg", k)) == l: E.expr[l] = ("arg", k)
                gs = [("eq", {("bin", "and", raw(E, l), ("c", 1)): 1}) for l in ("a", "b") if raw(E, l)]
                if op in ("DIV", "REM") and raw(E, "b"):
                    gs.append(("eq", fladd({raw(E, "b"): 1}, {1: -1})))
                    gs.append(("eq", {("bin", "ashr", raw(E, "b"), ("c", 1)): 1}))
                if op in OVERFLOW:
                    for bit, val, C in overflow_calls(E, op):
                        gs.append(("ne", {bit: 1}))
                        for v in val:
                            gs += [("eq", {("fits", v): 1}), ("ge", {v: 1, 1: -(1 << 62)}), ("ge", {v: -1, 1: -(1 << 62) - 1})]
                if Query(ctx, F).holds(at, gs, about=tuple(E.expr.values())) is not None:
                    rep("%s gives a floating-point result for two integers that %s" % (who, "do not overflow" if op in OVERFLOW else "have an integer result"), "float for integers")
            return
        if fn in senders:
            msg, rcv, rest = senders[fn]
            t = INTS[op][0] if op in INTS else None
            if msg != t: rep("%s falls back to the message \"%s\"" % (who, msg), "message"); return
            ls = [E.label(X.o(a)) for a in I.args]
            if ls[rcv] != "a" or (op not in UNARY and [ls[k] if k is not None else None for k in rest][:1] != ["b"]):
                rep("%s passes its operands to %s in the wrong order" % (who, fn), "operand order")
            ctx.count("fallbacks")
            return
        T = P.resolve(F, fn) if fn else None
        if T is not None and depth < 3:
            ls = {k: E.label(X.o(a)) for k, a in enumerate(I.args)}
            if set(ls.values()) >= ({"a"} if op in UNARY else {"a", "b"}):
                lab = lambda x, ls=ls: ls.get(x[1]) if x[0] == "arg" else None
                if op in INTS: method(ctx, T, op, lab, senders, floats, (E, at), depth + 1)
                else:
                    E2 = IR(ctx, T, lab)
                    for R in T.instrs():
                        if R.op == "ret" and R.get("ops"):
                            for o2, at2 in E2.leaves(R["ops"][0], R):
                                judge(ctx, E2, op, o2, at2, senders, who, T.name + "|" + op, None, False, floats, (E, at), depth + 1)
                return
        rep("%s gives the result of %s, which is not the operator" % (who, fn or "an unknown function"), "result")
        return
    if op in CMPS:
        compare(ctx, E, op, o, at, rep, who)
        return
    if floats:
        rep("%s gives %s instead of a floating-point number" % (who, show(e, F, P)), "value")
        return
    p = E.poly(o)
    want = tagged(INTS[op][1])
    if p != want:
        rep("%s computes %s on two integers" % (who, describe(p, e, F, P)), "formula")
        return
    ls = ["a"] if op in UNARY else ["a", "b"]
    bad = None
    for l in ls:
        if not raw(E, l): continue
        if not guard([isint(l)]):
            if outer is not None and guard_outer(ctx, outer, l): continue
            bad = l
    if bad: rep("%s takes the integer path without having tested its %s operand to be an integer" % (who, "left" if bad == "a" else "right"), "test")
    if op in OVERFLOW:
        ok = False
        for bit, val, C in overflow_calls(E, op):
            if not guard([[("eq", {bit: 1})]]): continue
            for v in val:
                if guard([[("ne", {("fits", v): 1}), ("ge", {v: -1, 1: (1 << 62) - 1})], [("ne", {("fits", v): 1}), ("ge", {v: 1, 1: 1 << 62})]]): ok = True
        if not ok: rep("%s lets the integer result wrap: a path to it has not excluded overflow" % who, "overflow")
    ctx.count("integer formulas")


def guard_outer(ctx, outer, l):
    E, at = outer
    if l not in E.expr:
        for k in range(len(E.F.params)):
            if E.label(("arg", k)) == l: E.expr[l] = ("arg", k)
    r = E.expr.get(l)
    if r is None:
        for I in E.F.instrs():
            if I.op == "load" and E.label(E.X.o({"v": I.id})) == l and I.bb == at.bb: r = E.X.o({"v": I.id})
    return r is not None and Query(ctx, E.F).holds(at, [("ne", {("bin", "and", r, ("c", 1)): 1})]) is None


def floating(ctx, E, op, o, rep, who):
    I = E.F.val.get(o.get("v"))
    if I is not None and I.op == "phi":
        for _, x in I["in"]: floating(ctx, E, op, x, rep, who)
        return
    if I is None or I.op not in ("fadd", "fsub", "fmul", "fdiv", "frem"):
        rep("%s gives a floating-point result that is not the operator's" % who, "float formula"); return
    x, y = E.number(I["ops"][0]), E.number(I["ops"][1])
    if y is None and op == "DIV" and I["ops"][1].get("fp") is not None: y = "b"     # the zero it was tested to be
    if I.op != FLOAT[op] or (x, y) not in (("a", "b"),) and not (op in ("ADD", "MULT") and (x, y) == ("b", "a")):
        rep("%s computes %s of %s and %s on floating-point numbers" % (who, I.op, x, y), "float formula")
    ctx.count("float formulas")


IP = {"slt": "lt", "sgt": "gt", "sle": "le", "sge": "ge"}
FP = {"olt": "lt", "ogt": "gt", "ole": "le", "oge": "ge"}


def compare(ctx, E, op, o, at, rep, who):
    F = E.F
    I = F.val.get(o.get("v"))
    if I is None or I.op != "select": rep("%s gives %s, which is no comparison" % (who, show(E.X.o(o), F, ctx.P)), "comparison"); return
    t, f = I["ops"][1].get("c"), I["ops"][2].get("c")
    C = F.val.get(I["ops"][0].get("v"))
    neg = False
    while C is not None and C.op == "xor" and C["ops"][1].get("c") in (1, -1): C = F.val.get(C["ops"][0].get("v")); neg = not neg
    if (t, f) == (2, 6): neg = not neg
    elif (t, f) != (6, 2): rep("%s gives neither true nor false" % who, "comparison"); return
    if C is None or C.op not in ("icmp", "fcmp"): rep("%s gives no comparison" % who, "comparison"); return
    ctx.count("comparisons")
    if C.op == "icmp":
        r = IP.get(C["pred"])
        d = padd(E.poly(C["ops"][0]), E.poly(C["ops"][1]), -1)
        ab = padd(A, B, -1)
        if d in (ab, pmul(pc(2), ab)): pass
        elif d in (padd({}, ab, -1), pmul(pc(-2), ab)): r = SWAP.get(r)
        else: r = None
        if neg and r: r = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}[r]
        if r != CMPS[op]: rep("%s compares two integers as %s" % (who, r or C["pred"]), "comparison"); return
        Q = Query(ctx, F)
        for l in ("a", "b"):
            if E.expr.get(l) and Q.holds(at, [("ne", {("bin", "and", E.expr[l], ("c", 1)): 1})]) is not None:
                rep("%s compares words without having tested both to be integers" % who, "test")
    else:
        r = FP.get(C["pred"])
        x, y = E.number(C["ops"][0]), E.number(C["ops"][1])
        if (x, y) == ("b", "a"): r = SWAP.get(r)
        elif (x, y) != ("a", "b"): r = None
        if neg or r != CMPS[op]: rep("%s compares floating-point numbers as %s of %s and %s" % (who, C["pred"], x, y), "float comparison")


def describe(p, e, F, P):
    s = show(e, F, P)
    return s if len(s) < 160 else s[:160] + "..."


# ------------------------------------------------------------------ machine code
def machine(ctx, J, k, n, I, senders):
    T = J.emitter(k)
    if T is None: return
    key = "%s|%s" % (T.name, n)
    for t in J.templates(T, J.feed(J.roles(I))):
        try: ins = Decoder(t).all()
        except Bad as e: raise Broken("the code emitted by %s cannot be decoded: %s" % (T.name, e.msg))
        ps = paths(t, ins)
        if ps is None: raise Broken("too many paths in the code emitted by %s" % T.name)
        who = "the compiled code of %s (emitted by %s)" % (n, T.name)
        sa, sb = ("slot", ("l", ("a", 1))), ("slot", ("l", ("b", 1)))
        sP = ("slot", ("l", ("1", -3), ("start", 1)))
        where = ins[0].where if ins else T.where
        def ren(p):
            return {tuple("a" if x == sa or x == sb and n in UNARY else "b" if x == sb else x for x in m): c for m, c in p.items()}
        def deep(x):
            if x == sa or x == sb and n in UNARY: return "a"
            if x == sb: return "b"
            return tuple(deep(y) for y in x) if isinstance(x, tuple) else x
        for p in ps:
            ctx.count("machine code paths")
            def rep(msg, kk): ctx.report("%s|%s" % (key, kk), where, "%s %s" % (who, msg))
            v = p.slots.get(sa)
            bits = {(deep(x), m) for x, m, st in bit_conds(p) if st}
            odd = {l for l in ("a", "b") if (deep(pfz(tagged(pv(l)))), 1) in bits}
            need = {"a"} if n in UNARY else {"a", "b"}
            if p.calls:
                c = p.calls[-1]
                if p.end == "ret":
                    if n in CMPS and p.rax == pv(("call", len(p.calls) - 1)): continue
                    rep("returns from the function", "return"); continue
                if p.end != "end": rep("leaves for another place", "exit"); continue
                if len(p.calls) != 1 or v != pv(("call", 0)): rep("does not store the result of %s" % c[1], "stored"); continue
                args = [deep(pfz(x)) if x is not None else None for x in c[3]]
                wa = [deep(pfz(tagged(pv(x)))) for x in (sP, "a", "b")]
                fn = c[1]
                if n in INTS:
                    if fn not in senders: rep("falls back to %s, which sends no message" % fn, "fallback"); continue
                    msg, rcv, rest = senders[fn]
                    if msg != INTS[n][0]: rep("falls back to the message \"%s\"" % msg, "message"); continue
                    if args[0] != wa[0] or args[rcv] != wa[1] or (n not in UNARY and args[rest[0]] != wa[2]): rep("passes wrong operands to %s" % fn, "operands")
                else:
                    if args[:3] != wa: rep("passes wrong operands to %s" % fn, "operands")
                    F = ctx.P.f(fn) if fn and fn in ctx.P.funcs else None
                    if F is None: rep("compares with %s" % fn, "fallback"); continue
                    if (fn, n) not in ctx.seen_cmp:
                        ctx.seen_cmp.add((fn, n))
                        lab = lambda e: "a" if e == ("arg", 1) else "b" if e == ("arg", 2) else None
                        E = IR(ctx, F, lab)
                        for R in F.instrs():
                            if R.op == "ret" and R.get("ops"):
                                for o, at in E.leaves(R["ops"][0], R): judge(ctx, E, n, o, at, senders, "%s" % fn, "%s|%s" % (fn, n))
                if n in INTS and need <= odd and not special(n, p, deep): rep("calls the method for two integers without an overflow", "needless")
                continue
            if p.end != "end": rep("leaves without a result", "exit"); continue
            if v is None: rep("stores no result", "stored"); continue
            v = dict(deep(pfz(v)))
            if not need <= odd: rep("takes the integer path without having tested %s to be an integer" % " and ".join(sorted(need - odd)), "test"); continue
            if n in INTS:
                if v != tagged(INTS[n][1]): rep("computes another value on two integers: %s" % (v,), "formula"); continue
                if n in OVERFLOW:
                    nov = [dict(deep(x)) for x in no_overflow(p)]
                    if not any(x == v or padd(x, pc(1)) == v for x in nov): rep("lets the integer result wrap: a path to it has not excluded overflow", "overflow")
            else:
                rel = set()
                for r, x, y in relations(p):
                    d = padd(dict(deep(x)), dict(deep(y)), -1)
                    ab = pmul(pc(2), padd(A, B, -1))
                    if d == ab: rel.add(r)
                    elif d == padd({}, ab, -1): rel.add(SWAP[r])
                c = pconst(v)
                want = CMPS[n] if c == 6 else {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}[CMPS[n]]
                if c not in (2, 6) or want not in rel: rep("gives %s where the operands were compared as %s" % ({6: "true", 2: "false"}.get(c, "no boolean"), ", ".join(rel) or "nothing"), "comparison")


def special(n, p, deep):
    """the path to the method is one for integers too: overflow, or a zero divisor"""
    if n in OVERFLOW: return any(f[0] == "arith" and (op == "jo") == taken for f, op, taken in p.conds if op in ("jo", "jno"))
    if n in ("DIV", "REM"): return any(f[0] in ("arith", "cmp", "test") and op in ("je", "jne") for f, op, taken in p.conds[2:])
    return False
