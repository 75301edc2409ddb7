"""Paths through a decoded template, with what the registers and frame slots hold at the end of each, as polynomials over the
slots' contents at entry."""
from .tmpl import *
from .poly import *
from .poly import const as pconst

JSET = {"jl": "lt", "jge": "ge", "jle": "le", "jg": "gt", "je": "eq", "jne": "ne", "jb": "ult", "jae": "uge", "jbe": "ule", "ja": "ugt"}
NEG = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le", "eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule"}


class Path:
    __slots__ = ("regs", "slots", "out", "conds", "calls", "end", "flag", "rax", "trace")
    def copy(s):
        p = Path()
        p.regs, p.slots, p.out, p.conds, p.calls, p.end, p.flag, p.rax, p.trace = dict(s.regs), dict(s.slots), dict(s.out), list(s.conds), list(s.calls), None, s.flag, None, list(s.trace)
        return p


def paths(t, ins, tagslots=True, limit=256):
    """tagslots: slot contents are read as tagged integers 2*u+1 (their tests are recorded in conds)"""
    A = Analysis(t, ins)
    order = sorted(A.by)
    nxt = {a: b for a, b in zip(order, order[1:] + [t.len])}
    p0 = Path()
    p0.regs, p0.slots, p0.out, p0.conds, p0.calls, p0.flag, p0.trace = {}, {}, {}, [], [], None, []
    work, done = [(0, p0)], []
    n = [0]

    def fresh(what):
        n[0] += 1
        return pv(("?", what, n[0]))

    def slot(p, l):
        if l in p.slots: return p.slots[l]
        return tagged(pv(l)) if tagslots and l[0] == "slot" else pv(l)

    def get(p, I, o):
        if o is None: return fresh("none")
        if o[0] == "r":
            if o[1] not in p.regs: p.regs[o[1]] = pv(("reg", o[1]))
            return p.regs[o[1]]
        if o[0] == "i": return pv(("fn", o[1].fn)) if o[1].fn else pc(o[1].c) if o[1].c is not None else pv(("imm", o[1].key()))
        if o[0] == "mem":
            l = A.loc(I, o, False, False)
            if l: return slot(p, l) if l[0] != "out" else p.out.get(l, pv(l))
            b = get(p, I, ("r", o[1])) if o[1] and o[1] != "rip" else {}
            x = get(p, I, ("r", o[3])) if o[3] else {}
            d = pc(o[2][1].c) if o[2][1].c is not None else pv(("imm", o[2][1].key()))
            return pv(("mem", fz(padd(padd(b, pmul(x, pc(o[4]))), d))))
        return fresh("x")

    def put(p, I, o, v):
        if o is None: return
        if o[0] == "r": p.regs[o[1]] = v
        elif o[0] == "mem":
            l = A.loc(I, o, False, True)
            if l and l[0] == "out": p.out[l] = v
            elif l:
                for k in list(p.slots):
                    if k != l and not (k[0] == l[0] == "slot" and A.distinct(k[1], l[1])): p.slots[k] = fresh("alias")
                p.slots[l] = v

    while work:
        at, p = work.pop()
        if len(done) + len(work) > limit: return None
        while True:
            if at >= t.len or at not in A.by:
                p.end = "end"; done.append(p); break
            if len(p.trace) > 400: return None
            I = A.by[at]
            p.trace.append(at)
            op = I.op
            if I.rel is not None and op != "callrel":
                tg = A.target(I)
                if op == "jmp":
                    if not isinstance(tg, int): p.end = ("jump", tg, at); done.append(p); break
                    at = tg; continue
                q = p.copy()
                if p.flag is not None:
                    q.conds.append((p.flag, op, True)); p.conds.append((p.flag, op, False))
                else:
                    q.conds.append((("?",), op, True)); p.conds.append((("?",), op, False))
                if isinstance(tg, int): work.append((tg, q))
                else: q.end = ("jump", tg, at); done.append(q)
                at = nxt[at]; continue
            if op == "ret": p.end = "ret"; p.rax = p.regs.get("rax"); done.append(p); break
            if op == "jmpind": p.end = "jmpind"; done.append(p); break
            d = I.dst
            if op == "mov" or op == "movsxd":
                v = get(p, I, I.src)
                if I.w < 8 and pconst(v) is None and I.dst[0] == "r" and op == "mov" and "imm" not in str(list(v)[:1]): v = pv(("low", I.w, fz(v)))
                elif I.w == 4 and I.src and I.src[0] == "i" and pconst(v) is not None and I.dst[0] == "r": v = pc(pconst(v) & 0xffffffff)
                put(p, I, d, v)
            elif op == "lea":
                b = get(p, I, ("r", I.src[1])) if I.src[1] else {}
                x = get(p, I, ("r", I.src[3])) if I.src[3] else {}
                dd = disp_value(I.src[2])
                if dd is not None and dd.c is not None: v = padd(padd(b, pmul(x, pc(I.src[4]))), pc(dd.c))
                else: v = fresh("lea")
                put(p, I, d, v if I.w == 8 else pv(("low", I.w, fz(v))))
            elif op in ("test", "cmp"):
                a, b = get(p, I, d), get(p, I, I.src)
                if I.w == 1 and I.src and I.src[0] == "i": b = pc(I.src[1].c & 255)
                p.flag = (op, fz(a), fz(b), I.w, at)
            elif op in ("call", "callrel"):
                v = get(p, I, d) if op == "call" else fresh("callrel")
                args = [p.regs.get(r) for r in ARGREG] + [p.out.get(("out", 8 * k)) for k in range(8)]
                fn = next((m[0][1] for m in v if len(m) == 1 and m[0][0] == "fn"), None) if len(v) == 1 else None
                p.calls.append((I, fn, v, args))
                for r in R64:
                    if r not in SAVED: p.regs[r] = fresh("clobbered")
                p.regs["rax"] = pv(("call", len(p.calls) - 1))
                p.flag = None
            elif op in ("add", "sub", "and", "or", "xor", "imul", "shl", "sal", "sar", "shr"):
                a, b = get(p, I, d), get(p, I, I.src)
                if op in ("xor", "sub") and d == I.src: v = {}
                else:
                    v = op2({"imul": "mul", "sal": "shl", "sar": "ashr", "shr": "lshr"}.get(op, op), a, b)
                if I.w != 8: v = pv(("low", I.w, op, fz(a), fz(b)))
                put(p, I, d, v)
                p.flag = ("arith", fz(v), op, I.w, at)
            elif op in ("inc", "dec", "neg", "not"):
                a = get(p, I, d)
                v = padd(a, pc(1)) if op == "inc" else padd(a, pc(-1)) if op == "dec" else padd({}, a, -1) if op == "neg" else padd(padd({}, a, -1), pc(-1))
                if I.w != 8: v = pv(("low", I.w, op, fz(a)))
                put(p, I, d, v)
                if op != "not": p.flag = ("arith", fz(v), op, I.w, at)
            elif op == "idiv":
                a, b = get(p, I, ("r", "rax")), get(p, I, d)
                k = "" if I.w == 8 else str(I.w)
                p.regs["rax"], p.regs["rdx"] = pv(("sdiv" + k, fz(a), fz(b))), pv(("srem" + k, fz(a), fz(b)))
                p.flag = None
            elif op in ("nop", "int3", "leave"): pass
            elif op == "push": pass
            elif op == "pop": put(p, I, d, fresh("pop"))
            elif op == "cdq": p.regs["rdx"] = fresh("sign")
            else:
                if d is not None: put(p, I, d, fresh(op))
                if op in FLAGS: p.flag = None
            at = nxt[at]
    return done


def bit_conds(p):
    """[(poly, mask, set?)] of the single-bit tests the path passed"""
    out = []
    for f, op, taken in p.conds:
        if f[0] == "test" and op in ("je", "jne"):
            m = pconst(dict(f[2]))
            z = (op == "je") == taken
            if m is not None: out.append((f[1], m, not z))
    return out


def relations(p):
    """[(relation, a, b)] of the comparisons the path passed"""
    out = []
    for f, op, taken in p.conds:
        if f[0] == "cmp" and op in JSET and f[3] == 8:
            r = JSET[op]
            out.append((r if taken else NEG[r], f[1], f[2]))
    return out


def no_overflow(p):
    """results of the arithmetic whose overflow flag the path found clear"""
    out = []
    for f, op, taken in p.conds:
        if f[0] == "arith" and op in ("jo", "jno") and (op == "jno") == taken and f[3] == 8: out.append(f[1])
    return out
