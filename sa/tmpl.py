"""Forward analysis of decoded JIT templates: what each call receives, what is written where, where jumps land."""
from .emit import *
from .x86 import *

ARGREG = ["rdi", "rsi", "rdx", "rcx", "r8", "r9"]
SAVED = {"rbx", "rbp", "rsp", "r12", "r13", "r14", "r15"}


def slot_of(I, m):
    """frame slot number (linear form) addressed by [rbp+disp], or None; raises Bad when the encoding cannot be right"""
    d = disp_value(m[2])
    if d is None: return None
    # disp = -8*(x+1)  =>  x = -disp/8 - 1
    l = {k: -c for k, c in d.l.items()}
    if any(c % 8 for c in l.values()): return None
    x = V({k: c // 8 for k, c in l.items() if c // 8})
    return add(x, K(1), -1)


class Analysis:
    def __init__(s, t, ins, nout=8):
        s.t, s.ins, s.nout = t, ins, nout
        s.calls, s.writes, s.bad, s.reads, s.indirect = [], [], [], [], []
        s.by = {i.pos: i for i in ins}
        s.flow()

    def target(s, I):
        """position a relative jump goes to, or None for one that is patched later / goes to another instruction's code"""
        n, at, v = I.rel
        if at in s.t.fixups: return None
        if v.c is not None:
            c = v.c
            if n == 1: c = (c & 255) - 256 if c & 128 else c & 255
            return I.end + c
        return ("sym", v)

    def flow(s):
        """forward dataflow over the template's instructions"""
        state = {0: {}}
        work = [0]
        done = {}
        order = sorted(s.by)
        nxt = {}
        for a, b in zip(order, order[1:] + [s.t.len]): nxt[a] = b
        iters = 0
        outs = {}
        while work:
            p = min(work); work.remove(p)
            iters += 1
            if iters > 4000: break
            if p >= s.t.len: continue
            I = s.by.get(p)
            if I is None: continue
            st = dict(state[p])
            succ = []
            if I.rel is not None:
                tg = s.target(I)
                if isinstance(tg, int):
                    if tg in s.by or tg == s.t.len: succ.append(tg)
                if I.op != "jmp": succ.append(nxt[p])
            elif I.op in ("ret", "jmpind"): pass
            else: succ.append(nxt[p])
            s.step(I, st, None)
            for q in succ:
                if q not in state:
                    state[q] = dict(st); work.append(q)
                else:
                    m = {k: v for k, v in state[q].items() if st.get(k) == v}
                    if m != state[q]:
                        state[q] = m
                        if q not in work: work.append(q)
        s.state = state
        for p in order:
            I = s.by[p]
            if I.rel is not None:
                tg = s.target(I)
                if isinstance(tg, int) and tg not in s.by and tg != s.t.len:
                    s.bad.append((I, "the jump at %d goes to %d, which is not an instruction of the emitted code" % (p, tg)))
            if p in state: s.step(I, dict(state[p]), I)
            elif I.op != "nop": s.bad.append((I, "code at %d cannot be reached" % p))

    def loc(s, I, m, rep, write):
        """abstract name of a memory operand"""
        base, disp, idx = m[1], m[2], m[3]
        if base == "rbp" and idx is None:
            d = disp_value(disp)
            if d is None:
                if rep: s.bad.append((I, "frame displacement is not a slot address"))
                return None
            if d.c is not None and d.c > 0: return ("arg", d.c)
            x = slot_of(I, m)
            if x is None:
                if rep: s.bad.append((I, "frame displacement %s is not a slot address" % d))
                return None
            if rep and disp[0] == "d8":
                lo, hi = s.t.interval(x)
                if hi is None or hi > 15:
                    s.bad.append((I, "slot %s is addressed with a one-byte displacement, which reaches only slots 0 to 15" % x))
            return ("slot", x.key())
        if base == "rbp":
            d = disp_value(disp)
            x = slot_of(I, m) if m[4] == 8 else None
            if x is None:
                if rep: s.bad.append((I, "indexed frame address is not a slot address"))
                return ("slotx",)
            if rep and disp[0] == "d8":
                hi = s.t.interval(x)[1]
                if hi is None or hi > 15:
                    s.bad.append((I, "slot %s is addressed with a one-byte displacement, which reaches only slots 0 to 15" % x))
            return ("slotx", x.key())
        if base == "rsp" and idx is None: return ("out", getattr(disp_value(disp), "c", None))
        return None

    def step(s, I, st, rep):
        def get(o):
            if o is None: return ("?",)
            if o[0] == "r": return st.get(o[1], ("?",))
            if o[0] == "i": return ("fn", o[1].fn) if o[1].fn else ("imm", o[1].key())
            if o[0] == "mem":
                l = s.loc(I, o, rep, False)
                if l and l[0] == "slot":
                    if rep: s.reads.append((I, l[1]))
                    return st.get(l, l)
                if l: return st.get(l, l)
                d = disp_value(o[2]) or o[2][1]
                return ("deref", st.get(o[1], ("?",)), d.key(), o[3] and st.get(o[3], ("?",)))
            return ("?",)

        def put(o, v):
            if o is None: return
            if o[0] == "r": st[o[1]] = v
            elif o[0] == "mem":
                l = s.loc(I, o, rep, True)
                if rep: s.writes.append((I, l, v, o, st.get(o[1])))
                if l: st[l] = v
                if l and l[0] == "slot":
                    # other slots may be the same one under another name
                    for k in [k for k in st if isinstance(k, tuple) and k[0] == "slot" and k != l]:
                        if not s.distinct(k[1], l[1]): st.pop(k)
        op = I.op
        if op == "mov":
            if I.dst[0] == "mem":
                put(I.dst, get(I.src))
            else:
                put(I.dst, get(I.src))
        elif op == "call":
            v = get(I.dst)
            args = [st.get(r, ("?",)) for r in ARGREG] + [st.get(("out", 8 * k), ("?",)) for k in range(s.nout)]
            if rep: s.calls.append((I, v, args))
            for r in R64:
                if r not in SAVED: st[r] = ("clobbered",)
            st["rax"] = ("call", v[1] if v[0] == "fn" else v, tuple(args[:4]) if v[0] == "fn" else ())
        elif op in ("test", "cmp", "ucomisd", "comisd", "nop", "push", "int3"):
            get(I.dst); get(I.src)
        elif op in JCC or op == "jmp" or op in ("ret", "leave", "callrel", "jmpind"): pass
        elif op == "lea": put(I.dst, ("?",))
        elif I.dst is not None:
            a, b = get(I.dst), get(I.src) if I.src else None
            put(I.dst, ("op", op, a, b) if a != ("?",) else ("?",))
            if op == "idiv":
                st["rax"] = ("?",); st["rdx"] = ("?",)

    def distinct(s, k1, k2):
        """two slot keys certainly different: same atoms, different constants"""
        def split(k):
            if k[0] != "l": return None
            c = [x[1] for x in k[1:] if x[0] == "1"]
            return tuple(x for x in k[1:] if x[0] != "1"), c[0] if c else 0
        a, b = split(k1), split(k2)
        if a is None or b is None: return False
        if a[0] == b[0]: return a[1] != b[1]
        return False


COND = {"je": ("zf", True), "jne": ("zf", False), "jo": ("of", True), "jno": ("of", False)}
FLAGS = {"add", "or", "adc", "sbb", "and", "sub", "xor", "cmp", "test", "neg", "inc", "dec", "shl", "shr", "sal", "sar", "imul", "imul1", "imul3", "mul",
         "rol", "ror", "rcl", "rcr", "idiv", "div", "ucomisd", "comisd", "call", "callrel"}


class Flags:
    """what the conditional jumps taken on every path to an instruction say: ('nz', value), ('z', value), ('bit', value, mask, set?),
    ('novf', position of the instruction whose overflow flag was clear)"""
    def __init__(s, A):
        s.A = A
        order = sorted(A.by)
        nxt = {a: b for a, b in zip(order, order[1:] + [A.t.len])}
        s.at = {0: (None, frozenset())}
        work = [0]
        while work:
            p = work.pop()
            I = A.by.get(p)
            if I is None or p not in A.state: continue
            flag, facts = s.at[p]
            out = []
            if I.rel is not None and I.op != "callrel":
                tg = A.target(I)
                if isinstance(tg, int): out.append((tg, flag, facts | s.implied(flag, I.op, True)))
                if I.op != "jmp": out.append((nxt[p], flag, facts | s.implied(flag, I.op, False)))
            elif I.op not in ("ret", "jmpind"):
                out.append((nxt[p], s.setflag(I, p, flag), facts))
            for q, f, fs in out:
                if q not in s.at: s.at[q] = (f, frozenset(fs)); work.append(q)
                else:
                    f0, s0 = s.at[q]
                    n = (f0 if f0 == f else None, s0 & frozenset(fs))
                    if n != (f0, s0): s.at[q] = n; work.append(q)

    def value(s, p, o):
        if o is None: return None
        st = s.A.state.get(p, {})
        if o[0] == "r": return st.get(o[1])
        if o[0] == "i": return ("imm", o[1].key())
        if o[0] == "mem":
            l = s.A.loc(s.A.by[p], o, False, False)
            if l: return st.get(l, l)
        return None

    def setflag(s, I, p, flag):
        if I.op not in FLAGS: return flag
        d = s.value(p, I.dst)
        if I.op == "test":
            if I.dst == I.src: return ("val", d, p) if I.w == 8 else None
            if I.src and I.src[0] == "i" and I.src[1].c is not None: return ("bit", d, I.src[1].c & (255 if I.w == 1 else 0xffffffff), p)
            return None
        if I.op == "cmp":
            if I.src and I.src[0] == "i" and I.src[1].c is not None: return ("cmp", d, I.src[1].c, p)
            return ("cmp2", d, s.value(p, I.src), p)
        if I.op in ("shl", "sal", "sar", "shr", "add", "sub", "and", "or", "xor", "neg", "inc", "dec", "imul") and I.dst and I.dst[0] == "r" and I.w == 8:
            n = sorted(q for q in s.A.by if q > p)
            st = s.A.state.get(n[0], {}) if n else {}
            return ("val", st.get(I.dst[1]), p)
        return ("ovf", None, p) if I.op in ("add", "sub", "imul", "neg") else None

    def implied(s, flag, op, taken):
        if flag is None or op not in COND: return frozenset()
        which, pol = COND[op]
        if not taken: pol = not pol
        if which == "of": return frozenset([("novf", flag[-1])]) if not pol and flag[0] in ("val", "ovf") else frozenset()
        if flag[1] is None: return frozenset()
        if flag[0] == "val": return frozenset([("z" if pol else "nz", flag[1])])
        if flag[0] == "bit":
            if bin(flag[2]).count("1") == 1: return frozenset([("bit", flag[1], flag[2], not pol)])
            return frozenset([("bits", flag[1], flag[2], not pol)])
        if flag[0] == "cmp": return frozenset([("is" if pol else "isnt", flag[1], flag[2])])
        return frozenset()
