"""Code templates of the JIT's emitter functions, by abstract interpretation of what each emitter appends to the code buffer.

Values are linear forms over the emitter's inputs (register numbers, frame positions), function addresses or unknown.
Branches on register-number classes split on intervals; any other branch is taken both ways (loops at most twice).
The result of a path is a Template: a list of emitted items (bytes with known or symbolic values) plus patches."""
from .prep import Broken
from .ir import CASTS

MAXPATHS = 4000


class V:
    """linear form {atom: coeff, 1: const}, or ('fn', name), or opaque"""
    __slots__ = ("l", "fn", "o")

    def __init__(s, l=None, fn=None, o=None): s.l, s.fn, s.o = l, fn, o
    @property
    def c(s):
        if s.l is None: return None
        if not s.l: return 0
        return s.l[1] if list(s.l) == [1] else None
    def key(s):
        if s.l is not None: return ("l",) + tuple(sorted(((str(k), c) for k, c in s.l.items())))
        return ("fn", s.fn) if s.fn else ("o", s.o)
    def __repr__(s):
        if s.fn: return "&" + s.fn
        if s.l is None: return "?%s" % (s.o,)
        return "+".join("%s*%s" % (c, k) if k != 1 else str(c) for k, c in s.l.items()) or "0"


def K(n): return V({1: n} if n else {})
def atom(a): return V({a: 1})


def add(a, b, sg=1):
    if a.l is None or b.l is None: return None
    r = dict(a.l)
    for k, c in b.l.items():
        r[k] = r.get(k, 0) + sg * c
        if not r[k]: del r[k]
    return V(r)


def mul(a, n):
    return None if a.l is None else V({k: c * n for k, c in a.l.items() if c * n})


class Item:
    __slots__ = ("size", "val", "instr", "byte")
    def __init__(s, size, val, instr, byte=None): s.size, s.val, s.instr, s.byte = size, val, instr, byte


class Template:
    def __init__(s):
        s.items, s.len, s.patches, s.fixups, s.iv, s.choices = [], 0, {}, set(), {}, {}
        s.stopped = False

    def fork(s):
        t = Template()
        t.items, t.len, t.patches, t.fixups, t.iv, t.choices = list(s.items), s.len, dict(s.patches), set(s.fixups), dict(s.iv), dict(s.choices)
        return t

    def interval(s, v):
        """(lo, hi) of a linear form"""
        if v.c is not None: return v.c, v.c
        base = {k: c for k, c in v.l.items() if k != 1}
        key = tuple(sorted((str(k), c) for k, c in base.items()))
        lo, hi = s.iv.get(key, (None, None))
        c = v.l.get(1, 0)
        if len(base) > 1 or list(base.values()) != [1]:
            sl = sh = 0
            for a, k in base.items():
                l2, h2 = s.iv.get(((str(a), 1),), (None, None))
                l2, h2 = (None if l2 is None else k * l2), (None if h2 is None else k * h2)
                if k < 0: l2, h2 = h2, l2
                sl = None if sl is None or l2 is None else sl + l2
                sh = None if sh is None or h2 is None else sh + h2
            if sl is not None: lo = sl if lo is None else max(lo, sl)
            if sh is not None: hi = sh if hi is None else min(hi, sh)
        return (None if lo is None else lo + c), (None if hi is None else hi + c)

    def limit(s, v, lo, hi):
        base = {k: c for k, c in v.l.items() if k != 1}
        key = tuple(sorted((str(k), c) for k, c in base.items()))
        c = v.l.get(1, 0)
        a, b = s.iv.get(key, (None, None))
        if lo is not None: a = lo - c if a is None else max(a, lo - c)
        if hi is not None: b = hi - c if b is None else min(b, hi - c)
        s.iv[key] = (a, b)
        return a is None or b is None or a <= b


class Emitter:
    def __init__(s, ctx, P, unit, intervals=None, unroll=2):
        s.unroll = unroll
        s.ctx, s.P, s.unit = ctx, P, unit
        s.forks = 0             # how often an undecided branch is taken both ways (0: as often as unrolling allows)
        s.intervals, s.operands = intervals or {}, {}
        s.n = 0

    def templates(s, F, args):
        """args: list of V for F's parameters (None: opaque).  -> [Template]"""
        s.n = 0
        t = Template()
        for a, (lo, hi) in s.intervals.items(): t.iv[a if isinstance(a, tuple) else ((a, 1),)] = (lo, hi)
        out = []
        env = {}
        for i, p in enumerate(F.params):
            env[p] = args[i] if i < len(args) and args[i] is not None else V(o=("arg", F.name, i))
        s.run(F, F.entry, None, env, t, {}, lambda t2, rv: out.append(t2), 0)
        return out

    # -------------------------------------------------- operands
    def val(s, F, env, op, depth=0):
        if "v" in op:
            x = env.get(op["v"])
            return x if x is not None else V(o=("v", F.name, op["v"]))
        if "c" in op: return K(op["c"])
        if "null" in op: return K(0)
        if "fn" in op: return V(fn=op["fn"])
        if "str" in op: return V(o=("str", bytes.fromhex(op["hex"]) if "hex" in op else op["str"].encode()))
        if "g" in op: return V(o=("g", op["g"]))
        if "ce" in op:
            if op["ce"] in CASTS: return s.val(F, env, op["ops"][0])
            if op["ce"] == "getelementptr": return s.val(F, env, op["base"])
            return V(o=("ce", str(op)))
        return V(o=("x", str(op)))

    def is_emit(s, name): return name in ("potion_asm_put", "potion_asm_write", "potion_asm_op")

    def run(s, F, b, prev, env, t, visits, k, depth):
        """interpret F from block b; k(template, return value) at each return"""
        st = [(b, prev, env, t, visits)]
        while st:
            b, prev, env, t, visits = st.pop()
            s.n += 1
            if s.n > MAXPATHS * 20: raise Broken("emitter %s has too many paths" % F.name)
            v2 = dict(visits)
            v2[b] = v2.get(b, 0) + 1
            if v2[b] > s.unroll: continue
            B = F.blocks[b]
            phis = {}
            for I in B.ins:
                if I.op != "phi": break
                for pb, o in I["in"]:
                    if pb == prev: phis[I.id] = s.val(F, env, o)
            env = dict(env)
            env.update(phis)
            s.block(F, B, [I for I in B.ins if I.op != "phi"], 0, env, t, v2, k, st, depth)

    def block(s, F, B, ins, i, env, t, visits, k, st, depth):
        while i < len(ins):
            I = ins[i]
            op = I.op
            if op == "call" and I.callee and not I.callee.startswith("llvm."):
                T = s.P.resolve(F, I.callee)
                if s.is_emit(I.callee):
                    s.emit(F, I, env, t)
                    env[I.id] = V(o="asm")
                elif T is not None and T.unit == s.unit and s.emits(T):
                    args = [s.val(F, env, a) for a in I.args]
                    e2 = {p: (args[j] if j < len(args) else V(o=("arg", T.name, j))) for j, p in enumerate(T.params)}
                    if depth > 6: raise Broken("recursive emitter " + T.name)

                    def cont(t2, rv, I=I, i=i, env=env):
                        e = dict(env)
                        e[I.id] = rv or V(o=("ret", I.id))
                        s.block(F, B, ins, i + 1, e, t2, visits, k, st, depth)
                    s.run(T, T.entry, None, e2, t, {}, cont, depth + 1)
                    return
                else:
                    env[I.id] = V(o=("call", I.callee, tuple(s.val(F, env, a).key() for a in I.args)))
                    if I.get("noret") or I.callee in ("potion_fatal", "exit", "abort"): return
            elif op == "store": s.store(F, I, env, t)
            elif op == "ret":
                k(t, s.val(F, env, I["ops"][0]) if I["ops"] else None)
                return
            elif op == "br":
                if "cond" not in I.d:
                    st.append((I["succ"][0], B.id, env, t, visits))
                    return
                opts = s.decide(F, env, I["cond"], t)
                if len(opts) > 1 and s.forks:
                    visits = dict(visits)
                    visits["f", B.id] = visits.get(("f", B.id), 0) + 1
                    if visits["f", B.id] > s.forks: return
                for truth, t2 in opts:
                    st.append((I["succ"][0 if truth else 1], B.id, env, t2, visits))
                return
            elif op == "switch":
                v = s.val(F, env, I["cond"])
                if v.c is not None:
                    d = [x for c, x in I["cases"] if c == v.c]
                    st.append((d[0] if d else I["def"], B.id, env, t, visits))
                elif v.l is not None:
                    for c, x in I["cases"]:
                        t2 = t.fork()
                        if t2.limit(v, c, c): st.append((x, B.id, env, t2, visits))
                    st.append((I["def"], B.id, env, t.fork(), visits))
                else:
                    for x in dict.fromkeys([x for _, x in I["cases"]] + [I["def"]]):
                        st.append((x, B.id, env, t.fork(), visits))
                return
            elif op == "select":
                opts = s.decide(F, env, I["ops"][0], t)
                if len(opts) == 1:
                    t = opts[0][1]
                    env[I.id] = s.val(F, env, I["ops"][1 if opts[0][0] else 2])
                else:
                    for truth, t2 in opts:
                        e = dict(env)
                        e[I.id] = s.val(F, env, I["ops"][1 if truth else 2])
                        s.block(F, B, ins, i + 1, e, t2, visits, k, st, depth)
                    return
            else:
                env[I.id] = s.pure(F, I, env, t)
            i += 1

    def emits(s, T, seen=None):
        seen = set() if seen is None else seen
        if T.name in seen: return False
        seen.add(T.name)
        for I in T.calls():
            if I.callee and s.is_emit(I.callee): return True
            if I.callee:
                C = s.P.resolve(T, I.callee)
                if C is not None and C.unit == s.unit and s.emits(C, seen): return True
        return False

    def emit(s, F, I, env, t):
        if I.callee == "potion_asm_put":
            v = s.val(F, env, I.args[2])
            n = s.val(F, env, I.args[3]).c
            if n not in (1, 2, 4, 8): raise Broken("emitter %s appends %s bytes" % (F.name, n))
            t.items.append((t.len, n, v, I))
            t.len += n
        elif I.callee == "potion_asm_write":
            a = I.args[2]
            sv = s.val(F, env, a)
            n = s.val(F, env, I.args[3]).c
            if not (sv.o and sv.o[0] == "str") or n is None:
                raise Broken("emitter %s writes an unknown string" % F.name)
            raw = sv.o[1][:n] + b"\0" * max(0, n - len(sv.o[1]))
            for ch in raw:
                t.items.append((t.len, 1, K(ch), I))
                t.len += 1

    def store(s, F, I, env, t):
        a = I["ops"][1]
        ad = env.get(a["v"]) if "v" in a else None
        v = s.val(F, env, I["ops"][0])
        if ad is not None and ad.o and ad.o[0] == "bufptr":
            pos = ad.o[1]
            w = {"i8": 1, "i32": 4, "i16": 2, "i64": 8}.get(I.get("sty"))
            t.patches[pos] = (w, v, I)
        elif ad is not None and ad.o and ad.o[0] == "jmpfrom":
            if v.c is not None: t.fixups.add(v.c)

    def pure(s, F, I, env, t):
        op = I.op
        o = I.operands()
        if op in ("zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze"): return s.val(F, env, I["ops"][0])
        if op == "trunc":
            v = s.val(F, env, I["ops"][0])
            if v.c is not None and I.get("ty") in ("i8", "i16", "i32"):
                w = int(I["ty"][1:])
                c = v.c & ((1 << w) - 1)
                return K(c - (1 << w) if c >> (w - 1) else c)
            return v
        if op in ("add", "sub", "mul", "shl", "or", "ashr", "lshr", "and", "xor", "udiv", "sdiv"):
            a, b = s.val(F, env, I["ops"][0]), s.val(F, env, I["ops"][1])
            r = None
            if op == "add": r = add(a, b)
            elif op == "sub": r = add(a, b, -1)
            elif op == "mul": r = mul(a, b.c) if b.c is not None else mul(b, a.c) if a.c is not None else None
            elif op == "shl": r = mul(a, 1 << b.c) if b.c is not None and a.l is not None else None
            if a.c is not None and b.c is not None and r is None:
                x, y = a.c, b.c
                try: r = K({"or": x | y, "ashr": x >> y if y >= 0 else 0, "lshr": x >> y if x >= 0 and y >= 0 else None, "and": x & y,
                            "xor": x ^ y, "udiv": x // y if y else None, "sdiv": int(x / y) if y else None}[op])
                except Exception: r = None
            if r is not None: return r
            if op == "ashr" and b.c == 1 and a.o and a.o[0] == "load" and "('PNProto', 'stack')" in str(a.o): return atom("regs")
            # the bit fields of an instruction word
            if op == "ashr" and a.o == "opword" and b.c == 20: return s.field(env, I, a, "b")
            if op == "shl" and a.o == "opword" and b.c == 12: return V(o="opword<<12")
            if op == "ashr" and a.o == "opword<<12" and b.c == 20: return s.field(env, I, a, "a")
            if op == "and" and a.o == "opword" and b.c == 255: return atom("code")
            return V(o=(op, a.key(), b.key()))
        if op == "getelementptr":
            base = s.val(F, env, I["base"])
            fs = s.P.gep_fields(I["path"])
            if fs and fs[-1][0] == "f" and fs[-1][1] == "PNJumps": return V(o=("jmpfrom",) if fs[-1][2] == "from" else ("jmprec", fs[-1][2]))
            if fs and fs[-1][0] == "ix" and "PNJumps" in str(I["path"][-1].get("t", "")): return V(o=("jmpfrom",))   # the first field of a record
            idx = [k for k in fs if k[0] == "ix"]
            if base.o == "asm" and fs and fs[-1][0] == "f" and fs[-1][2] == "len": return V(o="lenaddr")
            if base.o == "asm" and any(k[0] == "f" and k[2] == "ptr" for k in fs):
                r = K(0)
                for k in idx:
                    r = add(r, mul(s.val(F, env, k[1]), k[2] or 1)) if r is not None and s.val(F, env, k[1]).l is not None else None
                return V(o=("bufptr", r.c if r is not None else None))
            if base.o and base.o[0] == "bufptr" and base.o[1] is not None and idx:
                r = K(base.o[1])
                for k in idx:
                    x = s.val(F, env, k[1])
                    r = add(r, mul(x, k[2] or 1)) if r is not None and x.l is not None else None
                return V(o=("bufptr", r.c if r is not None else None))
            if any("PN_OP" in str(p.get("t", "")) for p in I["path"]): return V(o=("opaddr", tuple(s.val(F, env, k[1]).key() for k in idx)))
            if base.fn is None and fs and base.l is not None and base.c is None: return V(o=("gep", base.key()))
            return V(o=("gep", base.key(), tuple(str(k[1:]) if k[0] == "f" else s.val(F, env, k[1]).key() for k in fs)))
        if op == "load":
            a = I["ops"][0]
            ad = s.val(F, env, a)
            if ad.o == "lenaddr": return K(t.len)
            if ad.o == "asmp": return V(o="asm")
            if ad.o and ad.o[0] == "opaddr":
                return V(o="opword")
            return V(o=("load", ad.key()))
        if op == "icmp": return V(o=("icmp", I.id))
        return V(o=(op, I.id))

    def field(s, env, I, a, n): return s.operands.get(n) or atom(n)

    # -------------------------------------------------- conditions
    def decide(s, F, env, op, t):
        """[(truth, template)]"""
        if "c" in op: return [(bool(op["c"]), t)]
        I = F.val.get(op.get("v"))
        if I is not None and I.op in ("freeze", "zext"): return s.decide(F, env, I["ops"][0], t)
        if I is not None and I.op == "xor" and I["ops"][1].get("c") in (1, -1):
            return [(not x, y) for x, y in s.decide(F, env, I["ops"][0], t)]
        if I is not None and I.op == "icmp":
            a, b = s.val(F, env, I["ops"][0]), s.val(F, env, I["ops"][1])
            d = add(a, b, -1) if a.l is not None and b.l is not None else None
            if d is not None:
                p = I["pred"]
                if p[0] == "u" and p != "une": p = "s" + p[1:]
                rng = {"sgt": (1, None), "sge": (0, None), "slt": (None, -1), "sle": (None, 0), "eq": (0, 0), "ne": None}[p]
                inv = {"sgt": (None, 0), "sge": (None, -1), "slt": (0, None), "sle": (1, None), "eq": None, "ne": (0, 0)}[p]
                lo, hi = t.interval(d)
                out = []
                for truth, r in ((True, rng), (False, inv)):
                    if r is None:   # != 0
                        if lo == 0 and hi == 0: continue
                        out.append((truth, t.fork())); continue
                    l, h = r
                    if l is not None and hi is not None and hi < l: continue
                    if h is not None and lo is not None and lo > h: continue
                    t2 = t.fork()
                    if d.c is None and not t2.limit(d, l, h): continue
                    if d.c is None and not t2.limit(mul(d, -1), None if h is None else -h, None if l is None else -l): continue
                    out.append((truth, t2))
                return out or [(True, t)]
            key = (I["pred"], a.key(), b.key())
        else:
            key = ("v", F.name, op.get("v")) if I is None or I.op in ("phi",) else s.val(F, env, op).key()
        if key in t.choices: return [(t.choices[key], t)]
        out = []
        for truth in (True, False):
            t2 = t.fork()
            if "phi" not in str(key) and "load" not in str(key)[:0]: t2.choices[key] = truth
            out.append((truth, t2))
        return out
