"""P17: a function saved as byte code is read back as the same function; a clone carries everything."""
from math import gcd
from ..core import *
from ..core import NORETURN
from ..facts import *
from ..ir import strip_ids, _doms
from ..layout import TAGS

RULE = ("the byte code writer and reader are interpreted abstractly side by side, once per kind a constant can be of (string, double, integer, nil, false, true, other) with symbolic "
        "lengths and one symbolic pass per loop: each step of the reader takes the next token the writer left (same width, same place, same count), every branch on a token is decided "
        "from what was written, and every field the running program reads must end up holding what the writer read it from, or be computed as the compiler does; "
        "header and clone are compared field by field")
ASSUME = ("the parts of a function that only listings, debugging and compilation use (tree, debugs) are not saved; the number of arguments and the machine code are made anew before they are used",
          "the C library's memcpy and strncmp do what they say")

WRITER, READER = "potion_proto_dumpbc", "potion_proto_load"
# not saved: what they are for, and who makes them anew
ANEW = {"tree": "listing", "debugs": "debugger", "arity": "counted by the JIT before use", "jit": "made when null"}
KINDS = ("string", "double", "integer", "nil", "false", "true", "other")
TAG = {"string": TAGS["TSTRING"], "double": TAGS["TNUMBER"], "other": TAGS["TPROTO"]}
SIZE = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "double": 8, "i1": 1}


class Fail(Exception):
    def __init__(s, where, msg, key): s.where, s.msg, s.key = where, msg, key


def fz(l): return frozenset((a, c) for a, c in l.items() if c)
def N(l): return ("n", fz(l))
def C(c): return N({1: c})
def atom(a): return N({a: 1})
def add(l, m, k=1):
    r = dict(l)
    for a, c in dict(m).items(): r[a] = r.get(a, 0) + k * c
    return {a: c for a, c in r.items() if c}
def isnum(v): return v is not None and v[0] == "n"
def const(v):
    if not isnum(v): return None
    d = dict(v[1])
    return d.get(1, 0) if set(d) <= {1} else None


def one(v):
    """the single atom a value is"""
    if isnum(v) and len(v[1]) == 1:
        (a, c), = v[1]
        if c == 1 and a != 1: return a
    return None


def modulus(d):
    m = 0
    for a, c in d.items():
        if a != 1: m = gcd(m, abs(c) * (8 if a[0] == "obj" else 1))
    return m or 1 << 62


def nonzero(v):
    """True / False / None"""
    if not isnum(v): return True if v[0] == "p" else None
    d = dict(v[1]); k = d.pop(1, 0)
    if not d: return k != 0
    if k % modulus(dict(v[1])) : return True
    if all(c > 0 and a[0] in ("obj", "len") for a, c in d.items()) and k >= 0 and (k > 0 or any(a[0] == "obj" for a in d)): return True
    return None


def fits(v, ty):
    """no bits of v are lost in type ty; lengths of objects have 31 bits"""
    if not isnum(v): return True
    bits = 8 * SIZE.get(ty, 8)
    if bits >= 64: return True
    top = 0
    for a, c in v[1]:
        if a == 1: top += abs(c)
        elif a[0] in ("len", "it"): top += abs(c) << 31
        elif a[0] in ("below", "empty") or c == 1 and a[0] in ("x", "k"): top += 0
        else: return False
    return top < 1 << bits if top >= 256 else True


class Interp:
    def __init__(s, ctx, F, kind, lists, protos, feed=None):
        s.ctx, s.P, s.F, s.X, s.kind = ctx, ctx.P, F, ctx.ex(F), kind
        s.lists, s.protos, s.feed = lists, protos, feed
        s.n = 0
        s.loops = natural_loops(F)
        s.pd = postdoms(F)
        s.tuples = {}
        s.ret = None

    def fresh(s, k="x"):
        s.n += 1
        return atom((k, s.n))

    def fail(s, I, msg, key="order"): raise Fail(I.where, msg, key)

    # ---- values of the object that is written
    def value(s, ident):
        k = s.kind
        if k in ("string", "double", "other"): return atom(("obj", ident, TAG[k]))
        return {"integer": N({("int", ident): 2, 1: 1}), "nil": C(0), "false": C(2), "true": C(6)}[k]

    def field(s, f):
        if f in s.lists: return atom(("obj", ("F", f), TAGS["TTUPLE"]))
        if f == "asmb": return atom(("obj", ("F", f), TAGS["TBYTES"]))
        return s.value(("F", f))

    # ---- state: env (value of an instruction), cells (memory), pos, tokens
    def run(s):
        st = {"env": {}, "mem": {}, "pos": None, "out": [], "start": None, "in": list(s.feed or ())}
        s.block(st, s.F.entry, None, None)
        return st

    def op(s, st, o):
        if "v" in o:
            v = o["v"]
            if v in st["env"]: return st["env"][v]
            if v in s.F.params:
                k = s.F.params.index(v)
                if s.feed is not None and "char" in s.F.param_type(k) and "*" not in s.F.param_type(k): return C(8)
                if s.feed is not None and s.F.param_type(k) in ("u8", "unsigned char"): return C(8)
                return atom(("arg", k))
            I = s.F.val.get(v)
            if I is not None and I.op == "alloca": return ("p", ("alloca", v), None, fz({}))
            return s.fresh()
        if "c" in o: return C(o["c"])
        if "null" in o: return C(0)
        if "ce" in o and o.get("ops"): return s.op(st, o["ops"][0])
        return atom(("k", str(sorted(o.items())))) if not isinstance(o.get("str"), str) else atom(("str", o["str"]))

    def goto(s, st, b, to):
        """values of the phis of block `to` when entered from b"""
        new = {}
        for I in s.F.blocks[to].ins:
            if I.op != "phi": break
            for p, o in I["in"]:
                if p == b: new[I.id] = s.op(st, o)
        st["env"].update(new)

    def block(s, st, b, prev, stop):
        """interpret from block b until block `stop` or a return; answers 'stop', 'ret' or 'dead'"""
        first = True
        while True:
            if prev is not None: s.goto(st, prev, b)
            if b == stop and not (first and prev is None): return "stop"
            first = False
            if b in s.loops and not (st.get("inloop") and st["inloop"][-1] == b):
                b, prev = s.loop(st, b)
                continue
            B = s.F.blocks[b]
            for I in B.ins:
                if I.op == "phi": continue
                if s.step(st, I) == "dead": return "dead"
            T = B.ins[-1]
            if T.op == "ret":
                s.ret = s.op(st, T["ops"][0]) if T.get("ops") else None
                s.retat = T
                s.final = st
                return "ret"
            if T.op == "unreachable": return "dead"
            nx = s.choose(st, T, stop)
            if isinstance(nx, str): return nx
            if isinstance(nx, tuple): prev, b = nx
            else: prev, b = b, nx

    def choose(s, st, T, stop):
        ss = list(dict.fromkeys(T["succ"])) if T.op == "br" else list(dict.fromkeys(s.F.blocks[T.bb].succs))
        if len(ss) == 1: return ss[0]
        if T.op == "br" and "cond" in T.d:
            v = s.op(st, T["cond"])
            nz = nonzero(v)
            if nz is not None: return T["succ"][0] if nz else T["succ"][1]
            a = one(v)
            # a list that may be empty: the loop over it decides
            if a is not None and a[0] == "empty":
                full, empty = (T["succ"][1], T["succ"][0]) if a[2] else (T["succ"][0], T["succ"][1])
                if empty == s.pd.get(T.bb): return full
        if T.op == "switch":
            k = const(s.op(st, T["cond"]))
            if k is not None: return next((b for c, b in T["cases"] if c == k), T["def"])
        # both ways, up to where they meet again
        j = s.pd.get(T.bb)
        if st.get("inloop") and j is not None and j not in s.loops[st["inloop"][-1]] : s.fail(T, "leaves the loop over a list on a condition", "loop")
        ends = []
        for x in ss:
            c = copy_state(st)
            r = s.block(c, x, T.bb, j) if x != j else (s.goto(c, T.bb, j), "stop")[1]
            if r != "dead": ends.append((r, c))
        if not ends: return "dead"
        r0, c0 = ends[0]
        for r, c in ends[1:]:
            if r != r0 or c["out"] != c0["out"] or c["pos"] != c0["pos"] or len(c["in"]) != len(c0["in"]): s.fail(T, "what is saved depends on a condition that is not about the kind of the value", "condition")
        for k, v in list(c0["env"].items()):
            if any(c["env"].get(k) != v for _, c in ends[1:]): c0["env"][k] = s.fresh()
        for k, v in list(c0["mem"].items()):
            if any(c["mem"].get(k) != v for _, c in ends[1:]): c0["mem"][k] = s.fresh()
        st.update(c0)
        if r0 == "ret": return "ret"
        # phis of the join are set already
        if j == stop: return "stop"
        return s.resume(st, j)

    def resume(s, st, j):
        """go on in block j, whose phis are already set"""
        return (None, j)

    def loop(s, st, h):
        """one symbolic pass through the loop with header h; answers where it goes on"""
        body = s.loops[h]
        F = s.F
        env, init = st["env"], {}
        mark = len(st["out"])
        reader = s.feed is not None
        ind = {}
        posphi = []
        newpos = s.fresh("cur")
        started = st["pos"] is not None
        for I in F.blocks[h].ins:
            if I.op != "phi": break
            v = env[I.id]
            init[I.id] = v
            if started and v == st["pos"]: posphi.append(I.id); env[I.id] = newpos
            else:
                env[I.id] = atom(("it", I.id))
                ind[I.id] = v
        cells = [k for k, v in st["mem"].items() if started and v == st["pos"]]
        oldpos = st["pos"]
        for k in cells: st["mem"][k] = newpos
        if started: st["pos"] = newpos
        sub = copy_state(st)
        sub["out"] = []
        sub["inloop"] = st.get("inloop", ()) + (h,)
        tok = None
        if reader and st["in"] and st["in"][0][0] == "loop":
            tok = st["in"][0]
            sub["in"] = list(tok[2])
        elif reader: sub["in"] = [("end",)] + st["in"]
        # the header decides
        B = F.blocks[h]
        for I in B.ins:
            if I.op != "phi": s.step(sub, I)
        T = B.ins[-1]
        ins = [x for x in T.get("succ", ()) if x in body]
        outs = [x for x in T.get("succ", ()) if x not in body]
        if len(ins) != 1 or len(outs) != 1: s.fail(T, "the loop does not count the elements of a list", "loop")
        a = one(s.op(sub, T["cond"]))
        if a is None or a[0] != "below" or a[1] not in ind or a[3] != (T["succ"][0] == ins[0]): s.fail(T, "the loop does not run while its counter is below the number of elements", "loop")
        i, count = a[1], a[2]
        if const(ind[i]) != 0: s.fail(T, "the loop does not start with the first element", "loop")
        r = s.block(sub, ins[0], h, h)
        if r != "stop": s.fail(T, "leaves the loop over a list early", "loop")
        if sub["env"].get(i) != N({("it", i): 1, 1: 1}): s.fail(T, "the loop skips elements", "loop")
        if started or sub["pos"] is not None:
            for p in posphi:
                if sub["env"].get(p) != sub["pos"]: s.fail(T, "the place where the next element goes is not behind this one", "place")
            for k in cells:
                if sub["mem"].get(k) != sub["pos"]: s.fail(T, "the place where the next element is read is not behind this one", "place")
            if not posphi and not cells and sub["pos"] != newpos: s.fail(T, "the place is not carried from element to element", "place")
        if not reader:
            if sub["out"]: st["out"].append(("loop", count, tuple(sub["out"]), i))
        else:
            took = len(tok[2]) - len(sub["in"]) if tok else 0
            if tok:
                if took and sub["in"]: s.fail(T, "an element is not read completely", "order")
                if took:
                    if tok[1] != count: s.fail(T, "reads a different number of elements than was written", "count")
                    st["in"].pop(0)
        # after the loop
        for k, v in sub["mem"].items():
            if k not in st["mem"] and isinstance(k, tuple): st["mem"][k] = v
        if started:
            st["pos"] = newpos
            for p in posphi: env[p] = newpos
            for k in cells: st["mem"][k] = newpos
        for I in B.ins:
            if I.op != "phi": s.step(st, I)
        return outs[0], h

    # ---- tokens
    def emit(s, st, I, at, tok, size):
        d = dict(at)
        if st["pos"] is None:
            st["start"] = at
            st["pos"] = N(d)
        if N(d) != st["pos"]: s.fail(I, "writes at another place than behind what was written before", "place")
        st["pos"] = N(add(d, size))
        st["out"].append(tok)
        s.ctx.count("tokens written")

    def cursor(s, v): return isnum(v) and any(a != 1 and a[0] in ("cell", "cur") and c == 1 for a, c in v[1])

    def take(s, st, I, at, size, what):
        """the reader reads `size` bytes at `at`"""
        if st["pos"] is None:
            st["pos"] = at
            st["start"] = at
        if at != st["pos"]: s.fail(I, "reads at another place than behind what was read before", "place")
        if not st["in"] or st["in"][0][0] in ("end", "loop", "rec"): s.fail(I, "reads more than was written", "order")
        t = st["in"][0]
        if t[0] == "w":
            if dict(size) != {1: t[1]}: s.fail(I, "reads %s bytes where %d were written" % (showl(size), t[1]), "width")
        elif fz(dict(size)) != t[2]: s.fail(I, "reads another number of bytes than was written", "width")
        st["in"].pop(0)
        st["pos"] = N(add(at[1], size))
        s.ctx.count("tokens read")
        return t

    # ---- instructions
    def step(s, st, I):
        env = st["env"]
        o = I.op
        if o in ("br", "switch", "ret", "unreachable", "alloca"): return
        if o in CASTS:
            v = s.op(st, I["ops"][0])
            env[I.id] = v if o != "trunc" or I.get("ty") == "i1" or fits(v, I.get("ty")) else s.fresh()
            return
        if o == "getelementptr": env[I.id] = s.gep(st, I); return
        if o == "load": env[I.id] = s.load(st, I); return
        if o == "store": return s.store(st, I)
        if o == "call": return s.call(st, I)
        if o == "icmp": env[I.id] = s.icmp(st, I); return
        if o == "select":
            c, a, b = [s.op(st, x) for x in I["ops"]]
            nz = nonzero(c)
            env[I.id] = a if nz else b if nz is False else a if a == b else s.fresh()
            return
        if I.get("ops") and len(I["ops"]) == 2:
            v = s.bin(st, I, s.op(st, I["ops"][0]), s.op(st, I["ops"][1]))
            env[I.id] = v if I.get("ty") in ("i1", "i64", "ptr") or fits(v, I.get("ty")) else s.fresh()
            return
        env[I.id] = s.fresh()

    def gep(s, st, I):
        b = s.op(st, I["base"])
        obj, f, off = (b[1], b[2], dict(b[3])) if b[0] == "p" else (None, None, None)
        for p in s.P.gep_fields(I["path"]):
            if p[0] == "f":
                if obj is None or f is None:
                    if obj is None:
                        if not isnum(b): return s.fresh()
                        obj = b
                    f, off = (p[1], p[2]), off or {}
                else: f = (p[1], p[2])
            else:
                x = s.op(st, p[1])
                if not isnum(x): return s.fresh()
                k = {a: c * (p[2] or 1) for a, c in x[1]}
                if obj is None: b = N(add(b[1], k))
                else: off = add(off, k)
        return b if obj is None else ("p", obj, f, fz(off))

    def ident(s, v):
        a = one(v)
        return a if a is not None and a[0] in ("obj", "new", "arg") else None

    def load(s, st, I):
        a = s.op(st, I["ops"][0])
        if a in st["mem"]: return st["mem"][a]
        if a[0] == "p":
            obj, f, off = a[1], a[2], dict(a[3])
            at = s.ident(obj) if obj[0] == "n" else None
            if at is not None and f is not None:
                if at[0] == "arg" and f[0] == "PNProto": return s.field(f[1])
                if f[1] == "vt" and at[0] == "obj": return C(at[2])
                if f[1] == "len" and not off:
                    if at[0] == "obj": return atom(("len", at[1]))
                    if at[0] == "new" and at in s.tuples: return s.tuples[at]
                if f == ("PNTuple", "set") and at[0] == "obj" and at[1][0] == "F":
                    its = [x for x in off if x != 1]
                    if len(its) == 1 and its[0][0] == "it" and off == {its[0]: 8}:
                        e = ("E", at[1][1], its[0][1])
                        return atom(("obj", e, TAGS["TPROTO"])) if at[1][1] in s.protos else s.value(e)
                if f == ("PNDouble", "value") and at[0] == "obj": return atom(("dbl", at[1]))
            v = s.fresh()
            return v
        if isnum(a):
            at = one(a)
            if s.feed is not None and at is not None and at[0] == "arg" and I.get("ty") == "ptr":
                v = atom(("cell", at[1]))
                st["mem"][a] = v
                return v
            if s.feed is not None and s.cursor(a):
                t = s.take(st, I, a, {1: SIZE.get(I.get("ty"), 0)}, "w")
                if t[0] != "w": s.fail(I, "reads a number where characters were written", "order")
                return t[2]
        return s.fresh()

    def store(s, st, I):
        v, a = s.op(st, I["ops"][0]), s.op(st, I["ops"][1])
        if a[0] == "p" and s.feed is None:
            at = s.ident(a[1]) if a[1][0] == "n" else None
            if at is not None and at[0] == "arg" and a[2] is not None and a[2][1] == "chars":
                return s.emit(st, I, a[3], ("w", SIZE.get(I.get("sty"), 0), v), {1: SIZE.get(I.get("sty"), 0)})
        if a[0] == "p" and a[1][0] == "n":
            at = s.ident(a[1])
            if at is not None and at[0] == "new" and a[2] == ("PNTuple", "set") and st.get("inloop"):
                st["mem"][("items", at)] = (dict(a[3]), v)
                return
        st["mem"][a] = v

    def icmp(s, st, I):
        a, b = s.op(st, I["ops"][0]), s.op(st, I["ops"][1])
        p = I["pred"]
        if not isnum(a) or not isnum(b):
            if p in ("eq", "ne") and (a[0] == "p") != (b[0] == "p") and (const(a) == 0 or const(b) == 0): return C(int(p == "ne"))
            return s.fresh()
        d = add(a[1], b[1], -1)
        if p in ("eq", "ne"):
            nz = nonzero(N(d))
            if nz is not None: return C(int(nz == (p == "ne")))
            at = one(N(d))
            if at is not None and at[0] == "len": return atom(("empty", at, p == "eq"))
        if set(d) <= {1}:
            k = d.get(1, 0)
            return C(int({"slt": k < 0, "ult": k < 0, "sle": k <= 0, "ule": k <= 0, "sgt": k > 0, "ugt": k > 0, "sge": k >= 0, "uge": k >= 0}.get(p, 0)))
        # counter below the number of elements
        for x, y, q in ((a, b, p), (b, a, {"slt": "sgt", "ult": "ugt", "sgt": "slt", "ugt": "ult", "sle": "sge", "ule": "uge", "sge": "sle", "uge": "ule"}.get(p, p))):
            at = one(x)
            if at is not None and at[0] == "it":
                if q in ("slt", "ult", "ne"): return atom(("below", at[1], y, True))
                if q in ("sge", "uge", "eq"): return atom(("below", at[1], y, False))
            if at is not None and at[0] == "len" and const(y) == 0:
                if q in ("sgt", "ugt"): return atom(("empty", at, False))
                if q in ("sle", "ule"): return atom(("empty", at, True))
        return s.fresh()

    def bin(s, st, I, a, b):
        o = I.op
        if a[0] == "p" or b[0] == "p":
            return s.fresh()
        if o == "add": return N(add(a[1], b[1]))
        if o == "sub": return N(add(a[1], b[1], -1))
        k = const(b)
        if k is None and o in ("and", "or", "xor", "mul"): a, b = b, a; k = const(b)
        if I.get("ty") == "i1":
            x, y = const(a), const(b)
            if o == "xor" and y is not None:
                if x is not None: return C((x ^ y) & 1)
                t = one(a)
                if t is not None and t[0] == "below" and y & 1: return atom(t[:3] + (not t[3],))
                if t is not None and t[0] == "empty" and y & 1: return atom(t[:2] + (not t[2],))
                return s.fresh()
            if o == "and": return C(0) if x == 0 or y == 0 else a if y is not None and y & 1 else b if x is not None and x & 1 else s.fresh()
            if o == "or": return C(1) if (x or 0) & 1 or (y or 0) & 1 else a if y == 0 else b if x == 0 else s.fresh()
        if k is None: return s.fresh()
        d = dict(a[1])
        c = d.get(1, 0)
        M = modulus(d)
        if o == "mul": return N({x: y * k for x, y in d.items()})
        if o == "shl": return N({x: y << k for x, y in d.items()})
        if o in ("and", "or", "xor"):
            f = {"and": c & k, "or": c | k, "xor": c ^ k}[o]
            if set(d) <= {1}: return C(f)
            if o == "and" and 0 <= k < M: return C((c % M) & k)
            if o == "and" and k < 0 and (~k) < M and (~k) & (~k + 1) == 0: return N(add({x: y for x, y in d.items() if x != 1}, {1: c & k}))
            if o in ("or", "xor") and 0 <= k < M: return N(add({x: y for x, y in d.items() if x != 1}, {1: f}))
            return s.fresh()
        if o in ("lshr", "ashr"):
            if all(y % (1 << k) == 0 for x, y in d.items() if x != 1): return N({x: y >> k for x, y in d.items()})
        if o in ("udiv", "sdiv") and k and all(y % k == 0 for x, y in d.items()): return N({x: y // k for x, y in d.items()})
        return s.fresh()

    def call(s, st, I):
        env = st["env"]
        if I.get("noret") or I.callee in NORETURN: return "dead"
        f = I.callee or ""
        if f.startswith("llvm.dbg") or f == "potion_gc_update": return
        A = [s.op(st, x) for x in I.args]
        reader = s.feed is not None
        T = s.P.resolve(s.F, f) if f else None
        r = None
        if f == "potion_fwd": r = A[0]
        elif f == "potion_gc_realloc": r = A[2]
        elif f == "potion_str_ptr": r = ("p", A[0], ("PNString", "chars"), fz({}))
        elif f in ("potion_ptr_type", "potion_qptr_type", "potion_type"):
            at = one(A[0])
            r = C(at[2]) if at is not None and at[0] == "obj" else s.fresh()
        elif f == "potion_gc_alloc": r = atom(("new", I.id))
        elif f == "potion_tuple_with_size":
            r = atom(("new", I.id))
            s.tuples[("new", I.id)] = A[1]
        elif f.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")): s.copy(st, I, A)
        elif T is not None and T.name == s.F.name:
            if reader: r = s.recread(st, I, A)
            else: r = s.recwrite(st, I, A)
        elif reader and f == "potion_double":
            at = one(A[1])
            r = atom(("obj", at[1], TAG["double"])) if at is not None and at[0] == "dbl" else s.fresh()
        elif reader and any(s.cursor(x) for x in A):
            k = next(k for k, x in enumerate(A) if s.cursor(x))
            if len(A) > k + 1 and isnum(A[k + 1]):
                t = s.take(st, I, A[k], dict(A[k + 1][1]), "m")
                if t[0] == "m" and t[1][0] == "chars" and f in ("potion_str2", "potion_strn"): r = t[1][1]
                else: s.fail(I, "%s makes something else of what was written" % f, "kind")
            else: s.fail(I, "what %s reads is not bounded by what was written" % f, "width")
        if r is None: r = s.fresh()
        env[I.id] = r

    def copy(s, st, I, A):
        dst, src, n = A[:3]
        if s.feed is None:
            if dst[0] == "p" and dst[1][0] == "n":
                at = s.ident(dst[1])
                if at is not None and at[0] == "arg" and dst[2] is not None and dst[2][1] == "chars":
                    if not isnum(n): s.fail(I, "writes a number of bytes that is not known", "width")
                    if src in st["mem"] and const(n) == 8: tok = ("w", 8, st["mem"][src])
                    elif src[0] == "p" and src[1][0] == "n" and s.ident(src[1]) is not None and not src[3]:
                        t = s.ident(src[1])
                        if n != atom(("len", t[1])): s.fail(I, "the number of bytes written is not the length of what they are taken from", "width")
                        tok = ("m", ("chars", src[1]), n[1])
                    else: tok = ("m", ("?", I.id), n[1])
                    return s.emit(st, I, dst[3], tok, dict(n[1]))
            return
        if s.cursor(src):
            if not isnum(n): s.fail(I, "reads a number of bytes that is not known", "width")
            t = s.take(st, I, src, dict(n[1]), "m")
            st["mem"][dst] = t[2] if t[0] == "w" else ("content", t[1], t[2])

    def recwrite(s, st, I, A):
        if st["pos"] is None or st["pos"] not in A: s.fail(I, "a nested function is not written behind what was written before", "place")
        obj = next((x for x in A if one(x) is not None and one(x)[0] == "obj"), None)
        r = atom(("size", I.id))
        st["pos"] = N(add(st["pos"][1], r[1]))
        st["out"].append(("rec", obj))
        s.ctx.count("tokens written")
        return r

    def recread(s, st, I, A):
        cells = [a for a in A if a in st["mem"]]
        if not cells or any(st["mem"][c] != st["pos"] for c in cells): s.fail(I, "a nested function is not read behind what was read before", "place")
        if not st["in"] or st["in"][0][0] != "rec": s.fail(I, "a nested function is read where none was written", "order")
        t = st["in"].pop(0)
        s.n += 1
        for c in cells: st["mem"][c] = st["pos"] = atom(("cur", s.n))
        s.ctx.count("tokens read")
        return t[1]


def showl(l): return "some" if set(dict(l)) - {1} else str(dict(l).get(1, 0))


def copy_state(st):
    return {"env": dict(st["env"]), "mem": dict(st["mem"]), "pos": st["pos"], "out": list(st["out"]), "start": st["start"], "in": list(st["in"]), "inloop": st.get("inloop", ())}


def postdoms(F):
    """immediate post-dominators (of blocks that reach a return)"""
    ends = [b for b in F.blocks if F.blocks[b].ins and F.blocks[b].ins[-1].op == "ret"]
    V = "exit"
    preds = {b: list(F.blocks[b].succs) for b in F.blocks}
    for b in ends: preds[b] = preds[b] + [V]
    preds[V] = []
    # order: reverse post order of the reversed graph
    rev = {b: list(F.blocks[b].preds) for b in F.blocks}
    rev[V] = ends
    seen, out, stack = {V}, [], [(V, iter(rev[V]))]
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x); stack.append((x, iter(rev[x]))); break
        else:
            out.append(b); stack.pop()
    order = out[::-1]
    D = _doms(order, V, {b: [x for x in preds[b] if x in seen] for b in order})
    r = {}
    for b in order:
        if b == V: continue
        c = D[b] - {b}
        r[b] = next((x for x in c if all(y in D[x] for y in c)), None)
        if r[b] == V: r[b] = None
    return r


def source_field(X, F, e, obj, seen=None):
    """fields of `obj` a value is made from"""
    seen = set() if seen is None else seen
    out = set()
    st = [e]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen: continue
        seen.add(x)
        if x[0] == "fld" and x[2] == "PNProto" and unfwd(X, F, x[1]) == obj: out.add(x[3])
        if x[0] == "call" and x[2] in F.val: st += [X.o(a) for a in F.val[x[2]].args]
        if x[0] == "phi": st += [X.o(o) for _, o in F.val[x[1]]["in"]]
        st += [y for y in x[1:] if isinstance(y, tuple)]
    return out


def element_of(X, F, e):
    """the list whose element a value is"""
    e = unfwd(X, F, e)
    if e[0] != "load": return set()
    e = e[1]
    while e[0] == "idx": e = e[1]
    if e[0] != "fld" or e[2:] != ("PNTuple", "set"): return set()
    b = unfwd(X, F, e[1])
    return {b[1][3]} if b[0] == "load" and b[1][0] == "fld" and b[1][2] == "PNProto" else set()


def unfwd(X, F, e):
    while e[0] == "call" and e[1] == "potion_fwd" and e[2] in F.val: e = X.o(F.val[e[2]].args[0])
    return e


def shape(X, F, e):
    """expression with forwarding removed and objects of kind PNProto named alike"""
    e = unfwd(X, F, e)
    if not isinstance(e, tuple): return e
    if e[0] == "fld" and e[2] == "PNProto": return ("fld", "F", "PNProto", e[3])
    if e[0] == "load": return ("load", shape(X, F, e[1]))
    return tuple(shape(X, F, x) if isinstance(x, tuple) else x for x in e)


def run(ctx):
    P = ctx.P
    W, R = P.f(WRITER), P.f(READER)
    need, fields = required(ctx)
    for f in need: ctx.count("fields the running program reads")
    X = ctx.ex(W)
    lists, protos = set(), set()
    for I in W.instrs():
        if I.op == "load":
            a = X.o(I["ops"][0])
            if a[0] == "fld" and a[2:] == ("PNTuple", "len"):
                b = unfwd(X, W, a[1])
                if b[0] == "load" and b[1][0] == "fld" and b[1][2] == "PNProto": lists.add(b[1][3])
        if I.op == "call" and I.callee == WRITER:
            for a in I.args: protos |= element_of(X, W, X.o(a))
    for kind in KINDS:
        try:
            w = Interp(ctx, W, kind, lists, protos)
            st = w.run()
            fin = w.final
            start = dict(fin["start"])
            if w.ret is None or not isnum(w.ret) or w.ret != N(add(fin["pos"][1], start, -1)): w.fail(w.retat, "the number of bytes it answers is not what was written", "place")
            r = Interp(ctx, R, kind, lists, protos, feed=fin["out"])
            rs = r.run()
            fin = r.final
            if fin["in"]: r.fail(r.retat, "does not read all that was written", "order")
            for c, v in fin["mem"].items():
                if isinstance(c, tuple) and c[0] == "n" and one(c) and one(c)[0] == "arg" and v != fin["pos"]: r.fail(r.retat, "does not leave the place behind what was read", "place")
            compare(ctx, r, fin, kind, need, lists)
        except Fail as e:
            ctx.report("%s|%s" % ("bytecode", e.key), e.where, "saving and loading a function with %s constants: %s" % (kind, e.msg))
            continue
    sizes(ctx, need)
    header(ctx)
    clone(ctx, need)
    if not ctx.findings: ctx.floor("tokens written", 100)
    ctx.floor("fields the running program reads", 8)


def required(ctx):
    P = ctx.P
    need = set()
    for F in P:
        if F.unit in ("core/gc.c", "core/compile.c"): continue
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op == "load":
                a = X.o(I["ops"][0])
                if a[0] == "fld" and a[2] == "PNProto": need.add(a[3])
    fields = {f["n"] for f in P.structs["PNProto"]["fields"]}
    return {f for f in need if f not in ANEW and f not in ("vt", "uniq")} | {"name", "source"}, fields


def compare(ctx, r, fin, kind, need, lists):
    F = r.F
    at = one(r.ret) if r.ret is not None else None
    if at is None or at[0] != "new": r.fail(r.retat, "the function that was read is not returned", "result")
    got = {k[2][1]: v for k, v in fin["mem"].items() if k[0] == "p" and k[1] == r.ret and k[2] is not None and k[2][0] == "PNProto" and not k[3]}
    for f in sorted(need):
        ctx.count("fields compared")
        if f.endswith("size"):
            if f not in got: r.fail(r.retat, "%s is not set when a function is read" % f, f)
            continue
        v = got.get(f)
        if v is None: r.fail(r.retat, "%s is not read back" % f, f)
        if f in lists:
            a = one(v)
            it = fin["mem"].get(("items", a))
            if a is None or r.tuples.get(a) != atom(("len", ("F", f))): r.fail(r.retat, "%s is not a list of as many elements as were written" % f, f)
            if it is None: r.fail(r.retat, "the elements of %s are not read back" % f, f)
            off, e = it
            i = [x for x in off if x != 1]
            if len(i) != 1 or off != {i[0]: 8} or i[0][0] != "it": r.fail(r.retat, "the elements of %s are not put where they were" % f, f)
            idx = next((t[3] for t in r.feed if t[0] == "loop" and t[1] == atom(("len", ("F", f)))), None)
            want = atom(("obj", ("E", f, idx), TAGS["TPROTO"])) if f in r.protos else r.value(("E", f, idx))
            if kind == "other" and f not in r.protos: continue
            if e != want: r.fail(r.retat, "the elements of %s are not the values that were written" % f, f)
        elif f == "asmb":
            ln = next((x for k, x in fin["mem"].items() if k[0] == "p" and k[1] == v and k[2] is not None and k[2][1] == "len"), None)
            ct = next((x for k, x in fin["mem"].items() if k[0] == "p" and k[1] == v and k[2] is not None and k[2][1] == "ptr" and not k[3]), None)
            if ln != atom(("len", ("F", f))): r.fail(r.retat, "the length of the code is not what was written", f)
            if ct is None or ct[0] != "content" or one(ct[1][1]) is None or one(ct[1][1])[1] != ("F", f): r.fail(r.retat, "the code is not what was written", f)
        elif kind != "other" and not (f == "source" and kind == "nil"):
            if v != r.value(("F", f)): r.fail(r.retat, "%s is not the value that was written" % f, f)


def stores(ctx, F, f):
    X = ctx.ex(F)
    for I in F.instrs():
        if I.op == "store":
            a = X.o(I["ops"][1])
            if a[0] == "fld" and a[2:] == ("PNProto", f): yield I, X.o(I["ops"][0])


def sizes(ctx, need):
    """numbers that the compiler computes from other fields are computed alike when a function is read"""
    P = ctx.P
    C_, R = P.f("potion_source_compile"), P.f(READER)
    for f in sorted(x for x in need if x.endswith("size")):
        a = {shape(ctx.ex(C_), C_, v) for I, v in stores(ctx, C_, f)}
        b = [(I, shape(ctx.ex(R), R, v)) for I, v in stores(ctx, R, f)]
        a, = [{strip_ids(x) for x in a}]
        for I, v in b:
            ctx.count("computed sizes")
            if strip_ids(v) not in a: ctx.report("bytecode|%s" % f, I.where, "%s of a function that is read is not computed as the compiler computes it" % f)


def header(ctx):
    """the header is written and read at the same places, and the first function follows it"""
    P = ctx.P
    H = {f["n"]: f for f in P.structs["PNBHeader"]["fields"]}
    size = H["proto"]["off"]
    W, R = P.f("potion_source_dumpbc"), P.f("potion_source_load")
    X, Y = ctx.ex(W), ctx.ex(R)
    res = None
    for I in W.calls(WRITER):
        ctx.count("header obligations")
        if not any(X.o(a) == ("c", size) for a in I.args): ctx.report("bytecode|header", I.where, "the first function is not written behind the header")
        res = I.id
    ok = False
    for I in W.instrs():
        if I.op == "store":
            a = X.o(I["ops"][1])
            if a[0] == "fld" and a[3] == "len" and a[2] in ("PNString", "PNBytes"):
                ctx.count("header obligations")
                from ..lin import lin
                if lin(X.o(I["ops"][0])) != {1: size, strip_ids(("call", WRITER, res)): 1}: ctx.report("bytecode|length", I.where, "the length of the byte code is not that of the header and the function")
                ok = True
    if not ok: ctx.report("bytecode|length", "%s:%s" % (W.file, W.line), "the length of the byte code is not set")
    # the bytes in front of the first function
    by = {}
    def put(at, v, n, I):
        for k in range(n): by.setdefault(at + k, set()).add(v[k] if v is not None and k < len(v) else None)
    for I in W.instrs():
        if I.op == "store":
            k = offset(P, X.o(I["ops"][1]))
            n = SIZE.get(I.get("sty"), 8)
            v = X.o(I["ops"][0])
            if k is not None and v[0] != "undef": put(k, (v[1] & ((1 << 8 * n) - 1)).to_bytes(n, "little") if v[0] == "c" else None, n, I)
        if I.op == "call" and I.callee and I.callee.startswith(("llvm.memcpy", "memcpy", "llvm.memmove")):
            A = [X.o(a) for a in I.args]
            k = offset(P, A[0])
            if k is None or A[2][0] != "c": continue
            if A[1][0] == "str": put(k, A[1][1].encode("latin1"), A[2][1], I)
            elif offset(P, A[1]) is None: put(k, None, A[2][1], I)
        elif I.op == "call" and I.callee and not I.callee.startswith("llvm.") and I.callee != "free":
            A = [X.o(a) for a in I.args]
            for a in A:
                k = offset(P, a)
                if k is not None: put(k, A[1][1].encode("latin1") if a == A[0] and len(A) > 1 and A[1][0] == "str" and "cpy" in I.callee else None, (A[2][1] if len(A) > 2 and A[2][0] == "c" else size - k), I)
    def reads(I, k, what, want):
        ctx.count("header obligations")
        got = [by.get(k + n, set()) for n in range(len(want))]
        if any(g != {w} and g != {None} for g, w in zip(got, want)): ctx.report("bytecode|%s" % what, I.where, "the %s looked for is not the one that is written" % what)
    pn = H["pn"]["off"]
    for I in R.instrs():
        if I.op == "call" and I.callee in ("strncmp", "memcmp", "bcmp"):
            A = [Y.o(a) for a in I.args]
            for a, b in ((A[0], A[1]), (A[1], A[0])):
                if b[0] == "str" and A[2][0] == "c" and offset(P, a) is not None: reads(I, offset(P, a), "signature", b[1].encode("latin1")[:A[2][1]])
        if I.op == "load" and offset(P, Y.o(I["ops"][0])) == pn: reads(I, pn, "size of a value", b"\x08")
    for I in R.calls(READER):
        ctx.count("header obligations")
        A = [Y.o(a) for a in I.args]
        st = []
        for a in A:
            if a[0] == "alloca":
                st += [Y.o(S["ops"][0]) for S in R.instrs() if S.op == "store" and Y.o(S["ops"][1]) == a and R.dominates(S, I)]
        if not any(v[0] == "fld" and v[2:] == ("PNBHeader", "proto") or v[0] == "idx" and v[2] == ("c", size) for v in st):
            ctx.report("bytecode|header", I.where, "the first function is not read behind the header")
        if not any(v[0] == "load" and v[1][0] == "fld" and v[1][2:] == ("PNBHeader", "pn") or v == ("c", 8) for v in A):
            ctx.report("bytecode|header", I.where, "the size of a value is not taken from the header")


def offset(P, a):
    """where in the header an address is"""
    k = 0
    while a[0] in ("fld", "idx"):
        if a[0] == "idx":
            if a[2][0] != "c": return None
            k += a[2][1] * (a[3] or 1)
        elif a[2] == "PNBHeader": k += next(f["off"] for f in P.structs["PNBHeader"]["fields"] if f["n"] == a[3])
        else: return None
        a = a[1]
    return k if a[0] == "alloca" or a[0] == "call" and a[1] in ("potion_str_ptr", "malloc") else None


def clone(ctx, need):
    """a clone has every field of the function it was made from"""
    P = ctx.P
    F = P.f("potion_proto_clone")
    X = ctx.ex(F)
    new = {X.v(I.id) for I in F.instrs() if I.op == "call" and I.callee == "potion_gc_alloc"}
    for f in sorted(need):
        ctx.count("fields a clone copies")
        good = False
        vals = []
        for I, v in stores(ctx, F, f):
            vals.append((I, v))
            src = source_field(X, F, v, ("arg", 2))
            if f == "asmb": src = asm_source(ctx, F, X, v)
            if src == {f}: good = True
            else: ctx.report("clone|%s" % f, I.where, "%s of a clone is not taken from the function that is cloned" % f)
        if not good: ctx.report("clone|%s" % f, vals[0][0].where if vals else "%s:%s" % (F.file, F.line), "a clone does not get %s" % f)


def asm_source(ctx, F, X, v):
    """the code of a clone is a copy, of the same length"""
    v = unfwd(X, F, v)
    out, ln = set(), set()
    for I in F.instrs():
        if I.op == "call" and I.callee and I.callee.startswith(("llvm.memcpy", "llvm.memmove", "memcpy")):
            d = X.o(I.args[0])
            while d[0] in ("idx", "fld"): d = d[1]
            if unfwd(X, F, d) == v:
                out |= source_field(X, F, X.o(I.args[1]), ("arg", 2))
                if source_field(X, F, X.o(I.args[2]), ("arg", 2)) != {"asmb"}: out.add("?")
        if I.op == "store":
            a = X.o(I["ops"][1])
            if a[0] == "fld" and a[3] == "len" and unfwd(X, F, a[1]) == v: ln |= source_field(X, F, X.o(I["ops"][0]), ("arg", 2))
    return out if ln == {"asmb"} else {"?"}
