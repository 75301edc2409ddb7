"""In-memory model of the exported IR: functions, CFG, dominators, canonical expressions, call graph."""
import re, sys
from functools import lru_cache
sys.setrecursionlimit(20000)

CASTS = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast"}


class Instr:
    __slots__ = ("d", "id", "op", "bb", "pos", "fn")

    def __init__(s, d, bb, pos, fn):
        s.d, s.id, s.op, s.bb, s.pos, s.fn = d, d["i"], d["op"], bb, pos, fn

    def __getitem__(s, k): return s.d[k]
    def get(s, k, dflt=None): return s.d.get(k, dflt)

    @property
    def line(s):
        l = s.d.get("l")
        return l[1] if l else None

    @property
    def where(s):
        l = s.d.get("l")
        return "%s:%s" % (l[0], l[1]) if l else "%s:%s" % (s.fn.file, s.fn.line)

    @property
    def callee(s):
        return s.d.get("fn")

    @property
    def args(s):
        return s.d.get("args", [])

    def operands(s):
        d = s.d
        if s.op == "getelementptr":
            return [d["base"]] + [p["ix"] for p in d["path"] if "ix" in p]
        if s.op in ("call", "invoke", "callbr"):
            return d["args"] + ([d["callee"]] if "callee" in d else [])
        if s.op == "phi":
            return [x[1] for x in d["in"]]
        if s.op in ("br", "switch"):
            return [d["cond"]] if "cond" in d else []
        if s.op == "indirectbr":
            return [d["addr"]]
        return d.get("ops", [])


class Block:
    __slots__ = ("id", "ins", "preds", "succs", "name")


class Func:
    def __init__(s, d, mod):
        s.d, s.mod = d, mod
        s.name, s.file, s.line = d["name"], d.get("file", "?"), d.get("line", 0)
        s.params = [p["i"] for p in d["params"]]
        s.nparams = len(s.params)
        s.ditypes = d.get("ditypes", [])
        s.blocks, s.val = {}, {}
        for b in d["blocks"]:
            B = Block()
            B.id, B.preds, B.succs, B.name = b["b"], b["preds"], b["succs"], b["name"]
            B.ins = [Instr(x, b["b"], i, s) for i, x in enumerate(b["ins"])]
            for I in B.ins:
                s.val[I.id] = I
            s.blocks[B.id] = B
        s.entry = d["blocks"][0]["b"]
        s._dom = s._pdom = s._uses = s._reach = None

    def __repr__(s): return "<%s>" % s.name

    def param_name(s, i):
        a = s.d["argvars"].get(str(s.params[i]))
        return a[0] if a else s.d["params"][i]["n"]

    def param_type(s, i):
        """DI type string of parameter i"""
        return s.ditypes[i + 1] if i + 1 < len(s.ditypes) else "?"

    def instrs(s):
        for b in s.rpo():
            yield from s.blocks[b].ins

    def calls(s, name=None):
        for I in s.instrs():
            if I.op in ("call", "invoke", "callbr") and (name is None or I.callee == name or
                                              (not isinstance(name, str) and I.callee in name)):
                yield I

    def rpo(s):
        if s._reach is None:
            seen, out = set(), []
            st = [(s.entry, iter(s.blocks[s.entry].succs))]
            seen.add(s.entry)
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(s.blocks[x].succs)))
                        break
                else:
                    out.append(b)
                    st.pop()
            s._reach = out[::-1]
        return s._reach

    # dominators (sets are fine at this size)
    def dom(s):
        if s._dom is None:
            s._dom = _doms(s.rpo(), s.entry, {b: s.blocks[b].preds for b in s.blocks})
        return s._dom

    def dominates(s, a, b):
        """does instruction a dominate instruction b"""
        if a.bb == b.bb:
            return a.pos < b.pos
        return a.bb in s.dom().get(b.bb, ())

    def uses(s):
        if s._uses is None:
            u = {}
            for I in s.instrs():
                for o in I.operands():
                    if "v" in o:
                        u.setdefault(o["v"], []).append(I)
            s._uses = u
        return s._uses

    def is_param(s, v): return v in s.params

    def rets(s):
        for I in s.instrs():
            if I.op == "ret":
                yield I

    def reach_from(s, bb, avoid=()):
        """blocks reachable from the successors of bb"""
        seen, st = set(), list(s.blocks[bb].succs)
        while st:
            x = st.pop()
            if x in seen or x in avoid:
                continue
            seen.add(x)
            st.extend(s.blocks[x].succs)
        return seen


def _doms(order, entry, preds):
    idx = {b: i for i, b in enumerate(order)}
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in order:
            if b == entry:
                continue
            new = None
            for p in preds[b]:
                if p in idom and p in idx:
                    if new is None:
                        new = p
                    else:
                        x, y = new, p
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    out = {}
    for b in order:
        st, x = {b}, b
        while x != entry and x in idom:
            x = idom[x]
            st.add(x)
        out[b] = st
    return out


class Program:
    def __init__(s, mods):
        s.funcs, s.globals, s.structs, s.enums, s.typedefs = {}, {}, {}, {}, {}
        s.units = [m["unit"] for m in mods]
        s.inlined = []
        for m in mods:
            s.inlined += m["inlined"]
            for k, v in m["structs"].items():
                if k not in s.structs or len(v["fields"]) > len(s.structs[k]["fields"]):
                    s.structs[k] = v
            s.enums.update(m["enums"])
            s.typedefs.update(m["typedefs"])
            for k, v in m["globals"].items():
                v["unit"] = m["unit"]
                if k in s.globals and v["static"]:
                    s.globals[m["unit"] + ":" + k] = v
                else:
                    s.globals[k] = v
            for f in m["funcs"]:
                F = Func(f, m["unit"])
                F.unit = m["unit"]
                old = s.funcs.get(F.name)
                if old is None:
                    s.funcs[F.name] = F
                elif F.file.endswith(".h"):
                    continue
                else:
                    s.funcs[m["unit"] + ":" + F.name] = F
        for st in s.structs.values():
            for f in st["fields"]: f["ty"] = f["ty"].replace("[-1]", "[]")
        s._callees = {}
        s.fieldmap = {}
        for n, st in s.structs.items():
            s.fieldmap[n] = {}
            for f in st["fields"]:
                s.fieldmap[n].setdefault(f["off"], f)

    def __iter__(s): return iter(s.funcs.values())

    def f(s, name):
        F = s.funcs.get(name)
        if F is None:
            from .prep import Broken
            raise Broken("anchor function %s not found" % name)
        return F

    def resolve(s, F, name):
        """callee definition as seen from F's unit"""
        return s.funcs.get(F.unit + ":" + name) or s.funcs.get(name)

    def field(s, sname, off):
        n = sname
        for p in ("struct.", "union."):
            if n.startswith(p): n = n[len(p):]
        n = re.sub(r"\.\d+$", "", n)
        fm = s.fieldmap.get(n)
        return (n, fm[off]) if fm and off in fm else (n, None)

    def gep_fields(s, path):
        """[(kind, ...)] : ('f', struct, fieldname) or ('ix', operand, elt size)"""
        out = []
        for p in path:
            if "s" in p:
                n, f = s.field(p["s"], p["off"])
                out.append(("f", n, f["n"] if f else "+%d" % p["off"]))
            else:
                out.append(("ix", p["ix"], p.get("sz")))
        return out


class Ex:
    """canonical expressions of a function's values (casts are transparent)"""

    def __init__(s, prog, F):
        s.p, s.F, s.memo = prog, F, {}

    def o(s, op, depth=0):
        if "v" in op: return s.v(op["v"], depth)
        if "c" in op: return ("c", op["c"])
        if "null" in op: return ("c", 0)
        if "str" in op: return ("str", op["str"].rstrip("\0"))
        if "fn" in op: return ("fn", op["fn"])
        if "g" in op: return ("g", op["g"])
        if "undef" in op: return ("undef",)
        if "ce" in op:
            if op["ce"] == "getelementptr":
                return s._gep(s.o(op["base"]), op["path"], depth)
            if op["ce"] in CASTS:
                return s.o(op["ops"][0])
            return ("ce", op["ce"]) + tuple(s.o(x) for x in op["ops"])
        if "fp" in op: return ("fp", op["fp"])
        if "asm" in op: return ("asm", op["asm"])
        return ("?",)

    def _gep(s, b, path, depth):
        e = b
        for k in s.p.gep_fields(path):
            if k[0] == "f":
                e = ("fld", e, k[1], k[2])
            else:
                e = ("idx", e, s.o(k[1], depth + 1), k[2])
        return e

    def v(s, i, depth=0):
        if i in s.memo: return s.memo[i]
        F = s.F
        if i in F.params:
            r = ("arg", F.params.index(i))
        else:
            I = F.val.get(i)
            if I is None: return ("?", i)
            if depth > 60:
                return ("v", i)
            op = I.op
            if op in CASTS: r = s.o(I["ops"][0], depth + 1)
            elif op == "getelementptr": r = s._gep(s.o(I["base"], depth + 1), I["path"], depth + 1)
            elif op == "load": r = ("load", s.o(I["ops"][0], depth + 1), I.id)
            elif op == "call":
                r = ("call", I.callee or ("ind", s.o(I["callee"], depth + 1) if "callee" in I.d else I.get("asm")), I.id)
            elif op == "phi": r = ("phi", I.id)
            elif op == "alloca": r = ("alloca", I.id)
            elif op == "icmp": r = ("icmp", I["pred"], s.o(I["ops"][0], depth + 1), s.o(I["ops"][1], depth + 1))
            elif op == "select": r = ("select",) + tuple(s.o(x, depth + 1) for x in I["ops"])
            elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "ashr", "lshr", "sdiv", "udiv", "srem", "urem"):
                r = ("bin", op, s.o(I["ops"][0], depth + 1), s.o(I["ops"][1], depth + 1))
            else: r = ("op", op, I.id)
        s.memo[i] = r
        return r


def strip_ids(e):
    """expression without instruction ids (structural identity)"""
    if not isinstance(e, tuple): return e
    if e[0] == "load": return ("load", strip_ids(e[1]))
    if e[0] == "call": return ("call", strip_ids(e[1]) if isinstance(e[1], tuple) else e[1], e[2])
    return tuple(strip_ids(x) for x in e)


def show(e, F=None, prog=None, d=0):
    if not isinstance(e, tuple): return str(e)
    k = e[0]
    if d > 12: return "..."
    sh = lambda x: show(x, F, prog, d + 1)
    if k == "arg": return F.param_name(e[1]) if F else "arg%d" % e[1]
    if k == "c": return str(e[1])
    if k == "str": return '"%s"' % e[1]
    if k in ("fn", "g"): return e[1]
    if k == "fld": return "%s.%s" % (sh(e[1]), e[3])
    if k == "idx": return "%s[%s]" % (sh(e[1]), sh(e[2]))
    if k == "load": return "*%s" % sh(e[1])
    if k == "call":
        n = e[1] if isinstance(e[1], str) else "(*%s)" % sh(e[1][1] if e[1][0] == "ind" else e[1])
        if F and e[2] in F.val:
            X = Ex(prog, F) if prog else None
            return "%s(%s)" % (n, ", ".join(show(X.o(a), F, prog, d + 3) for a in F.val[e[2]].args) if X else "..")
        return n + "()"
    if k == "bin": return "(%s %s %s)" % (sh(e[2]), e[1], sh(e[3]))
    if k == "icmp": return "(%s %s %s)" % (sh(e[2]), e[1], sh(e[3]))
    if k == "select": return "(%s ? %s : %s)" % tuple(sh(x) for x in e[1:4])
    return "%s%s" % (k, ":" + str(e[1]) if len(e) > 1 else "")
