"""P10: addresses inside objects are not kept across a collection."""
from ..core import *
from ..heap import *
from ..ir import show

RULE = """An address inside an object is: the character address of a string or byte string, the address of an element of an object's array that is bound to a variable, and anything computed from
those (offsets, merges, what a helper returns of them).  Forward dataflow over every function: after a call that may collect, every such address is out of date until it is computed again.  A load, a store,
a call argument or a return that uses an out-of-date address is a violation; so is passing such an address to a function that (transitively) uses that parameter after it may collect, passing the address of a
local that holds one to a call that may collect, and storing one into memory that outlives the function."""
ASSUME = ("the collector moves objects; the conservative stack scan updates addresses of objects, not addresses inside them",
          "the interpreter loop reads its argument and captured-value arrays only when it starts a function (at position 0), so core/vm.c's two array parameters are not followed",
          "the line editor's completion callback is never set (checked: nothing calls its setter), so the editor does not collect")
SKIP = ("core/gc.c", "core/vm.c", "lib/readline/linenoise.c")
KEEPS = ()
PTRTY = re.compile(r"^(const )?(unsigned |signed )?(char|void|PN|_PN|u8|PNByte|uint8_t)\s*\*")


INNERS = ("potion_str_ptr",)


class Inner:
    """one function: which values are addresses inside heap objects, and where such a value is used after a collection point"""

    def __init__(s, A, F):
        s.A, s.F, s.X = A, F, A.ctx.ex(F)
        s.P = A.P
        hs = A.hs
        s.inner = {}            # value id -> origin set (param indices or 'obj')
        s.slots = {}            # local variable in memory -> origins of the addresses it holds
        ch = True
        for k in A.params.get(F.name, ()): s.inner[F.params[k]["i"] if isinstance(F.params[k], dict) else F.params[k]] = {k}
        rp = F.rpo()
        while ch:
            ch = False
            for b in rp:
                for I in F.blocks[b].ins:
                    o = s.origin(I)
                    if I.op == "store":
                        k, o2 = s.slot(I["ops"][1]), s.of(I["ops"][0])
                        if o2 and k is not None and not o2 <= s.slots.get(k, set()): s.slots[k] = s.slots.get(k, set()) | o2; ch = True
                        continue
                    if o and not o <= s.inner.get(I.id, set()):
                        s.inner[I.id] = s.inner.get(I.id, set()) | o; ch = True

    def slot(s, op):
        """the local variable in memory an address operand is"""
        J = s.F.val.get(op.get("v")) if isinstance(op, dict) else None
        while J is not None and J.op in ("getelementptr", "bitcast"):
            J = s.F.val.get((J["base"] if J.op == "getelementptr" else J["ops"][0]).get("v"))
        return J.id if J is not None and J.op == "alloca" else None

    def of(s, op): return s.inner.get(op.get("v"), set()) if isinstance(op, dict) else set()

    def direct(s, op):
        """the operand is the address of a field or an element inside an object, computed from the object itself"""
        if not isinstance(op, dict) or "v" not in op: return False
        e = s.X.o(op)
        if e[0] not in ("fld", "idx"): return False
        while e[0] == "idx": e = e[1]
        return e[0] == "fld" and (e[2], e[3]) in s.A.fields

    def origin(s, I):
        if I.op == "call" and I.callee == "potion_str_ptr":
            e = s.X.o(I.args[0])
            return {"obj"}
        if I.op == "call" and I.callee:
            T = s.P.resolve(s.F, I.callee)
            r = set()
            for k in s.A.rets.get(T.name if T else None, ()):
                r |= {"obj"} if k == "obj" else s.of(I.args[k])
            return r
        if I.op == "load":
            return set(s.slots.get(s.slot(I["ops"][0]), ()))
        if I.op == "getelementptr":
            b = I["base"]
            r = set(s.of(b))
            if not r and I.get("var") and s.direct({"v": I.id}): r = {"obj"}
            return r
        if I.op in ("phi",):
            return set().union(*[s.of(o) | ({"obj"} if s.direct(o) else set()) for _, o in I["in"]])
        if I.op == "select": return set().union(*[s.of(o) for o in I["ops"][1:]])
        if I.op in ("bitcast", "inttoptr", "ptrtoint"): return set(s.of(I["ops"][0])) if I.op == "bitcast" else set()
        return set()

    def run(s):
        """-> {origin: (Instr, what)} of uses of stale addresses"""
        F = s.F
        out = {}
        if not s.inner and not any(I.op == "call" for I in F.instrs()): return out
        ins = {b: None for b in F.rpo()}
        par = [i for i, o in s.inner.items() if i not in F.val]
        ins[F.entry] = frozenset()
        work = [F.entry]
        while work:
            b = work.pop()
            st = s.block(b, set(ins[b]), None)
            for t in F.blocks[b].succs:
                # phis of t take the staleness of what they get from b
                st2 = set(st)
                for I in F.blocks[t].ins:
                    if I.op != "phi": break
                    for p, o in I["in"]:
                        if p == b:
                            if o.get("v") in st: st2.add(I.id)
                            else: st2.discard(I.id)
                o = ins.get(t)
                n = frozenset(st2) if o is None else o | st2
                if n != o: ins[t] = n; work.append(t)
        for b in F.rpo():
            if ins[b] is not None: s.block(b, set(ins[b]), out)
        return out

    def block(s, b, st, out):
        for I in s.F.blocks[b].ins:
            if I.op == "phi": continue
            if out is not None and I.op in ("load", "store", "call", "invoke", "ret"):
                if I.op == "load": us = [I["ops"][0]]
                elif I.op == "store":
                    us = [I["ops"][1]]
                    if s.slot(us[0]) is None and s.of(I["ops"][0]):
                        for g in s.of(I["ops"][0]): out.setdefault(g, []).append((I, "memory"))
                elif I.op == "ret": us = I["ops"]
                else: us = list(I.args)
                for k, o in enumerate(us):
                    v = o.get("v") if isinstance(o, dict) else None
                    if v in st:
                        for g in s.inner.get(v, ()): out.setdefault(g, []).append((I, None))
            if I.op in ("call", "invoke") and is_maygc_call(I, s.P, s.F, s.A.mg):
                T = s.P.resolve(s.F, I.callee) if I.callee else None
                if out is not None and T is not None:
                    for k, o in enumerate(I.args):
                        if k in s.A.late.get(T.name, ()):
                            for g in s.of(o) or ({"obj"} if s.direct(o) else ()): out.setdefault(g, []).append((I, T))
                if out is not None:
                    for o in I.args:
                        for g in s.slots.get(s.slot(o), ()): out.setdefault(g, []).append((I, "variable"))
                if not (T is None and I.callee in NORETURN):
                    st |= set(s.inner) | set(s.slots)
            if I.op == "store" and s.slot(I["ops"][1]) in s.slots:
                k = s.slot(I["ops"][1])
                if I["ops"][0].get("v") in st: st.add(k)
                else: st.discard(k)
            if I.op == "load" and I.id in s.inner:
                if s.slot(I["ops"][0]) in st: st.add(I.id)
                else: st.discard(I.id)
                continue
            if I.id in s.inner and I.op != "phi":
                if I.op == "call": st.discard(I.id)
                elif I.op == "select": 
                    if any(o.get("v") in st for o in I["ops"][1:]): st.add(I.id)
                    else: st.discard(I.id)
                else:
                    o = I["base"] if I.op == "getelementptr" else I["ops"][0]
                    if o.get("v") in st: st.add(I.id)
                    else: st.discard(I.id)
        return st


class All:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.mg = maygc(ctx.P)
        s.hs = heap_structs(ctx.P)
        s.fields = {("PNString", "chars"), ("PNBytes", "chars"), ("PNTuple", "set"), ("PNClosure", "data"), ("PNFlex", "ptr"), ("PNObject", "ivars"), ("PNWeakRef", "data")}
        s.params, s.late, s.rets = {}, {}, {}

    def run(s):
        P = s.P
        for F in P:
            if F.name in s.mg or PTRTY.match(str((F.ditypes[0] if F.ditypes else None) or "").replace("struct ", "")):
                ks = [k for k in range(F.nparams) if PTRTY.match(str(F.param_type(k) or "").replace("struct ", ""))]
                if ks: s.params[F.name] = ks
        ch = True
        fs = [F for F in P if F.file not in SKIP and F.name not in INNERS]
        while ch:
            ch = False
            for F in fs:
                N = Inner(s, F)
                if F.name in s.params and F.name in s.mg:
                    ks = {g for g in N.run() if g != "obj"}
                    if ks - s.late.get(F.name, set()): s.late[F.name] = ks | s.late.get(F.name, set()); ch = True
                for I in F.instrs():
                    if I.op == "ret" and I["ops"]:
                        o = N.of(I["ops"][0]) | ({"obj"} if PTRTY.match(str((F.ditypes[0] if F.ditypes else None) or "")) and N.direct(I["ops"][0]) else set())
                        if o - s.rets.get(F.name, set()): s.rets[F.name] = o | s.rets.get(F.name, set()); ch = True
        for F in P:
            if F.file in SKIP or F.name not in s.mg: continue
            N = Inner(s, F)
            s.ctx.count("functions that may collect"); s.ctx.count("addresses inside objects", len(N.inner))
            for I, T in N.run().get("obj", ()):
                what = I.op + (" " + I.callee if I.op == "call" and I.callee else "")
                if T is None: m = "an address inside an object is used (%s) after a call that may collect and move the object" % what
                elif T == "memory": m = "an address inside an object is stored into memory that outlives the function"
                elif T == "variable": m = "a variable that holds an address inside an object is passed to %s, which may collect and move the object" % (I.callee or "a call")
                else: m = "an address inside an object is passed to %s, which uses it after it may collect and move the object" % T.name
                s.ctx.report("%s|%s" % (F.name, T.name if hasattr(T, "name") else (T or what)), I.where, m)


def run(ctx):
    P = ctx.P
    A = All(ctx)
    for F in P:
        for I in F.instrs():
            if I.op == "call" and I.callee and I.callee.startswith("linenoiseSet") and I.callee.endswith("Callback"):
                ctx.report("callback|" + F.name, I.where, "sets a callback of the line editor, which this analysis takes as never set")
    A.run()
    for f, k in sorted(A.late.items()): ctx.sample("%s uses argument %s after it may collect" % (f, sorted(k)))
    for f, k in sorted(A.rets.items()): ctx.sample("%s returns an address inside an object (%s)" % (f, sorted(map(str, k))))
    ctx.floor("functions that may collect", 150)
    ctx.floor("addresses inside objects", 100)
