"""The JIT driver (the function that compiles one proto) and its target table: which emitter runs for which opcode, with what arguments."""
from .core import *
from .lin import lin
from .emit import Emitter, Template, V, K, atom
from .x86 import Decoder, Bad
from .tmpl import Analysis

UNIT = "core/vm-x86.c"
IV = {"a": (0, 2047), "b": (0, 2047), "start": (4, 8000), "regs": (1, 4000), "lregs": (1, 4000)}


class Jit:
    def __init__(s, ctx):
        s.ctx, P = ctx, ctx.P
        s.P = P
        en = P.enums.get("PN_OPCODE")
        if not en: raise Broken("the opcode enumeration is gone")
        en = dict(en) if not isinstance(en[0], dict) else en
        s.enum = en
        s.ops = {v: k[3:] for k, v in en.items()}           # number -> NAME
        tt = [g for g in P.globals.values() if g.get("ty") and "PNTarget" in str(g["ty"]) and g.get("init")]
        tt = P.globals.get("potion_target_x86") or (tt[0] if tt else None)
        if not tt: raise Broken("the JIT target table is gone")
        st = P.structs["PNTarget"]["fields"]
        s.target = {}
        for f, x in zip(st, tt["init"]["arr"]): s.target[f["n"]] = x
        s.optab = [x.get("fn") for x in s.target["op"]["arr"]]
        # the driver: the function that calls through the op table inside a switch over the opcode
        s.F = None
        for F in P:
            n = len(s.calls_in(F))
            if n > 20 and (s.F is None or n > len(s.calls_in(s.F))): s.F = F
        if s.F is None: raise Broken("no function dispatches on the JIT's emitter table")
        s.E = ctx.ex(s.F)
        s.dispatch = [(k, I) for k, I in s.calls_in(s.F) if isinstance(k, int)]
        s.hooks = {}
        for k, I in s.calls_in(s.F):
            if not isinstance(k, int): s.hooks.setdefault(k, []).append(I)
        s.switch = None
        for I in s.F.instrs():
            if I.op == "switch" and len(I["cases"]) > 20: s.switch = I

    def calls_in(s, F):
        E = s.ctx.ex(F)
        out = []
        for I in F.instrs():
            if I.op != "call" or I.callee is not None or "callee" not in I.d: continue
            e = E.o(I["callee"])
            if e[0] != "load": continue
            a = e[1]
            if a[0] == "idx" and a[1][0] == "fld" and a[1][2:] == ("PNTarget", "op"):
                out.append((a[2][1] if a[2][0] == "c" else ("?",), I))
            elif a[0] == "fld" and a[2:] == ("PNTarget", "op"): out.append((0, I))
            elif a[0] == "fld" and a[2] == "PNTarget": out.append((a[3], I))
        return out

    # ------------------------------------------------------- what an argument of an emitter call is
    def atomname(s, e):
        """name of an opaque atom of a linear form"""
        def fld(x):
            x = x
            while x[0] == "call" and x[1] == "potion_fwd":
                I = s.F.val[x[2]]
                x = strip_ids(s.E.o(I.args[0]))
            return x
        if e[0] == "bin" and e[1] == "ashr" and e[3] == ("c", 1):
            x = e[2]
            if x[0] == "load" and x[1][0] == "fld" and x[1][2:] == ("PNProto", "stack"): return "STACK"
        if e[0] == "load" and e[1][0] == "fld" and e[1][2:] == ("PNTuple", "len"):
            x = fld(e[1][1])
            if x[0] == "load" and x[1][0] == "fld" and x[1][2] == "PNProto": return "N" + x[1][3]
        return None

    def role(s, op):
        e = s.E.o(op)
        l = lin(e)
        names = {}
        for a, c in l.items():
            if a == 1: names[1] = c; continue
            n = s.atomname(a)
            if n is None: names = None; break
            names[n] = names.get(n, 0) + c
        if names == {"STACK": 1}: return "regs"
        if names == {"STACK": 1, "Nlocals": 1}: return "lregs"
        if names == {"STACK": 1, "Nlocals": 1, "Nupvals": 1, 1: 3}: return "start"
        if names == {"Nupvals": 1}: return "upc"
        if names and names != {1: names.get(1)}: return ("lin", tuple(sorted(map(str, names.items()))))
        if e[0] == "arg": return s.F.param_name(e[1]) if s.F.param_name(e[1]) == "P" or e[1] == 0 else "f"
        if e[0] == "alloca":
            A = s.F.val[e[1]]
            n = A.get("var") or A.get("name") or ""
            return ("addr", e[1], n)
        if e[0] == "load" and e[1][0] == "alloca": return ("var", e[1][1])
        return ("?", show(e, s.F, s.P))

    def roles(s, I): return [s.role(a) for a in I.args]

    def emitter(s, k): return s.P.f(s.optab[k]) if 0 <= k < len(s.optab) and s.optab[k] else None

    def feed(s, roles):
        """emitter inputs for templates"""
        out = []
        seen_addr = 0
        for i, r in enumerate(roles):
            if i == 0: out.append(atom("P"))
            elif i == 2: out.append(V(o="asmp"))
            elif r in ("regs", "lregs", "start", "upc"): out.append(atom(r))
            else: out.append(None)
        return out

    def templates(s, F, args, intervals=None, unroll=2, operands=None):
        E = Emitter(s.ctx, s.P, UNIT, {**IV, **(intervals or {})}, unroll)
        E.operands = {k: K(n) for k, n in (operands or {}).items()}
        if operands: E.forks = 1
        return E.templates(F, args)
