"""P03: every table and switch indexed by an opcode agrees on which operation the number stands for, and covers what the compiler emits."""
from ..core import *
from ..heap import value_leaves
from ..jit import Jit
from ..lin import lin

RULE = ("the opcode enumeration, the opcode name table, the interpreter's dispatch (label table or switch), the JIT's opcode switch and the "
        "JIT's emitter table are read entry by entry and must name the same operation at every number; every opcode passed to the "
        "assembler must be handled by both engines; the JIT must call the emitter of the opcode it switched on, with as many arguments "
        "as the emitter takes; the packed operands must round-trip between the assembler and both engines")
ASSUME = ("handlers are identified by the name of their label or emitter function; that their bodies do the named operation is P05",)
ALIAS = {"JMP": {"jump"}, "REM": {"mod"}, "PROTO": {"method"}, "MSG": {"message"}, "NONE": {"noop", "end"}}


def names(op): return {op.lower()} | ALIAS.get(op, set())


def same(op, text, ops):
    """does an identifier (label, function) belong to the opcode: its last components are one of the opcode's names"""
    t = text.lower()
    best = max([n for o in ops for n in names(o) if t == n or t.endswith("_" + n)] or [""], key=len)
    return best in names(op) if best else None


def run(ctx):
    P = ctx.P
    J = Jit(ctx)
    ops = J.ops
    n = len(ops)
    allnames = list(ops.values())
    # ---- names
    g = P.globals.get("potion_ops")
    if not g: raise Broken("the opcode name table is gone")
    tab = g["init"]["arr"]
    if len(tab) < n: ctx.report("potion_ops|length", "%s:%s" % (g["file"], g["line"]), "the opcode name table has %d entries for %d opcodes" % (len(tab), n))
    args = {}
    for k, x in enumerate(tab):
        s = x["arr"][0] if "arr" in x else None
        nm = s and s.get("str", "").rstrip("\0")
        if nm is None:
            raise Broken("opcode name table has an unexpected shape")
        ctx.count("name table entries")
        if k in ops and nm not in names(ops[k]):
            ctx.report("potion_ops|%s" % ops[k], "%s:%s" % (g["file"], g["line"]), "opcode %d is %s but is named \"%s\" in the name table" % (k, ops[k], nm))
        args[k] = x["arr"][1].get("c") if len(x["arr"]) > 1 else None
    # ---- interpreter
    V = interp(ctx)
    bad = 0
    for k, (lab, where) in sorted(V.items()):
        ctx.count("interpreter dispatch entries")
        if lab is None: continue
        r = same(ops.get(k, "?"), lab, allnames)
        if k not in ops: continue
        if r is None: bad += 1
        elif not r:
            ctx.report("vm|%s" % ops[k], where, "the interpreter dispatches opcode %d (%s) to %s" % (k, ops[k], lab))
    if bad > 3: raise Broken("the interpreter's handlers cannot be named")
    for k in ops:
        if k not in V: ctx.report("vm|%s" % ops[k], "core/vm.c", "the interpreter's dispatch has no entry for opcode %d (%s)" % (k, ops[k]))
    # ---- JIT switch and emitter table
    sw = J.switch
    if sw is None: raise Broken("the JIT's opcode switch is gone")
    E = J.E
    dom = J.F.dom()
    handled = set()
    for k, b in sw["cases"]:
        calls = []
        region = [x for x in J.F.rpo() if b in dom.get(x, ())]
        for kk, I in J.dispatch:
            if I.bb in region: calls.append((kk, I))
        if not calls:
            # deliberately ignored (falls through to the next instruction)
            if k in ops and ops[k] != "DEBUG":
                ctx.report("jit|%s" % ops[k], sw.where, "the JIT's switch accepts opcode %d (%s) but emits nothing for it" % (k, ops[k]))
            handled.add(k)
            continue
        handled.add(k)
        for kk, I in calls:
            ctx.count("JIT switch cases")
            if kk != k:
                ctx.report("jit|%s" % ops.get(k, k), I.where, "for opcode %s the JIT calls the emitter of %s" % (ops.get(k, k), ops.get(kk, kk)))
            T = J.emitter(kk)
            if T is None:
                ctx.report("jit|%s" % ops.get(k, k), I.where, "the emitter table has no entry for opcode %s" % ops.get(kk, kk))
                continue
            if len(I.args) != T.nparams:
                ctx.report("jit|%s|args" % ops.get(k, k), I.where, "%s takes %d arguments and is called with %d" % (T.name, T.nparams, len(I.args)))
    for k, fn in enumerate(J.optab):
        if k not in ops or fn is None: continue
        ctx.count("emitter table entries")
        r = same(ops[k], fn, allnames)
        if r is False:
            ctx.report("target|%s" % ops[k], J.P.f(fn).file, "the emitter table has %s at opcode %d (%s)" % (fn, k, ops[k]))
    # ---- what the compiler emits
    emitted = {}
    for F in P:
        X = ctx.ex(F)
        for I in F.calls("potion_asm_op"):
            for v in value_leaves(F, X, X.o(I.args[2])):
                ctx.count("assembler calls")
                if v[0] != "c":
                    ctx.report("%s|computed opcode" % F.name, I.where, "an opcode that is not a constant is assembled: %s" % show(v, F, P))
                    continue
                emitted.setdefault(v[1] & 255, []).append((I, F))
    for k, sites in sorted(emitted.items()):
        I, F = sites[0]
        if k not in ops:
            ctx.report("emit|%d" % k, I.where, "%s assembles %d, which is no opcode" % (F.name, k)); continue
        lab = V.get(k, (None, None))[0]
        if lab is not None and same("NONE", lab, ["NONE"]):
            ctx.report("emit|%s" % ops[k], I.where, "%s assembles %s, which the interpreter does not implement" % (F.name, ops[k]))
        if k not in handled and ops[k] != "DEBUG":     # source positions are not tracked in compiled code
            ctx.report("emit|%s|jit" % ops[k], I.where, "%s assembles %s, which the JIT does not handle" % (F.name, ops[k]))
    ctx.count("opcodes emitted by the compiler", len(emitted))
    # ---- packing: stored words must read back, or be refused
    packing(ctx, P.f("potion_asm_op"), assembler=True)
    for F in P:
        if F.unit == "core/compile.c": packing(ctx, F, assembler=False)
    # ---- unpacking: the place, width and sign of each operand field at every read
    for F in P:
        if F.unit in ("core/vm.c", "core/vm-x86.c", "core/compile.c"): unpacking(ctx, F)
    ctx.floor("operand reads", 60); ctx.floor("name table entries", 40); ctx.floor("interpreter dispatch entries", 40)
    ctx.floor("JIT switch cases", 40); ctx.floor("emitter table entries", 40); ctx.floor("opcodes emitted by the compiler", 30)


VEC = [0, 1, 2, 5, 0xff, 0x100, 0x155, 0x2aa, 0x3ff, 0x400, 0x555, 0x7ff, -1, -2, -3, -0x100, -0x2ab, -0x400, -0x7ff, -0x800]
OUT = [0x800, 0x801, 0xfff, 0x1000, 0x1003, 0x2000, 0x10000, 0x7fffffff - 0xfff, -0x801, -0x802, -0xfff, -0x1000, -0x10001]


def leaves(e, out):
    """the free variables of an instruction word: the values packed into it"""
    if e[0] == "bin" and e[1] in ("and", "or", "xor", "shl", "lshr"):
        leaves(e[2], out); leaves(e[3], out)
    elif e[0] != "c": out.add(e)
    return out


def ev(e, env):
    """constant folding of an integer expression under bindings for some subexpressions, in 32 bits"""
    if e in env: return env[e]
    if e[0] == "c": return e[1]
    if e[0] == "bin":
        a, b = ev(e[2], env), ev(e[3], env)
        if a is None or b is None: return None
        m = 0xffffffff
        u = a & m
        r = {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b, "mul": a * b}.get(e[1])
        if r is None:
            if not 0 <= b < 32: return None
            r = {"shl": a << b, "lshr": u >> b, "ashr": (u - (1 << 32) if u >> 31 else u) >> b}.get(e[1])
        if r is None: return None
        r &= m
        return r - (1 << 32) if r >> 31 else r
    return None


def cond_e(e, env):
    if e[0] == "icmp":
        a, b = ev(e[2], env), ev(e[3], env)
        if a is None or b is None: return None
        return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": (a & 0xffffffff) < (b & 0xffffffff),
                "ule": (a & 0xffffffff) <= (b & 0xffffffff), "ugt": (a & 0xffffffff) > (b & 0xffffffff), "uge": (a & 0xffffffff) >= (b & 0xffffffff)}.get(e[1])
    if e[0] == "bin" and e[1] in ("and", "or", "xor"):
        a, b = cond_e(e[2], env), cond_e(e[3], env)
        if e[1] == "or" and True in (a, b): return True
        if e[1] == "and" and False in (a, b): return False
        if None in (a, b): return None
        return {"and": a and b, "or": a or b, "xor": a != b}[e[1]]
    if e[0] == "c": return bool(e[1])
    return None


def strip(e):
    """an address without the identity of the loads in it"""
    if not isinstance(e, tuple): return e
    if e[0] == "load": return ("load", strip(e[1]))
    return tuple(strip(x) for x in e)


def reloads(e, addr, out):
    if isinstance(e, tuple):
        if e[0] == "load" and strip(e[1]) == addr: out.add(e); return out
        for x in e: reloads(x, addr, out)
    return out


def refused(F, X, I, env, word=None):
    """does every feasible path from the store I, under the bindings, end in a call that does not return?"""
    seen, st = set(), [(I.bb, F.blocks[I.bb].ins.index(I) + 1)]
    addr = strip(X.o(I["ops"][1]))
    while st:
        b, k = st.pop()
        if (b, k) in seen: continue
        seen.add((b, k))
        B = F.blocks[b]
        dead = False
        for J in B.ins[k:]:
            if J.op == "call" and (J.get("noret") or J.callee in NORETURN): dead = True; break
            if J.op == "ret": return False
            # the next instruction word to be made, or the caller going on with the next node
            if J.op == "call" and J.callee in ("potion_asm_op",): return False
        if dead: continue
        br = B.ins[-1]
        ss = list(B.succs)
        if br.op == "br" and br.get("cond") is not None and len(ss) == 2:
            e = X.o(br["cond"])
            c = cond_e(e, env | {x: word for x in reloads(e, addr, set())} if word is not None else env)
            if c is not None: ss = [br["succ"][0] if c else br["succ"][1]]
        for t in ss: st.append((t, 0))
    return True


def packing(ctx, F, assembler):
    X = ctx.ex(F)
    best = None
    for I in F.instrs():
        if I.op != "store" or I.get("sty") != "i32": continue
        v = X.o(I["ops"][0])
        if not (v[0] == "bin" and v[1] == "or"): continue
        lv = leaves(v, set())
        old = {e for e in lv if e[0] == "load"}
        vals = lv - old
        # is it an instruction word: some value lands in bits 8-19 or 20-31
        fields = {}
        for e in lv:
            w = ev(v, {x: 0 for x in lv} | {e: -1})
            z = ev(v, {x: 0 for x in lv})
            if w is None or z is None: continue
            fields[e] = (w ^ z) & 0xffffffff
        if assembler:
            if len([e for e in fields if e[0] == "arg" and e[1] in (2, 3, 4)]) == 3: best = (I, v, fields, lv)
            continue
        for e, m in fields.items():
            if m not in (0xfff00, 0xfff00000) or len(fields) != 2: continue
            if any(f != e and fields[f] & m for f in fields): continue
            ctx.count("operand rewrites")
            sh = 8 if m == 0xfff00 else 20
            for x in VEC + OUT:
                env = {y: 0 for y in lv} | {e: x}
                w = ev(v, env)
                back = ((w >> sh) & 0xfff) ^ 0x800
                back -= 0x800
                if back == x: continue
                env2 = {e: x}; env2.update({y: 0 for y in lv if y != e})
                if not refused(F, X, I, env2, w):
                    ctx.report("%s|operand rewrite" % F.name, I.where, "%s patches an instruction operand with a value such as %d, which reads back as %d and is not refused" % (F.name, x, back))
                    break
    if not assembler: return
    if best is None:
        ctx.count("packing not a single store"); return
    I, v, fields, lv = best
    A = {e[1]: e for e in fields if e[0] == "arg"}
    for junk in (0, -1):
        for code, a, b in [(c, 1, 2) for c in (0, 1, 0x5a, 0xa5)] + [(7, a, 3) for a in VEC + OUT] + [(7, 3, b) for b in VEC + OUT]:
            env = {e: junk for e in lv}
            env.update({A[2]: code, A[3]: a, A[4]: b})
            w = ev(v, env)
            if w is None: raise Broken("the instruction word is not a closed form of the operands")
            ctx.count("packing vectors")
            back = (w & 255, ((w >> 8) & 0xfff ^ 0x800) - 0x800, ((w >> 20) & 0xfff ^ 0x800) - 0x800)
            if back != (code, a, b) and not refused(F, X, I, env, w):
                ctx.report("potion_asm_op|packing", I.where, "an instruction (%d,%d,%d) is stored as word %#x, which reads back as (%d,%d,%d) and is not refused" % ((code, a, b, w & 0xffffffff) + back))
                return


def unpacking(ctx, F):
    X = ctx.ex(F)
    users = {}
    for I in F.instrs():
        for o in I.operands():
            if "v" in o: users.setdefault(o["v"], []).append(I)
    def k(I): return (I.get("ops") or [{}, {}])[1].get("c") if len(I.get("ops") or ()) > 1 else None
    words = set()
    for I in F.instrs():
        if I.op == "load" and I.get("ty") == "i32":
            for u in users.get(I.id, ()):
                if u.op == "ashr" and k(u) == 20 or u.op == "shl" and k(u) == 12 and any(w.op == "ashr" and k(w) == 20 for w in users.get(u.id, ())): words.add(I)
    for I in words:
        fin = []
        for u in users.get(I.id, ()):
            if u.op in ("ashr", "lshr"):
                if k(u) == 20 and u.op == "ashr": fin.append(u)
                elif not (u.op == "lshr" and k(u) in (8, 20)): ctx.report("%s|operand read" % F.name, u.where, "%s reads an instruction field at bit %s" % (F.name, k(u)))
                else: ctx.report("%s|operand read" % F.name, u.where, "%s reads an instruction operand without its sign" % F.name)
            if u.op == "shl" and k(u) == 12:
                fin += [w for w in users.get(u.id, ()) if w.op == "ashr" and k(w) == 20]
                for w in users.get(u.id, ()):
                    if w.op in ("ashr", "lshr") and (w.op, k(w)) != ("ashr", 20):
                        ctx.report("%s|operand read" % F.name, w.where, "%s reads an instruction operand with the wrong width or without its sign" % F.name)
        for a in fin:
            ctx.count("operand reads")
            for z in users.get(a.id, ()):
                m = k(z)
                if z.op == "and" and m is not None and bin(m & 0xffffffff).count("1") > 1 and (m & 0xfff) != 0xfff or z.op == "trunc" and z.get("ty") in ("i8", "i16", "i1"):
                    ctx.report("%s|operand read" % F.name, z.where, "%s uses only some bits of an instruction operand" % F.name)


def interp(ctx):
    """opcode -> (handler label, where) of the interpreter"""
    P = ctx.P
    F = P.f("potion_vm")
    for k, g in P.globals.items():
        if "jmptbl" in k and g.get("init", {}).get("arr") and "ba" in g["init"]["arr"][0]:
            out = {}
            for i, x in enumerate(g["init"]["arr"]):
                B = F.blocks[x["ba"]]
                I = B.ins[0]
                out[i] = (B.name, I.where)
            return out
    for I in F.instrs():
        if I.op == "switch" and len(I["cases"]) > 20:
            return {k: (None, I.where) for k, b in I["cases"]}
    raise Broken("the interpreter's dispatch is not found")
