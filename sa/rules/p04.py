"""P04: the machine code generated for each operation is well formed and keeps to its own frame."""
from ..core import *
from ..jit import *
from ..facts import Query, ladd, lsub
from ..facts import lin as flin
from .p07 import uses

RULE = ("for every variant of every emitter the compiler of machine code dispatches to: the emitted bytes decode completely; every jump lands on an instruction "
        "of the template, or is a four-byte distance recorded for fixing up (forward) or computed from the recorded offset of the same target (backward); "
        "all stores go to frame slots in reach of their encoding or to the outgoing arguments; preserved registers are not written and the stack pointer only by "
        "the prologue; a native function is passed the interpreter and every argument it reads; no address of a movable object is embedded; the driver "
        "records the offset of every operation, fixes up every recorded jump at its target and reserves the frame")
ASSUME = ("the code is for x86-64 with the System V calling convention", "the register numbers of an instruction and frame size are below the bounds of the operand fields")
PRESERVED = ("rbx", "r12", "r13", "r14", "r15", "rbp", "rsp")
NOARG = (("?",), ("clobbered",))


def check(ctx, J, name, T, args, U, seen):
    """all templates of one emitter; yields (template, Analysis)"""
    P = J.P
    out = []

    def rep(what, where, msg):
        ctx.report("%s|%s" % (name, what), where, msg)
    # the operands of a call: the closure's register and the one after the last argument, which is never before it
    iv = {}
    if name == "CALL":
        for x in ((("a", -1), ("b", 1)), (("a", 1), ("b", -1))): iv[x] = (0, 2047) if x[0][1] < 0 else (-2047, 0)
    for t in J.templates(T, args, iv):
        ctx.count("machine code variants")
        try: ins = Decoder(t).all()
        except Bad as e:
            rep("decode", T.name, "the code %s emits for %s does not decode: %s" % (T.name, name, e)); continue
        A = Analysis(t, ins)
        out.append((t, A))
        ctx.count("machine instructions", len(ins))
        for I, msg in A.bad:
            rep(re.sub(r"\d+", "N", msg), where_of(t, I, T), "in the code %s emits for %s: %s" % (T.name, name, msg))
        rels = {i.rel[1]: i for i in ins if i.rel is not None}
        for f in t.fixups:
            ctx.count("recorded jumps")
            if f not in rels or rels[f].rel[0] != 4:
                rep("fixup", T.name, "%s records position %d of the code for %s as a jump distance to fix up, but no four-byte jump distance is there" % (T.name, f, name))
        for i in ins:
            if i.rel is not None and i.rel[1] not in t.fixups:
                tg = A.target(i)
                if isinstance(tg, tuple): backward(ctx, J, rep, T, name, t, i, tg[1])
                elif i.rel[0] == 4 and tg == i.end and i.rel[2].c == 0:
                    rep("jump to nowhere", where_of(t, i, T), "the jump %s emits for %s is neither recorded for fixing up nor given a distance" % (T.name, name))
            if i.dst and i.dst[0] == "r" and i.dst[1] in PRESERVED and i.op not in ("cmp", "test", "push", "call", "jmpind") and T.name not in ("potion_x86_setup", "potion_x86_stack") \
                    and name not in ("@setup", "@stack"):
                rep("preserved register " + i.dst[1], where_of(t, i, T), "the code %s emits for %s changes %s, which belongs to its caller" % (T.name, name, i.dst[1]))
            if i.op in ("push", "pop") and name != "@setup":
                rep("stack pointer", where_of(t, i, T), "the code %s emits for %s moves the stack pointer" % (T.name, name))
            if i.op == "ret":
                k = [x for x in ins if x.end == i.pos]
                if not k or k[0].op != "leave": rep("return", where_of(t, i, T), "the code %s emits for %s returns without leaving its frame" % (T.name, name))
        for I, l, v, o, base in A.writes:
            ctx.count("stores of machine code")
            if l is None:
                if o[1] == "rbp": continue          # reported as a bad slot
                rep("store through a pointer", where_of(t, I, T), "the code %s emits for %s stores through a pointer instead of into its frame: the write barrier is bypassed" % (T.name, name))
            elif l[0] == "arg":
                rep("store into the caller's frame", where_of(t, I, T), "the code %s emits for %s stores above its frame" % (T.name, name))
            elif l[0] == "out" and l[1] is not None and not (0 <= l[1] < 32):
                rep("outgoing arguments", where_of(t, I, T), "the code %s emits for %s stores an argument at %s(%%rsp), outside what every frame reserves" % (T.name, name, l[1]))
        for I, v, a in A.calls:
            ctx.count("calls by machine code")
            if v[0] == "deref":
                want = method_offset(P)
                if v[2] != K(want).key(): rep("called address", where_of(t, I, T), "the code %s emits for %s calls the address at offset %s of an object; a closure has its code at %d" % (T.name, name, v[2], want))
                continue
            if v[0] != "fn":
                rep("called address", where_of(t, I, T), "the code %s emits for %s calls %s" % (T.name, name, v)); continue
            C = P.resolve(T, v[1])
            if C is None: continue
            for k in sorted(U.get(C.name, ())):
                if k < len(a) and a[k] in NOARG:
                    rep("argument %d of %s" % (k, v[1]), where_of(t, I, T), "the code %s emits for %s calls %s without giving it its parameter %d (%s)" % (T.name, name, v[1], k, C.param_name(k)))
            if C.params and C.param_name(0) == "P" and 0 in U.get(C.name, ()) and a[0] not in (PSLOT, ("imm", atom("P").key())):
                rep("interpreter argument of " + v[1], where_of(t, I, T), "the code %s emits for %s passes %s where %s expects the interpreter" % (T.name, name, a[0], v[1]))
        for pos, n, v, I in t.items:
            if n == 8 and v.l is None and not v.fn:
                ctx.count("embedded values")
                if not constant(v): 
                    rep("embedded object", I.where, "the code %s emits for %s embeds a value read from the heap; a moved object leaves a dangling address in the code" % (T.name, name))
    return out


PSLOT = ("slot", ("l", ("1", -3), ("start", 1)))


def constant(v):
    return v.o and v.o[0] == "call" and v.o[1] == "potion_type_default"


def method_offset(P):
    return next(f["off"] for f in P.structs["PNClosure"]["fields"] if f["n"] == "method")


def where_of(t, I, T):
    for pos, n, v, Ins in t.items:
        if pos <= I.pos < pos + n: return Ins.where
    return T.name


def backward(ctx, J, rep, T, name, t, i, v):
    ctx.count("backward jumps")
    ok = False
    if v.o and v.o[0] == "sub" and v.o[2] == K(i.end).key() and v.o[1][0] == "o" and v.o[1][1][0] == "load": ok = True
    if not ok: rep("backward distance", where_of(t, i, T), "the backward jump %s emits for %s is not the recorded offset of its target less the end of the jump" % (T.name, name))


def jumps(ctx, J, T, name):
    """the emitter records a forward jump for, and computes a backward jump from, the operation after position + operand"""
    E = ctx.ex(T)
    tos, offs, froms, incs = [], [], [], []
    for I in T.instrs():
        if I.op == "store":
            a = E.o(I["ops"][1])
            if a[0] == "fld" and a[2:] == ("PNJumps", "to"): tos.append((I, E.o(I["ops"][0])))
        if I.op == "load":
            a = E.o(I["ops"][0])
            if a[0] == "idx" and a[1][0] == "arg" and a[3] == 8: offs.append((I, a[2]))
    for I, e in tos + offs:
        ctx.count("jump targets")
        l = strip_lin(flin(e))
        ks = [k for k in l if k != 1]
        pos = [k for k in ks if k[0] == "arg" and k[1] == 3]
        opn = [k for k in ks if k not in pos]
        if not (l.get(1) == 1 and len(ks) == 2 and len(pos) == 1 and all(l[k] == 1 for k in ks)):
            ctx.report("%s|jump target" % name, I.where, "%s takes %s as the operation a %s goes to; it is the one after position + distance" % (T.name, show(e, T, J.P), name))
    return tos, offs


def strip_lin(l):
    return l


def prologue(ctx, J, U):
    P = J.P
    # ---- frame setup
    T = P.f(J.target["setup"]["fn"])
    got = check(ctx, J, "@setup", T, J.feed(["P", "f", None]), U, set())
    for t, A in got:
        ops = [(i.op, i.dst, i.src) for i in A.ins]
        if not (len(ops) == 2 and ops[0][0] == "push" and ("r", "rbp") in ops[0][1:] and ops[1][0] == "mov" and ops[1][1] == ("r", "rbp") and ops[1][2] == ("r", "rsp")):
            ctx.report("@setup|frame", T.name, "%s does not save the caller's frame pointer and set up its own" % T.name)
    for h, Is in J.hooks.items():
        if h in ("setup", "jmpedit", "finish") or h not in J.target or "fn" not in J.target[h]: continue
        T = P.f(J.target[h]["fn"])
        if h == "stack":
            for t, A in check(ctx, J, "@stack", T, [atom("P"), None, V(o="asmp"), atom("need")], U, set()):
                ok = False
                for i in A.ins:
                    if i.op == "sub" and i.dst == ("r", "rsp") and i.src[0] == "i":
                        ok = rounds_up(i.src[1])
                if not ok: ctx.report("@stack|reserve", T.name, "%s does not lower the stack pointer by at least the bytes asked for, rounded to 16" % T.name)
        elif h == "registers":
            want = {(-3): "rdi", (-2): "rsi", (-1): "rdx"}
            for t, A in check(ctx, J, "@registers", T, [atom("P"), None, V(o="asmp"), atom("start")], U, set()):
                w = {l[1]: v for _, l, v, _, _ in A.writes if l and l[0] == "slot"}
                src = {}
                for i in A.ins:
                    if i.op == "mov" and i.dst[0] == "mem" and i.src[0] == "r":
                        l = A.loc(i, i.dst, False, True)
                        if l and l[0] == "slot": src[l[1]] = i.src[1]
                for k, r in want.items():
                    if src.get(V({"start": 1, 1: k}).key()) != r:
                        ctx.report("@registers|%s" % r, T.name, "%s does not save %%%s, one of the function's first three arguments, in its place in the frame" % (T.name, r))
                if src.get(K(0).key()) != "rdx":
                    ctx.report("@registers|self", T.name, "%s does not put self into the first register" % T.name)
                n = 0
                while V({"regs": 1, 1: n} if n else {"regs": 1}).key() in w and w[V({"regs": 1, 1: n} if n else {"regs": 1}).key()] == ("imm", K(0).key()): n += 1
                extra = [k for k, v in w.items() if v == ("imm", K(0).key())]
                if len(extra) != n: ctx.report("@registers|locals", T.name, "%s sets slots to nil that are not the first locals" % T.name)
            # the loop over the locals has the number of locals as its bound
            X = ctx.ex(T)
            if not any(I.op == "icmp" and any(is_len(X, X.o(o), T, "locals") for o in I["ops"]) for I in T.instrs()):
                ctx.report("@registers|count", T.name, "%s does not set as many locals to nil as the function has" % T.name)
        elif h == "local":
            for k in (0, 1, 2, 3, 4, 15, 16, 17, 40):
                for t, A in check(ctx, J, "@local", T, [atom("P"), None, V(o="asmp"), atom("lregs"), K(k)], U, set()):
                    ok = False
                    for i in A.ins:
                        if i.op == "mov" and i.dst[0] == "mem":
                            l = A.loc(i, i.dst, False, True)
                            st = A.state.get(i.pos, {})
                            v = i.src[1] if k < 3 else st.get(i.src[1])
                            if l == ("slot", ("l", ("lregs", 1))) and v == (("rcx", "r8", "r9")[k] if k < 3 else ("arg", 16 + 8 * (k - 3))): ok = True
                    if not ok: ctx.report("@local|argument", T.name, "%s does not fetch argument %d of the function from where the calling convention puts it" % (T.name, k))
        elif h == "upvals":
            d = next(f["off"] for f in P.structs["PNClosure"]["fields"] if f["n"] == "data")
            n = 18
            for t in J.templates(T, [atom("P"), None, V(o="asmp"), atom("lregs"), atom("start"), K(n)], unroll=n + 2):
                ctx.count("machine code variants")
                try: A = Analysis(t, Decoder(t).all())
                except Bad as e:
                    ctx.report("@upvals|decode", T.name, "the code %s emits does not decode: %s" % (T.name, e)); continue
                for I, msg in A.bad: ctx.report("@upvals|" + re.sub(r"\d+", "N", msg), T.name, "in the code %s emits: %s" % (T.name, msg))
                w = {l[1]: v for _, l, v, _, _ in A.writes if l and l[0] == "slot"}
                for k in range(n):
                    want = ("deref", ("slot", ("l", ("1", -2), ("start", 1))), K(d + 8 * (k + 1)).key(), None)
                    if w.get(V({"lregs": 1, 1: k} if k else {"lregs": 1}).key()) != want:
                        ctx.report("@upvals|upvalue", T.name, "%s does not load captured value %d of the running closure into its place in the frame" % (T.name, k)); break


def is_len(X, e, T, field):
    if e[0] == "load" and e[1][0] == "fld" and e[1][2:] == ("PNTuple", "len"):
        b = e[1][1]
        while b[0] == "call" and b[1] == "potion_fwd": b = X.o(T.val[b[2]].args[0])
        return b[0] == "load" and b[1][0] == "fld" and b[1][2:] == ("PNProto", field)
    return False


def rounds_up(v):
    """a value at least `need`, a multiple of 16"""
    if v.l is not None: return v.l.get("need", 0) >= 1 and v.l.get(1, 0) >= 0
    o = v.o
    if o and o[0] == "and" and o[2] == K(-16).key():
        x = o[1]
        if x[0] == "l":
            d = dict(x[1:])
            return d.get("need", 0) == 1 and int(d.get("1", 0)) >= 15
    return False


def driver(ctx, J):
    F, E, P = J.F, J.E, J.P
    Q = Query(ctx, F)
    # ---- fix-up of recorded jumps
    for I in J.hooks.get("jmpedit", ()):
        ctx.count("fix-ups")
        at, dist = E.o(I.args[3]), flin(E.o(I.args[4]))
        frm = [k for k, c in dist.items() if k != 1 and c == -1]
        ln = [k for k, c in dist.items() if k != 1 and c == 1]
        ok = dist.get(1) == -4 and len(frm) == 1 and len(ln) == 1 and len(dist) == 3 and is_fld(ln[0], "len") and mentions(at, frm[0])
        if not ok:
            ctx.report("driver|fix-up distance", I.where, "%s fixes a jump up with %s; it is the current end of the code less the position after the distance" % (F.name, show(E.o(I.args[4]), F, P)))
            continue
        rec = frm[0][1]          # address of the record
        rec = rec[1] if rec[0] == "fld" else rec
        pos = {E.o(o) for J2 in offs_stores(F, E) for o in [J2[1]]}
        goals = []
        for K2 in F.instrs():
            if K2.op == "icmp" and K2["pred"] in ("eq", "ne"):
                for x, y in (K2["ops"], K2["ops"][::-1]):
                    a = E.o(x)
                    if a[0] == "load" and same_rec(a[1], rec): goals.append(("eq", lsub(flin(Q.canon(a)), flin(Q.canon(E.o(y))))))
        if not goals or Q.holds(I, goals) is not None:
            ctx.report("driver|fix-up place", I.where, "%s fixes up jumps that do not go to the operation at hand" % F.name)
    if not J.hooks.get("jmpedit"): ctx.report("driver|fix-up", F.name, "%s never fixes up the forward jumps" % F.name)
    # ---- every operation's offset recorded before its code
    sts = offs_stores(F, E)
    ctx.count("offset records", len(sts))
    dom = F.dom()
    for k, I in J.dispatch:
        if not any(s.bb in dom[I.bb] for s, _ in sts):
            ctx.report("driver|offsets", I.where, "%s generates code for %s without recording where it starts" % (F.name, J.ops[k])); break
    # ---- the outgoing arguments of calls fit
    for I in J.hooks.get("stack", ()):
        e = E.o(I.args[3])
        l = flin(e)
        phis = set()
        walk_phis(E, F, e, phis, set())
        ctx.count("frame sizes")
        leaves = []
        for p in phis:
            for _, o in F.val[p]["in"]: leaves += [flin(x) for x in selects(E.o(o))]
        if not any(l2.get(1, 0) >= -4 and sum(1 for k, c in l2.items() if k != 1 and c == 1) == 1 and sum(1 for k, c in l2.items() if k != 1 and c == -1) == 1 for l2 in leaves):
            ctx.report("driver|call arguments", I.where, "%s does not reserve stack for the arguments of the calls a function makes" % F.name)
        # the fixed part: all slots
        r = J.hooks.get("registers", [None])[0]
        if r is not None:
            start = flin(E.o(r.args[3]))
            rest = lsub(l, {k: 8 * c for k, c in start.items()})
            if any(k != 1 and not has_phi(k) for k in rest) or rest.get(1, 0) < 0 or any(c < 8 for k, c in rest.items() if k != 1):
                ctx.report("driver|frame", I.where, "%s reserves less stack than the slots of its frame take" % F.name)


def selects(e):
    return selects(e[2]) + selects(e[3]) if e[0] == "select" else [e]


def has_phi(k): return "phi" in str(k)


def walk_phis(E, F, e, out, seen):
    if not isinstance(e, tuple): return
    if e in seen: return
    seen.add(e)
    if e[0] == "phi" and len(e) == 2 and e[1] in F.val:
        out.add(e[1])
        for _, o in F.val[e[1]]["in"]: walk_phis(E, F, E.o(o), out, seen)
        return
    for x in e: walk_phis(E, F, x, out, seen)


def is_fld(e, n): return e[0] == "load" and e[1][0] == "fld" and e[1][3] == n


def mentions(e, x):
    if e == x or unid(e) == unid(x): return True
    return isinstance(e, tuple) and any(mentions(y, x) for y in e)


def unid(e):
    if isinstance(e, tuple):
        if e and e[0] == "load" and len(e) == 3: return ("load", unid(e[1]))
        return tuple(unid(x) for x in e)
    return e


def same_rec(a, rec):
    return a[0] == "fld" and a[3] == "to" and unid(a[1]) == unid(rec)


def offs_stores(F, E):
    """stores of the code's current length into an array, by index: (instruction, index operand)"""
    out = []
    for I in F.instrs():
        if I.op == "store":
            v, a = E.o(I["ops"][0]), E.o(I["ops"][1])
            if is_fld(v, "len") and v[1][2] == "PNAsm" and a[0] == "idx" and a[3] == 8: out.append((I, I["ops"][1]))
    return out


def run(ctx):
    J = Jit(ctx)
    U = uses(ctx)
    seen = set()
    for k, I in J.dispatch:
        T = J.emitter(k)
        if T is None: continue
        ctx.count("operations")
        for t, A in check(ctx, J, J.ops[k], T, J.feed(J.roles(I)), U, seen):
            if J.ops[k] == "CALL": calls(ctx, J, T, t, A)
        if J.ops[k] == "CALL": longcalls(ctx, J, T, J.feed(J.roles(I)))
        jumps(ctx, J, T, J.ops[k])
    prologue(ctx, J, U)
    driver(ctx, J)
    ctx.floor("operations", 40); ctx.floor("machine code variants", 100); ctx.floor("machine instructions", 1000); ctx.floor("calls by machine code", 50)
    ctx.floor("jump targets", 4); ctx.floor("recorded jumps", 3); ctx.floor("backward jumps", 3); ctx.floor("offset records", 1); ctx.floor("fix-ups", 1)


def longcalls(ctx, J, T, args):
    """calls with a given number of arguments: each argument where the calling convention wants it"""
    for a, n in ((1, 2), (1, 5), (2, 6), (3, 7), (12, 20), (1, 21), (2, 22), (3, 23), (20, 40)):
        done = 0
        for t in J.templates(T, args, unroll=n + 3, operands={"a": a, "b": a + n}):
            try: A = Analysis(t, Decoder(t).all(), 64)
            except Bad: continue        # reported for the symbolic registers
            for I, v, got in A.calls:
                if v[0] != "deref": continue
                done += 1
                ctx.count("calls with a given number of arguments")
                # an argument beyond the last is a default
                for k in range(1, n + 2):
                    if got[k] != ("slot", K(a + k - 1).key()):
                        ctx.report("CALL|place of argument", where_of(t, I, T), "the code of a CALL with %d arguments does not pass argument %d where the calling convention wants it" % (n - 1, k)); return
            if done: break
        if not done: raise Broken("no call in the code of CALL with %d arguments" % n)


def calls(ctx, J, T, t, A):
    """the closure called gets the interpreter, itself, and the registers after it in order"""
    for I, v, a in A.calls:
        if v[0] != "deref": continue
        slot = lambda k: ("slot", V({"a": 1, 1: k} if k else {"a": 1}).key())
        if a[0] != PSLOT: ctx.report("CALL|interpreter", where_of(t, I, T), "the code of CALL passes %s for the interpreter" % (a[0],))
        if a[1] != slot(0): ctx.report("CALL|closure", where_of(t, I, T), "the code of CALL does not pass the closure itself")
        for k in range(2, 6):
            if a[k] in NOARG: break
            if a[k][0] == "slot" and a[k] != slot(k - 1):
                ctx.report("CALL|argument", where_of(t, I, T), "the code of CALL passes %s as argument %d" % (a[k], k))
