"""P06: no integer division or remainder by zero, and no value taken for a floating-point number that is none."""
from ..core import *
from ..facts import *
from ..layout import *
from ..jit import Jit, Decoder, Bad, Analysis, K, V
from ..tmpl import Flags

RULE = ("for every integer division and remainder with a divisor that is not a constant, a backward walk over all paths must meet a branch "
        "that excludes zero; for every read of the number inside a boxed floating-point value, all paths must have tested that the value is "
        "one; in the machine code templates every division must lie behind a test of its divisor against the tagged zero")
ASSUME = ("two type tests on the same value agree",)


def run(ctx):
    P = ctx.P
    types = [TAGS["TNUMBER"], TAGS["TDOUBLE"]]
    for F in P:
        X = ctx.ex(F)
        Q = None
        for I in F.instrs():
            if I.op in ("sdiv", "udiv", "srem", "urem"):
                d = X.o(I["ops"][1])
                if d[0] == "c":
                    if d[1] == 0: ctx.report("%s|division by zero" % F.name, I.where, "%s divides by the constant zero" % F.name)
                    continue
                ctx.count("divisions")
                Q = Q or Query(ctx, F)
                if I.op in ("udiv", "urem") and counter_plus(lin(d)): continue
                path = Q.holds(I, [("ne", lin(Q.canon(d)))])
                if path is not None:
                    ctx.report("%s|division" % F.name, I.where, "%s divides by %s, which may be zero on the path through %s" % (
                        F.name, show(d, F, P), lines(F, path)))
            elif I.op == "load" and I.get("ty") == "double":
                a = X.o(I["ops"][0])
                if a[0] == "fld" and a[2] == "PNDouble":
                    b = a[1]
                    if fresh(P, F, b): continue
                    Q = Q or Query(ctx, F)
                    ctx.count("reads of boxed numbers")
                    g = [("eq", ladd({("typeof", Q.canon(b)): 1}, {1: -t})) for t in types]
                    path = Q.holds(I, g)
                    if path is not None:
                        ctx.report("%s|double" % F.name, I.where, "%s reads %s as a floating-point number without having tested it on the path through %s" % (
                            F.name, show(b, F, P), lines(F, path)))
    ctx.floor("divisions", 5); ctx.floor("reads of boxed numbers", 10)
    jit(ctx)


def counter_plus(l):
    """an unsigned count plus a positive constant"""
    return l.get(1, 0) > 0 and all(c > 0 and (x == 1 or x[0] == "load") for x, c in l.items())


def fresh(P, F, b):
    return b[0] == "call" and b[1] in ("potion_gc_alloc",)


def lines(F, path):
    out = []
    for b in reversed(path):
        if not isinstance(b, int): continue
        l = next((J.line for J in F.blocks[b].ins if J.line), None)
        if l and (not out or out[-1] != l): out.append(l)
    return "lines " + ", ".join(map(str, out[:12]))


def jit(ctx):
    """machine code: the divisor's flags, or those of the tagged value it was shifted out of, decide a jump before the division"""
    J = Jit(ctx)
    done = set()
    for k, I in J.dispatch:
        T = J.emitter(k)
        if T is None: continue
        roles = J.roles(I)
        if (T.name, tuple(map(str, roles))) in done: continue
        done.add((T.name, tuple(map(str, roles))))
        for t in J.templates(T, J.feed(roles)):
            try: ins = Decoder(t).all()
            except Bad as e: raise Broken("the code emitted by %s cannot be decoded: %s" % (T.name, e.msg))
            A = Analysis(t, ins)
            fl = None
            for q in ins:
                if q.op not in ("idiv", "div"): continue
                ctx.count("divisions in machine code")
                fl = fl or Flags(A)
                v = fl.value(q.pos, q.dst)
                facts = fl.at.get(q.pos, (None, ()))[1]
                ok = v is not None and any(f[0] == "nz" and f[1] == v or f[0] == "isnt" and f[2] == 0 and f[1] == v or
                                           f[0] == "isnt" and f[2] == 1 and untagged(v) == f[1] for f in facts)
                if not ok:
                    ctx.report("%s|machine division" % T.name, q.where, "the code %s emits divides by a value that no jump on the way has excluded from being zero" % T.name)
                if q.w == 8 and not sign_extended(A, ins, q):
                    ctx.report("%s|machine dividend" % T.name, q.where, "the code %s emits divides without having sign-extended the dividend" % T.name)
    ctx.floor("divisions in machine code", 2)


def untagged(v):
    return v[2] if v[0] == "op" and v[1] in ("sar", "shr") and v[3] in (("imm", K(1).key()),) else None


def sign_extended(A, ins, q):
    """the instruction that last wrote the high half before the division is a sign extension of the dividend"""
    prev = [i for i in ins if i.pos < q.pos]
    for i in reversed(prev):
        if i.op == "cdq": return i.w == 8
        if i.rel is not None or i.dst in (("r", "rdx"), ("r", "rax")): return False
    return False
