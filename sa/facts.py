"""Facts that hold on every path to an instruction: a backward walk over the control-flow graph from the instruction that
collects what the branches taken imply (linear inequalities, disequalities) until the wanted fact follows, substituting phis on
the way; a path that reaches the function's entry without it is the counterexample.  No solver: a fact follows when it is a
collected one, weaker than one, or the sum of two."""
from .core import *
from .ir import strip_ids

TYPEFN = {"potion_qptr_type": 0, "potion_ptr_type": 0, "potion_type": 0}
WRITES = {"memcpy": 0, "memmove": 0, "memset": 0, "strcpy": 0, "strncpy": 0, "strcat": 0, "sprintf": 0, "snprintf": 0, "read": 1, "recv": 1}


def mem_key(a):
    """what kind of memory an address names"""
    if a[0] == "fld": return (a[2], a[3])
    if a[0] == "idx":
        k = mem_key(a[1]) if a[1][0] in ("fld", "idx", "alloca", "g") else None
        return (k[0], k[1] + "[]") if k and not k[1].endswith("[]") else k if k else ("?", "[]")
    if a[0] == "alloca": return ("alloca", str(a[1]))
    if a[0] == "g": return ("global", a[1])
    return ("?", "*")


def names(F, X, e, a, seen=None):
    """an address made from a (and not what is kept there)"""
    seen = set() if seen is None else seen
    if not isinstance(e, tuple) or e in seen: return False
    if e == a: return True
    seen.add(e)
    if e[0] == "phi": return any(names(F, X, X.o(o), a, seen) for b, o in F.val[e[1]]["in"])
    return e[0] != "load" and any(names(F, X, x, a, seen) for x in e[1:])


class Mods:
    """fields a function may write, itself or through what it calls"""
    def __init__(s, P, ctx):
        s.P = P
        own, g = {}, callgraph(P)
        for F in P:
            X, m = ctx.ex(F), set()
            for I in F.instrs():
                if I.op == "store":
                    k = mem_key(X.o(I["ops"][1]))
                    if k[0] != "alloca": m.add(k)
                elif I.op in ("call", "invoke"):
                    if I.callee and I.callee.split(".p0")[0].replace("llvm.", "") in WRITES:
                        w = WRITES[I.callee.split(".p0")[0].replace("llvm.", "")]
                        if w < len(I.args): m.add(mem_key(X.o(I.args[w])))
            own[F.name] = m
        s.all = {f for f, (cs, ind) in g.items() if ind}
        ch = True
        res = {f: set(m) for f, m in own.items()}
        while ch:
            ch = False
            for f, (cs, ind) in g.items():
                for c in cs:
                    if c in s.all and f not in s.all: s.all.add(f); ch = True
                    d = res.get(c)
                    if d and not d <= res[f]: res[f] |= d; ch = True
        s.res = res

    def may(s, F, I, key):
        if I.callee is None: return "asm" not in I.d
        T = s.P.resolve(F, I.callee)
        n = T.name if T else I.callee
        if n in s.all: return True
        return key in s.res.get(n, ())


def mods(ctx):
    if not hasattr(ctx, "_mods"): ctx._mods = Mods(ctx.P, ctx)
    return ctx._mods


def lsub(a, b): return ladd(a, b, -1)


def ladd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if not r[x]: del r[x]
    return r


def lneg(a): return {x: -c for x, c in a.items()}


def fz(l): return frozenset(l.items())


def lin(e, depth=0):
    """linear form keeping the identity of loads"""
    k = e[0]
    if k == "c": return {1: e[1]} if e[1] else {}
    if k == "bin" and depth < 40:
        if e[1] in ("add", "sub"): return ladd(lin(e[2], depth + 1), lin(e[3], depth + 1), 1 if e[1] == "add" else -1)
        if e[1] in ("mul", "shl"):
            a, b = lin(e[2], depth + 1), lin(e[3], depth + 1)
            if e[1] == "shl":
                if not set(b) <= {1} or not 0 <= b.get(1, 0) < 32: return {e: 1}
                b = {1: 1 << b.get(1, 0)}
            for x, y in ((a, b), (b, a)):
                if set(y) <= {1}: return {z: c * y.get(1, 0) for z, c in x.items() if c * y.get(1, 0)}
        if e[1] == "ashr" and e[3] == ("c", 1) and e[2][0] == "bin" and e[2][1] in ("or", "add") and e[2][3] == ("c", 1):
            i = e[2][2]     # PN_INT(PN_NUM(x))
            if i[0] == "bin" and i[1] == "shl" and i[3] == ("c", 1): return lin(i[2], depth + 1)
            if i[0] == "bin" and i[1] == "mul" and i[3] == ("c", 2): return lin(i[2], depth + 1)
        if e[1] == "or" and e[3][0] == "c" and e[2][0] == "bin" and e[2][1] == "shl" and e[2][3][0] == "c" and 0 <= e[3][1] < (1 << e[2][3][1]):
            return ladd(lin(e[2], depth + 1), {1: e[3][1]})
    return {e: 1}


def retag(e):
    """x when e is x tagged as an integer and untagged again: equal to x only when it fits"""
    if e[0] == "bin" and e[1] == "ashr" and e[3] == ("c", 1):
        i = e[2]
        if i[0] == "bin" and i[1] in ("or", "add") and i[3] == ("c", 1): i = i[2]
        if i[0] == "bin" and (i[1] == "shl" and i[3] == ("c", 1) or i[1] == "mul" and i[3] == ("c", 2)): return i[2]
    return None


def sub(e, m):
    """substitute expressions"""
    if not isinstance(e, tuple): return e
    if e in m: return m[e]
    if e[0] in ("load", "call") : return (e[0], sub(e[1], m)) + e[2:] if isinstance(e[1], tuple) else e
    return tuple(sub(x, m) for x in e)


def lsubst(l, m):
    r = {}
    for x, c in l.items():
        if x == 1: r = ladd(r, {1: c})
        else:
            y = sub(x, m)
            r = ladd(r, lin(y), c) if y != x else ladd(r, {x: c})
    return r


def has(e, pred):
    if not isinstance(e, tuple): return False
    return pred(e) or any(has(x, pred) for x in e)


class Query:
    """goal: list of ('ge', {..}) / ('ne', {..}) alternatives, any of which suffices"""
    LIMIT = 800

    def __init__(s, ctx, F, nonneg=None):
        s.ctx, s.F, s.X = ctx, F, ctx.ex(F)
        s.M = mods(ctx)
        s.nonneg = nonneg or (lambda e: False)
        s.ef, s.cm, s.dm = {}, {}, {}

    # ---- facts of a branch edge
    def canon(s, e):
        """calls that only read an object's type are named by their argument; so are calls to pure functions in general"""
        if not isinstance(e, tuple): return e
        m = s.cm.get(e)
        if m is not None: return m
        if e[0] == "call" and isinstance(e[1], str) and e[1] in TYPEFN and e[2] in s.F.val:
            r = ("typeof", s.canon(s.unfwd(s.X.o(s.F.val[e[2]].args[TYPEFN[e[1]]]))))
        elif e[0] == "load" and e[1][0] == "fld" and e[1][3] == "vt" : r = ("typeof", s.canon(s.unfwd(e[1][1])))
        else: r = tuple(s.canon(x) for x in e)
        s.cm[e] = r
        return r

    def unfwd(s, e):
        """a forwarded object has the type of the one it is reached from"""
        while e[0] == "call" and e[1] == "potion_fwd" and e[2] in s.F.val: e = s.X.o(s.F.val[e[2]].args[0])
        return e

    def edge(s, p, b):
        """what taking the edge p->b implies: a list of alternatives, each a tuple of facts"""
        r = s.ef.get((p, b))
        if r is None:
            T = s.F.blocks[p].ins[-1]
            r = [()]
            if T.op == "br" and "cond" in T.d and T["succ"][0] != T["succ"][1]:
                r = s.implied(s.canon(s.X.o(T["cond"])), T["succ"][0] == b)
            elif T.op == "switch":
                v = lin(s.canon(s.X.o(T["cond"])))
                cs = [c for c, d in T["cases"] if d == b]
                if T["def"] != b and 0 < len(cs) <= 8: r = [(("eq", fz(ladd(v, {1: -c}))),) for c in cs]
                elif T["def"] == b and not cs: r = [tuple(("ne", fz(ladd(v, {1: -c}))) for c, d in T["cases"][:8])]
            s.ef[(p, b)] = r
        return r

    def both(s, A, B):
        r = [a + b for a in A for b in B]
        return r if len(r) <= 16 else A if len(A) <= len(B) else B

    def either(s, A, B): return A + B if len(A) + len(B) <= 16 else [()]

    def implied(s, e, pol, depth=0):
        """facts that follow when condition e has truth value pol, as alternatives"""
        if depth > 12: return [()]
        if e[0] == "icmp":
            pr, a, b = e[1], e[2], e[3]
            if b == ("c", 0) and pr in ("ne", "eq") and a[0] in ("icmp",): return s.implied(a, pol == (pr == "ne"), depth + 1)
            if b == ("c", 0) and pr in ("ne", "eq") and a[0] in ("phi", "select") and s.boolean(a):
                return s.implied(a, pol == (pr == "ne"), depth + 1)
            if not pol: pr = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[pr]
            A, B = lin(a), lin(b)
            d = lsub(A, B)
            if pr in ("eq", "ne"):
                for x, y in ((a, b), (b, a)):
                    if retag(x) == y and y is not None: return [(("ne" if pr == "eq" else "eq", frozenset(((("fits", y), 1),))),)]
                return [((pr, fz(d)),)]
            if pr in ("sgt", "ugt"): lt = (B, A, 1)
            elif pr in ("slt", "ult"): lt = (A, B, 1)
            elif pr in ("sge", "uge"): lt = (B, A, 0)
            else: lt = (A, B, 0)
            lo, hi, k = lt
            r = [("ge", fz(ladd(lsub(hi, lo), {1: -k})))]
            if pr[0] == "u":
                # lo <u hi: holds as signed when hi is not negative
                if s.known_nonneg(hi): r.append(("ge", fz(lo)))
                else: r = [("ne", fz(hi))] if k == 1 else []
            return [tuple(r)]
        if e[0] == "bin" and e[1] in ("and", "or"):
            A, B = s.implied(e[2], pol, depth + 1), s.implied(e[3], pol, depth + 1)
            return s.both(A, B) if (e[1] == "and") == pol else s.either(A, B)
        if e[0] == "bin" and e[1] == "xor" and e[3] in (("c", 1), ("c", -1)): return s.implied(e[2], not pol, depth + 1)
        if e[0] == "c": return [()] if bool(e[1]) == pol else []
        if e[0] == "select":
            return s.either(s.both(s.implied(e[1], True, depth + 1), s.implied(e[2], pol, depth + 1)),
                            s.both(s.implied(e[1], False, depth + 1), s.implied(e[3], pol, depth + 1)))
        if e[0] == "phi": return [(("true" if pol else "false", frozenset(((e, 1),))),)]
        if e[0] in ("op", "load", "call", "arg"): return [(("ne" if pol else "eq", frozenset(((e, 1),))),)]
        return [()]

    def boolean(s, e, seen=()):
        """is the value one of 0 and 1 by its making"""
        if e in seen: return True
        if e[0] == "icmp": return True
        if e[0] == "c": return e[1] in (0, 1, -1)
        if e[0] == "phi": return len(seen) < 8 and all(s.boolean(s.X.o(o), seen + (e,)) for _, o in s.F.val[e[1]]["in"])
        if e[0] == "select": return s.boolean(e[2], seen) and s.boolean(e[3], seen)
        if e[0] == "bin" and e[1] in ("and", "or", "xor"): return s.boolean(e[2], seen) and s.boolean(e[3], seen)
        return False

    def settle(s, facts):
        """truths about phis that the walk has resolved become facts; alternatives, none when they contradict"""
        if not any(f[0] in ("true", "false") for f in facts): return [tuple(facts)]
        out = [()]
        for f in facts:
            if f[0] not in ("true", "false"): out = [o + (f,) for o in out]; continue
            d = dict(f[1])
            pol = f[0] == "true"
            if set(d) <= {1}:
                if bool(d.get(1, 0)) != pol: return []
                continue
            if len(d) != 1: continue
            (e, c), = d.items()
            out = s.both(out, s.implied(e, pol)) if e[0] != "phi" else [o + (f,) for o in out]
        return out

    def deep(s, e, seen):
        if e in seen: return frozenset()
        seen.add(e)
        r = leaves(e)
        for x in list(r):
            if x[0] == "phi" and len(seen) < 40:
                for _, o in s.F.val[x[1]]["in"]: r = r | s.deep(s.canon(s.X.o(o)), seen)
        return r

    def known_nonneg(s, l):
        for x, c in l.items():
            if x == 1:
                if c < 0: return False
            elif c < 0 or not s.nn(x): return False
        return True

    def nn(s, e):
        if e[0] == "c": return e[1] >= 0
        if e[0] == "bin":
            if e[1] == "and": return s.nn(e[2]) or s.nn(e[3])
            if e[1] in ("lshr",) and e[3][0] == "c" and e[3][1] > 0: return True
            if e[1] in ("ashr", "udiv", "urem"): return s.nn(e[2])
            if e[1] in ("add", "mul", "or"): return s.nn(e[2]) and s.nn(e[3])
        if e[0] == "call" and e[1] in ("strlen",): return True
        return s.nonneg(e) or s.unsigned(e)

    def unsigned(s, e):
        """a value read from an unsigned field narrower than a word, or zero-extended"""
        if e[0] == "load" and e[1][0] == "fld":
            st = s.ctx.P.structs.get(e[1][2])
            for f in (st or {"fields": []})["fields"]:
                if f["n"] == e[1][3]:
                    t = f["ty"]
                    t = s.ctx.P.typedefs.get(t, t)
                    return ("unsigned" in t or t.startswith("u") or f["ty"] in ("PN_SIZE", "PNType", "PNUniq", "u8", "_PN", "size_t")) and f["sz"] <= 8
        return False

    # ---- does the goal follow from the facts
    def ge_follows(s, g, facts):
        if s.known_nonneg(g): return True
        ges = [dict(f[1]) for f in facts if f[0] == "ge"]
        for f in facts:
            if f[0] == "eq":
                d = dict(f[1]); ges.append(d); ges.append(lneg(d))
        for a in ges:
            r = lsub(g, a)
            if s.known_nonneg(r): return True
        # tighten: x>=0 and x!=0  =>  x-1>=0
        nes = [dict(f[1]) for f in facts if f[0] == "ne"]
        ex = []
        for a in ges + [lneg(n) for n in nes] + nes:
            if any(a == n or a == lneg(n) for n in nes) and (a in ges or s.known_nonneg(a)):
                t = ladd(a, {1: -1}); ex.append(t)
                if s.known_nonneg(lsub(g, t)): return True
        allg = ges + ex
        for i, a in enumerate(allg):
            for b in allg[i + 1:]:
                if s.known_nonneg(lsub(lsub(g, a), b)): return True
        return False

    def follows(s, goal, facts):
        k, g = goal
        g = dict(g)
        if k == "ge": return s.ge_follows(g, facts)
        if k == "eq":
            return any(f[0] == "eq" and dict(f[1]) in (g, lneg(g)) for f in facts) or not g
        if k == "ne":
            if set(g) <= {1}: return bool(g.get(1))
            if any(f[0] == "ne" and dict(f[1]) in (g, lneg(g)) for f in facts): return True
            if any(f[0] == "eq" and set(lsub(g, dict(f[1]))) == {1} for f in facts): return True
            if s.ge_follows(ladd(g, {1: -1}), facts) or s.ge_follows(ladd(lneg(g), {1: -1}), facts): return True
            # an untagged integer: odd and not the tagged zero
            if len(g) == 1:
                (x, c), = g.items()
                if x != 1 and x[0] == "bin" and x[1] == "ashr" and x[3] == ("c", 1):
                    y = x[2]
                    ne1 = any(f[0] == "ne" and dict(f[1]) == ladd(lin(y), {1: -1}) or f[0] == "ne" and dict(f[1]) == lneg(ladd(lin(y), {1: -1})) for f in facts)
                    odd = any(f[0] == "ne" and dict(f[1]) == {("bin", "and", y, ("c", 1)): 1} for f in facts) or \
                        any(f[0] == "eq" and dict(f[1]) == {("bin", "and", y, ("c", 1)): 1, 1: -1} for f in facts) or \
                        any(f[0] == "ne" and dict(f[1]) == lin(y) for f in facts)
                    if ne1 and odd: return True
            return False
        return False

    def infeasible(s, facts):
        eq, ne = {}, set()
        for k, l in facts:
            if k in ("true", "false"): continue
            d = dict(l); c = d.pop(1, 0)
            if not d:
                if k == "eq" and c or k == "ne" and not c or k == "ge" and c < 0: return True
                continue
            if k == "eq":
                f = fz(d)
                if f in eq and eq[f] != c: return True
                eq[f] = c
                g = fz(lneg(d))
                if g in eq and eq[g] != -c: return True
                eq[g] = -c
        for k, l in facts:
            d = dict(l); c = d.pop(1, 0)
            if k == "ne" and eq.get(fz(d)) == c and d: return True
            if k == "ge" and fz(d) in eq and c - eq[fz(d)] < 0: return True
        return False

    # ---- the backward walk
    def holds(s, I, goals, entry=(), about=(), accept=None):
        """None when one of the goals holds on every path to I, else a counterexample path (list of blocks);
        `accept` tells of a goal as rewritten along the walk that it may be taken for granted"""
        F = s.F
        s.about = frozenset().union(*[leaves(x) for x in about])
        k0 = F.blocks[I.bb].ins.index(I)
        start = (I.bb, tuple((k, fz(l)) for k, l in goals), frozenset())
        seen = set()
        stack = [(start, k0, (I.bb,))]
        n = 0
        while stack:
            (b, gs, facts), k, path = stack.pop()
            if (b, gs, facts, k) in seen: continue
            seen.add((b, gs, facts, k))
            n += 1; s.n = n
            if n > s.LIMIT: return list(path) + ["..."]
            if any(s.follows(g, facts) for g in gs) or s.infeasible(facts): continue
            if accept and any(accept(g) for g in gs): continue
            # selects split the walk
            sp = None
            for g in gs:
                for x, c in g[1]:
                    if x != 1 and has(x, lambda y: y[0] == "select" and len(y) == 4):
                        sp = next_select(x); break
                if sp: break
            if sp is not None:
                for arm, pol in ((sp[2], True), (sp[3], False)):
                    m = {sp: arm}
                    g2 = tuple((kk, fz(lsubst(dict(l), m))) for kk, l in gs)
                    f2 = frozenset((f[0], fz(lsubst(dict(f[1]), m))) for f in facts)
                    for alt in s.implied(sp[1], pol): stack.append(((b, g2, f2 | frozenset(alt)), k, path))
                continue
            # walk up through the block: loads get their identity where they are read; a write makes older reads different
            blk = F.blocks[b]
            ins = blk.ins if k is None else blk.ins[:k]
            ids = s.unify(gs, facts, ins, b)
            gs, facts = ids
            if any(s.follows(g, facts) for g in gs): continue
            if b == F.entry or not blk.preds:
                if any(s.follows(g, facts | frozenset(entry)) for g in gs): continue
                return list(path)
            phis = {("phi", J.id): J for J in blk.ins if J.op == "phi"}
            used = {x for g in gs for a, c in g[1] if a != 1 for x in phis if has(a, lambda y: y == x)}
            used |= {x for f in facts for a, c in f[1] if a != 1 for x in phis if has(a, lambda y: y == x)}
            for p in blk.preds:
                if any(J.op == "call" and (J.get("noret") or J.callee in NORETURN) for J in F.blocks[p].ins): continue
                m = {}
                skip = False
                for x in used:
                    J = phis[x]
                    for pb, o in J["in"]:
                        if pb == p:
                            e = s.canon(s.X.o(o))
                            m[x] = e
                            # an induction step the goal is monotone in: the entry decides
                            if e[0] == "bin" and e[1] in ("add", "sub") and e[2] == x and e[3][0] == "c":
                                st = e[3][1] if e[1] == "add" else -e[3][1]
                                for g in gs:
                                    d = dict(g[1])
                                    if g[0] == "ge" and d.get(x, 0) * st > 0 and not any(a != 1 and a != x and (has(a, lambda y: y in phis)) for a in d) \
                                       and all(a == 1 or a == x or s.invariant(a, b) for a in d):
                                        skip = True
                if skip: continue
                g2 = tuple((kk, fz(lsubst(dict(l), m))) for kk, l in gs) if m else gs
                f2 = frozenset((f[0], fz(lsubst(dict(f[1]), m))) for f in facts) if m else facts
                for f3 in s.both(s.settle(f2), s.edge(p, b)):
                    stack.append(((p, g2, s.prune(frozenset(f3), g2)), None, path + (p,)))
        return None

    def distinct(s, a, b): return distinct(a, b)

    def invariant(s, a, b):
        """does the atom keep its value in the loop at header b"""
        for h, body in natural_loops(s.F).items():
            if h == b:
                return not has(a, lambda y: y[0] in ("phi", "load", "call") and len(y) > 1 and isinstance(y[-1], int) and y[-1] in s.F.val and s.F.val[y[-1]].bb in body)
        return True

    def unify(s, gs, facts, ins, b):
        """going up through instructions: a load atom met at its own load is renamed to 'the current content' of its address,
        and a write that may change that content renames it to something unknown"""
        def loads(l, out):
            for g in l:
                for a, c in g[1]:
                    if a != 1: collect(a, out)
        def collect(e, out):
            if isinstance(e, tuple):
                if e[0] == "load": out.add(e)
                for x in e: collect(x, out)
        live = set(); loads(gs, live); loads(facts, live)
        for J in reversed(ins):
            if not live: break
            m = {}
            if J.op == "load":
                for e in live:
                    if len(e) == 3 and e[2] == J.id: m[e] = ("load", e[1], "cur")
            elif J.op in ("store", "call", "invoke"):
                for e in live:
                    if e[2] != "cur": continue
                    key = mem_key(e[1])
                    kill = False
                    if J.op == "store":
                        sa = s.X.o(J["ops"][1])
                        if sa == e[1]:
                            # content is what was stored
                            m[e] = s.X.o(J["ops"][0]); continue
                        kill = mem_key(sa) == key and not s.distinct(sa, e[1])
                    else:
                        kill = s.local(e[1], J)
                        if kill is None: kill = s.M.may(s.F, J, key)
                    if kill: m[e] = ("load", e[1], "old%d" % J.id)
            if m:
                gs = tuple((k, fz(lsubst2(dict(l), m))) for k, l in gs)
                facts = frozenset((f[0], fz(lsubst2(dict(f[1]), m))) for f in facts)
                live = set(); loads(gs, live); loads(facts, live)
        return gs, facts

    def local(s, a, J):
        """whether a call may write a local variable of this function: only when it is handed its address; None for other memory"""
        while a[0] in ("fld", "idx"): a = a[1]
        if a[0] != "alloca": return None
        m = s.__dict__.setdefault("lent", {})
        if a not in m:
            m[a] = any(I.op == "store" and names(s.F, s.X, s.X.o(I["ops"][0]), a) for I in s.F.instrs())
        return m[a] or any(names(s.F, s.X, s.X.o(x), a) for x in J.args)

    def prune(s, facts, gs):
        """keep the facts that are about something the goals, or a kept fact, are about"""
        fl = [(f, frozenset().union(*[leaves(a) if f[0] not in ("true", "false") else s.deepm(a) for a, c in f[1] if a != 1])) for f in facts]
        want = s.about.union(*[leaves(a) for g in gs for a, c in g[1] if a != 1])
        kept = set()
        for _ in range(2):
            new = [(f, l) for f, l in fl if f not in kept and l & want]
            if not new: break
            for f, l in new: kept.add(f)
            want = want.union(*[l for f, l in new])
        return frozenset(kept | {f for f, l in fl if all(a == 1 for a, c in f[1])})     # (in)feasible by themselves

    def deepm(s, e):
        if e not in s.dm: s.dm[e] = s.deep(e, set())
        return s.dm[e]


def lsubst2(l, m):
    r = {}
    for x, c in l.items():
        if x == 1: r = ladd(r, {1: c})
        else:
            y = sub2(x, m)
            r = ladd(r, lin(y), c)
    return r


def sub2(e, m):
    if not isinstance(e, tuple): return e
    if e in m: return m[e]
    return tuple(sub2(x, m) for x in e)


def distinct(a, b):
    """two addresses that certainly differ: different constant elements of the same array"""
    if a[0] == b[0] == "idx" and a[1] == b[1]:
        d = lsub(lin(a[2]), lin(b[2]))
        return set(d) == {1}
    return False


def next_select(e):
    if not isinstance(e, tuple): return None
    if e[0] == "select" and len(e) == 4: return e
    for x in e:
        r = next_select(x)
        if r: return r
    return None


_LEAF = {}


def leaves(e):
    """the values an expression is about: arguments, loads, phis and calls in it"""
    if not isinstance(e, tuple): return frozenset()
    r = _LEAF.get(e)
    if r is None:
        if e[0] in ("arg", "phi", "op", "hv"): r = frozenset((e,))
        elif e[0] in ("load", "call"): r = frozenset((e,)) | frozenset().union(*[leaves(x) for x in e[1:]])
        else: r = frozenset().union(*[leaves(x) for x in e])
        if len(_LEAF) > 400000: _LEAF.clear()
        _LEAF[e] = r
    return r


