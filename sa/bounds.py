"""Accesses to the elements of lists, strings and byte strings, as obligations on linear facts: index not negative and below the
length (reads) or the capacity (writes); a handle and what it is forwarded to are one object."""
import math
from .core import *
from .facts import *
from .facts import WRITES, next_select, lsubst2, distinct
from .walkptr import index_pointers

DATA = {"PNTuple": ("set", 8), "PNString": ("chars", 1), "PNBytes": ("chars", 1)}
CAP = {"PNTuple": "alloc", "PNBytes": "siz"}
ALLOC = {"potion_gc_alloc": 2, "potion_gc_calloc": 2, "potion_gc_realloc": 3}
STR = ("PNString", "PNBytes")


_SZ = {}


def size(e):
    """nodes of an expression"""
    if not isinstance(e, tuple): return 1
    r = _SZ.get(e)
    if r is None:
        r = _SZ[e] = 1 + sum(size(x) for x in e)
        if len(_SZ) > 400000: _SZ.clear()
    return r


class Norm:
    """expressions in which potion_fwd(x), a reallocation of x and x are the same object"""

    def __init__(s, ctx, F):
        s.F, s.X, s.m, s.ctx = F, ctx.ex(F), {}, ctx
        s.loops = natural_loops(F)

    def o(s, op): return s.n(s.X.o(op))

    def raw(s, op): return s.X.o(op)

    def n(s, e):
        if not isinstance(e, tuple): return e
        r = s.m.get(e)
        if r is None:
            s.m[e] = e
            r = s.m[e] = s._n(e)
        return r

    def _n(s, e):
        F = s.F
        if e[0] == "call" and isinstance(e[1], str) and e[2] in F.val:
            a = F.val[e[2]].args
            if e[1] == "potion_fwd": return s.o(a[0])
            if e[1] == "potion_gc_realloc":
                x = s.o(a[2])
                return x if x != ("c", 0) else e
            if e[1] == "potion_str_ptr": return ("fld", s.o(a[0]), "STR", "chars")
            return e
        if e[0] == "call": return e
        if e[0] == "fld":
            b = s.n(e[1])
            return ("fld", b, "STR" if e[2] in STR and e[3] in ("len", "chars") else e[2], e[3])
        if e[0] == "load":
            # the object a forwarding record names is the object
            if e[1][0] == "fld" and e[1][2:] == ("PNFwd", "ptr"): return s.n(e[1][1])
            return ("load", s.n(e[1])) + e[2:]
        if e[0] == "phi":
            lv = s.leaf(e, set())
            if len(lv) == 1:
                l, = lv
                if l[0] == "arg": return l
                if l[0] in ("call", "load") and l[-1] in F.val:
                    d = F.val[l[-1]].bb; b = F.val[e[1]].bb
                    if d in F.dom().get(b, ()) and not any(d in body and b in body for h, body in s.loops.items()): return l
            return e
        r = tuple(s.n(x) for x in e)
        if r[0] == "icmp" or r[0] == "bin" and r[1] == "sub":
            a, b = r[2], r[3]
            ba, bb = a[1] if a[0] == "idx" else a, b[1] if b[0] == "idx" else b
            if (a[0] == "idx" or b[0] == "idx") and ba == bb and (a[0] != "idx" or b[0] != "idx" or a[3] == b[3]):
                z = (a if a[0] == "idx" else b)[3]
                i, j = a[2] if a[0] == "idx" else ("c", 0), b[2] if b[0] == "idx" else ("c", 0)
                if r[0] == "icmp": return ("icmp", r[1].replace("u", "s"), i, j)
                d = ("bin", "sub", i, j)
                return d if z == 1 else ("bin", "mul", d, ("c", z))
        return r

    def leaf(s, e, seen):
        if e in seen: return set()
        seen.add(e)
        if e[0] == "phi": return set().union(*[s.leaf(s.nophi(o), seen) for _, o in s.F.val[e[1]]["in"]])
        return {s.n(e)}

    def nophi(s, o):
        """strip forwarding in front of phis without normalising the phi itself"""
        e = s.X.o(o)
        while True:
            if e[0] == "call" and e[1] == "potion_fwd": e = s.X.o(s.F.val[e[2]].args[0])
            elif e[0] == "call" and e[1] == "potion_gc_realloc": e = s.X.o(s.F.val[e[2]].args[2])
            elif e[0] == "load" and e[1][0] == "fld" and e[1][2:] == ("PNFwd", "ptr"): e = e[1][1]
            else: return e


def unsigned(t):
    t = str(t or "")
    return t in ("PN_SIZE", "size_t", "PNType", "PNUniq") or t.startswith("unsigned") and "*" not in t or t.startswith("uint") and "*" not in t


class LenMods:
    """which functions may change the length or capacity of an object that existed before the call"""

    def __init__(s, ctx):
        P = ctx.P
        g = callgraph(P)
        own = {}
        for F in P:
            m = set()
            if F.unit != "core/gc.c" and not F.name.startswith("potion_gc_"):
                X = ctx.ex(F)
                for I in F.instrs():
                    if I.op == "store":
                        a = X.o(I["ops"][1])
                        if a[0] == "fld" and a[2] in DATA and a[3] in ("len", CAP.get(a[2])):
                            b = a[1]
                            if b[0] == "call" and b[1] in ALLOC and b[1] != "potion_gc_realloc": continue
                            m.add((a[2], a[3]))
            own[F.name] = m
        s.all = {f for f, (cs, ind) in g.items() if ind and not gcfn(P, f)}
        s.res = {f: set(m) for f, m in own.items()}
        ch = True
        while ch:
            ch = False
            for f, (cs, ind) in g.items():
                if gcfn(P, f): continue
                for c in cs:
                    if c in s.all and f not in s.all: s.all.add(f); ch = True
                    d = s.res.get(c)
                    if d and not d <= s.res[f]: s.res[f] |= d; ch = True
        s.P = P

    def may(s, F, I, key):
        if I.callee is None: return "asm" not in I.d
        T = s.P.resolve(F, I.callee)
        n = T.name if T else I.callee
        if n in s.all: return True
        r = s.res.get(n, ())
        if key[0] == "STR": return any((x, key[1]) in r for x in STR)
        if key[0] in DATA: return key in r
        if gcfn(s.P, n): return False       # collecting does not change what objects contain
        return mods(s.ctx).may(F, I, key)


def gcfn(P, f):
    F = P.funcs.get(f)
    return f.startswith("potion_gc") or f == "potion_garbagecollect" or (F is not None and F.unit == "core/gc.c")


def apart(a, b):
    """two field addresses that certainly lie in different objects: one was just allocated, the other an argument or another allocation"""
    ba, bb = base(a), base(b)
    if ba == bb: return False
    for x, y in ((ba, bb), (bb, ba)):
        if x[0] == "call" and x[1] in ALLOC and x[1] != "potion_gc_realloc" and (y[0] == "arg" or y[0] == "call" and isinstance(y[1], str)): return True
    return False


def base(a):
    while a[0] in ("fld", "idx"): a = a[1]
    return a


class BQ(Query):
    """linear facts with three additions: selects are split at the entry, goals about induction variables are tried as loop
    invariants, and fields of objects made by a known constructor are known at the call"""
    LIMIT = 150

    def __init__(s, ctx, F, B):
        Query.__init__(s, ctx, F)
        s.B = B
        s.X = B.norm(F)
        s.M = B.mods
        s.nz = ()
        s.loops = natural_loops(F)
        s.deep_inv = 0
        s.invm = {}
        s.nnphi = {}

    def prune(s, facts, gs):
        return Query.prune(s, frozenset(f for f in facts if all(x == 1 or size(x) < 400 for x, c in f[1])), gs)

    def holds(s, I, goals, entry=(), about=(), accept=None, need=None):
        s.about = frozenset().union(*[leaves(x) for x in about])
        gs = tuple((k, fz(l)) for k, l in goals)
        k0 = s.F.blocks[I.bb].ins.index(I)
        return s.walk([((I.bb, gs, frozenset()), k0, (I.bb,))], entry, need, None, None)

    def walk(s, stack, entry, need, top, ih):
        """`top`: the loop header at which the walk ends, where `ih` may be assumed"""
        F = s.F
        seen = set()
        n = 0
        while stack:
            (b, gs, facts), k, path = stack.pop()
            if (b, gs, facts, k) in seen: continue
            seen.add((b, gs, facts, k))
            n += 1
            if n > s.LIMIT: return list(path) + ["..."]
            if any(s.follows(g, facts) for g in gs) or s.infeasible(facts): continue
            blk = F.blocks[b]
            ins = blk.ins if k is None else blk.ins[:k]
            gs, facts = s.unify(gs, facts, ins, b)
            g2, f2 = s.made(gs, facts, ins)
            if g2 is not gs or f2 is not facts: gs, facts = s.unify(g2, f2, ins, b)
            if any(s.follows(g, facts) for g in gs): continue
            if b == top:
                if s.split(gs, facts | frozenset(ih)): continue
                return list(path)
            if b == F.entry or not blk.preds:
                if s.split(gs, facts | frozenset(entry)): continue
                if need is not None and need(gs, facts): continue
                return list(path)
            phis = {("phi", J.id): J for J in blk.ins if J.op == "phi"}
            used = {x for g in gs for a, c in g[1] if a != 1 for x in phis if has(a, lambda y: y == x)}
            if b in s.loops and s.deep_inv < 2 and any(s.invariant_goal(b, g, used, facts, entry) for g in gs if g[0] == "ge"): continue
            used |= {x for f in facts for a, c in f[1] if a != 1 for x in phis if has(a, lambda y: y == x)}
            if b in s.loops and s.deep_inv < 2:
                if top is None and s.any_round(b, gs, facts, entry, need, path): continue
                lem = s.lemmas(b, gs, facts, used, phis, entry)
                if lem:
                    facts = facts | frozenset(lem)
                    if any(s.follows(g, facts) for g in gs): continue
                    if top is None and s.any_round(b, gs, facts, entry, need, path): continue
            for p in blk.preds:
                if any(J.op == "call" and (J.get("noret") or J.callee in NORETURN) for J in F.blocks[p].ins): continue
                for st in s.back(p, b, gs, facts, phis, used): stack.append((st, None, path + (p,)))
        return None

    def back(s, p, b, gs, facts, phis, used):
        m = {}
        for x in used:
            for pb, o in phis[x]["in"]:
                if pb == p: m[x] = s.canon(s.X.o(o))
        g2 = tuple((kk, fz(lsubst(dict(l), m))) for kk, l in gs) if m else gs
        f2 = frozenset((f[0], fz(lsubst(dict(f[1]), m))) for f in facts) if m else facts
        for f3 in s.both(s.settle(f2), s.edge(p, b)):
            yield (p, g2, s.prune(frozenset(f3), g2))

    def any_round(s, b, gs, facts, entry, need, path):
        """what is asked follows from before the loop for any value of its phis, provided the memory it is about is not changed in the loop"""
        body = s.loops[b]
        lo = set()

        def go(e):
            if isinstance(e, tuple):
                if e[0] == "load" and e[-1] == "cur": lo.add(e)
                for x in e: go(x)
        for l in [g[1] for g in gs] + [f[1] for f in facts]:
            for x, c in l:
                if x != 1: go(x)
        # memory changed in the loop may hold anything
        ch = {e for e in lo if any(s.killed(e, J) for n in body for J in s.F.blocks[n].ins if J.op in ("store", "call", "invoke"))}
        if len(ch) > 4: return False
        m = {e: ("hv", e) for e in ch}
        m.update({("phi", J.id): ("hv", J.id) for J in s.F.blocks[b].ins if J.op == "phi"})
        g2 = tuple((kk, fz(lsubst(dict(l), m))) for kk, l in gs)
        f2 = frozenset((f[0], fz(lsubst(dict(f[1]), m))) for f in facts if f[0] not in ("true", "false"))
        out = []
        for p in s.F.blocks[b].preds:
            if p in body: continue
            for f3 in s.both([tuple(f2)], s.edge(p, b)):
                out.append(((p, g2, s.prune(frozenset(f3), g2)), None, path + (p,)))
        s.deep_inv += 1
        r = bool(out) and s.walk(out, entry, need, None, None) is None
        s.deep_inv -= 1
        return r

    def distinct(s, a, b): return distinct(a, b) or apart(a, b)

    def killed(s, e, J):
        key = mem_key(e[1])
        if J.op == "store":
            a = s.X.o(J["ops"][1])
            return a == e[1] or mem_key(a) == key and not s.distinct(a, e[1])
        r = s.local(e[1], J)
        if r is not None: return r
        return s.M.may(s.F, J, key)

    def invariant_goal(s, b, g, used, facts, entry):
        """g, about the phis of loop header b, holds whenever control is there: from outside, and around the loop when it held before"""
        if not used or not any(a != 1 and has(a, lambda y: y in used) for a, c in g[1]): return False
        if any(size(a) > 40 for a, c in g[1] if a != 1): return False
        key = (b, g, tuple(sorted(map(str, entry))))
        r = s.invm.get(key)
        if r is None:
            s.invm[key] = False
            s.deep_inv += 1
            r = s.invm[key] = s.prove_inv(b, g, entry)
            s.deep_inv -= 1
        return r

    def prove_inv(s, b, g, entry):
        blk = s.F.blocks[b]
        body = s.loops[b]
        phis = {("phi", J.id): J for J in blk.ins if J.op == "phi"}
        used = {x for a, c in g[1] if a != 1 for x in phis if has(a, lambda y: y == x)}
        out = []
        for p in blk.preds:
            sts = [(st, None, (b, p)) for st in s.back(p, b, (g,), frozenset(), phis, used)]
            if p in body:
                if s.walk(sts, entry, None, b, (g,)) is not None: return False
            else: out += sts
        return s.walk(out, entry, None, None, None) is None

    def lemmas(s, b, gs, facts, used, phis, entry):
        """simple bounds that hold whenever control is at loop header b: among candidates over the loop's counters, the lengths asked about
        and unsigned arguments, the largest set that holds on entry and is kept by every round"""
        xs = [x for x in phis if s.integer(phis[x])]
        if not xs or len(xs) > 5: return ()
        ls = set()

        def go(e):
            if not isinstance(e, tuple): return
            if e[0] == "load" and len(e) == 3 and e[2] == "cur" and e[1][0] == "fld" and e[1][2:] in (("STR", "len"), ("PNTuple", "len")) and size(e) < 20: ls.add(e)
            for x in e: go(x)
        for l in [g[1] for g in gs] + [f[1] for f in facts]:
            for x, c in l:
                if x != 1: go(x)
        ua = {("arg", k) for k in range(s.F.nparams) if unsigned(s.F.param_type(k))}
        # counters of the loops around this one
        ua |= {("phi", J.id) for h, body in s.loops.items() if h != b and b in body for J in s.F.blocks[h].ins if J.op == "phi" and s.integer(J)}
        if len(ua) > 6: ua = set()
        key = ("lem", b, frozenset(ls), tuple(sorted(map(str, entry))))
        if key in s.invm: return s.invm[key]
        s.invm[key] = ()
        cs = []
        for x in xs:
            cs.append({x: 1})
            for y in xs + sorted(ls, key=str) + sorted(ua):
                if y != x: cs += [{y: 1, x: -1}, {y: 1, x: -1, 1: -1}]
        for y in ls:
            for x in ua: cs.append({y: 1, x: -1, 1: -1})
            cs.append({y: 1, 1: -1})
        cs = [("ge", fz(c)) for c in cs]
        s.deep_inv += 2
        blk = s.F.blocks[b]
        body = s.loops[b]

        def ok(c, ih, inside):
            used = {x for a, k in c[1] if a != 1 for x in phis if a == x}
            for p in blk.preds:
                if (p in body) != inside: continue
                sts = [(st, None, (b, p)) for st in s.back(p, b, (c,), frozenset(), phis, used)]
                if s.walk(sts, entry, None, b if inside else None, ih) is not None: return False
            return True
        cs = [c for c in cs if ok(c, None, False)]
        while cs:
            keep = [c for c in cs if ok(c, tuple(cs), True)]
            if len(keep) == len(cs): break
            cs = keep
        s.deep_inv -= 2
        s.invm[key] = tuple(cs)
        return s.invm[key]

    def integer(s, J): return str(J.get("ty", "")).startswith("i")

    def split(s, gs, facts, d=0):
        if any(s.follows(g, facts) for g in gs) or s.infeasible(facts): return True
        if d > 8: return False
        sp = None
        for l in [g[1] for g in gs] + [f[1] for f in facts]:
            for x, c in l:
                if x != 1 and sp is None: sp = next_select(x)
        if sp is None: return False
        for arm, pol in ((sp[2], True), (sp[3], False)):
            m = {sp: arm}
            g2 = tuple((kk, fz(lsubst(dict(l), m))) for kk, l in gs)
            f2 = frozenset((f[0], fz(lsubst(dict(f[1]), m))) for f in facts)
            for alt in s.implied(sp[1], pol):
                if not s.split(g2, f2 | frozenset(alt), d + 1): return False
        return True

    def made(s, gs, facts, ins):
        """going up past the call that made an object, its fields are what the maker set"""
        m = {}
        calls = {J.id: J for J in ins if J.op == "call"}

        def go(e):
            if not isinstance(e, tuple): return
            if e[0] == "load" and len(e) == 3 and e[2] == "cur" and e[1][0] == "fld" and e[1][1][0] == "call" and e[1][1][-1] in calls:
                v = s.B.made(s.F, calls[e[1][1][-1]], e[1][2], e[1][3])
                if v is not None: m[e] = v
            for x in e: go(x)
        for l in [g[1] for g in gs] + [f[1] for f in facts]:
            for x, c in l:
                if x != 1: go(x)
        if not m: return gs, facts
        return tuple((k, fz(lsubst2(dict(l), m))) for k, l in gs), frozenset((f[0], fz(lsubst2(dict(f[1]), m))) for f in facts)

    def nn(s, e):
        if e[0] == "load" and e[1][0] == "fld" and e[1][2] in ("STR",) + tuple(DATA) and e[1][3] in ("len", "alloc", "siz"): return True
        if e[0] == "strlen": return True
        if e[0] == "arg" and len(e) == 2 and unsigned(s.F.param_type(e[1])): return True
        if e[0] == "call" and e[1] in ("vsnprintf", "snprintf"): return True      # no encoding errors
        if e[0] == "load" and e[1][0] == "fld" and e[1][3] == "st_size": return True
        if e[0] == "call" and isinstance(e[1], str) and s.B.summary(s.F, e) is not None: return True
        if e[0] == "phi" and e[1] in s.F.val and s.integer(s.F.val[e[1]]):
            # all values it takes are not negative, those of other rounds included
            r = s.nnphi.get(e)
            if r is None:
                s.nnphi[e] = True
                r = s.nnphi[e] = all(s.known_nonneg(lin(s.canon(s.X.o(o)))) for _, o in s.F.val[e[1]]["in"])
                if not r:
                    for x in [x for x, v in s.nnphi.items() if v]: del s.nnphi[x]
            return r
        return Query.nn(s, e)

    def ge_follows(s, g, facts):
        if s.known_nonneg(g): return True
        ges, nes = [], []
        for f in facts:
            if f[0] == "ge": ges.append(dict(f[1]))
            elif f[0] == "eq": d = dict(f[1]); ges += [d, lneg(d)]
            elif f[0] == "ne": nes.append(dict(f[1]))
        s.nz = {fz(x) for n in nes for x in (n, lneg(n))}
        ges += s.axioms(g, facts)
        for n in nes:
            for x in (n, lneg(n)):
                if s.known_nonneg(x) or x in ges: ges.append(ladd(x, {1: -1}))
        return s.elim(g, ges, 0, set()) or s.B.relaxed(s, g, facts)

    def elim(s, g, ges, d, seen):
        """g follows from a positive combination of the facts: eliminate one atom of unknown or wrong sign after another"""
        if s.known_nonneg(g): return True
        if d > 4 or fz(g) in seen: return False
        seen.add(fz(g))
        bad = [x for x, c in g.items() if x != 1 and (c < 0 or not s.nn(x))]
        cand = bad[:1] or [x for x in g if x != 1]
        for x in cand:
            c = g[x]
            for a in ges:
                k = a.get(x, 0)
                if k * c <= 0: continue
                if not bad and a.get(1, 0) >= 0: continue
                q = math.gcd(c, k)
                if abs(k) // q > 16 or abs(c) // q > 16: continue
                r = lsub({y: v * (abs(k) // q) for y, v in g.items()}, {y: v * (abs(c) // q) for y, v in a.items()})
                if s.elim(r, ges, d + 1, seen): return True
        return False

    def axioms(s, g, facts):
        out = []
        at = set()

        def go(e):
            if not isinstance(e, tuple): return
            if e[0] in ("load", "call", "strlen", "bin"): at.add(e)
            for x in e: go(x)
        for x in g:
            if x != 1: go(x)
        for f in facts:
            for x, c in f[1]:
                if x != 1: go(x)
        for e in at:
            if e[0] == "load" and len(e) == 3 and e[1][0] == "fld":
                b, R, f = e[1][1:]
                if R == "PNTuple" and f == "alloc": out.append(ladd({e: 1}, {("load", ("fld", b, R, "len"), e[2]): -1}))
                if R == "PNTuple" and f == "len": out.append(ladd({("load", ("fld", b, R, "alloc"), e[2]): 1}, {e: -1}))
                if R == "PNBytes" and f == "siz": out.append(ladd({e: 1, 1: -1}, {("load", ("fld", b, "STR", "len"), e[2]): -1}))
            if e[0] == "call" and isinstance(e[1], str):
                sm = s.B.summary(s.F, e)
                if sm is not None:
                    out.append({e: 1})
                    out.append(ladd(sm, {e: -1}))
                    out += s.B.above(s.F, e)
            out += s.B.extra(s.F, e)
            if e[0] == "call" and e[1] in ("read", "write") and e[2] in s.F.val:
                out.append({e: 1, 1: 1})
                out.append(lsub(lin(s.canon(s.X.o(s.F.val[e[2]].args[2]))), {e: 1}))
            if e[0] == "bin" and e[3][0] == "c" and e[3][1] > 0 and (e[1] in ("udiv", "sdiv") or e[1] == "lshr" and e[3][1] < 16):
                c = e[3][1] if e[1] != "lshr" else 1 << e[3][1]
                x = lin(e[2])
                if s.known_nonneg(x) or e[1] != "sdiv" and False or any(f[0] == "ge" and s.known_nonneg(lsub(x, dict(f[1]))) for f in facts):
                    out.append(ladd(x, {e: -c})); out.append(ladd({e: c, 1: c - 1}, x, -1)); out.append({e: 1})
                elif any(f[0] == "ge" and s.known_nonneg(lsub(lneg(x), dict(f[1]))) for f in facts):
                    out.append({e: -1}); out.append(ladd({e: c}, x, -1)); out.append(ladd(ladd(x, {1: c - 1}), {e: -c}))
            if e[0] == "bin" and e[1] == "and" and e[3][0] == "c" and e[3][1] < 0 and (-e[3][1]) & (-e[3][1] - 1) == 0:
                x = lin(e[2])
                out.append(ladd(x, {e: -1})); out.append(ladd({e: 1, 1: -e[3][1] - 1}, x, -1))
            # a character seen not to be the last
            if e[0] == "load" and e[1][0] == "idx" and (fz({e: 1}) in s.nz):
                sl = s.B.strlen(e[1][1])
                if sl: out.append(ladd(lsub(sl, lin(e[1][2])), {1: -1}))
        return out


class Bounds:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.walked = index_pointers(ctx.P)
        ctx._ex.clear()
        s.mods = LenMods(ctx); s.mods.ctx = ctx
        s._norm, s._q, s._sum = {}, {}, {}
        s.taken = set()
        for F in ctx.P:
            for I in F.instrs():
                for o in I.operands():
                    if "fn" in o and not (I.op == "call" and o is I.d.get("callee")): s.taken.add(o["fn"])

        def walk(x):
            if isinstance(x, dict):
                if "fn" in x: s.taken.add(x["fn"])
                for y in x.values(): walk(y)
            elif isinstance(x, list):
                for y in x: walk(y)
        for g in ctx.P.globals.values(): walk(g.get("init"))

    def extra(s, F, e): return []

    def norm(s, F):
        if F.name not in s._norm: s._norm[F.name] = Norm(s.ctx, F)
        return s._norm[F.name]

    def q(s, F):
        if F.name not in s._q: s._q[F.name] = BQ(s.ctx, F, s)
        return s._q[F.name]

    # ---- strings
    def strlen(s, p):
        """an upper bound (linear form) of the length of the C string at p, known not to be below it"""
        if p[0] == "fld" and p[2:] == ("STR", "chars"): return {("load", ("fld", p[1], "STR", "len"), "cur"): 1}
        if p[0] == "arg": return {("strlen", p): 1}
        return None

    def summary(s, F, e):
        """upper bound of the result of a call to a function that returns a position in a string it is given"""
        T = s.P.resolve(F, e[1])
        if T is None: return None
        r = s.within(T)
        if r is None: return None
        k, pre = r
        I = F.val[e[2]]
        if k >= len(I.args): return None
        X = s.norm(F)
        sl = s.strlen(X.o(I.args[k]))
        if sl is None: return None
        key = (F.name, e[2])
        if pre and key not in s._sum:
            s._sum[key] = None          # while it is being decided
            Q = BQ(s.ctx, F, s)
            ok = all(Q.holds(I, [("ge", g)]) is None for j in pre for g in (lin(Q.canon(X.o(I.args[j]))), lsub(sl, lin(Q.canon(X.o(I.args[j]))))))
            s._sum[key] = ok
        if pre and not s._sum[key]: return None
        return sl

    def above(s, F, e):
        """lower bounds of the result, when it is not before the positions given"""
        T = s.P.resolve(F, e[1])
        r = s.within(T) if T is not None else None
        if r is None or not r[1]: return []
        X = s.norm(F)
        out = []
        for j in r[1]:
            k = ("above", T.name, j)
            if k not in s._sum:
                s._sum[k] = False
                Q = BQ(s.ctx, T, s)
                sl = {("strlen", ("arg", r[0])): 1}
                ent = [("ge", fz({("arg", i): 1})) for i in r[1]] + [("ge", fz(lsub(sl, {("arg", i): 1}))) for i in r[1]]
                s._sum[k] = all(Q.holds(R, [("ge", lsub(lin(Q.canon(s.norm(T).o(R["ops"][0]))), {("arg", j): 1}))], entry=ent) is None for R in s.returns(T))
            if s._sum[k]: out.append(lsub({e: 1}, lin(s.q(F).canon(X.o(F.val[e[2]].args[j])))))
        return out

    def within(s, T):
        """(string argument, index arguments that have to lie within it) when T returns a position within the string"""
        k = ("within", T.name)
        if k in s._sum: return s._sum[k]
        s._sum[k] = None
        r = None
        if T.rets() and len(T.blocks) < 40 and T.unit != "core/contrib.c" and "i64" in str(T.d.get("ret", "i64")):
            X = s.norm(T)
            cand = {e[1][1][1] for I in T.instrs() if I.op == "load" for e in [("load", X.o(I["ops"][0]))] if e[1][0] == "idx" and e[1][1][0] == "arg" and e[1][3] == 1}
            if len(cand) == 1:
                a, = cand
                for pre in ((), tuple(j for j in range(len(T.params)) if j != a)):
                    sl = {("strlen", ("arg", a)): 1}
                    ent = [("ge", fz({("arg", j): 1})) for j in pre] + [("ge", fz(lsub(sl, {("arg", j): 1}))) for j in pre]
                    ok = True
                    for b in T.rets():
                        R = b if hasattr(b, "op") else T.blocks[b].ins[-1]
                        if not R.get("ops"): ok = False; break
                        Q = BQ(s.ctx, T, s)
                        v = lin(Q.canon(X.o(R["ops"][0])))
                        if Q.holds(R, [("ge", v)], entry=ent) is not None or Q.holds(R, [("ge", lsub(sl, v))], entry=ent) is not None: ok = False; break
                    if ok: r = (a, pre); break
        s._sum[k] = r
        return r

    # ---- makers
    def made(s, F, J, R, f):
        """the field f of the object a call returns, right after the call"""
        T = s.P.resolve(F, J.callee) if J.callee else None
        if T is None: return None
        sm = s.maker(T).get((R, f))
        if sm is None: return None
        X = s.norm(F)
        return sub(sm, {("arg", k): X.o(a) for k, a in enumerate(J.args)})

    def maker(s, T):
        """{(record, field): value in T's arguments} of the fresh object every return of T gives back"""
        k = ("maker", T.name)
        if k not in s._sum:
            s._sum[k] = {}
            X = s.ctx.ex(T)
            objs = {X.o(r["ops"][0]) for r in s.returns(T) if r.get("ops")}
            out = {}
            if len(objs) == 1:
                x, = objs
                if x[0] == "call" and isinstance(x[1], str):
                    if x[1] in ALLOC and x[1] != "potion_gc_realloc":
                        n = {}
                        for I in T.instrs():
                            if I.op == "store":
                                a = X.o(I["ops"][1])
                                if a[0] == "fld" and a[1] == x: n.setdefault(a[2:], []).append((I, X.o(I["ops"][0])))
                        for (R, f), l in n.items():
                            if len(l) == 1 and R in DATA and all(T.dominates(l[0][0], r) for r in s.returns(T)) and onlyargs(l[0][1]):
                                out["STR" if R in STR and f == "len" else R, f] = l[0][1]
                    else:
                        C = s.P.resolve(T, x[1])
                        if C is not None and C is not T:
                            m = s.maker(C)
                            J = T.val[x[2]]
                            for kf, v in m.items():
                                v = sub(v, {("arg", i): X.o(a) for i, a in enumerate(J.args)})
                                if onlyargs(v): out[kf] = v
            s._sum[k] = out
        return s._sum[k]

    def returns(s, T): return [I for I in T.instrs() if I.op == "ret"]

    # ---- growth by a fraction: decided by evaluation
    def relaxed(s, Q, g, facts):
        """g is a function of one value x >= 0 that occurs divided by a constant: evaluated for small x, bounded by its slope beyond"""
        dv = set()

        def go(e):
            if isinstance(e, tuple):
                if e[0] == "bin" and e[1] == "udiv" and e[3][0] == "c" and e[3][1] > 0 and not has(e[2], lambda y: y[:2] == ("bin", "udiv")): dv.add(e[2])
                for x in e: go(x)
        for x in g:
            if x != 1: go(x)
        if len(dv) != 1: return False
        x, = dv
        lx = lin(x)
        if not s_nonneg(Q, lx): return False
        # g as f(x): replace the linear occurrences of x
        rest = {a: c for a, c in g.items() if a == 1 or has(a, lambda y: y == x)}
        other = {a: c for a, c in g.items() if a not in rest}
        vx = {a: c for a, c in lx.items() if a != 1}
        k = None
        for a, c in vx.items():
            if other.get(a, 0) % c: return False
            q = other.get(a, 0) // c
            if k is not None and k != q: return False
            k = q
        if set(other) - set(vx): return False
        k = k or 0
        rest = ladd(rest, {1: -k * lx.get(1, 0)})

        def f(n):
            v = k * n
            for a, c in rest.items():
                if a == 1: v += c
                else:
                    w = ev(a, x, n)
                    if w is None: return None
                    v += c * w
            return v
        vals = [f(n) for n in range(0, 2048)]
        if any(v is None or v < 0 for v in vals): return False
        return vals[2047] > vals[1023] + 64 > vals[0] + 128 and f(1 << 20) > vals[2047]


def s_nonneg(Q, l): return Q.known_nonneg(l)


def ev(e, x, n):
    if e == x: return n
    if e[0] == "c": return e[1]
    if e[0] == "bin":
        a, b = ev(e[2], x, n), ev(e[3], x, n)
        if a is None or b is None: return None
        o = e[1]
        if o == "add": return a + b
        if o == "sub": return a - b
        if o == "mul": return a * b
        if o == "and": return a & b
        if o == "udiv": return a // b if b else None
        if o == "shl": return a << b
        if o == "lshr": return a >> b
    return None


def onlyargs(e):
    if not isinstance(e, tuple): return True
    if e[0] == "arg": return True
    if e[0] == "c": return True
    if e[0] == "bin": return onlyargs(e[2]) and onlyargs(e[3])
    return False
