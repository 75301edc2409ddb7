"""P02: every store of a reference into an object that may be in the old generation is reported to the write barrier."""
from ..core import *
from ..heap import *

RULE = ("forward dataflow over every function: a store of a possibly-pointer value into a reference slot of a heap object that was "
        "not allocated since the last possible collection must be followed by the write barrier on that object on every path, before "
        "the next possible collection and before the function returns to a caller that does not do it; helpers are summarised")
ASSUME = ("the interpreter state itself is traced as a root in every collection (P01)",
          "stores made by generated machine code are decided by the interpreter/JIT agreement property")


class Barrier:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.mg = maygc(s.P)
        s.hs = heap_structs(s.P)
        s.dirtyparams = {}    # fn -> {param index: site}
        s.freshret = {"potion_gc_alloc", "potion_gc_realloc", "potion_gc_calloc"} & set(s.P.funcs)
        s.touchparams = {}
        s.exempt_fields = {("Potion_State", None)}
        s.roots = {}
        s.alias = {"potion_gc_realloc": 2}
        s.isref = {}
        s.user = None

    def R(s, F):
        r = s.roots.get(F.name)
        if r is None: r = s.roots[F.name] = Roots(s.ctx, F, s.alias)
        return r

    def ref_slot(s, path):
        """is the innermost accessed location a reference slot of a heap record (not of the interpreter state)"""
        if not path: return False
        st, f = path[0]
        if f.startswith("kh_"): return not f.endswith("_str")     # the table of interned strings is weak: swept, not traced
        if st == "Potion_State" or st not in s.hs: return False
        if st == "PNCont": return False     # registered for every collection when it is made (GC_KEEP): see the store-list rule
        k = (st, f)
        if k not in s.isref:
            x = [g for g in s.P.structs[st]["fields"] if g["n"] == f]
            s.isref[k] = bool(x) and (is_ref_type(s.P, x[0]["ty"], s.hs))
        return s.isref[k]

    def analyse(s, F, report=False):
        E, R = s.ctx.ex(F), s.R(F)
        n0 = len(s.ctx.findings)
        IN = {F.entry: (frozenset(), frozenset(), {})}
        work = [F.entry]
        order = {b: i for i, b in enumerate(F.rpo())}
        rets = []
        visits = {}
        final = {}
        while work:
            work.sort(key=lambda b: order[b])
            b = work.pop(0)
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 60: continue
            fresh, touched, dirty = IN[b]
            fresh, touched, dirty = set(fresh), set(touched), dict(dirty)
            dead = False
            for I in F.blocks[b].ins:
                s.step(F, E, R, I, fresh, touched, dirty, None)
                if I.op == "call" and (I.get("noret") or I.callee in NORETURN): dead = True; break
            if dead: continue
            for t in F.blocks[b].succs:
                o = IN.get(t)
                if o is None: n = (frozenset(fresh), frozenset(touched), dict(dirty))
                else:
                    d = dict(o[2])
                    for k, v in dirty.items():
                        if k not in d: d[k] = v
                        elif d[k][2] != v[2]: d[k] = d[k][:2] + ((d[k][2] | v[2]) if None not in (d[k][2], v[2]) else None,)
                    n = (o[0] & frozenset(fresh), o[1] & frozenset(touched), d)
                if o is None or n[0] != o[0] or n[1] != o[1] or {k: v[2] for k, v in n[2].items()} != {k: v[2] for k, v in o[2].items()}:
                    IN[t] = n
                    if t not in work: work.append(t)
        # final pass with reporting; collect state at returns
        dp, tp, fr = {}, None, None
        for b in F.rpo():
            if b not in IN: continue
            fresh, touched, dirty = set(IN[b][0]), set(IN[b][1]), dict(IN[b][2])
            dead = False
            for I in F.blocks[b].ins:
                s.step(F, E, R, I, fresh, touched, dirty, report)
                if I.op == "call" and (I.get("noret") or I.callee in NORETURN): dead = True; break
                if I.op == "ret":
                    for r, site in dirty.items():
                        if r[0] == "arg": dp[r[1]] = site
                        elif report: s.flag(F, r, site, "the function returns")
                    t = {r[1] for r in touched if r[0] == "arg"}
                    tp = t if tp is None else tp & t
                    rv = I["ops"]
                    ok = bool(rv) and all(x in fresh for x in R.obj(E.o(rv[0]))) and bool(R.obj(E.o(rv[0])))
                    # constants (nil on failure) do not spoil freshness
                    if rv and not ok:
                        lv = [x for x in R.obj(E.o(rv[0])) if x[0] != "c"]
                        ok = bool(lv) and all(x in fresh for x in lv)
                    fr = ok if fr is None else fr and ok
        return dp, (tp or set()), bool(fr)

    def ret_alias(s, F):
        """k when every value returned is parameter k or the object it moved to"""
        E, R = s.ctx.ex(F), s.R(F)
        out = frozenset()
        for I in F.rets():
            if I["ops"]: out |= R.obj(E.o(I["ops"][0]))
        if len(out) == 1:
            (x,) = out
            if x[0] == "arg": return x[1]
        return None

    def flag(s, F, r, site, what):
        s.ctx.report("%s|%s" % (F.name, site[1]), site[0].where,
                     "%s stores a reference into %s (%s) and %s without the write barrier on it" % (
                         F.name, show(r, F, s.P), site[1], what))

    def step(s, F, E, R, I, fresh, touched, dirty, report):
        if I.op == "store":
            a = E.o(I["ops"][1])
            path = R.path(a)
            if I.get("sty") not in ("i64", "ptr", None) or not s.ref_slot(path): return
            v = E.o(I["ops"][0])
            if report is not None: s.ctx.count("reference_stores")
            if immediate(F, E, v): return
            s.dirty(F, E, R, R.addr(a), a, v, (I, "%s.%s" % path[0]), fresh, touched, dirty)
        elif I.op in ("call", "invoke"):
            c = I.callee
            if c and c.startswith(COPYFN):
                a = E.o(I.args[0])
                path = R.path(a)
                if s.ref_slot(path):
                    if report is not None: s.ctx.count("reference_stores")
                    src = R.addr(E.o(I.args[1]))
                    dst = R.addr(a)
                    if src != dst: s.dirty(F, E, R, dst, a, None, (I, "%s.%s" % path[0]), fresh, touched, dirty)
                return
            if c == TOUCH:
                for r in R.obj(E.o(I.args[1])):
                    dirty.pop(r, None); touched.add(r)
                return
            T = s.P.resolve(F, c) if c else None
            if is_maygc_call(I, s.P, F, s.mg):
                if report is not None: s.ctx.count("collection_points")
                for r in list(dirty):
                    if report: s.flag(F, r, dirty[r], "calls %s, which may collect," % (c or "a method"))
                    dirty.pop(r)
                fresh.clear(); touched.clear()
            if T is not None:
                for k in s.touchparams.get(T.name, ()):
                    if k < len(I.args):
                        for r in R.obj(E.o(I.args[k])): touched.add(r)
                for k, site in s.dirtyparams.get(T.name, {}).items():
                    if k < len(I.args):
                        vs = None
                        if site[2] is not None and all(j < len(I.args) for j in site[2]): vs = [E.o(I.args[j]) for j in site[2]]
                        s.dirty(F, E, R, R.obj(E.o(I.args[k])), None, None, (I, "%s in %s" % (site[1].split(" in ")[0], T.name)), fresh, touched, dirty, vs)
                if T.name in s.freshret:
                    fresh.add(E.v(I.id))

    def dirty(s, F, E, R, roots, a, v, site, fresh, touched, dirty, vs=None):
        """record that the objects `roots` got a reference (v, or one of vs when the callee stored its arguments vs)"""
        va = None
        if v is not None or vs is not None:
            lv = set()
            for x in ([v] if v is not None else vs): lv |= {y for y in value_leaves(F, E, x) if not immediate(F, E, y)}
            if all(x[0] == "arg" for x in lv): va = frozenset(x[1] for x in lv)
        for r in roots:
            if r in fresh or r in touched: continue
            if r[0] in ("c", "alloca", "g", "undef", "str"): continue
            if r[0] == "call" and r[1] in ("malloc", "calloc", "realloc"): continue
            if v is not None and all(x[0] == "load" and R.path(x[1]) and r in R.addr(x[1]) or immediate(F, E, x)
                                     for x in value_leaves(F, E, v)): continue   # moved inside the object
            if v is not None and s.older(F, E, R, v, r): continue
            if vs is not None and all(s.older(F, E, R, x, r) for x in vs): continue
            if r not in dirty: dirty[r] = site + (va,)
            elif dirty[r][2] != va: dirty[r] = dirty[r][:2] + ((dirty[r][2] | va) if va is not None and dirty[r][2] is not None else None,)

    def older(s, F, E, R, v, r):
        """did the stored value certainly exist before the object r was allocated?  Then any collection that made r old also
        made the value old.  True for what is passed in, or read out of what is passed in, as long as nothing between the
        allocation of r and the store can run a method and nothing else is allocated into the source."""
        if r[0] != "call": return False
        A = F.val.get(r[2])
        if A is None: return False
        T = s.P.resolve(F, A.callee) if A.callee else None
        if T is None or T.name not in s.freshret and T.name not in s.alias: return False
        region = F.reach_from(A.bb) | {A.bb}
        for b in region:
            for I in F.blocks[b].ins:
                if I.op == "call" and "asm" not in I.d and (I.callee is None or s.runs_user(F, I)): return False
        allocd = set()
        for lf in value_leaves(F, E, v):
            if immediate(F, E, lf): continue
            if not s.passed_in(F, E, R, lf, allocd): return False
        return True

    def passed_in(s, F, E, R, e, seen):
        if e in seen: return True
        seen.add(e)
        if e[0] == "arg": return True
        if e[0] == "load":
            # the whole interpreter state and everything reachable from arguments, except records this function allocates
            rs = R.addr(e[1])
            return bool(rs) and all(x[0] == "arg" or x[0] == "load" and s.passed_in(F, E, R, x, seen) for x in rs)
        return False

    def runs_user(s, F, I):
        if s.user is None:
            s.user = set()
            g = callgraph(s.P)
            st = [f for f, (cs, ind) in g.items() if ind]
            rev = {}
            for f, (cs, ind) in g.items():
                for c in cs: rev.setdefault(c, set()).add(f)
            s.user = set(st)
            while st:
                for c in rev.get(st.pop(), ()):
                    if c not in s.user: s.user.add(c); st.append(c)
        c = s.P.resolve(F, I.callee)
        return (c.name if c else I.callee) in s.user


def boot_only(P, called, taken):
    """functions that run only while the interpreter state is being made: everything allocated then is one region"""
    boot = {"potion_create", "potion_init"} & set(P.funcs)
    ch = True
    while ch:
        ch = False
        for F in P:
            if F.name not in boot and F.name not in taken and called.get(F.name) and all(c in boot for c in called[F.name]):
                boot.add(F.name); ch = True
    return boot


def run(ctx):
    B = Barrier(ctx)
    skip = {"potion_gc_copy", "potion_mark_minor", "potion_mark_major", "potion_gc_minor", "potion_gc_major", "pngc_mark_array",
            "potion_gc_update", "potion_gc_realloc", "potion_gc_alloc"}
    fs = [F for F in ctx.P if F.name not in skip]
    for rnd in range(6):
        ch = False
        for F in fs:
            k = B.ret_alias(F)
            if k is not None and B.alias.get(F.name) != k and F.name != FWD: B.alias[F.name] = k; ch = True
        if not ch: break
    for rnd in range(8):
        ch = False
        for F in fs:
            dp, tp, fr = B.analyse(F)
            if {k: v[2] for k, v in dp.items()} != {k: v[2] for k, v in B.dirtyparams.get(F.name, {}).items()}: B.dirtyparams[F.name] = dp; ch = True
            if tp != B.touchparams.get(F.name, set()): B.touchparams[F.name] = tp; ch = True
            if fr != (F.name in B.freshret):
                (B.freshret.add if fr else B.freshret.discard)(F.name); ch = True
        if not ch: break
    ctx.counts.clear()
    # who is called directly
    called = {}
    for F in ctx.P:
        for I in F.calls():
            if I.callee:
                T = ctx.P.resolve(F, I.callee)
                if T: called.setdefault(T.name, []).append(F.name)
    taken = set()
    for F in ctx.P:
        for I in F.instrs():
            for o in I.operands():
                if "fn" in o and not (I.op in ("call",) and o is I.get("callee")): taken.add(o["fn"])
    boot = boot_only(ctx.P, called, taken)
    for F in fs:
        if F.name in boot: continue
        ctx.count("functions")
        dp, tp, fr = B.analyse(F, True)
        for k, site in dp.items():
            # a parameter left dirty: the callers' duty when there are callers in the library and it is not itself an entry point
            if F.name in taken or not [c for c in called.get(F.name, []) if c != F.name]:
                B.flag(F, ("arg", k), site, "returns")
    ctx.floor("reference_stores", 60)
