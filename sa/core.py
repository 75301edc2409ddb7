"""Shared analyses and the reporting frame used by every property check."""
import json, os, re, sys, time
from . import prep, ir
from .prep import Broken
from .ir import Ex, show, strip_ids, CASTS


class Finding:
    def __init__(s, key, where, msg):
        s.key, s.where, s.msg = key, where, msg


class Ctx:
    def __init__(s, tier="quick", modes=("ssa",), extra=()):
        s.tier = tier
        s.t0 = time.time()
        mods = prep.prepare(modes, extra=extra)
        s.progs = {m: ir.Program(mods[m]) for m in modes}
        s.P = s.progs.get("ssa") or list(s.progs.values())[0]
        s.raw = s.progs.get("raw")
        s.findings, s.counts, s.samples, s.notes = [], {}, [], []
        s._ex = {}

    def ex(s, F):
        e = s._ex.get(id(F))
        if e is None:
            e = s._ex[id(F)] = Ex(s.P if F.name in s.P.funcs and s.P.funcs.get(F.name) is F else s.prog_of(F), F)
        return e

    def prog_of(s, F):
        for p in s.progs.values():
            if any(x is F for x in p): return p
        return s.P

    def report(s, key, where, msg):
        if any(f.key == key for f in s.findings):
            return
        s.findings.append(Finding(key, where, msg))

    def count(s, what, n=1):
        s.counts[what] = s.counts.get(what, 0) + n

    def sample(s, x, cap=40):
        if len(s.samples) < cap: s.samples.append(x)

    def floor(s, what, n):
        """an analysis that found fewer instances than n has lost its anchors"""
        if s.counts.get(what, 0) < n:
            raise Broken("only %d %s analysed, expected at least %d: anchors changed" % (s.counts.get(what, 0), what, n))


NORETURN = {"potion_fatal", "potion_allocation_error", "exit", "abort", "_exit", "__assert_fail", "longjmp"}


# ---------------------------------------------------------------- CFG restricted by an oracle on conditions
class Walk:
    """CFG of F in which branch conditions decided by `oracle(expr, instr)` (True/False/int/None) are resolved."""

    def __init__(s, ctx, F, oracle, start=None):
        s.ctx, s.F, s.E, s.oracle = ctx, F, ctx.ex(F), oracle
        s.succ = {}
        s.reach = set()
        st = [F.entry if start is None else start]
        while st:
            b = st.pop()
            if b in s.reach: continue
            s.reach.add(b)
            ss = s.succs(b)
            s.succ[b] = ss
            st.extend(ss)

    def succs(s, b):
        B = s.F.blocks[b]
        for I in B.ins:
            if I.op == "call" and (I.get("noret") or I.callee in NORETURN):
                return []
        T = B.ins[-1]
        if T.op == "br" and "cond" in T.d:
            v = s.cond(T["cond"], T)
            if v is True: return [T["succ"][0]]
            if v is False: return [T["succ"][1]]
        elif T.op == "switch":
            v = s.num(T["cond"], T)
            if v is not None:
                for c, d in T["cases"]:
                    if c == v or (c & 0xffffffff) == (v & 0xffffffff): return [d]
                return [T["def"]]
        return list(dict.fromkeys(B.succs))

    def cond(s, op, T):
        return eval_cond(s, s.E.o(op), op, T)

    def num(s, op, T):
        if "c" in op: return op["c"]
        r = s.oracle(s.E.o(op), T)
        return r if isinstance(r, int) and not isinstance(r, bool) else None

    def must_pass(s, stops, frm=None, to=None):
        """every path (in the restricted CFG) from frm to `to` (default: function returns) meets a block of stops"""
        frm = s.F.entry if frm is None else frm
        seen, st = set(), [frm]
        while st:
            b = st.pop()
            if b in seen or b in stops: continue
            seen.add(b)
            if to is None:
                if s.F.blocks[b].ins[-1].op == "ret": return False
            elif b in to: return False
            st.extend(s.succ.get(b, s.succs(b)))
        return True


def eval_cond(w, e, op, T, depth=0):
    """3-valued evaluation of an i1 expression, with the oracle at the atoms; looks through phi/select of i1
    (short-circuit && || after simplification) only when their inputs agree."""
    r = w.oracle(e, T)
    if r is not None:
        return bool(r)
    if e[0] == "c": return bool(e[1])
    if e[0] == "icmp":
        a = _num(w, e[2], T)
        b = _num(w, e[3], T)
        if a is not None and b is not None:
            return icmp(e[1], a, b)
        # (x != 0) of an i1/int condition
        if e[3] == ("c", 0) and e[1] in ("ne", "eq") and isinstance(e[2], tuple) and e[2][0] in ("icmp", "select", "phi"):
            x = eval_cond(w, e[2], None, T, depth + 1)
            if x is not None: return x if e[1] == "ne" else not x
        return None
    if e[0] == "select":
        c = eval_cond(w, e[1], None, T, depth + 1)
        if c is True: return eval_cond(w, e[2], None, T, depth + 1)
        if c is False: return eval_cond(w, e[3], None, T, depth + 1)
        a, b = eval_cond(w, e[2], None, T, depth + 1), eval_cond(w, e[3], None, T, depth + 1)
        return a if a == b else None
    if e[0] == "bin" and e[1] in ("and", "or", "xor") and depth < 20:
        a, b = eval_cond(w, e[2], None, T, depth + 1), eval_cond(w, e[3], None, T, depth + 1)
        if e[1] == "and":
            if a is False or b is False: return False
            if a is True and b is True: return True
        elif e[1] == "or":
            if a is True or b is True: return True
            if a is False and b is False: return False
        elif a is not None and b is not None: return a != b
        return None
    if e[0] == "phi" and depth < 20:
        I = w.F.val[e[1]]
        vals = set()
        for _, o in I["in"]:
            vals.add(eval_cond(w, w.E.o(o), None, T, depth + 1))
        if len(vals) == 1: return vals.pop()
    return None


def _num(w, e, T):
    if e[0] == "c": return e[1]
    r = w.oracle(e, T)
    if isinstance(r, bool) or r is None: return None
    return r


def icmp(pred, a, b):
    m = (1 << 64) - 1
    if pred[0] == "u" and pred not in ("une",):
        a, b = a & m, b & m
    return {"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
            "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b}[pred]


# ---------------------------------------------------------------- induction variables
def induction(F, E, I):
    """phi I -> (init expr, step const, latch block) for i = phi(init, i + step)"""
    if I.op != "phi" or len(I["in"]) < 2: return None
    init, step = [], None
    for b, o in I["in"]:
        e = E.o(o)
        if e[0] == "bin" and e[1] in ("add", "sub") and e[2] == ("phi", I.id) and e[3][0] == "c":
            st = e[3][1] if e[1] == "add" else -e[3][1]
            if step not in (None, st): return None
            step = st
        elif e == ("phi", I.id):
            return None
        else:
            init.append(e)
    if step is None or len(set(map(repr, init))) != 1: return None
    return init[0], step


def natural_loops(F):
    """header -> set of blocks"""
    dom = F.dom()
    loops = {}
    for b in F.rpo():
        for s in F.blocks[b].succs:
            if s in dom.get(b, ()):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x)
                    st.extend(p for p in F.blocks[x].preds if p in dom)
    return loops


# ---------------------------------------------------------------- call graph
def callgraph(P):
    g = {}
    for F in P:
        cs, ind = set(), False
        for I in F.instrs():
            if I.op in ("call", "invoke", "callbr"):
                if I.callee:
                    c = P.resolve(F, I.callee)
                    cs.add(c.name if c else I.callee)
                elif "asm" not in I.d:
                    ind = True
        g[F.name] = (cs, ind)
    return g


def closure_to(P, targets, indirect_counts=True, stop=()):
    """functions from which a call may reach one of targets (or an indirect call, if those count)"""
    g = callgraph(P)
    rev = {}
    for f, (cs, ind) in g.items():
        for c in cs: rev.setdefault(c, set()).add(f)
    res = set(t for t in targets)
    st = list(res)
    if indirect_counts:
        for f, (cs, ind) in g.items():
            if ind and f not in res and f not in stop:
                res.add(f); st.append(f)
    while st:
        x = st.pop()
        for c in rev.get(x, ()):
            if c not in res and c not in stop:
                res.add(c); st.append(c)
    return res


def reachable_from(P, roots):
    g = callgraph(P)
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(g.get(x, ((), 0))[0])
    return seen


# ---------------------------------------------------------------- reference-typed fields
def heap_structs(P):
    """structs that start with the object header"""
    return {n for n, st in P.structs.items()
            if len(st["fields"]) >= 2 and st["fields"][0]["n"] == "vt" and st["fields"][1]["n"] == "uniq"}


def is_ref_type(P, ty, hs=None):
    ty = re.sub(r"\b(volatile|const) ", "", ty)
    hs = hs or heap_structs(P)
    b = re.sub(r"\[\d*\]$", "", ty)
    if b == "PN": return True
    m = re.match(r"(?:struct )?(\w+)\*$", b)
    if m:
        n = m.group(1)
        t = P.typedefs.get(n, n)
        n2 = re.sub(r"^struct ", "", t)
        return n in hs or n2 in hs
    return False


# ---------------------------------------------------------------- known findings, evidence, exit status
def load_known():
    known, p = [], os.path.join(prep.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.+?) :: (.*)$", l.strip())
            if m: known.append(m.groups())
    return known


def finish(ctx, pid, rule, assumptions=(), extra=None, level="other"):
    known = {k: d for p, k, d in load_known() if p == pid}
    new, hit = [], set()
    for f in ctx.findings:
        if f.key in known: hit.add(f.key)
        else: new.append(f)
    for k in sorted(hit):
        f = [x for x in ctx.findings if x.key == k][0]
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, k, f.where, known[k]))
    vacant = sorted(set(known) - hit)
    cov = {"explanation": rule, "analysed": dict(ctx.counts), "samples": ctx.samples[:40],
           "known_findings_matched": sorted(hit), "known_findings_not_present": vacant,
           "translation_units": len(ctx.P.units), "functions_in_program": len(ctx.P.funcs),
           "new_functions_inlined": sorted(set(ctx.P.inlined))}
    if extra: cov.update(extra)
    ev = {"property": pid, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(new)}
    d = os.path.join(prep.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(d, pid + ".violations.txt")
        with open(rp, "w") as o:
            for f in new: o.write("%s\n  at %s\n  rule: %s\n  %s\n" % (f.key, f.where, rule, f.msg))
        for f in new:
            print("%s: %s [%s]" % (f.where, f.msg, f.key))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: held on everything analysed: %s" % (pid, ", ".join("%s=%s" % x for x in sorted(ctx.counts.items()))))
    return 0
