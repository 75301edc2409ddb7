"""P20: what the C code reads from its local variables and records has been set."""
from ..core import *
from ..facts import has

RULE = ("forwards must-be-set analysis of every local variable, record field and array in the program as the compiler front end leaves it: a read, a return without "
        "value or a record handed to a function that reads it is reported when some path reaches it on which nothing was stored there and whose branches do not "
        "contradict each other")
ASSUME = ("a function that is given the address of a variable sets it, unless it reads it first", "setting one element of an array sets the array",
          "memory of the heap and of blocks got from malloc is not covered")
MODES = ("ssa", "raw")
SKIP = ("lib/readline/linenoise.c", "core/contrib.c")
QUIET = ("llvm.dbg", "llvm.lifetime", "llvm.stack", "llvm.prefetch")
# arguments other libraries read through a pointer: (position, the whole record must be set)
READS = {"uv_spawn": ((2, True),), "uv_tcp_bind": ((1, False),), "uv_tcp_connect": ((2, False),), "uv_udp_bind": ((1, False),), "uv_udp_send": ((2, False), (4, False)),
         "uv_write": ((2, False),), "uv_write2": ((2, False),), "uv_try_write": ((1, False),), "uv_getaddrinfo": ((5, False),), "uv_ip4_name": ((0, False),), "uv_ip6_name": ((0, False),),
         "nanosleep": ((0, False),), "tcsetattr": ((2, False),), "memcmp": ((0, False), (1, False)), "strlen": ((0, False),), "strcmp": ((0, False), (1, False)),
         "strncmp": ((0, False), (1, False)), "strcpy": ((1, False),), "strncpy": ((1, False),), "strcat": ((0, False), (1, False)), "strdup": ((0, False),),
         "write": ((1, False),), "fwrite": ((0, False),), "puts": ((0, False),), "fputs": ((0, False),), "memcpy": ((1, False),), "memmove": ((1, False),),
         "llvm.memcpy": ((1, False),), "llvm.memmove": ((1, False),), "open": ((0, False),), "fopen": ((0, False),), "stat": ((0, False),), "dlopen": ((0, False),),
         "access": ((0, False),), "atoi": ((0, False),), "strtol": ((0, False),), "strtod": ((0, False),), "fmod": (), "getsockname": ((2, False),), "getpeername": ((2, False),),
         "uv_tcp_getsockname": ((2, False),), "uv_tcp_getpeername": ((2, False),), "uv_udp_getsockname": ((2, False),), "accept": ((2, False),), "mktime": ((0, False),),
         "localtime": ((0, False),), "gmtime": ((0, False),), "strftime": ((3, False),), "va_arg": ()}
# calls that set what they are given only when they succeed: position
ONLY = {"stat": 1, "fstat": 1, "lstat": 1, "uv_ip4_addr": 2, "uv_ip6_addr": 2}
LIMIT = 4000


def where_(e):
    """(root of an address, path of fields within it); any element of an array stands for all"""
    p = []
    while e[0] in ("fld", "idx"):
        p.append(e[3] if e[0] == "fld" else "*")
        e = e[1]
    p.reverse()
    return e, tuple(p)


def known(st, key):
    a, p = key
    return any(x == a and (q[:len(p)] == p or p[:len(q)] == q) for x, q in st)


class Set:
    def __init__(s, ctx):
        s.ctx, s.P, s.raw = ctx, ctx.P, ctx.raw
        s.sum, s.edges = {}, {}

    # ---- what a function reads through a parameter before it sets it
    def reads(s, F, k, deep=0):
        key = (F.name, k)
        if key in s.sum: return s.sum[key]
        s.sum[key] = frozenset()
        if deep > 5: return s.sum[key]
        ev = s.events(F, s.ctx.ex(F), lambda r: r == ("arg", k), deep + 1)
        out = {key[1] for I, key, kind in s.missing(F, ev, ("arg", k)) if kind != "all"}
        s.sum[key] = frozenset(out)
        return s.sum[key]

    def writes(s, F, k, deep=0):
        """may the function set what a parameter points to?"""
        key = (F.name, k, "w")
        if key in s.sum: return s.sum[key]
        s.sum[key] = True
        X, me = s.ctx.ex(F), ("arg", k)
        r = False
        for I in F.instrs():
            if I.op == "load": continue
            for j, o in enumerate(I.args if I.op in ("call", "invoke") else I.operands()):
                if where_(X.o(o))[0] != me: continue
                if I.op in ("icmp", "br"): continue
                if I.op == "store" or I.op not in ("call", "invoke", "getelementptr", "bitcast"): r = True; break
                if I.op in ("call", "invoke"):
                    T = s.P.resolve(F, I.callee) if I.callee else None
                    if T is None or j >= T.nparams or s.writes(T, j, deep + 1): r = True; break
            if r: break
        s.sum[key] = r
        return r

    def events(s, F, X, mine, deep=0):
        ev = {}
        for I in F.instrs():
            if I.op == "alloca": continue
            l = []
            if I.op == "load":
                r, p = where_(X.o(I["ops"][0]))
                if mine(r) and not s.masks(F, X, I): l.append(("r", (r, p)))
            elif I.op == "store":
                v, _ = where_(X.o(I["ops"][0]))
                r, p = where_(X.o(I["ops"][1]))
                if mine(v) and v[0] == "alloca": l.append(("w", (v, ())))     # its address is kept somewhere
                if mine(r): l.append(("w", (r, p)))
            elif I.op in ("call", "invoke"):
                n = (I.callee or "").split(".p0")[0].split(".i64")[0]
                if n.startswith(QUIET): continue
                T = s.P.resolve(F, I.callee) if I.callee else None
                w = []
                for k, o in enumerate(I.args):
                    r, p = where_(X.o(o))
                    if not mine(r): continue
                    if T is not None and k < T.nparams and T.unit not in SKIP:
                        for q in s.reads(T, k, deep + 1): l.append(("r", (r, p + q)))
                    elif T is None:
                        for j, whole in READS.get(n, ()):
                            if j == k: l.append(("all" if whole else "r", (r, p)))
                    if T is not None and k < T.nparams and T.unit not in SKIP and not s.writes(T, k): continue
                    if T is None and ONLY.get(n) == k:
                        t = s.tested(F, X, I)
                        if t is not None:
                            if t: s.edges.setdefault((F.name, t[0]), {}).setdefault(t[1], set()).add((r, p))
                            w.append(("c", (r, p)))
                            continue
                    if not (T is None and n in READS and any(j == k and n not in ("strcat",) and not n.endswith("name") for j, x in READS[n])): w.append(("w", (r, p)))
                l += w
            elif I.op != "br" and I.op != "icmp":
                for o in I.operands():
                    r, p = where_(X.o(o))
                    if mine(r) and r[0] == "alloca" and I.op in ("ptrtoint", "phi", "select", "ret"): l.append(("w", (r, ())))
            if l: ev.setdefault(I.bb, []).append((I, l))
        return ev

    def tested(s, F, X, I):
        """(block, edge) on which a call is known to have succeeded; () when its result is dropped, None when it is used in another way"""
        us = [U for U in F.uses().get(I.id, ())]
        if not us: return ()
        if len(us) != 1 or us[0].op != "icmp": return None
        c, T = us[0], F.blocks[us[0].bb].ins[-1]
        if us[0].bb != I.bb or T.op != "br" or T.get("cond") is None or X.o(T["cond"]) != X.o({"v": c.id}): return None
        e = X.o(T["cond"])
        if e[0] != "icmp" or e[3][0] != "c" or F.blocks[I.bb].succs[0] == F.blocks[I.bb].succs[1]: return None
        # what the test says of 0 (success) and of -1 and other negative numbers (failure)
        t = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sge": lambda a, b: a >= b, "sgt": lambda a, b: a > b, "sle": lambda a, b: a <= b}.get(e[1])
        if t is None: return None
        n = e[3][1]
        if n >= 1 << 31: n -= 1 << 32
        if t(0, n) == t(-1, n): return ()
        return I.bb, F.blocks[I.bb].succs[0 if t(0, n) else 1]

    def masks(s, F, X, I):
        """a read that only keeps the other bits of a word while some are set"""
        for A in F.uses().get(I.id, ()):
            if A.op != "and" or not any("c" in o for o in A["ops"]): return False
            for B in F.uses().get(A.id, ()):
                if B.op == "or":
                    for C in F.uses().get(B.id, ()):
                        if C.op != "store" or X.o(C["ops"][1]) != X.o(I["ops"][0]): return False
                elif B.op != "store" or X.o(B["ops"][1]) != X.o(I["ops"][0]): return False
        return bool(F.uses().get(I.id))

    def missing(s, F, ev, only=None):
        """[(instruction, what, kind)] of reads some path reaches with nothing set"""
        uni = frozenset(k for l in ev.values() for I, es in l for kind, k in es if kind in ("w", "c"))
        n = len(F.blocks)
        out = {}
        IN = {}
        todo = list(range(n))
        dead = {b for b in range(n) if any(J.op == "call" and J.callee in NORETURN for J in F.blocks[b].ins)}
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if b == 0: i = frozenset()
                else:
                    ps = [out.get(q, uni) | s.edges.get((F.name, q), {}).get(b, set()) for q in F.blocks[b].preds if q not in dead]
                    i = frozenset.intersection(*ps) if ps else uni
                IN[b] = i
                o = frozenset(i | {k for I, es in ev.get(b, ()) for kind, k in es if kind == "w"})
                if out.get(b) != o: out[b] = o; ch = True
        res = []
        for b, l in ev.items():
            cur = set(IN[b])
            for I, es in l:
                for kind, k in es:
                    if kind == "r" and not known(cur, k): res.append((I, k[1] if only else k, "r") if False else (I, k, "r"))
                    elif kind == "all" and not s.whole(F, cur, k): res.append((I, k, "all"))
                for kind, k in es:
                    if kind == "w": cur.add(k)
        return res

    def whole(s, F, cur, k):
        a, p = k
        if any(x == a and p[:len(q)] == q for x, q in cur): return True
        I = F.val.get(a[1]) if a[0] == "alloca" else None
        t = str(I.get("aty", "")) if I else ""
        st = s.P.structs.get(t[8:]) if t.startswith("%struct.") else None
        if st is None or p: return any(x == a for x, q in cur)
        return all(any(x == a and q[:1] == (f["n"],) for x, q in cur) for f in st["fields"])

    # ---- is there a way to the read whose branches do not contradict each other?
    def way(s, F, X, ev, I, k, kind):
        plain = {}
        for J in F.instrs():
            if J.op == "alloca": plain.setdefault(J.id, True)
            elif J.op == "load": pass
            elif J.op == "store":
                v = X.o(J["ops"][0])
                if v[0] == "alloca": plain[v[1]] = False
            elif not (J.callee or "").startswith("llvm."):
                for o in J.operands():
                    r = where_(X.o(o))[0]
                    if r[0] == "alloca": plain[r[1]] = False

        def strip(e):
            """the condition in terms of variables, or None when something else is in it"""
            if not isinstance(e, tuple): return e
            if e[0] == "load":
                if e[1][0] == "alloca":
                    if plain.get(e[1][1]): return ("var", e[1][1])
                    return ("heap", ("var", e[1][1]))
                return ("heap", strip(e[1]))
            if e[0] == "alloca": return ("at", e[1])
            if e[0] in ("call", "phi", "op", "select"): raise KeyError
            return tuple(strip(x) for x in e)

        def cond(T):
            if T.op != "br" or "cond" not in T.d: return None
            e = X.o(T["cond"])
            neg = False
            try: e = strip(e)
            except KeyError: return None
            if e[0] == "icmp" and e[1] == "ne": e = ("icmp", "eq") + e[2:]; neg = True
            return e, neg

        def vars_(e):
            if not isinstance(e, tuple): return set()
            if e[0] == "var": return {e[1]}
            return set().union(*[vars_(x) for x in e]) if e else set()

        todo = [(0, frozenset(), frozenset(), (0,))]
        seen = set()
        steps = 0
        while todo:
            b, cs, st, path = todo.pop()
            if (b, cs, st) in seen: continue
            seen.add((b, cs, st))
            steps += 1
            if steps > LIMIT: return path
            cur, facts = set(st), dict(cs)
            evs = {J.id: es for J, es in ev.get(b, ())}
            stop = False
            for J in F.blocks[b].ins:
                if J is I and not (s.whole(F, cur, k) if kind == "all" else known(cur, k)): return path
                for kd, kk in evs.get(J.id, ()):
                    if kd == "w" and kk[0] == k[0]: cur.add(kk)
                if J.op == "store":
                    a = X.o(J["ops"][1])
                    if a[0] == "alloca":
                        facts = {e: v for e, v in facts.items() if a[1] not in vars_(e)}
                        v = X.o(J["ops"][0])
                        if v[0] == "c":
                            facts[("icmp", "eq", ("var", a[1]), v)] = True
                            facts[("val", ("var", a[1]))] = v
                if J.op == "store" and a[0] != "alloca" or J.op == "call" and not (J.callee or "").startswith("llvm."):
                    facts = {e: v for e, v in facts.items() if not has(e, lambda y: isinstance(y, tuple) and len(y) == 2 and y[0] == "heap")}
                if J.op == "call" and J.callee in NORETURN: stop = True; break
            if stop: continue
            if kind != "all" and known(cur, k): continue
            T = F.blocks[b].ins[-1]
            c = cond(T)
            succ = list(F.blocks[b].succs)
            if T.op == "switch":
                try: e = strip(X.o(T["cond"]))
                except KeyError: e = None
                ways = [(v, q) for v, q in T["cases"]] + [(None, T["def"])]
                for v, q in ways:
                    nf = dict(facts)
                    if e is not None:
                        got = nf.get(("val", e))
                        if v is None:
                            if got is not None and any(("c", w) == got for w, r in T["cases"]): continue
                            for w, r in T["cases"]: nf[("icmp", "eq", e, ("c", w))] = False
                        else:
                            if got is not None and got != ("c", v) or nf.get(("icmp", "eq", e, ("c", v))) is False: continue
                            nf[("val", e)] = ("c", v)
                            nf[("icmp", "eq", e, ("c", v))] = True
                    todo.append((q, frozenset(nf.items()), frozenset(cur), path + (q,)))
                continue
            for j, q in enumerate(succ):
                nf = dict(facts)
                if c is not None and len(succ) == 2:
                    e, neg = c
                    val = (j == 0) != neg
                    if e in nf and nf[e] != val: continue
                    if e[0] == "icmp" and e[1] == "eq" and ("val", e[2]) in nf and e[3][0] == "c" and (nf[("val", e[2])] == e[3]) != val: continue
                    nf[e] = val
                    if val and e[0] == "icmp" and e[1] == "eq" and e[3][0] == "c": nf[("val", e[2])] = e[3]
                todo.append((q, frozenset(nf.items()), frozenset(cur | s.edges.get((F.name, b), {}).get(q, set())), path + (q,)))
        return None

    def name(s, F, k):
        I = F.val[k[0][1]]
        return ".".join([str(I.get("var") or "the result")] + [str(x) for x in k[1] if x != "*"])

    def function(s, F):
        X = s.ctx.ex(F)
        ret = {X.o(I["ops"][0])[1][1] for I in F.instrs() if I.op == "ret" and I.get("ops") and X.o(I["ops"][0])[0] == "load" and X.o(I["ops"][0])[1][0] == "alloca"}
        al = {("alloca", I.id) for I in F.instrs() if I.op == "alloca" and (I.get("var") or I.id in ret)}
        if not al: return
        ev = s.events(F, X, lambda r: r in al)
        s.ctx.count("variables", len(al))
        s.ctx.count("reads", sum(kind in ("r", "all") for l in ev.values() for I, es in l for kind, k in es))
        done = set()
        for I, k, kind in s.missing(F, ev):
            n = s.name(F, k)
            if n in done: continue
            p = s.way(F, X, ev, I, k, kind)
            if p is None: continue
            done.add(n)
            at = next((J.where for b in reversed(p) for J in reversed(F.blocks[b].ins) if J.op == "br" and "cond" in J.d), None)
            if n == "the result": m = "%s may return without a result" % F.name
            elif kind == "all": m = "%s hands %s over before all of it is set" % (F.name, n)
            else: m = "%s reads %s, which may not have been set" % (F.name, n)
            s.ctx.report("%s|%s" % (F.name, n), I.where or F.file, m + (" (by way of the branch at %s)" % at if at else ""))


def run(ctx):
    S = Set(ctx)
    for F in ctx.raw:
        if F.unit in SKIP: continue
        ctx.count("functions")
        S.function(F)
    ctx.floor("functions", 700)
    ctx.floor("variables", 2500)
