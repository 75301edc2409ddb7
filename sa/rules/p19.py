"""P19: what the C code writes to its own arrays and blocks of memory fits."""
import re
from ..core import *
from ..core import natural_loops
from ..facts import *
from ..bounds import *
from .p09 import Check, OPS, shown
from .p09 import fz2

RULE = ("every element and every block written to a local array, to an array within a record and to memory got from malloc starts at 0 or later and ends "
        "within the size, every block read from one ends within it, and formatted text fits in its longest form: each is a linear inequality that must "
        "follow on every path from the branches taken, from loop induction and from the sizes the memory was made with")
ASSUME = ("linear arithmetic is not checked for wrap-around", "a string measured with strlen stays as it is until it is copied",
          "text in a string object is no longer than the object's length", "the interpreter names globals with strings", "generating machine code leaves the code it is made from as it is",
          "the registers of the interpreter, the collected heap and the line editor are not covered")
SKIP = ("core/gc.c", "lib/readline/linenoise.c", "core/contrib.c")
BLOCK = dict(OPS)
for k in ("strcpy", "strcat", "sprintf", "strncat"): BLOCK.pop(k)
BLOCK.update({"potion_str2": ((1, 2, "r"),), "potion_byte_str2": ((1, 2, "r"),), "fgets": ((0, 1, "w"),), "uv_ip4_name": ((1, 2, "w"),), "uv_ip6_name": ((1, 2, "w"),), "uv_inet_ntop": ((2, 3, "w"),), "strncpy": ((0, 2, "w"),),
              "getcwd": ((0, 1, "w"),), "readlink": ((1, 2, "w"),), "strftime": ((0, 1, "w"),), "fmemopen": ((0, 1, "w"),)})
# functions that write up to as many bytes as the variable another argument points to says
INOUT = {n: (1, 2) for n in ("getsockname", "getpeername", "accept", "accept4", "uv_tcp_getsockname", "uv_tcp_getpeername", "uv_udp_getsockname", "uv_pipe_getsockname")}
INOUT.update({"recvfrom": (4, 5), "getsockopt": (3, 4)})
MAKERS = ("potion_str", "potion_str2", "potion_strcat", "potion_str_format")
TYS = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "double": 8, "float": 4}


def longest(fmt, args, strlen):
    """linear form of the longest text a format makes, without the closing zero; None when there is none"""
    out, k = {}, 0
    i = 0
    while i < len(fmt):
        if fmt[i] != "%": out = ladd(out, {1: 1}); i += 1; continue
        m = re.match(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", fmt[i:])
        if m is None: return None
        fl, w, pr, ln, c = m.groups()
        i += m.end()
        if c == "%": out = ladd(out, {1: 1}); continue
        if w == "*" or pr == "*": return None
        if k >= len(args): return None
        a = args[k]; k += 1
        big = ln in ("l", "ll", "z", "j", "t")
        if c in "di": n = {1: 20 if big else 11}
        elif c == "u": n = {1: 20 if big else 11}
        elif c in "xX": n = {1: (16 if big else 8) + 2}
        elif c == "o": n = {1: (22 if big else 11) + 1}
        elif c == "c": n = {1: 1}
        elif c == "p": n = {1: 18}
        elif c in "fF": n = {1: 311 + int(pr if pr is not None else 6)}
        elif c in "eEgGaA": n = {1: 10 + int(pr if pr is not None else 17)}
        elif c == "s":
            n = strlen(a)
            if n is None: n = {1: int(pr)} if pr is not None else None
            if n is None: return None
        else: return None
        if pr is not None and c in "diuxXo": n = {1: max(n[1], int(pr) + 3)}
        if w is not None:
            if set(n) <= {1}: n = {1: max(n.get(1, 0), int(w))}
            else: n = ladd(n, {1: int(w)})
        out = ladd(out, n)
    return out


def emits(X, I):
    """a call through the table of the code generator"""
    if I.callee is not None or "callee" not in I.d: return False
    e = X.o(I["callee"])
    return e[0] == "load" and (has(e[1], lambda y: isinstance(y, tuple) and len(y) == 4 and y[0] == "fld" and (y[2] == "PNTarget" or y[3] == "target")))


class Mods19(LenMods):
    def may(s, F, I, key):
        if key in (("PNProto", "asmb"), ("PNFlex", "len")) and emits(s.ctx.ex(F), I): return False
        return LenMods.may(s, F, I, key)


class Buf(Check):
    def __init__(s, ctx):
        Check.__init__(s, ctx)
        s.B.mods = Mods19(ctx)
        s.B.mods.ctx = ctx
        s.B.extra = s.extra
        s.fixed = {}
        s.count_ = None

    # ---- sizes
    def cap(s, F, b):
        """size in bytes of a local array or block"""
        if b[0] == "alloca":
            I = F.val[b[1]]
            n = lin(s.S(F, s.B.norm(F).o(I["ops"][0])))
            z = I.get("asz") if set(n) <= {1} else None
            if z is None: z = TYS.get(I.get("aty"))
            if z is None and str(I.get("aty", "")).startswith("%struct."):
                st = s.P.structs.get(I["aty"][8:])
                z = st.get("size") if st else None
            if z is None: return None
            return {a: c * z for a, c in n.items()}
        if b[0] == "call" and b[2] in F.val:
            A = F.val[b[2]].args
            X = s.B.norm(F)
            if b[1] == "malloc": return lin(s.S(F, X.o(A[0])))
            if b[1] == "realloc": return lin(s.S(F, X.o(A[1])))
            if b[1] == "calloc":
                p, q = (lin(s.S(F, X.o(a))) for a in A[:2])
                for u, v in ((p, q), (q, p)):
                    if set(u) <= {1}: return {a: c * u.get(1, 0) for a, c in v.items()}
        return None

    def S(s, F, e):
        """what strlen returned is the length of the string"""
        if not isinstance(e, tuple): return e
        if e[0] == "call" and e[1] == "strlen" and e[2] in F.val:
            p = s.B.norm(F).o(F.val[e[2]].args[0])
            n = s.strlen(F, p)
            return n if n is not None else e
        if e[0] == "call": return e
        if e[0] == "load" and e[1][0] == "fld" and e[1][2:] == ("STR", "len") and s.string(F, e[1][1]): return ("slen", e[1][1])
        return tuple(s.S(F, x) for x in e)

    def string(s, F, b, deep=0):
        """an immutable string, as the functions that intern strings return"""
        if b[0] == "call" and b[1] in MAKERS: return True
        if b[0] == "load":          # a register: what the compiler names globals with
            r = root(b[1])
            if r[0] == "alloca" and s.frame(F, r): return True
        if b[0] == "arg" and deep < 5 and F.name not in s.B.taken:
            at = s.sites.get(F.name, ())
            return all(len(I.args) > b[1] and s.string(C, s.B.norm(C).o(I.args[b[1]]), deep + 1) for C, I in at)
        return False

    def strlen(s, F, p):
        """an expression for the length of the string at p, when it is one of the program's strings"""
        if p[0] == "str": return ("c", len(p[1].encode("utf-8", "surrogateescape")))
        if p[0] == "arg": return ("strlen", p)
        if p[0] == "fld" and p[2:] == ("STR", "chars"): return ("strlen", p)
        if p[0] == "load" and p[1][0] == "idx" and p[1][1][0] == "g" and s.constant(p[1][1][1]): return ("strlen", ("entry", p[1]))
        if p[0] in ("load", "call", "phi", "select"): return ("strlen", p)
        return None

    def constant(s, g):
        """a static table nothing is stored to"""
        if g not in s.fixed:
            s.fixed[g] = not any(I.op == "store" and root(s.ctx.ex(F).o(I["ops"][1])) == ("g", g) for F in s.P for I in F.instrs())
        return s.fixed[g]

    def place(s, F, a):
        """(object, its size, offset in bytes) of an address in memory of fixed size; the innermost array it is in"""
        off = {}
        steps = []
        while True:
            c = s.cap(F, a)
            if c is not None: return a, c, off
            if a[0] == "load" and a[1][0] == "alloca":
                v = s.stored(F, a)
                if v is None: return None
                a = v
                continue
            if a[0] == "idx":
                off = ladd(off, {y: k * a[3] for y, k in lin(s.S(F, a[2])).items()})
                a = a[1]
                if a[0] == "fld":
                    n = s.member(a)
                    if n is not None: return a, {1: n}, off
                if a[0] == "arg" and a[1] < F.nparams:      # the first field of a record that is a parameter
                    f = s.first(F, a)
                    if f is not None: return ("fld", a, f["rec"], f["n"]), {1: f["sz"]}, off
            elif a[0] == "fld":
                f = s.field_(a)
                if f is None: return None
                off = ladd(off, {1: f["off"]})
                a = a[1]
            else: return None

    def field_(s, a):
        st = s.P.structs.get(a[2])
        return next((f for f in st["fields"] if f["n"] == a[3]), None) if st else None

    def stored(s, F, e):
        """the pointer a local variable whose address is known elsewhere was last set to, when only one way leads there"""
        L = F.val.get(e[2]) if len(e) > 2 else None
        if L is None: return None
        X, Q = s.B.norm(F), s.B.q(F)
        b, n = L.bb, L.pos
        seen = set()
        while b not in seen:
            seen.add(b)
            for J in reversed(F.blocks[b].ins[:n]):
                if J.op == "store" and X.o(J["ops"][1]) == e[1]: return X.o(J["ops"][0])
                if Q.killed(("load", e[1], "cur"), J): return None
            ps = [q for q in F.blocks[b].preds if not any(J.op == "call" and J.callee in NORETURN for J in F.blocks[q].ins)]
            if len(ps) != 1: return None
            b = ps[0]
            n = len(F.blocks[b].ins)
        return None

    def first(s, F, a):
        """the array that is the first field of the record a parameter points to"""
        t = re.sub(r"\b(struct|volatile|const) ", "", str(F.param_type(a[1])))
        st = s.P.structs.get(t[:-1].strip()) if t.endswith("*") and not t.endswith("**") else None
        f = st["fields"][0] if st and st["fields"] else None
        return dict(f, rec=t[:-1].strip()) if f and re.search(r"\[(\d+)\]$", str(f["ty"])) else None

    def member(s, a):
        """size of the array that is a field of a record"""
        f = s.field_(a)
        m = re.search(r"\[(\d+)\]$", str(f["ty"])) if f else None
        return f["sz"] if m and int(m.group(1)) > 1 else None

    # ---- what is known of numbers that library calls return and of fields that only count up
    def counters(s):
        """fields of records that are only ever set to constants from 0 on and to themselves and more"""
        if s.count_ is None:
            s.count_ = set()
            good, bad, rest = set(), set(), []
            for F in s.P:
                X = s.B.norm(F)
                for I in F.instrs():
                    if I.op == "store":
                        a, v = X.o(I["ops"][1]), X.o(I["ops"][0])
                        if a[0] != "fld": continue
                        l = lin(v)
                        me = [y for y in l if y != 1]
                        ok = l.get(1, 0) >= 0 and all(y[0] == "load" and y[1] == a and l[y] == 1 for y in me) and len(me) < 2
                        if not ok and len(me) == 1 and me[0][0] == "load" and me[0][1] == a and l[me[0]] == 1: rest.append((F, I, a[2:], l))
                        else: (good if ok else bad).add(a[2:])
            for F, I, k, l in rest:     # counted down, where it is known to be large enough
                if k in bad or k not in good: bad.add(k)
                elif s.B.q(F).holds(I, [("ge", fz2(s.B.q(F), l))]) is not None: bad.add(k)
            s.count_ = {k for k in good - bad if k[0] in s.P.structs and s.begun(k)}
        return s.count_

    def begun(s, k):
        """a record among the local variables has the field set before its address is given away"""
        for F in s.P:
            al = [I for I in F.instrs() if I.op == "alloca" and I.get("aty") == "%struct." + k[0]]
            if not al: continue
            X = s.ctx.ex(F)
            for A in al:
                a = ("alloca", A.id)
                st = [I for I in F.instrs() if I.op == "store" and X.o(I["ops"][1]) == ("fld", a) + k]
                for I in F.instrs():
                    if I.op == "call" and not (I.callee or "").startswith("llvm.") and any(X.o(o) == a for o in I.args):
                        if not any(F.dominates(J, I) for J in st): return False
        return True

    def extra(s, F, e):
        if e[0] == "load" and e[1][0] == "fld" and e[1][2:] in s.counters(): return [{e: 1}]
        if e[0] == "slen": return [{e: 1}]
        if e[0] == "strlen":        # the text of a string object ends at its length or before
            p = e[1]
            if p[0] != "fld" or p[2:] != ("STR", "chars"): return [{e: 1}]
            return [{e: 1}, {("load", ("fld", p[1], "STR", "len"), "cur"): 1, e: -1}, {("slen", p[1]): 1, e: -1}]
        if e[0] == "call" and e[1] in ("snprintf", "sprintf") and e[2] in F.val:
            n = s.text(F, F.val[e[2]])
            return [{e: 1}] + ([lsub(n, {e: 1})] if n is not None else [])
        return []

    def text(s, F, I):
        """longest text of a call that formats"""
        k = 1 if I.callee == "sprintf" else 2
        X = s.B.norm(F)
        f = X.o(I.args[k])
        if f[0] != "str": return None

        def sl(a):
            n = s.strlen(F, a)
            if n is not None: return lin(n)
            p = s.place(F, a)
            return ladd(lsub(p[1], p[2]), {1: -1}) if p else None
        return longest(f[1], [X.o(a) for a in I.args[k + 1:]], sl)

    def function(s, F):
        ctx, X = s.ctx, s.B.norm(F)
        for I in F.instrs():
            if I.op == "store":
                a = X.o(I["ops"][1])
                if not has(a, lambda y: isinstance(y, tuple) and len(y) == 4 and y[0] == "idx"): continue
                for J, e, le in s.ways(F, I, a, []):
                    p = s.place(F, e)
                    if p is None or s.frame(F, p[0]): continue
                    b, c, off = p
                    z = e[3] if e[0] == "idx" else 1
                    z = TYS.get(str(I.get("sty")), z)
                    ctx.count("elements written")
                    s.fits(F, J, b, c, off, {1: z}, "write", "element", I.where)
            elif I.op in ("call", "invoke") and I.callee:
                nm = I.callee.split(".p0")[0].replace("llvm.", "")
                for p, ln, rw in BLOCK.get(nm, ()):
                    if p >= len(I.args): continue
                    lns = ln if isinstance(ln, tuple) else (ln,)
                    for J, pe, le in s.ways(F, I, X.o(I.args[p]), [X.o(I.args[j]) for j in lns]):
                        q = s.place(F, pe)
                        if q is None or s.frame(F, q[0]): continue
                        ctx.count("blocks written" if rw == "w" else "blocks read")
                        n = {1: 1}
                        for x in le:
                            l = lin(s.S(F, x))
                            if set(n) <= {1}: n = {a: k * n.get(1, 0) for a, k in l.items()}
                            elif set(l) <= {1}: n = {a: k * l.get(1, 0) for a, k in n.items()}
                            else: n = None; break
                        s.fits(F, J, q[0], q[1], q[2], n, "write" if rw == "w" else "read", nm, I.where)
                if nm in INOUT:
                    k, m = INOUT[nm]
                    q, l = s.place(F, X.o(I.args[k])), X.o(I.args[m])
                    if q is not None:
                        ctx.count("blocks written")
                        s.fits(F, I, q[0], q[1], q[2], s.told(F, I, l), "write", nm, I.where)
                if nm in ("strcpy", "sprintf", "strcat", "strncat", "gets"):
                    for J, pe, le in s.ways(F, I, X.o(I.args[0]), []):
                        q = s.place(F, pe)
                        if q is None: continue
                        ctx.count("texts written")
                        n = None
                        if nm == "sprintf": n = s.text(F, I)
                        elif nm == "strcpy":
                            src = X.o(I.args[1])
                            n = s.strlen(F, src)
                            n = lin(n) if n is not None else None
                            if n is None:
                                q2 = s.place(F, src)
                                if q2: n = ladd(lsub(q2[1], q2[2]), {1: -1})
                        elif nm in ("strcat", "strncat"): n = s.content(F, I, X.o(I.args[0]), True)
                        s.fits(F, J, q[0], q[1], q[2], None if n is None else ladd(n, {1: 1}), "write", nm, I.where)

    def told(s, F, I, l):
        """the number a variable at l holds when a function is called"""
        if l[0] != "alloca": return {("load", l, "cur"): 1}
        v = s.stored(F, ("load", l, I.id))
        return lin(s.S(F, v)) if v is not None else {("load", l, "cur"): 1}

    def content(s, F, I, dst, own=False):
        """longest text in a buffer before an instruction, or after it with what the instruction adds"""
        X = s.B.norm(F)
        if own:
            k = I.callee
            if k == "sprintf": return s.text(F, I)
            if k == "snprintf": return ladd(lin(s.S(F, X.o(I.args[1]))), {1: -1})
            n = s.strlen(F, X.o(I.args[1]))
            if k == "strncat" or n is None and k == "strcat":
                n = X.o(I.args[2]) if k == "strncat" else None
            if n is None: return None
            n = lin(s.S(F, n))
            if k == "strcpy": return n
            b = s.content(F, I, dst)
            return None if b is None else ladd(b, n)
        b, n = I.bb, I.pos
        seen = set()
        while b not in seen:
            seen.add(b)
            for J in reversed(F.blocks[b].ins[:n]):
                if J.op == "store":
                    a = X.o(J["ops"][1])
                    if root(a) == root(dst):
                        if a in (dst, ("idx", dst, ("c", 0), 1)) and X.o(J["ops"][0]) == ("c", 0): return {}
                        return None
                if J.op == "call" and J.callee and not J.callee.startswith("llvm.lifetime") and any(root(X.o(a)) == root(dst) for a in J.args):
                    if J.callee in ("strcpy", "strcat", "strncat", "sprintf", "snprintf") and X.o(J.args[0]) == dst and \
                       not any(root(X.o(a)) == root(dst) for a in J.args[1:]): return s.content(F, J, dst, True)
                    if J.callee not in ("strlen", "printf", "puts", "strchr", "strcmp"): return None
            ps = [q for q in F.blocks[b].preds if not any(J.op == "call" and J.callee in NORETURN for J in F.blocks[q].ins)]
            if len(ps) != 1: return None
            b = ps[0]
            n = len(F.blocks[b].ins)
        return None

    # ---- lists that called functions append to, one element at a time
    def appender(s, F):
        """[(list parameter, counter parameter, size of an element)] of a function that appends to a list of its caller"""
        X = s.B.norm(F)
        out = {}
        inc = {}
        for I in F.instrs():
            if I.op != "store": continue
            a, v = X.o(I["ops"][1]), X.o(I["ops"][0])
            if a[0] == "arg": inc.setdefault(a[1], []).append((I, lin(v)))
            i = None
            while a[0] in ("idx", "fld"):
                if a[0] == "idx" and a[1][0] == "arg": i = a
                a = a[1]
            if i is not None and i[2][0] == "load" and i[2][1][0] == "arg":
                out.setdefault((i[1][1], i[2][1][1], i[3]), []).append(i[2])
        res = []
        for (k, m, z), ls in out.items():
            st = inc.get(m, ())
            if not st: continue
            one = all({(y[:2] if y != 1 else 1): c for y, c in l.items()} == {("load", ("arg", m)): 1, 1: 1} for J, l in st)
            ok = one and not any(s.leads(F, J, K) for J, l in st for K, l2 in st) and \
                not any(s.leads(F, J, F.val[e[2]]) for J, l in st for e in ls if len(e) > 2 and e[2] in F.val)
            res.append((k, m, z, ok))
        return res

    def leads(s, F, I, J, within=None, not_=None):
        """control can get from after I to J"""
        if I.bb == J.bb and J.pos > I.pos: return True
        todo, seen = list(F.blocks[I.bb].succs), set()
        while todo:
            b = todo.pop()
            if b in seen or b == not_ or within is not None and b not in within: continue
            seen.add(b)
            if b == J.bb: return True
            todo += F.blocks[b].succs
        return False

    def appends(s):
        app = {F.name: (F, s.appender(F)) for F in s.P if F.unit not in SKIP}
        app = {n: v for n, v in app.items() if v[1]}
        for n, (F, r) in sorted(app.items()):
            if all(x[3] for x in r): continue
            app[n] = (F, [x[:3] + (False,) for x in r])
        for F in s.P:
            if F.unit in SKIP: continue
            X = s.B.norm(F)
            at = {}
            for I in F.instrs():
                if I.op != "call" or (I.callee or "").startswith("llvm."): continue
                if I.callee is None: cs = [(G, r) for G, r in app.values() if G.name in s.B.taken and G.nparams == len(I.args)]
                else:
                    T = s.P.resolve(F, I.callee)
                    cs = [app[T.name]] if T is not None and T.name in app else []
                for G, r in cs:
                    for k, m, z, ok in r:
                        b, c = X.o(I.args[k]), X.o(I.args[m])
                        if c[0] != "alloca" or b[0] == "load" and not b[1][0] == "alloca": continue
                        p = s.place(F, b)
                        if p is None: continue
                        at.setdefault((p[0], c), {}).setdefault(I.id, (I, p, z, []))[3].append((G.name, ok))
            for (b, c), sites in sorted(at.items(), key=str): s.appended(F, X, b, c, list(sites.values()))

    def appended(s, F, X, b, c, sites):
        s.ctx.count("lists appended to")
        f = "%s.%s" % (b[2], b[3]) if b[0] == "fld" else s.name(F, b)
        key = "%s|appends to %s" % (F.name, f)
        where = sites[0][0].where
        for I, p, z, gs in sites:
            for n, ok in gs:
                if not ok: s.ctx.report(key + "|" + n, I.where, "%s may append more than one element to %s" % (n, f)); return
        st = [J for J in F.instrs() if J.op == "store" and X.o(J["ops"][1]) == c]
        loops = [(h, B) for h, B in loops_of(F) if all(I.bb in B for I, p, z, gs in sites)]
        if not loops:
            if len(sites) == 1: s.prove(F, sites[0][0], [("ge", lsub(sites[0][1][1], {1: sites[0][2]}))], "an element is appended to %s" % f, key, where)
            return
        h, B = min(loops, key=lambda x: len(x[1]))
        if not st or any(X.o(J["ops"][0]) != ("c", 0) or J.bb in B for J in st):
            s.ctx.report(key + "|counter", where, "the number of elements of %s is not counted from 0" % f); return
        for I, p, z, gs in sites:
            for K, p2, z2, g2 in sites:
                if s.leads(F, I, K, B, h): s.ctx.report(key + "|twice", I.where, "more than one element may be appended to %s in one round of a loop" % f); return
        vs = s.rounds(F, X, h, B)
        for I, p, z, gs in sites:
            goals = [("ge", lsub(lsub(p[1], {v: z}), {1: z})) for J, v in vs if J is None or F.dominates(J, I)]
            s.prove(F, I, goals or [("ge", {1: -1})], "an element is appended to %s in every round: there may be more than it has room for" % f, key + "|high", I.where)

    def rounds(s, F, X, h, B):
        """variables that count the rounds of a loop, or more"""
        out = []
        latch = [q for q in F.blocks[h].preds if q in B]
        for V in F.blocks[h].ins:
            if V.op != "phi": continue
            ok = True
            for q, o in V["in"]:
                l = lin(X.o(o))
                if q in B: ok &= set(l) == {1, ("phi", V.id)} and l[("phi", V.id)] == 1 and l[1] >= 1
                else: ok &= set(l) <= {1} and l.get(1, 0) >= 0
            if ok: out.append((None, ("phi", V.id)))
        for V in F.instrs():
            if V.op != "alloca": continue
            a = ("alloca", V.id)
            st = [J for J in F.instrs() if J.op == "store" and X.o(J["ops"][1]) == a]

            def up(l, arg): return {(y[:2] if y != 1 else 1): k for y, k in l.items() if y != 1} == {("load", arg): 1} and l.get(1, 0) >= 1
            if not st or not all(up(lin(X.o(J["ops"][0])), a) or J.bb not in B and set(lin(X.o(J["ops"][0]))) <= {1} and lin(X.o(J["ops"][0])).get(1, 0) >= 0 for J in st): continue
            if not all(any(J.bb in B and F.dominates(J, F.blocks[q].ins[-1]) for J in st) for q in latch): continue
            ok = True
            for J in F.instrs():
                if J.op != "call" or J.bb not in B or (J.callee or "").startswith("llvm."): continue
                for k, o in enumerate(J.args):
                    if X.o(o) != a: continue
                    T = s.P.resolve(F, J.callee) if J.callee else None
                    for G in [T] if T is not None else [G for G in s.P if G.name in s.B.taken and G.nparams == len(J.args) and J.callee is None]:
                        Y = s.B.norm(G)
                        ok &= all(up(lin(Y.o(K["ops"][0])), ("arg", k)) for K in G.instrs() if K.op == "store" and Y.o(K["ops"][1]) == ("arg", k))
            if ok: out += [(J, X.o({"v": J.id})) for J in F.instrs() if J.op == "load" and J.bb in B and X.o(J["ops"][0]) == a]
        return out

    def frame(s, F, b):
        """an array of values of the program: a frame of the interpreter"""
        return b[0] == "alloca" and str(F.val[b[1]].get("vty", "")).replace("volatile ", "").startswith(("PN[", "PN "))

    def ways(s, F, I, e, le, deep=0):
        if e[0] == "select": return s.ways(F, I, e[2], le, deep + 1) + s.ways(F, I, e[3], le, deep + 1) if deep < 4 else [(I, e, le)]
        if e[0] != "phi" or deep > 4 or F.val[e[1]].get("ty") != "ptr": return [(I, e, le)]
        X = s.B.norm(F)
        p = F.val[e[1]]
        at = {q.id: q for q in F.blocks[p.bb].ins if q.op == "phi"}
        out = []
        for b, o in p["in"]:
            v = X.o(o)
            if v == e: continue
            T = F.blocks[b].ins[-1]
            m = []
            for y in le:
                q = at.get(y[1]) if y[0] == "phi" else None
                m.append(X.o(next(w for c, w in q["in"] if c == b)) if q is not None else s.sooner(F, p, y))
            out += s.ways(F, T, v, m, deep + 1)
        return out

    def fits(s, F, I, b, c, off, n, rw, what, where):
        f = "%s.%s" % (b[2], b[3]) if b[0] == "fld" else s.name(F, b)
        key = "%s|%s %s" % (F.name, what, f)
        txt = "%s %s %s from byte %s on" % (what, "reads" if rw == "read" else "writes to", f, shown(s, F, off))
        if n is None:
            s.ctx.report(key + "|unbounded", where, txt + " without a bound"); return
        s.prove(F, I, [("ge", off)], txt + ": the start may be negative", key + "|low", where)
        if what != "element": s.prove(F, I, [("ge", n)], txt + ": the number of bytes may be negative", key + "|size", where)
        s.prove(F, I, [("ge", lsub(lsub(c, off), n))], txt + ": it may run beyond the end", key + "|high", where)

    def name(s, F, b):
        if b[0] == "alloca": return F.val[b[1]].get("var") or "array"
        return F.val[b[2]].get("var") or b[1]

    def sizes(s): pass


def loops_of(F):
    return [(h, set(B)) for h, B in natural_loops(F).items()]


def root(a):
    while a[0] in ("fld", "idx"): a = a[1]
    return a


def run(ctx):
    from . import p09
    C = Buf(ctx)
    C.run(SKIP)
    C.appends()
    C.callers()
    ctx.floor("elements written", 8)
