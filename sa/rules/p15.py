"""P15: failures of system and library calls are noticed before the result is used."""
from ..core import *
from ..core import NORETURN
from ..heap import value_leaves
from ..facts import Query, ladd, lneg, fz, has
from ..ir import strip_ids

RULE = ("every call of a library function that reports failure by its result (a null pointer, a negative number, MAP_FAILED, or -1 with the "
        "output left unset) is followed: wherever the result is used as what it promises (dereferenced, passed to a library function that "
        "needs it, used as a descriptor or length, or handed to a function that does one of these unconditionally) every path from the call must "
        "have excluded the failure value; a function that passes such a result on unchecked is itself such a function for its callers; the status "
        "of an event-loop call is not dropped")
ASSUME = ("the list of library functions and of the parameters they need non-null is the C library's documentation",)

# result null on failure
NULLS = {"malloc", "calloc", "realloc", "strdup", "fopen", "fdopen", "freopen", "tmpfile", "fmemopen", "dlopen", "dlsym", "opendir", "getenv",
         "strchr", "strrchr", "memchr", "strstr", "popen", "fgets", "readdir", "linenoise", "strerror_r"} - {"strerror_r"}
# result negative on failure, a descriptor otherwise
NEGS = {"open", "dup", "fileno", "socket", "creat"}
# failure leaves the output argument unset: (argument, test of the result)
OUTS = {"asprintf": 0, "vasprintf": 0}
FAILED = {"mmap": -1}
# library functions: arguments that may be null
NULLOK = {"free": {0}, "realloc": {0}, "freopen": {0}, "strtod": {1}, "strtol": {1}, "fflush": {0}, "dlopen": {0}, "dlsym": {0}, "sqlite3_exec": {2, 3, 4},
          "sqlite3_free": {0}, "printf": set(), "setvbuf": {1}, "uv_fs_open": {0}, "fwrite": set()}
# calls whose only answer is whether they succeeded
STATUS = {"unlink", "remove", "rename", "truncate", "ftruncate", "fwrite", "fread", "read", "stat", "fstat", "lstat", "mkdir", "rmdir", "fseek", "dup2", "fcntl",
          "pipe", "fclose", "mprotect", "chdir", "chmod"}
FD = {"read": 0, "write": 0, "close": 0, "fcntl": 0, "ioctl": 0, "fstat": 0, "fdopen": 0, "lseek": 0, "mmap": 4, "isatty": 0}


class Fail:
    def __init__(s, ctx):
        s.ctx, s.P = ctx, ctx.P
        s.src = {}          # (function) -> kind, for functions that hand a result on
        s.need = {}         # (function, param, kind) -> where it is used unchecked
        s.qs = {}

    def q(s, F):
        if F.name not in s.qs: s.qs[F.name] = Query(s.ctx, F)
        return s.qs[F.name]

    def kind(s, F, I):
        """(kind, expression of the result) of a call"""
        if I.op != "call" or not I.callee: return None
        T = s.P.resolve(F, I.callee)
        r = ("call", I.callee, I.id)
        if T is not None: return (s.src[T.name], r) if T.name in s.src else None
        if I.callee in NULLS: return ("null", r)
        if I.callee in NEGS: return ("neg", r)
        if I.callee in FAILED: return ("failed", r)
        return None

    def excluded(s, F, I, e, kind):
        Q = s.q(F)
        s.ctx.count("path queries")
        l = {Q.canon(e): 1}
        goals = {"null": [("ne", l)], "neg": [("ge", l), ("ne", ladd(l, {1: 1}))], "failed": [("ne", ladd(l, {1: 1}))]}[kind]
        if len(F.blocks) > 300: return s.dominated(F, I, e, kind)
        return Q.holds(I, goals) is None

    def dominated(s, F, I, e, kind):
        Q = s.q(F)
        se = Q.canon(e)
        for b, B in F.blocks.items():
            for p in B.preds:
                if len(B.preds) == 1 and b in F.dom()[I.bb] | {I.bb}:
                    for alt in Q.edge(p, b):
                        if any(k == "ne" and dict(l) in ({se: 1}, {se: -1}) for k, l in alt): return True
        return False

    def uses(s, F, pred, kind):
        """(instruction, value, how) for the uses of values satisfying pred as what they promise"""
        X = s.ctx.ex(F)
        for I in F.instrs():
            r = s.use1(F, X, I, pred, kind)
            if r: yield (I,) + r

    def use(s, F, X, I, vals, kind): return s.use1(F, X, I, lambda v: v in vals, kind) if vals else None

    def use1(s, F, X, I, pred, kind):
        if I.op in ("load", "store") and kind != "neg":
            a = X.o(I["ops"][0 if I.op == "load" else 1])
            b = base(a)
            if pred(b): return b, "is read or written through"
        elif I.op == "call":
            T = s.P.resolve(F, I.callee) if I.callee else None
            for k, o in enumerate(I.args):
                a = X.o(o)
                b = base(a) if kind != "neg" else a
                if not pred(b): continue
                if T is not None:
                    if (T.name, k, kind) in s.need: return b, "is used by %s" % T.name
                elif not I.callee: pass
                elif I.callee.startswith("llvm."):
                    if I.callee.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")) and k < 2 and kind != "neg": return b, "is copied through"
                elif kind == "neg":
                    if FD.get(I.callee) == k: return b, "is passed to %s as a descriptor" % I.callee
                elif k not in NULLOK.get(I.callee, ()): return b, "is passed to %s" % I.callee
            if not I.callee and "callee" in I.d and kind == "null" and pred(X.o(I["callee"])): return X.o(I["callee"]), "is called"
        return None


def base(a):
    while a[0] in ("idx", "fld"): a = a[1]
    if a[0] == "bin" and a[1] == "add": return base(a[2])
    return a


def run(ctx):
    P = ctx.P
    K = Fail(ctx)
    skip = lambda F: False
    # what functions do with their parameters unconditionally
    ch = True
    cand = [F for F in P if F.nparams]
    while ch:
        ch = False
        for F in cand:
            X = ctx.ex(F)
            for kind in ("null", "neg"):
                todo = {k for k in range(F.nparams) if (F.name, k, kind) not in K.need and rawparam(F, k, kind)}
                if not todo: continue
                for I, b, how in K.uses(F, lambda e: e[0] == "arg" and e[1] in todo, kind):
                    k = b[1]
                    if (F.name, k, kind) in K.need: continue
                    if not K.excluded(F, I, b, kind): K.need[(F.name, k, kind)] = (I.where, how); ch = True
    # functions that hand on a result unchecked
    ch = True
    while ch:
        ch = False
        for F in P:
            if F.name in K.src: continue
            X = ctx.ex(F)
            for I in F.instrs():
                r = K.kind(F, I)
                if r is None: continue
                kind, e = r
                for J in F.instrs():
                    if J.op != "ret" or not J["ops"] or F.ditypes[0] in ("PN",): continue
                    v = X.o(J["ops"][0])
                    ls = value_leaves(F, X, v)
                    if e not in ls: continue
                    if ("c", 0) in ls and kind in ("null", "failed"): K.src[F.name] = "null"; ch = True
                    elif not K.excluded(F, J, v, kind): K.src[F.name] = kind; ch = True
    for f in K.src: ctx.count("functions that hand on a result that may be a failure")
    for F in P:
        X = ctx.ex(F)
        for I in F.instrs():
            if I.op != "call" or not I.callee: continue
            if P.resolve(F, I.callee) is None and (I.callee.startswith(("uv_", "sqlite3_")) and I.get("ty") == "i32" or I.callee in STATUS): status(ctx, F, X, I)
            if I.callee in OUTS and P.resolve(F, I.callee) is None: follow(ctx, K, F, X, I, "out", ("call", I.callee, I.id))
            r = K.kind(F, I)
            if r is not None: follow(ctx, K, F, X, I, *r)
    ctx.floor("calls that may fail", 25); ctx.floor("branches that exclude a failure", 15)


def rawparam(F, k, kind):
    t = F.param_type(k) or ""
    if kind == "neg": return t in ("int", "pn_fd")
    return t.endswith("*") and not any(x in t for x in ("Potion", "PN", "struct PN", "PNAsm", "GREG", "vPN")) or t in ("FILE*",)


def follow(ctx, K, F, X, I, kind, e):
    """walk forward from call I with the values that are its result, until its failure is excluded or it is used"""
    ctx.count("calls that may fail")
    Q = K.q(F)
    out = X.o(I.args[OUTS[I.callee]]) if kind == "out" else None
    said = set()
    first = (frozenset([e]), frozenset([strip_ids(("load", out, 0))] if out else []), False)
    k0 = F.blocks[I.bb].ins.index(I) + 1
    work, seen = [(I.bb, k0, first)], set()
    while work:
        b, k, (vals, slots, tested) = work.pop()
        if (b, k, vals, slots, tested) in seen: continue
        seen.add((b, k, vals, slots, tested))
        dead = False
        for J in F.blocks[b].ins[k:]:
            if J.op == "phi": continue
            if J is I or J.get("noret") or J.op == "call" and J.callee in NORETURN: dead = True; break
            texts = frozenset(v for v in vals if kind == "out" and v != e)
            if J.op == "load":
                x = ("load", X.o(J["ops"][0]), J.id)
                if strip_ids(("load", x[1], 0)) in slots: vals = vals | {x}
            how = K.use(F, X, J, texts if kind == "out" else vals, "null" if kind == "out" else kind)
            if how:
                v, how = how
                if how not in said and not K.excluded(F, J, e if kind == "out" else v, "neg" if kind == "out" else kind):
                    said.add(how)
                    ctx.report("%s|%s %s" % (F.name, I.callee, how), J.where, "in %s the result of %s %s before its failure is excluded" % (F.name, I.callee, how))
            if J.op == "ret" and kind == "null" and not tested:
                for a in slots:
                    if not local(F, a[1]) and "kept" not in said:
                        said.add("kept")
                        ctx.report("%s|%s is kept" % (F.name, I.callee), J.where, "%s returns with the result of %s kept for later use, its failure not excluded" % (F.name, I.callee))
            if J.op == "store":
                a = strip_ids(("load", X.o(J["ops"][1]), 0))
                v = X.o(J["ops"][0])
                slots = slots | {a} if v in vals and kind != "out" else slots - {a}
            elif J.op == "call" and J.callee in OUTS:
                slots = slots - {strip_ids(("load", X.o(J.args[OUTS[J.callee]]), 0))}
        if dead: continue
        for c in F.blocks[b].succs:
            alts = Q.edge(b, c)
            if excludes(Q, alts, vals, kind, e): ctx.count("branches that exclude a failure"); continue
            v2 = set(vals)
            for J in F.blocks[c].ins:
                if J.op != "phi": break
                for p, o in J["in"]:
                    if p != b: continue
                    if X.o(o) in vals: v2.add(("phi", J.id))
                    else: v2.discard(("phi", J.id))
            if v2 or slots: work.append((c, 0, (frozenset(v2), slots, tested or mentions(Q, alts, vals))))


def mentions(Q, alts, vals):
    forms = {Q.canon(v) for v in vals}
    return any(x in forms for alt in alts for k, l in alt for x, m in dict(l).items())


def local(F, a):
    a = base(a)
    return a[0] == "op" and a[1] == "alloca" or a[0] == "alloca"


def excludes(Q, alts, vals, kind, e):
    """does every alternative of the facts of an edge rule out that the values are the failure"""
    fail = {"null": 0, "neg": -1, "out": -1, "failed": -1}[kind]
    forms = {Q.canon(v) for v in vals}
    if kind == "out": forms = {Q.canon(v) for v in vals if v[0] != "load"}

    def rules_out(f):
        k, l = f[0], dict(f[1])
        c = l.pop(1, 0)
        if len(l) != 1: return False
        (x, m), = l.items()
        if k == "eq" and x[0] == "call" and x[1] == "dlerror" and kind == "null" and not c: return True
        if x not in forms or m not in (1, -1): return False
        at = m * fail + c               # what the form is on failure
        return {"ne": at == 0, "eq": at != 0, "ge": at < 0}.get(k, False)
    return bool(alts) and all(any(rules_out(f) for f in alt) for alt in alts)


def status(ctx, F, X, I):
    if any(x in I.callee for x in ("_cleanup", "uv_fs_req")): return
    if I.callee == "fclose" and not written(F, X, X.o(I.args[0])): return
    if I.callee == "sqlite3_close" and X.o(I.args[0])[0] == "load" and local(F, X.o(I.args[0])[1]): return     # failed to open
    ctx.count("status results")
    if not any(has_use(J.d, I.id) for J in F.instrs() if J is not I):
        ctx.report("%s|%s dropped" % (F.name, I.callee), I.where, "%s drops the status of %s" % (F.name, I.callee))


def written(F, X, e):
    """is the stream opened here, for writing: its last write happens when it is closed"""
    for v in value_leaves(F, X, e):
        if v[0] == "call" and v[1] in ("fopen", "fdopen", "freopen"):
            m = X.o(F.val[v[2]].args[1])
            if m[0] == "str" and any(c in m[1] for c in "wa+"): return True
    return False


def has_use(x, i):
    if isinstance(x, dict):
        if x.keys() == {"v"}: return x["v"] == i
        return any(has_use(y, i) for y in x.values())
    if isinstance(x, list): return any(has_use(y, i) for y in x)
    return False
