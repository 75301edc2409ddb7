"""P07: a native method's registered signature names every argument its function reads."""
from ..core import *
from ..heap import *

RULE = ("at every place that makes a native function callable, the parameters the function (or what it passes them on to) uses beyond the "
        "interpreter, the closure and the receiver must be named by the signature given there; the signature must be one the signature "
        "grammar accepts, and a class gets each method name once")
ASSUME = ("a parameter counts as used when an instruction other than passing it to a function that ignores it reads it",)

ARG = re.compile(r"^(?:[-\\*])?[^\W\d]\w*\??(?:=[NBIDS&oTaubnsFPlkftxrcdm]|:=\S+)?$")


def sig_args(sg):
    """argument names of a signature text, or None when it is not one"""
    if sg in (None, ""): return []
    parts = re.split(r"[.](?![.])", sg)[0] if "..." not in sg else sg.replace("...", "")
    halves = parts.split("|")
    if len(halves) > 2: return None
    out = []
    for i, h in enumerate(halves):
        h = h.strip()
        if not h:
            if i == 0 and len(halves) == 2: continue
            return None
        for a in h.split(","):
            if not ARG.match(a.strip()): return None
            out.append(a.strip())
    return out


def uses(ctx):
    """function -> indices of the parameters something reads (passing one on to a function that ignores it is no use)"""
    P = ctx.P
    direct, passed = {}, {}
    for F in P:
        par = {p: k for k, p in enumerate(F.params)}
        d, ps = set(), []
        for I in F.instrs():
            skip = []
            if I.op in ("call", "invoke", "callbr") and I.callee:
                C = P.resolve(F, I.callee)
                if C is not None and len(C.params) >= len(I.args):
                    for k, a in enumerate(I.args):
                        if a.keys() == {"v"} and a["v"] in par:
                            skip.append(a); ps.append((par[a["v"]], C.name, k))
            d |= values(I.d, par, skip)
        direct[F.name], passed[F.name] = d, ps
    ch = True
    while ch:
        ch = False
        for f, ps in passed.items():
            for k, c, j in ps:
                if k not in direct[f] and j in direct.get(c, ()): direct[f].add(k); ch = True
    return direct


def values(x, par, skip):
    if isinstance(x, dict):
        if any(x is a for a in skip): return set()
        if x.keys() == {"v"}: return {par[x["v"]]} if x["v"] in par else set()
        return set().union(*[values(y, par, skip) for y in x.values()])
    if isinstance(x, list): return set().union(*[values(y, par, skip) for y in x])
    return set()


def run(ctx):
    P = ctx.P
    used = uses(ctx)
    for fn, sg, I, F in registrations(ctx):
        if sg == "?":
            ctx.count("closures whose signature comes from the program"); continue
        T = P.resolve(F, fn)
        ctx.count("native registrations")
        args = sig_args(sg)
        if args is None:
            ctx.report("%s|signature %s" % (fn, sg), I.where, "%s registers %s with %r, which is not a signature" % (F.name, fn, sg)); continue
        names = [re.match(r"[-\\*]?([^\W\d]\w*\??)", a).group(1) for a in args]
        for n in {n for n in names if names.count(n) > 1}:
            ctx.report("%s|argument %s twice" % (fn, n), I.where, "the signature %r given to %s names %s twice" % (sg, fn, n))
        if T is None: continue
        for k in sorted(used.get(T.name, ())):
            if k < 3: continue
            ctx.count("arguments read by native methods")
            if k - 3 >= len(args):
                ctx.report("%s|argument %d" % (fn, k - 2), I.where,
                           "%s reads its argument %d, but the signature %s it is registered with in %s does not name it" % (
                               fn, k - 2, repr(sg) if sg else "(none)", F.name))
    seen = {}
    for m in methods(ctx):
        if m["name"] is None or m["rcv"] is None: continue
        ctx.count("named methods")
        key = (str(m["rcv"]), m["name"], m["F"].name if isinstance(m["rcv"], tuple) and m["rcv"][0] == "var" else "")
        o = seen.setdefault(key, m)
        if o is not m and o["fn"] != m["fn"]:
            ctx.report("%s %s|twice" % (key[0], m["name"]), m["I"].where, "the method %r is registered twice on the same class, as %s and as %s: the first is lost" % (
                m["name"], o["fn"], m["fn"]))
    ctx.floor("native registrations", 200); ctx.floor("arguments read by native methods", 150); ctx.floor("named methods", 200)
