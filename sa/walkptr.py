"""A pointer that walks over one object is the object's address and a counter: rewritten that way, so that what is known about
counters is known about it."""
from .ir import Instr


def walkers(F):
    """[(root operand, element size, phis, steps)]: phis of addresses all of which are the root plus a multiple of the element size"""
    def step(v):
        I = F.val.get(v)
        if I is not None and I.op == "getelementptr" and len(I["path"]) == 1 and "ix" in I["path"][0] and I["path"][0].get("sz"): return I
        return None
    done = set()
    out = []
    for B in F.blocks.values():
        for J in B.ins:
            if J.op != "phi" or J.get("ty") != "ptr" or J.id in done: continue
            phis, steps, roots, sz = {}, {}, set(), set()
            todo = [{"v": J.id}]
            ok = True
            cyc = False
            while todo:
                o = todo.pop()
                v = o.get("v")
                if v is None or v not in F.val: roots.add(("v", v) if v is not None else None); continue
                I = F.val[v]
                if I.op == "phi":
                    if v in phis: cyc = True; continue
                    phis[v] = I
                    todo += [x[1] for x in I["in"]]
                elif step(v) is not None:
                    if v in steps: continue
                    steps[v] = I
                    sz.add(I["path"][0]["sz"])
                    todo.append(I["base"])
                else: roots.add(("v", v))
            done |= set(phis)
            if len(roots) != 1 or None in roots or len(sz) != 1 or not cyc or not steps: continue
            (_, r), = roots
            if r in F.val:
                R = F.val[r]
                if not all(R.bb in F.dom().get(p.bb, ()) for p in phis.values()): continue
            out.append(({"v": r}, sz.pop(), phis, steps))
    return out


def index_pointers(P):
    n = 0
    for F in P:
        w = walkers(F)
        if not w: continue
        top = max(list(F.val) + list(F.params) + [0]) + 1
        for root, sz, phis, steps in w:
            off = {}
            for v in list(phis) + list(steps):
                off[v] = top; top += 1

            def o(x):
                if x.get("v") == root["v"]: return {"c": 0, "w": 64}
                return {"v": off[x["v"]]}
            new = {}
            t = next(iter(steps.values()))["path"][0].get("t")
            for v, I in phis.items():
                d = {"i": off[v], "op": "phi", "ty": "i64", "in": [[b, o(x)] for b, x in I["in"]]}
                if "l" in I.d: d["l"] = I.d["l"]
                g = dict(I.d)
                for k in ("in",): g.pop(k)
                g.update({"op": "getelementptr", "base": root, "path": [{"ix": {"v": off[v]}, "sz": sz, "t": t}], "ty": "ptr"})
                new[v] = (d, g)
            for v, I in steps.items():
                d = {"i": off[v], "op": "add", "ty": "i64", "ops": [o(I["base"]), I["path"][0]["ix"]]}
                if "l" in I.d: d["l"] = I.d["l"]
                g = dict(I.d)
                g.pop("coff", None)
                g.update({"base": root, "path": [dict(I["path"][0], ix={"v": off[v]})]})
                new[v] = (d, g)
            for B in F.blocks.values():
                if not any(I.id in new for I in B.ins): continue
                head, late, rest = [], [], []
                for I in B.ins:
                    if I.op == "phi":
                        if I.id in new:
                            d, g = new[I.id]
                            head.append(Instr(d, B.id, 0, F)); late.append(Instr(g, B.id, 0, F))
                        else: head.append(I)
                    elif I.id in new:
                        d, g = new[I.id]
                        rest += [Instr(d, B.id, 0, F), Instr(g, B.id, 0, F)]
                    else: rest.append(I)
                B.ins = head + late + rest
                for i, I in enumerate(B.ins):
                    I.pos = i
                    F.val[I.id] = I
            n += 1
        F._uses = None
    return n
