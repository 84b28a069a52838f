"""Plays a history of list operations on one of FESTIM's typed lists."""
import festim as F


def objects(kind):
    mat = lambda i: F.Material(id=i, D_0=1, E_D=0)
    trap = lambda i: F.Trap(k_0=1, E_k=0, p_0=1, E_p=0, density=i, materials="m")
    dq = lambda i: [F.TotalVolume("solute", i), F.SurfaceFlux("T", i), F.PointValue(0, i), F.HydrogenFlux(i),
                    F.AverageSurface("1", i), F.MaximumVolume("retention", i)][i % 6]
    ex = lambda i: [F.XDMFExport("solute", filename="e%d.xdmf" % i), F.TXTExport("T", filename="e%d.txt" % i),
                    F.DerivedQuantities([]) if i == 5 else F.TrapDensityXDMF(trap=trap(1), filename="e%d.xdmf" % i)][i % 3]
    mk = dict(materials=mat, traps=trap, derived=dq, exports=ex)
    good = {i: mk[kind](i) for i in range(1, 7)}
    other = {"materials": trap(1), "traps": mat(1), "derived": mat(1), "exports": mat(1)}[kind]
    return good, {-1: "coucou", -2: None, -3: other, -4: 3}


CLS = dict(materials="Materials", traps="Traps", exports="Exports", derived="DerivedQuantities")


def execute(case, rec):
    kind = case["kind"]
    cls = getattr(F, CLS[kind])
    good, bad = objects(kind)
    val = {**good, **bad}
    back = {id(v): k for k, v in val.items()}
    sim = F.Simulation(log_level=50)
    box = {"c": cls()}
    if kind != "derived":
        setattr(sim, kind, box["c"])

    def cur():
        c = box["c"] if kind == "derived" else getattr(sim, kind)
        return c

    def put(c):
        if kind == "derived":
            box["c"] = c
        else:
            setattr(sim, kind, c)

    def give(op):
        xs = [val[x] for x in op["xs"]]
        return {"list": lambda: xs, "tuple": lambda: tuple(xs), "gen": lambda: (x for x in xs), "same": lambda: cls(xs),
                "one": lambda: xs[0], "none": lambda: None, "str": lambda: "coucou", "self": cur}[op["as"]]()
    for op in case["ops"]:
        e = dict(op)
        c = cur()
        if c is None:
            c = []
        try:
            k = op["op"]
            if k == "append":
                c.append(val[op["xs"][0]])
            elif k == "insert":
                c.insert(op["i"], val[op["xs"][0]])
            elif k == "set":
                c[op["i"]] = val[op["xs"][0]]
            elif k == "extend":
                c.extend(give(op))
            elif k == "iadd":
                c += give(op)
            elif k == "pop":
                c.pop(op["i"])
            elif k == "reverse":
                c.reverse()
            elif k == "clear":
                c.clear()
            elif k == "new":
                put(cls() if op["as"] == "none" else cls(give(op)))
            else:
                v = give(op)
                put(cls([]) if v is None and kind == "materials" else v)
            e["res"] = "ok"
        except Exception as x:
            e["res"] = type(x).__name__
        c = cur()
        e["typed"] = int(type(c) is cls)
        e["s"] = [back.get(id(x), -9) for x in c]
        rec["events"].append(e)
    rec["end"] = "ok"
