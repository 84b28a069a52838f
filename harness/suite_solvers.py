"""Edits solver parameters and solvers of a simulation, initialises and runs it,
recording with what solver each nonlinear problem is solved."""
import math
import fenics as f
import festim as F


def par(p):
    return dict(absolute_tolerance=10.0 ** -(8 + p["abs"]), relative_tolerance=10.0 ** -(9 + p["rel"]), maximum_iterations=p["its"],
                linear_solver=None if p["lin"] == "default" else p["lin"], preconditioner=p["pre"])


def read(solver):
    q = solver.parameters
    lin = q["linear_solver"]
    return dict(abs=int(round(-math.log10(q["absolute_tolerance"]))) - 8, rel=int(round(-math.log10(q["relative_tolerance"]))) - 9,
                its=int(q["maximum_iterations"]), lin=lin if lin else "default", pre=q["preconditioner"] or "default")


def custom(p, j):
    s = f.NewtonSolver(f.MPI.comm_world)
    s.parameters["error_on_nonconvergence"] = False
    for k, v in par(p).items():
        if v is not None:
            s.parameters[k] = v
    return s


def heat(c, p):
    kw = dict(initial_condition=400) if c["heat"] == "transient" else {}
    return F.HeatTransferProblem(transient=c["heat"] == "transient", **kw, **par(p))


def trap(i, p):
    if i == 1:
        return F.ExtrinsicTrap(k_0=1, E_k=0, p_0=1, E_p=0, materials="m", phi_0=1, n_amax=2, n_bmax=1, eta_a=1, eta_b=2, f_a=0.5, f_b=0.25, **par(p))
    return F.NeutronInducedTrap(k_0=1, E_k=0, p_0=1, E_p=0, materials="m", phi=1, K=1, n_max=2, A_0=1, E_A=0, **par(p))


def settings(c, p):
    return F.Settings(transient=c["transient"], final_time=0.2 if c["transient"] else None, **par(p))


def execute(case, rec):
    c = case["c"]
    s = F.Simulation(log_level=50)
    s.mesh = F.MeshFromVertices([0, 0.25, 0.5, 0.75, 1])
    kw = {} if c["heat"] == "none" else dict(thermal_cond=lambda T: 1 + T / 1000)
    if c["heat"] == "transient":
        kw.update(heat_capacity=1, rho=1)
    s.materials = F.Material(id=1, D_0=1, E_D=0, name="m", **kw)
    s.T = F.Temperature(400) if c["heat"] == "none" else heat(c, c["par"]["T"])
    s.traps = [trap(i, c["par"]["e%d" % i]) for i in range(1, c["ntrap"] + 1)]
    s.boundary_conditions = [F.DirichletBC(surfaces=1, value=1, field=0), F.RecombinationFlux(Kr_0=1, E_Kr=0, order=2, surfaces=2)]
    if c["heat"] != "none":
        s.boundary_conditions += [F.DirichletBC(surfaces=1, value=400, field="T"), F.DirichletBC(surfaces=2, value=500, field="T")]
    if c["transient"]:
        s.dt = F.Stepsize(0.1)
    s.settings = settings(c, c["par"]["h"])
    given, log = {}, []
    orig = f.NewtonSolver.solve

    def which(x):
        ht = s.h_transport_problem
        if ht is not None and ht.u is not None and x.id() == ht.u.vector().id():
            return "h"
        if c["heat"] != "none" and s.T.T is not None and x.id() == s.T.T.vector().id():
            return "T"
        for i, t in enumerate(s.traps, 1):
            if t.density and isinstance(t.density[0], f.Function) and x.id() == t.density[0].vector().id():
                return "e%d" % i
        return "other"

    def solve(self, problem, x):
        r = {"p": which(x), "own": next((j for j, g in given.items() if g is self), 0), "par": read(self)}
        if r not in log:
            log.append(r)
        return orig(self, problem, x)
    f.NewtonSolver.solve = solve
    try:
        for op in case["ops"]:
            e = dict(op, res="ok", solves=[])
            rec["events"].append(e)
            log.clear()
            obj = {"h": s.settings, "T": s.T, "e1": s.traps[0] if c["ntrap"] > 0 else None, "e2": s.traps[1] if c["ntrap"] > 1 else None}[op["p"]]
            try:
                if op["op"] == "set":
                    if op["p"] == "h" and op["how"] == "new":
                        s.settings = settings(c, op["par"])
                    else:
                        for k, v in par(op["par"]).items():
                            setattr(obj, k, v)
                elif op["op"] == "renew":
                    if op["p"] == "h":
                        s.settings = settings(c, op["par"])
                    elif op["p"] == "T":
                        s.T = heat(c, op["par"])
                    else:
                        i = int(op["p"][1])
                        s.traps[i - 1] = trap(i, op["par"])
                elif op["op"] == "give":
                    given[op["j"]] = custom(op["par"], op["j"])
                    (s.h_transport_problem if op["p"] == "h" else obj).newton_solver = given[op["j"]]
                elif op["op"] == "init":
                    s.initialise()
                else:
                    s.run()
            except Exception as x:
                import traceback
                e["res"] = type(x).__name__
                rec["err"] = traceback.format_exc()[-600:]
            e["solves"] = list(log)
            if e["res"] != "ok":
                break
    finally:
        f.NewtonSolver.solve = orig
    rec["end"] = "ok"
