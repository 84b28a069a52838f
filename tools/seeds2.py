COMMON = '''
def sim(**kw):
    s = F.Simulation(log_level=50)
    s.mesh = kw.get("mesh") or F.MeshFromVertices(np.linspace(0, 1, 11))
    s.materials = kw.get("materials") or F.Material(id=1, D_0=1, E_D=0)
    s.T = kw.get("T") or F.Temperature(500)
    s.traps = kw.get("traps", [])
    s.sources = kw.get("sources", [])
    s.boundary_conditions = kw.get("bcs", [])
    s.initial_conditions = kw.get("ics", [])
    s.exports = kw.get("exports", [])
    tr = kw.get("transient", True)
    if tr:
        s.dt = kw.get("dt") or F.Stepsize(0.1)
    s.settings = F.Settings(1e-10, 1e-10, transient=tr, final_time=kw.get("final", 1) if tr else None, **kw.get("settings", {}))
    return s
class Probe(F.DerivedQuantity):
    def __init__(self, cb):
        super().__init__("solute"); self.cb = cb; self.title = "probe"
    def compute(self):
        self.cb(); return 0.
'''
seed("S02-cap-only-when-growing", "C03",
 [("festim/stepsize.py", "            if max_stepsize is not None:\n                if float(self.value) > max_stepsize:", "            if max_stepsize is not None and (nb_it < 5 or not converged):\n                if float(self.value) > max_stepsize:")],
 "a cap that drops with time, at a step whose solve needed five or more iterations",
 "a stepsize that shrinks because of slow convergence is not capped",
 COMMON + '''
class Solver(f.NewtonSolver):
    def __init__(self):
        super().__init__(f.MPI.comm_world)
        self.parameters["error_on_nonconvergence"] = False
    def solve(self, problem, x):
        super().solve(problem, x)
        return (6 if 7 < s.t < 9 else 2), True
rec = []
s = sim(final=40, dt=F.Stepsize(8, stepsize_change_ratio=2, dt_min=1e-3, max_stepsize=lambda t: 8 if t < 7 else 1))
s.exports = [F.DerivedQuantities([Probe(lambda: rec.append(s.t))])]
s.initialise(); s.h_transport_problem.newton_solver = Solver(); s.run()
for a, b in zip([0] + rec, rec):
    check(a < 7 or b - a <= 1 + 1e-9, "step %s -> %s exceeds the cap" % (a, b))
''')
seed("S06-solubility-frozen", "C14",
 [("festim/temperature/temperature_solver.py", "        return not self.transient\n", "        # nothing drives the temperature\n        return not self.transient or not (self.sources or self.boundary_conditions)\n")],
 "conservation of chemical potential with a transient heat problem without sources and boundary conditions, relaxing from a gradient",
 "the solubility used for post-processing and boundary fluxes stays at the initial temperature",
 COMMON + '''
m = F.Material(id=1, D_0=1, E_D=0, S_0=1., E_S=0.2, thermal_cond=1, rho=1, heat_capacity=1)
tot = F.DerivedQuantities([F.TotalVolume("solute", 1)])
s = sim(materials=m, T=F.HeatTransferProblem(transient=True, initial_condition=400 + 200 * F.x), ics=[F.InitialCondition(field=0, value=1.)], exports=[tot], settings=dict(chemical_pot=True))
s.initialise(); s.run()
for row in tot.data[1:]:
    check(abs(row[1] - 1) < 2e-2, "inventory %s" % row)
''')
seed("S07-spherical-heat-of-transport", "C15",
 [("festim/concentration/mobile.py", "                        F += (\n                            D\n                            * r\n                            * r\n                            * dot(\n                                Q * c_0 / (k_B * T.T**2)", "                        if callable(material.Q):\n                            Q = material.Q(T.T_n)\n                        F += (\n                            D\n                            * r\n                            * r\n                            * dot(\n                                Q * c_0 / (k_B * T.T**2)")],
 "spherical coordinates, Soret effect, heat of transport a function of temperature, temperature changing in time",
 "the heat of transport of the previous temperature is used in spherical coordinates",
 COMMON + '''
# a quick temperature change: compare with the same law given as a constant at the new temperature
def go(Q):
    m = F.Material(id=1, D_0=1, E_D=0, Q=Q)
    s = sim(mesh=F.MeshFromVertices(np.linspace(1, 2, 21), type="spherical"), materials=m, T=F.Temperature((400 + 100 * F.x) * (1 + F.t)), final=1, dt=F.Stepsize(1),
            bcs=[F.DirichletBC(surfaces=1, value=1, field=0), F.DirichletBC(surfaces=2, value=1, field=0)], settings=dict(soret=True))
    s.initialise(); s.run()
    return float(s.mobile.post_processing_solution(1.5))
# the law takes the value 0.5 at all temperatures of the new step, and 0 at the initial ones
a = go(lambda T: f.conditional(f.gt(T, 700), 0.5, 0.0)); b = go(0.5)
check(abs(a - b) < 1e-6, "%s %s" % (a, b))
''')
seed("S09-second-extrinsic-trap", "C19",
 [("festim/concentration/traps/traps.py", "                trap.density_previous_solution.assign(trap.density[0])", "                trap.density_previous_solution.assign(trap.density[0])\n                break")],
 "two traps with an evolving density",
 "only the first evolving density remembers its previous value: the second one never grows beyond one step",
 COMMON + '''
m = F.Material(id=1, D_0=1, E_D=0)
mk = lambda phi: F.NeutronInducedTrap(k_0=1., E_k=0, p_0=1., E_p=0, materials=m, phi=phi, K=1., n_max=20., A_0=0., E_A=0., absolute_tolerance=1e-12)
tr = [mk(1.), mk(2.)]
ns = []
s = sim(materials=m, traps=tr)
s.exports = [F.DerivedQuantities([Probe(lambda: ns.append([float(x.density[0](0.5)) for x in tr]))])]
s.initialise(); s.run()
p = [0, 0]
for n in ns:
    for i in (0, 1):
        check(abs((n[i] - p[i]) / 0.1 - (i + 1) * (1 - n[i] / 20)) < 1e-6, "density law %s -> %s" % (p, n))
    p = n
''')
seed("S13-retry-from-failed", "C04",
 [("festim/h_transport_problem.py", "            self.u.assign(u_)\n            nb_it, converged = self.solve_once()", "            nb_it, converged = self.solve_once()\n            if not converged and nb_it > 1:\n                self.u.assign(u_)")],
 "a solve that fails in its first iteration",
 "the retry starts from the diverged (non-finite) state",
 COMMON + '''
class Solver(f.NewtonSolver):
    def __init__(self):
        super().__init__(f.MPI.comm_world); self.n = 0
        self.parameters["error_on_nonconvergence"] = False
        self.parameters["maximum_iterations"] = 5
    def solve(self, problem, x):
        self.n += 1
        if self.n == 3:
            x[:] = np.full(x.local_size(), np.nan)
            return 1, False
        check(np.isfinite(x.get_local()).all(), "attempt %d starts from a state that is not finite" % self.n)
        return super().solve(problem, x)
s = sim(bcs=[F.DirichletBC(surfaces=[1, 2], value=F.t, field=0)], dt=F.Stepsize(0.1, stepsize_change_ratio=1.5, dt_min=1e-6))
s.initialise(); s.h_transport_problem.newton_solver = Solver(); s.run()
''')
seed("S14-loose-end", "C01",
 [("festim/generic_simulation.py", "        while self.t < self.settings.final_time and not np.isclose(\n            self.t, self.settings.final_time, atol=0\n        ):", "        while self.t < self.settings.final_time and not np.isclose(\n            self.t, self.settings.final_time, rtol=1e-2, atol=0\n        ):")],
 "a stepsize that leaves a last step shorter than a hundredth of final_time",
 "the run stops up to one percent before final_time",
 COMMON + '''
rec = []
s = sim(final=100, dt=F.Stepsize(33.2))
s.exports = [F.DerivedQuantities([Probe(lambda: rec.append(s.t))])]
s.initialise(); s.run()
check(abs(s.t - 100) < 1e-6, "stopped at %s" % rec)
''')
