COMMON = '''
def sim(**kw):
    s = F.Simulation(log_level=50)
    s.mesh = kw.get("mesh") or F.MeshFromVertices(np.linspace(0, 1, 11))
    s.materials = kw.get("materials") or F.Material(id=1, D_0=1, E_D=0)
    s.T = kw.get("T") or F.Temperature(500)
    s.traps = kw.get("traps", [])
    s.sources = kw.get("sources", [])
    s.boundary_conditions = kw.get("bcs", [])
    s.initial_conditions = kw.get("ics", [])
    s.exports = kw.get("exports", [])
    tr = kw.get("transient", True)
    if tr:
        s.dt = kw.get("dt") or F.Stepsize(0.1)
    s.settings = F.Settings(1e-10, 1e-10, transient=tr, final_time=kw.get("final", 1) if tr else None, **kw.get("settings", {}))
    return s
class Probe(F.DerivedQuantity):
    def __init__(self, cb):
        super().__init__("solute"); self.cb = cb; self.title = "probe"
    def compute(self):
        self.cb(); return 0.
'''
seed("S01-unsorted-txt-times", "C02",
 [("festim/generic_simulation.py", "                    self.dt.milestones.sort()\n", "")],
 "two TXTExports (or a stepsize with milestones) whose times interleave, so that appended milestones are out of order",
 "milestones appended from TXTExport.times are not sorted: a time step jumps over an earlier milestone listed after a later one",
 COMMON + '''
times = []
with tempfile.TemporaryDirectory() as d:
    s = sim(final=10, dt=F.Stepsize(3, milestones=[7]), exports=[F.DerivedQuantities([Probe(lambda: times.append(s.t))]), F.TXTExport("solute", d + "/a.txt", times=[2, 9])])
    s.initialise(); s.run()
for m in (2, 7, 9, 10):
    check(any(abs(t - m) < 1e-9 for t in times), "milestone %s missed: %s" % (m, times))
''')
seed("S02-cap-evaluated-late", "C03",
 [("festim/stepsize.py", "max_stepsize = max_stepsize(t)", "max_stepsize = max_stepsize(t + float(self.value))")],
 "a time-dependent max_stepsize that changes between the current time and the end of the next step",
 "the cap is taken at the end of the coming step instead of at the current time",
 COMMON + '''
rec = []
s = sim(final=20, dt=F.Stepsize(1, stepsize_change_ratio=2, dt_min=1e-3, max_stepsize=lambda t: 2 if t < 8 else 10))
s.exports = [F.DerivedQuantities([Probe(lambda: rec.append(s.t))])]
s.initialise(); s.run()
for a, b in zip([0] + rec, rec):
    check(a >= 8 or b - a <= 2 + 1e-9, "step %s -> %s exceeds the cap" % (a, b))
    check(not (8 <= a < 12) or b - a > 2 + 1e-9 or b == 20, "cap of a later time used at %s" % a)
''')
seed("S03-grouped-trap-density", "C09",
 [("festim/concentration/mobile.py", "                        density = trap.density[i]\n", "                        density = trap.density[min(i, 1) if i > 1 else 0]\n")],
 "a trap whose parameters are lists with a different density per material",
 "the mobile balance uses the density of another material of a grouped trap, so trapping is no longer balanced by uptake",
 COMMON + '''
m1 = F.Material(id=1, D_0=1, E_D=0, borders=[0, 0.5]); m2 = F.Material(id=2, D_0=1, E_D=0, borders=[0.5, 1])
tr = F.Trap(k_0=[1., 1.], E_k=[0, 0], p_0=[1., 1.], E_p=[0, 0], materials=[m1, m2], density=[1., 4.])
tot = F.DerivedQuantities([F.TotalVolume("retention", 1), F.TotalVolume("retention", 2)])
s = sim(materials=[m1, m2], traps=[tr], ics=[F.InitialCondition(field=0, value=1.)], exports=[tot])
s.initialise(); s.run()
for row in tot.data[1:]:
    check(abs(row[1] + row[2] - 1.0) < 1e-6, "inventory not conserved: %s" % row)
''')
seed("S04-dissociation-pressure-frozen", "C11",
 [("festim/boundary_conditions/fluxes/dissociation_flux.py", "self.sub_expressions = [Kd_0_expr, E_Kd_expr, P_expr]", "self.sub_expressions = [Kd_0_expr, E_Kd_expr]")],
 "a DissociationFlux whose pressure depends on time",
 "the pressure keeps its value at t=0",
 COMMON + '''
tot = F.DerivedQuantities([F.TotalVolume("solute", 1)])
s = sim(bcs=[F.DissociationFlux(Kd_0=1, E_Kd=0, P=1 + F.t, surfaces=1)], exports=[tot])
s.initialise(); s.run()
exp = 0
for row in tot.data[1:]:
    exp += 0.1 * (1 + row[0])
    check(abs(row[1] - exp) < 1e-6, "inventory %s, expected %s" % (row, exp))
''')
seed("S05-heat-capacity-lagged", "C13",
 [("festim/temperature/temperature_solver.py", "cp = cp(T)", "cp = cp(T_n)")],
 "a transient heat problem with a temperature-dependent heat capacity",
 "the heat capacity of the previous temperature is used: the documented implicit balance does not close",
 COMMON + '''
m = F.Material(id=1, D_0=1, E_D=0, thermal_cond=1, heat_capacity=lambda T: T, rho=1)
av = []
s = sim(materials=m, T=F.HeatTransferProblem(transient=True, initial_condition=1.0, absolute_tolerance=1e-10), sources=[F.Source(10., volume=1, field="T")])
s.exports = [F.DerivedQuantities([Probe(lambda: av.append(float(s.T.T(0.5))))])]
s.initialise(); s.run()
p = 1.0
for T in av:
    check(abs(T * (T - p) / 0.1 - 10) < 1e-5, "heat balance %s %s" % (p, T)); p = T
''')
seed("S06-previous-solubility", "C14",
 [("festim/concentration/theta.py", "S_n = S_0 * f.exp(-E_S / k_B / T.T_n)\n", "S_n = S_0 * f.exp(-E_S / k_B / (T.T if T.is_steady_state() else (T.T + T.T_n) / 2))\n")],
 "conservation of chemical potential with a temperature that changes in time",
 "the previous concentration is computed with a solubility at a temperature between two steps: hydrogen appears from nowhere",
 COMMON + '''
m = F.Material(id=1, D_0=1, E_D=0, S_0=1., E_S=0.2)
tot = F.DerivedQuantities([F.TotalVolume("solute", 1)])
s = sim(materials=m, T=F.Temperature(500 + 100 * F.t), ics=[F.InitialCondition(field=0, value=1.)], exports=[tot], settings=dict(chemical_pot=True))
s.initialise(); s.run()
for row in tot.data[1:]:
    check(abs(row[1] - 1) < 1e-3, "inventory %s" % row)
''')
seed("S07-spherical-soret", "C15",
 [("festim/concentration/mobile.py", "                                Q * c_0 / (k_B * T.T**2) * grad(T.T),\n                                grad(self.test_function / r / r),", "                                Q * c_0 / (k_B * T.T**2) * grad(T.T),\n                                grad(self.test_function / r) / r,")],
 "spherical coordinates with the Soret effect and a temperature gradient",
 "the Soret flux has the wrong divergence in spherical coordinates",
 COMMON + '''
# steady, r^2 * (c' + Q c T'/(kB T^2)) is constant in r
m = F.Material(id=1, D_0=1, E_D=0, Q=0.5)
N = 400
s = sim(mesh=F.MeshFromVertices(np.linspace(1, 2, N + 1), type="spherical"), materials=m, T=F.Temperature(400 + 100 * F.x), transient=False,
        bcs=[F.DirichletBC(surfaces=1, value=1, field=0), F.DirichletBC(surfaces=2, value=0.1, field=0)], settings=dict(soret=True))
s.initialise(); s.run()
c = s.mobile.post_processing_solution
J = []
for r in (1.2, 1.5, 1.8):
    h = 1.0 / N
    dc = (c(r + h) - c(r - h)) / (2 * h)
    T = 400 + 100 * r
    J.append(r * r * (dc + 0.5 * c(r) * 100 / (F.k_B * T * T)))
check(max(J) - min(J) < 0.02 * abs(J[0]), "flux not divergence free: %s" % J)
''')
seed("S08-trap-source-frozen", "C12",
 [("festim/concentration/traps/trap.py", "            if isinstance(source.value, (Expression, UserExpression)):\n                self.sub_expressions.append(source.value)\n", "        if self.sources and isinstance(\n            self.sources[0].value, (Expression, UserExpression)\n        ):\n            self.sub_expressions.append(self.sources[0].value)\n")],
 "two sources on one trap, the second one depending on time",
 "only the first source of a trap is updated in time",
 COMMON + '''
m = F.Material(id=1, D_0=1, E_D=0)
tr = F.Trap(k_0=0., E_k=0, p_0=0., E_p=0, materials=m, density=10.)
tot = F.DerivedQuantities([F.TotalVolume(1, 1)])
s = sim(materials=m, traps=[tr], sources=[F.Source(1., volume=1, field=1), F.Source(F.t, volume=1, field=1)], exports=[tot])
s.initialise(); s.run()
exp = 0
for row in tot.data[1:]:
    exp += 0.1 * (1 + row[0])
    check(abs(row[1] - exp) < 1e-6, "trap inventory %s, expected %s" % (row, exp))
''')
seed("S09-annealing-rate", "C19",
 [("festim/concentration/traps/neutron_induced_trap.py", "            * f.exp(-self.E_A / (k_B * T))\n            * density\n", "            * f.exp(-self.E_A / (k_B * T))\n            * (density - self.density_previous_solution / 2)\n            * 2\n")],
 "a neutron-induced trap followed over several steps",
 "annealing extrapolates the density instead of using the implicit one",
 COMMON + '''
m = F.Material(id=1, D_0=1, E_D=0)
tr = F.NeutronInducedTrap(k_0=1., E_k=0, p_0=1., E_p=0, materials=m, phi=1., K=1., n_max=2., A_0=2., E_A=0., absolute_tolerance=1e-12)
ns = []
s = sim(materials=m, traps=[tr])
s.exports = [F.DerivedQuantities([Probe(lambda: ns.append(float(tr.density[0](0.5))))])]
s.initialise(); s.run()
p = 0
for n in ns:
    check(abs((n - p) / 0.1 - (1 - n / 2) + 2 * n) < 1e-6, "density law %s -> %s" % (p, n)); p = n
''')
seed("S10-surface-previous", "C20",
 [("festim/boundary_conditions/fluxes/surface_kinetics.py", "(self.solutions[i] - self.previous_solutions[i])", "(self.solutions[i] - self.previous_solutions[i - 1])")],
 "a SurfaceKinetics on two surfaces that evolve differently",
 "the previous adsorbed concentration of the other surface is used",
 COMMON + '''
def ad(T, surf_conc, mobile_conc, prm):
    return prm
sk = F.SurfaceKinetics(k_sb=0., k_bs=0., lambda_IS=0., n_surf=100., n_IS=100., J_vs=ad, surfaces=[1, 2], initial_condition=0, prm=F.x)
rec = []
s = sim(bcs=[sk])
s.exports = [F.DerivedQuantities([Probe(lambda: rec.append((s.t, [float(p(0.5)) for p in sk.post_processing_solutions])))])]
s.initialise(); s.run()
for t, (a, b) in rec:
    check(abs(a) < 1e-6 and abs(b - t) < 1e-6, "adsorbed %s at %s" % ((a, b), t))
''')
seed("S11-decay-list-volumes", "C08",
 [("festim/concentration/mobile.py", "            for volume in volumes:\n                F_source += -source.value * self.test_function * dx(volume)\n", "            for volume in sorted(volumes)[-1:] if isinstance(\n                source, RadioactiveDecay\n            ) else volumes:\n                F_source += -source.value * self.test_function * dx(volume)\n")],
 "a RadioactiveDecay given on a list of volumes",
 "mobile hydrogen decays in one of the listed volumes only",
 COMMON + '''
m1 = F.Material(id=1, D_0=1, E_D=0, borders=[0, 0.5]); m2 = F.Material(id=2, D_0=1, E_D=0, borders=[0.5, 1])
tot = F.DerivedQuantities([F.TotalVolume("solute", 1), F.TotalVolume("solute", 2)])
s = sim(materials=[m1, m2], sources=[F.RadioactiveDecay(decay_constant=1., volume=[1, 2], field=0)], ics=[F.InitialCondition(field=0, value=1.)], exports=[tot])
s.initialise(); s.run()
p = 1.
for row in tot.data[1:]:
    n = row[1] + row[2]
    check(abs((n - p) / 0.1 + n) < 1e-6, "decay %s -> %s" % (p, n)); p = n
''')
seed("S12-implantation-depth-frozen", "C10",
 [("festim/boundary_conditions/dirichlets/dc_imp.py", "sub_expressions = [phi, R_p]", "sub_expressions = [phi]")],
 "an ImplantationDirichlet with a time-dependent implantation depth",
 "the imposed concentration keeps the implantation depth of t=0",
 COMMON + '''
rec = []
s = sim(bcs=[F.ImplantationDirichlet(surfaces=1, phi=1., R_p=1 + F.t, D_0=2., E_D=0.)])
s.exports = [F.DerivedQuantities([Probe(lambda: rec.append((s.t, float(s.mobile.post_processing_solution(0.))))) ])]
s.initialise(); s.run()
for t, c in rec:
    check(abs(c - (1 + t) / 2) < 1e-6, "imposed value %s at %s" % (c, t))
''')
seed("S13-retry-from-failed", "C04",
 [("festim/h_transport_problem.py", "            self.u.assign(u_)\n            nb_it, converged = self.solve_once()", "            nb_it, converged = self.solve_once()\n            if not converged and nb_it > 1:\n                self.u.assign(u_)")],
 "a solve that fails in its first iteration",
 "the retry starts from the diverged (non-finite) state",
 COMMON + '''
class Solver(f.NewtonSolver):
    def __init__(self):
        super().__init__(f.MPI.comm_world); self.n = 0
        self.parameters["error_on_nonconvergence"] = False
        self.parameters["maximum_iterations"] = 5
    def solve(self, problem, x):
        self.n += 1
        if self.n == 3:
            x[:] = np.full(x.local_size(), np.nan)
            return 1, False
        return super().solve(problem, x)
rec = []
s = sim(bcs=[F.DirichletBC(surfaces=[1, 2], value=F.t, field=0)], dt=F.Stepsize(0.1, stepsize_change_ratio=1.5, dt_min=1e-6))
s.exports = [F.DerivedQuantities([Probe(lambda: rec.append((s.t, float(s.mobile.post_processing_solution(0.5)), float(s.mobile.post_processing_solution(0.)))))])]
s.initialise(); s.h_transport_problem.newton_solver = Solver(); s.run()
for t, c, b in rec:
    check(np.isfinite(c) and abs(b - t) < 1e-6, "state at %s: %s %s" % (t, c, b))
''')
seed("S14-absolute-end-tolerance", "C01",
 [("festim/generic_simulation.py", "        while self.t < self.settings.final_time and not np.isclose(\n            self.t, self.settings.final_time, atol=0\n        ):", "        while self.t < self.settings.final_time and not np.isclose(\n            self.t, self.settings.final_time\n        ):")],
 "a run whose final_time is of the order of a nanosecond",
 "the run ends before final_time (at once) because of an absolute tolerance",
 COMMON + '''
rec = []
s = sim(final=1e-9, dt=F.Stepsize(2e-10))
s.exports = [F.DerivedQuantities([Probe(lambda: rec.append(s.t))])]
s.initialise(); s.run()
check(len(rec) == 5 and abs(s.t - 1e-9) < 1e-15, "accepted times %s" % rec)
''')
