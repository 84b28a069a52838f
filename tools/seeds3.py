exec(open(os.path.join(V, "tools", "seeds2.py")).read().split("seed(")[0], globals())
G, MA, EX = "festim/generic_simulation.py", "festim/materials/materials.py", "festim/exports/"
DQ = EX + "derived_quantities/"
seed("S15-last-step-needs-final-time", "C05",
 [(EX + "txt_export.py", "                self.write_at_last and self.is_last(current_time, final_time)", "                self.write_at_last and np.isclose(current_time, final_time or current_time, atol=0)")],
 "a text export with requested times, write_at_last, whose last requested time is not the end of the run",
 "the file of the export is not there when its last requested time has been recorded: it is written only if that time is also final_time",
 COMMON + '''
d = tempfile.mkdtemp()
p = os.path.join(d, "a.txt")
seen = []
s = sim(sources=[F.Source(1, 1, "solute")])
s.exports = [F.TXTExport("solute", p, times=[0.3, 0.5], write_at_last=True)]
s.exports.append(F.DerivedQuantities([Probe(lambda: seen.append((s.t, os.path.exists(p))))]))
s.initialise(); s.run()
check(os.path.exists(p), "no file")
check(np.loadtxt(p, delimiter=",", skiprows=1).shape[1] == 3, "times")
''')
seed("S16-first-two-traps", "C06",
 [(G, "+ [trap.post_processing_solution for trap in self.traps]", "+ [trap.post_processing_solution for trap in self.traps[:2]]")],
 "three or more traps and an export of the retention",
 "the retention leaves out the third trap",
 COMMON + '''
d = tempfile.mkdtemp()
p = os.path.join(d, "r.txt")
tr = lambda n: F.Trap(k_0=1, E_k=0, p_0=1, E_p=0, density=n, materials="m")
s = sim(materials=F.Material(id=1, D_0=1, E_D=0, name="m"), traps=[tr(1), tr(2), tr(40)], ics=[F.InitialCondition(field=0, value=1.), F.InitialCondition(field="3", value=20.)])
s.exports = [F.TXTExport("retention", p)]
s.initialise(); s.run()
a = np.loadtxt(p, delimiter=",", skiprows=1)
check(abs(a[:, -1].mean() - 21) < 1e-3, "retention %s" % a[:, -1])
''')
seed("S17-soret-sticks", "C07",
 [(G, "                        q.soret = self.settings.soret", "                        q.soret = q.soret or self.settings.soret")],
 "a SurfaceFlux used in a run with the Soret effect and again in a later run without it",
 "the flux of the later run still has the Soret contribution of the earlier one",
 COMMON + '''
q = F.SurfaceFlux("solute", 2)
def run(s):
    s.initialise(); s.run()
    return dq.data[-1][-1]
def new(soret):
    return sim(materials=F.Material(id=1, D_0=1, E_D=0, Q=1.), T=F.Temperature(500 + 100 * F.x), bcs=[F.DirichletBC(surfaces=[1, 2], value=1., field=0)], exports=[dq], settings=dict(soret=soret))
dq = F.DerivedQuantities([F.SurfaceFlux("solute", 2)])
y = run(new(False))
dq = F.DerivedQuantities([F.SurfaceFlux("solute", 2)])
s = new(True); run(s)
s.settings = F.Settings(1e-10, 1e-10, final_time=1)
x = run(s)
check(abs(x - y) < 1e-9 + 1e-6 * abs(y), "%s instead of %s" % (x, y))
''')
seed("S18-polar-range-of-flux", "C16",
 [(DQ + "surface_flux.py", "(self.polar_range[1] - self.polar_range[0])", "(2 * self.polar_range[1])")],
 "SurfaceFluxSpherical with a polar range that is not symmetric",
 "the flux over part of a sphere is computed as if the polar range were symmetric",
 COMMON + '''
def flux(pr):
    q = F.SurfaceFluxSpherical("solute", 2, polar_range=pr)
    dq = F.DerivedQuantities([q])
    s = sim(mesh=F.MeshFromVertices(np.linspace(1, 2, 11), type="spherical"), bcs=[F.DirichletBC(surfaces=1, value=1., field=0), F.DirichletBC(surfaces=2, value=0., field=0)], transient=False, exports=[dq])
    s.initialise(); s.run()
    return dq.data[1][1]
a, b = flux((-np.pi, np.pi)), flux((-np.pi / 2, np.pi))
check(abs(b / a - 0.75) < 1e-6, "%s %s" % (a, b))
''')
seed("S19-coarse-left-end", "C17",
 [("festim/meshing/mesh_1d.py", "if f.near(x0.x(), self.start):", "if f.near(x0.x(), self.start, 1e-8):")],
 "a mesh whose first cells are smaller than ten nanometres",
 "inner vertices close to the left end are marked as surface 1",
 COMMON + '''
m = F.MeshFromVertices(np.array([0, 4e-9, 1e-7, 1e-6]))
m.define_measures(F.Materials([F.Material(id=1, D_0=1, E_D=0)])) if hasattr(m, "define_measures") else None
n = sum(1 for v in m.surface_markers.array() if v == 1)
check(n == 1, "%d facets are surface 1" % n)
''')
seed("S20-first-surface-only", "C18",
 [(G, "                if not set(bc.surfaces).isdisjoint(dc_sk_bc.surfaces):", "                if bc.surfaces[0] in dc_sk_bc.surfaces:")],
 "a flux on two surfaces, the second of which has an imposed concentration",
 "a flux on a surface with an imposed concentration is accepted",
 COMMON + '''
s = sim(bcs=[F.DirichletBC(surfaces=[2], value=0., field=0), F.FluxBC(surfaces=[1, 2], value=1., field=0)])
try:
    s.initialise(); check(False, "accepted")
except ValueError:
    pass
''')
seed("S21-three-vertices", "C21",
 [(DQ + "maximum_volume.py", "                    dm.cell_dofs(c.index())\n", "                    dm.cell_dofs(c.index())[:3]\n")],
 "a 3D mesh (or a field of degree 2)",
 "the maximum over a volume leaves out one vertex of each tetrahedron",
 COMMON + '''
mesh = f.UnitCubeMesh(2, 2, 2); mesh.init(2, 3)
vm = f.MeshFunction("size_t", mesh, 3, 1); sm = f.MeshFunction("size_t", mesh, 2, 0)
vm[0] = 2
for fc in f.facets(mesh):
    if fc.exterior(): sm[fc] = 1
X = mesh.coordinates()[mesh.cells()[0]]
for a in ((1, 2, 3), (-3, 1, 2), (2, -3, 1), (-1, -2, -3), (1, -2, -3)):
    dq = F.DerivedQuantities([F.MaximumVolume("solute", 2), F.MaximumVolume("solute", 1)])
    s = sim(mesh=F.Mesh(mesh, vm, sm), materials=[F.Material(id=1, D_0=1, E_D=0), F.Material(id=2, D_0=1, E_D=0)],
            bcs=[F.DirichletBC(surfaces=1, value=a[0] * F.x + a[1] * F.y + a[2] * F.z, field=0)], transient=False, exports=[dq])
    s.initialise(); s.run()
    e = (X @ np.array(a)).max()
    check(abs(dq.data[1][1] - e) < 1e-6, "maximum %s instead of %s" % (dq.data[1][1], e))
''')
seed("S22-first-entry", "C22",
 [("festim/concentration/concentration.py", "f.read_checkpoint(comp, label, time_step)", "f.read_checkpoint(comp, label, time_step or -1)")],
 "a restart from the first entry (time_step=0) of a file with several entries",
 "the last entry of the file is read instead of the first",
 COMMON + '''
d = tempfile.mkdtemp()
p = os.path.join(d, "c.xdmf")
s = sim(sources=[F.Source(1, 1, "solute")], exports=[F.XDMFExport("solute", filename=p)])
s.initialise(); s.run()
dq = F.DerivedQuantities([F.AverageVolume("solute", 1)])
s = sim(ics=[F.InitialCondition(field="solute", value=p, label="mobile_concentration", time_step=0)], exports=[dq])
s.initialise(); s.run()
check(abs(dq.data[-1][-1] - 0.1) < 1e-6, "average %s" % dq.data[-1][-1])
''')
seed("S23-first-of-the-list", "C23",
 [("festim/concentration/traps/traps.py", "        if isinstance(other, type(self)):\n            super().extend(other)", "        if isinstance(other, list) and all(\n            isinstance(item, festim.Trap) for item in other[:1]\n        ):\n            super().extend(other)")],
 "Traps.extend (or +=) with a list whose first item is a Trap and a later one is not",
 "things that are not traps get into a list of traps",
 COMMON + '''
t = F.Trap(k_0=1, E_k=0, p_0=1, E_p=0, density=1, materials="m")
for other in ([t, "x"], [t, t, 3]):
    l = F.Traps([])
    try:
        l.extend(other); check(False, "accepted")
    except TypeError:
        pass
''')
seed("S24-preconditioner-alone", "C24",
 [("festim/h_transport_problem.py", 'self.newton_solver.parameters["preconditioner"] = self.settings.preconditioner', 'if self.settings.linear_solver is None:\n            self.newton_solver.parameters["preconditioner"] = self.settings.preconditioner')],
 "Settings with both a linear solver and a preconditioner",
 "the preconditioner is ignored when a linear solver is given too",
 COMMON + '''
s = sim(settings=dict(linear_solver="gmres", preconditioner="jacobi"))
s.initialise()
p = s.h_transport_problem.newton_solver.parameters
check(p["preconditioner"] == "jacobi" and p["linear_solver"] == "gmres", "%s" % p["preconditioner"])
''')
seed("S25-exact-class", "C25",
 [(DQ + "derived_quantities.py", "                if isinstance(quantity, tuple(instances)):", "                if type(quantity) in instances:")],
 "filter() by a class that has subclasses in the list",
 "filter(instances=F.SurfaceFlux) leaves out HydrogenFlux, cylindrical and spherical fluxes",
 COMMON + '''
dq = F.DerivedQuantities([F.HydrogenFlux(1), F.SurfaceFlux("solute", 2), F.TotalVolume("solute", 1)])
check(len(dq.filter(instances=F.SurfaceFlux)) == 2, "subclass left out")
''')
seed("S26-mode-kept-when-refused", "C26",
 [(EX + "xdmf_export.py", '        if isinstance(value, int) and value <= 0:\n            raise ValueError("mode must be positive")\n        if isinstance(value, str) and value != "last":\n            raise ValueError(accepted_values)\n\n        self._mode = value', '        self._mode = value\n        if isinstance(value, int) and value <= 0:\n            raise ValueError("mode must be positive")\n        if isinstance(value, str) and value != "last":\n            raise ValueError(accepted_values)')],
 "a refused mode assigned to an XDMFExport that is used afterwards",
 "the refused value stays in the object",
 COMMON + '''
d = tempfile.mkdtemp()
e = F.XDMFExport("solute", filename=os.path.join(d, "a.xdmf"), mode=2)
for v in (0, -1, "first"):
    try:
        e.mode = v; check(False, "accepted")
    except ValueError:
        pass
    check(e.mode == 2, "mode is now %s" % e.mode)
''')
