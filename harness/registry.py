CHECKS = {}
_STEP = "random behaviours of spec/SteppingGen.tla (configuration + solver outcomes), greedy pairwise selection; a case is distinct by configuration and outcome script, non-trivial because every one takes at least one solver call"
for p in ("C01", "C02", "C03", "C04"):
    CHECKS[p] = dict(suites=["stepping"], rule=_STEP)
_TR = "random configurations of spec/TransportGen.tla (family of the property), greedy pairwise selection over features; distinct by full configuration, non-trivial because each run solves at least one coupled step"
for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C20"):
    CHECKS[p] = dict(suites=["transport"], rule=_TR)
# clauses that count for a property; absent: all un-prefixed clauses
CHECKS["C08"]["only"] = {"inventory", "run_failed", "no_steps", "final_time", "not_a_number", "not_judged_too_often"}

CHECKS["C16"] = dict(suites=["transport"], rule=_TR, only={
    "totvol", "avgvol", "maxvol", "minvol", "totsurf", "avgsurf", "maxsurf", "minsurf", "flux", "point", "ads",
    "run_failed", "no_steps", "final_time", "not_a_number", "not_judged_too_often", "post_processed"})

CHECKS["C05"] = dict(suites=["exports"], only={"dq_on_disk", "xdmf_on_disk", "txt_on_disk", "final_file", "computed", "run_failed", "not_judged_too_often"},
                     rule="random simulations with 2-4 exports from spec/ExportsGen.tla, greedy pairwise selection over schedules, fields, options and step histories; distinct by configuration and exports, non-trivial because every export records or skips at least one accepted step")
CHECKS["C06"] = dict(suites=["exports"], only={"txt_rows", "txt_columns", "xdmf_values", "xdmf_label", "xdmf_helpers", "csv_header", "csv_rows", "run_failed", "not_judged_too_often"},
                     rule=CHECKS["C05"]["rule"])
CHECKS["C07"] = dict(suites=["session"], rule="random sessions of spec/SessionGen.tla (two configurations, edits, initialise/run on one or two simulations), greedy pairwise selection; distinct by configurations and operations, non-trivial because every session completes three runs")
CHECKS["C17"] = dict(suites=["geometry"], rule="random layouts of spec/GeometryGen.tla (tilings of the domain grouped into materials, with or without one flaw, any vertices); distinct by layout, non-trivial because each is built and marked or refused")
CHECKS["C18"] = dict(suites=["rules"], rule="random configurations of spec/RulesGen.tla (a sound configuration plus zero to two mistakes); distinct by configuration, non-trivial because each is initialised")

# the 1D families again on 2D and 3D meshes
_PL = " and spec/PlaneGen.tla (the same families on triangles and tetrahedra)"
for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"):
    CHECKS[p]["suites"] = ["transport", "plane"]
    CHECKS[p]["rule"] = _TR.replace(" (family", _PL + " (family")
CHECKS["C21"] = dict(suites=["plane"], also={"C16"}, rule="random configurations of spec/PlaneGen.tla (all families, triangles and tetrahedra, marked through FEniCS or read from XDMF files), greedy pairwise selection; distinct by full configuration, non-trivial because each run solves at least one coupled step")
CHECKS["C22"] = dict(suites=["restart"], rule="random configurations and checkpoint plans of spec/RestartGen.tla, greedy pairwise selection; distinct by configuration and plan, non-trivial because each is run, checkpointed, and run again from the files")
CHECKS["C23"] = dict(suites=["containers"], rule="random histories of 12 operations of spec/ContainersGen.tla on the four typed lists; distinct by history, non-trivial because each operation is executed")
CHECKS["C24"] = dict(suites=["solvers"], rule="random histories of spec/SolversGen.tla (parameters edited, objects renewed, solvers given, initialise, run), greedy pairwise selection; distinct by configuration and history, non-trivial because each completes three runs")
CHECKS["C25"] = dict(suites=["table"], rule="random tables of spec/TableGen.tla (1-6 quantities, six queries, six kinds of mesh), greedy pairwise selection; distinct by table and queries, non-trivial because each is computed by a run")
CHECKS["C26"] = dict(suites=["attributes"], rule="random histories of spec/AttributesGen.tla (an object of one of 35 classes built, then its attributes assigned, right and wrong values), distinct by class and history, non-trivial because each value is given to the real object")
