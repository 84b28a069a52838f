TR_TECH = ("TLC-checked TLA+ specification spec/Transport.tla of an accepted step; configurations generated by TransportGen.tla "
           "run through Simulation, every recorded state validated by TransportTrace.tla")
TR_NOTE = ("Bounded: 1D meshes of 2-4 cells, up to 3 materials, 2 traps, 7 steps, order-1 parameters; every balance is checked against every "
           "piecewise-linear test function to about 3e-4 relative (4e-3 with heat equations). Trusts: the generator's coverage (pairwise over the features), "
           "the linear algebra of FEniCS, reading nodal values from the solution.")
TR_WHY = ("Tests compare a few forms term by term or a handful of manufactured solutions; the guarantee is about every combination of materials, traps, "
          "boundary conditions, temperature models and stepsizes over whole histories of steps.")
H = "festim/h_transport_problem.py"
G = "festim/generic_simulation.py"
MOB = "festim/concentration/mobile.py"
TRAP = "festim/concentration/traps/trap.py"
OBS = ["DerivedQuantity.compute at every accepted step", "HTransportProblem.u / u_n", "Temperature.T"]


def tprop(id, title, statement, text, files, mechanism, over=("inputs", "configurations", "histories"), state=()):
    prop(id, title, statement, list(over), text, TR_WHY, files, mechanism, OBS, TR_TECH, TR_NOTE, state)


tprop("C08", "Hydrogen is conserved over every accepted step",
      "In a transient Cartesian simulation without imposed hydrogen concentrations, over every accepted step the change of the total hydrogen inventory in the volume (mobile plus all traps, over all materials) "
      "equals the stepsize times the volumetric sources minus radioactive decay plus the net boundary fluxes (prescribed, recombination, dissociation, mass transfer, custom, exchange with adsorbed surface hydrogen) evaluated at the new state. "
      "Trapping and detrapping never create or destroy hydrogen, and neither does a change of temperature or a material interface, with or without conservation of chemical potential and the Soret effect.",
      "for all combinations of materials, traps, sources, boundary fluxes, temperature models, element types and stepsize histories",
      [MOB, TRAP, H, "festim/concentration/theta.py"], [("Mobile.create_form", MOB), ("Trap.create_form", TRAP)],
      state=[("u", "all concentrations", "HTransportProblem.u")])
tprop("C09", "Trapped concentrations follow the trapping/detrapping balance of their materials",
      "Over every accepted step each trap obeys d(ct)/dt = k c (n - ct) - p ct exactly in the materials it is declared in, with that material's k_0, E_k, p_0, E_p and density (also when the parameters are given as lists in any material order, "
      "when the materials are given by name or as objects, when a material has several subdomains, and when the density depends on x and t), and the mobile balance exchanges the same amount. "
      "Outside its materials a trap takes up nothing. This holds for continuous (CG) and discontinuous (DG) trap elements and starts from the given initial trapped concentration, zero when none is given.",
      "for all trap lists, material assignments, parameter lists, densities, temperatures, element types and step histories",
      [TRAP, "festim/concentration/traps/traps.py", MOB, H],
      [("Trap.create_trapping_form", TRAP), ("trapping terms in Mobile.create_diffusion_form", MOB), ("Trap.make_materials", TRAP)],
      state=[("ct", "trapped concentration", "Trap.solution")])
tprop("C10", "Imposed concentrations hold at every accepted time",
      "At every accepted step (and in steady state) the mobile concentration at a surface with DirichletBC, SievertsBC, HenrysBC, ImplantationDirichlet or CustomDirichlet equals the documented law evaluated at that step's time and temperature, "
      "and trapped concentrations with such conditions equal the given value; all other surfaces are unaffected. It does not matter whether the field is written 0, \"0\" or \"solute\" (1 or \"1\" for a trap), nor in which order the conditions or surfaces are listed.",
      "for all Dirichlet-type conditions, time-dependent parameters, temperatures, surfaces, field spellings and step histories",
      ["festim/boundary_conditions/boundary_condition.py", "festim/boundary_conditions/dirichlets/dirichlet_bc.py", "festim/boundary_conditions/dirichlets/dc_imp.py",
       "festim/boundary_conditions/dirichlets/sieverts_bc.py", "festim/boundary_conditions/dirichlets/henrys_bc.py", "festim/boundary_conditions/dirichlets/custom_dc.py", H],
      [("DirichletBC.create_dirichletbc", "festim/boundary_conditions/dirichlets/dirichlet_bc.py"), ("update_expressions", "festim/helpers.py")])
tprop("C11", "Boundary fluxes enter the mobile balance with their documented law",
      "At every accepted step the hydrogen balance at a surface includes exactly the fluxes declared on it: FluxBC inwards with its value, RecombinationFlux -Kr c^order, DissociationFlux +Kd P, MassFlux -h (c - c_ext), CustomFlux the user function of temperature, "
      "mobile concentration and parameters, each evaluated at the new time, temperature and concentration. Several fluxes on one surface add up, a flux on several surfaces acts on each, a surface without condition is closed, and the spelling of the field (0, \"0\", \"solute\") is irrelevant.",
      "for all flux conditions, orders, time-dependent parameters, temperatures, surfaces, field spellings and step histories",
      ["festim/boundary_conditions/fluxes/flux_bc.py", "festim/boundary_conditions/fluxes/recombination_flux.py", "festim/boundary_conditions/fluxes/dissociation_flux.py",
       "festim/boundary_conditions/fluxes/mass_flux.py", "festim/boundary_conditions/fluxes/flux_custom.py", MOB, H],
      [("Mobile.create_fluxes_form", MOB), ("HTransportProblem.attribute_flux_boundary_conditions", H)])
tprop("C12", "Volumetric sources act on their field, in their volumes, at the current time",
      "At every accepted step a Source adds its value at the new time to the balance of its own field only (mobile or the given trap) and only in its volume(s); a RadioactiveDecay removes decay_constant times the concentration of its field, or of every hydrogen field when the field is \"all\". "
      "Several sources add up, whatever their order and the spelling of the field. The same holds in steady state.",
      "for all source lists, fields, volumes (single or lists), time- and space-dependent values and step histories",
      ["festim/sources/source.py", "festim/sources/radioactive_decay.py", G, MOB, TRAP],
      [("Simulation.attribute_source_terms", G), ("create_source_form", MOB), ("create_source_form", TRAP)])
tprop("C13", "The temperature of every accepted step obeys its model, and rates use it",
      "At every accepted step the temperature field equals the given expression at that time, or satisfies the implicit-Euler heat balance (heat capacity, density and conductivity of each material possibly functions of temperature, heat sources, Dirichlet, flux, convective and custom boundary conditions) "
      "from the previous accepted temperature, starting from the given initial temperature; a steady heat problem satisfies the steady balance. Diffusion coefficients (and the Soret term) are the Arrhenius laws of each material at that temperature.",
      "for all temperature models, thermal properties, thermal boundary conditions, materials and step histories",
      ["festim/temperature/temperature.py", "festim/temperature/temperature_solver.py", MOB, G],
      [("HeatTransferProblem.create_functions / update", "festim/temperature/temperature_solver.py"), ("Temperature.update", "festim/temperature/temperature.py")],
      state=[("T, T_n", "temperature, previous temperature", "Temperature")])
tprop("C14", "Conservation of chemical potential is consistent everywhere",
      "With chemical_pot the unknown is continuous and the mobile concentration is S(T) times it (Sieverts) or S(T) times its square (Henry) with the solubility of the local material at the local, current temperature: in the balance of every step (with the previous temperature for the previous state), in initial conditions, "
      "in imposed concentrations, in every boundary flux and surface exchange, in the traps, and in the concentration handed to post-processing.",
      "for all solubilities and laws per material, temperature models, boundary conditions, traps, initial conditions and step histories",
      ["festim/concentration/theta.py", "festim/boundary_conditions/dirichlets/dirichlet_bc.py", "festim/materials/materials.py", H, MOB],
      [("Theta", "festim/concentration/theta.py"), ("BoundaryConditionTheta", "festim/boundary_conditions/dirichlets/dirichlet_bc.py"), ("solubility_as_function", "festim/materials/materials.py")])
tprop("C15", "Cylindrical and spherical runs solve the equations of their coordinate system",
      "On a 1D mesh declared cylindrical (spherical) every accepted step and steady state satisfies the hydrogen and heat balances with the cylindrical (spherical) divergence, including the Soret term, sources, traps and boundary conditions.",
      "for all radial meshes away from the axis, material data, boundary conditions, temperature models, traps and step histories",
      [MOB, "festim/temperature/temperature_solver.py", G],
      [("Mobile.create_diffusion_form", MOB), ("HeatTransferProblem.define_variational_problem", "festim/temperature/temperature_solver.py")])
tprop("C19", "Extrinsic and neutron-induced trap densities evolve by their creation law",
      "Over every accepted step the density of an ExtrinsicTrap or NeutronInducedTrap, zero at the start, advances by implicit Euler with that step's stepsize under its documented creation and annealing law, with parameters (possibly functions of x and t) and temperature at the accepted time; "
      "trapping in a step uses the density of the previous accepted step.",
      "for all creation parameters, temperatures, materials, companion traps and stepsize histories",
      ["festim/concentration/traps/extrinsic_trap.py", "festim/concentration/traps/neutron_induced_trap.py", "festim/concentration/traps/traps.py", H],
      [("create_form_density", "festim/concentration/traps/extrinsic_trap.py"), ("HTransportProblem.update", H)],
      state=[("density", "trap density", "ExtrinsicTrapBase.density")])
tprop("C20", "SurfaceKinetics balances adsorbed hydrogen on each of its surfaces",
      "With SurfaceKinetics, at every accepted step the adsorbed concentration of each listed surface satisfies d(cs)/dt = J_vs + J_bs - J_sb and the mobile balance there contains lambda_IS dc/dt + J_bs - J_sb, with the documented exchange laws, the surface's own mobile concentration and temperature, "
      "and rates that are constants or user functions with time-dependent parameters. Each surface starts from the given initial concentration, whatever the order of surfaces and number of SurfaceKinetics conditions.",
      "for all surface lists, rate laws, parameters, initial coverages, traps, temperatures and step histories",
      ["festim/boundary_conditions/fluxes/surface_kinetics.py", H, MOB],
      [("SurfaceKinetics.create_form", "festim/boundary_conditions/fluxes/surface_kinetics.py"), ("HTransportProblem.initialise_concentrations", H)],
      state=[("cs", "adsorbed concentration", "SurfaceKinetics.solutions")])

DQ = "festim/exports/derived_quantities/"
tprop("C16", "Derived quantities are the integrals, fluxes and extrema of the accepted state",
      "At every accepted step (and in steady state) each derived quantity equals its definition evaluated on that step's fields: total and average over the cells of the requested volume, maximum and minimum over them, total/average/maximum/minimum on the requested surface, "
      "SurfaceFlux the property times the outward gradient (with the Soret contribution when it is on), point values the interpolated field, AdsorbedHydrogen the adsorbed concentration of that surface; retention is the sum of mobile and all trapped hydrogen. "
      "The cylindrical and spherical variants use the measure of their coordinate system and the given angular ranges. The spelling of the field does not matter.",
      "for all quantities, fields, volumes, surfaces, angular ranges, coordinate systems, materials, temperature models and step histories",
      [DQ + n for n in ("derived_quantities.py", "surface_flux.py", "total_volume.py", "total_surface.py", "average_volume.py", "average_surface.py",
                        "maximum_volume.py", "minimum_volume.py", "maximum_surface.py", "minimum_surface.py", "point_value.py", "adsorbed_hydrogen.py")] + ["festim/exports/exports.py", G],
      [("DerivedQuantities.compute", DQ + "derived_quantities.py"), ("Exports.write", "festim/exports/exports.py"), ("Simulation.update_post_processing_solutions", G)])

EX = "festim/exports/"
EX_NOTE = ("Conformance covers the generated simulations and export lists (1D meshes of 2-4 cells, up to 7 accepted steps) to fixed-point resolution 1e-6; "
           "trusts the FEniCS reader of its own XDMF/HDF5 files. ExportsMC explores the schedule exhaustively for all step histories up to a bound.")
prop("C05", "Every export records exactly the accepted steps it was asked for",
     "In a run, a derived-quantity table holds a row for the first accepted step and then for every n-th (nb_iterations_between_compute), and its file is written at the last step or at every m-th step; an XDMF file holds the first and then every n-th accepted step, or only the last one; "
     "a text export holds every accepted step, or exactly the requested times, and its file appears at once or with the last of them. Steady runs give exactly one entry in every kind of export. No entry is duplicated, missing, or belongs to an attempt that was not accepted, and exports do not influence each other.",
     ["histories", "configurations"], "for all lists of exports with their schedules, and all step histories",
     "Tests call the schedule predicates of a single export with hand-picked times; the contents of the files depend on the whole history of steps.",
     [EX + n for n in ("exports.py", "xdmf_export.py", "txt_export.py", "derived_quantities/derived_quantities.py", "trap_density_xdmf.py")] + [G],
     [("Exports.write", EX + "exports.py"), ("is_it_time_to_export / is_last", EX + "txt_export.py"), ("XDMFExport.write", EX + "xdmf_export.py")],
     ["the files after every accepted step", "DerivedQuantities.t"],
     "TLC model checking of spec/Exports.tla + simulations generated by ExportsGen.tla replayed into FESTIM, files after every step validated by ExportsTrace.tla", EX_NOTE,
     [("nb_iterations, append", "progress of the export schedule", "Exports, XDMFExport")])
prop("C06", "Export files contain the fields of the step they are labelled with",
     "What a file says is what the simulation computed: a text export lists every mesh node in increasing position (material interfaces twice, once per side, when fields may jump) with the values of the requested field at each recorded time; an XDMF entry, checkpoint or not, read back gives the nodal values of the field at its time stamp "
     "(TrapDensityXDMF: the trap's density), under the requested or documented label, and extract_xdmf_times and extract_xdmf_labels find its times and label; a derived-quantity file has a header naming the quantities and rows of their values. "
     "This holds for each field (solute, traps, temperature, retention), however it is spelled, and for files in the current directory, a new sub-folder or an absolute path.",
     ["histories", "configurations", "inputs"], "for all fields, export options, materials, meshes (in any vertex order), element types and step histories",
     "Tests check that files exist and a few values for one field; contents at every step for every field and option are not compared with the solution.",
     [EX + n for n in ("exports.py", "xdmf_export.py", "txt_export.py", "derived_quantities/derived_quantities.py", "trap_density_xdmf.py")] + [G],
     [("TXTExport.initialise / write", EX + "txt_export.py"), ("XDMFExport.write", EX + "xdmf_export.py"), ("TrapDensityXDMF", EX + "trap_density_xdmf.py"), ("DerivedQuantities.write", EX + "derived_quantities/derived_quantities.py")],
     ["contents of the files at the end of the run", "fields at every accepted step"],
     "simulations generated by spec/ExportsGen.tla replayed into FESTIM; file contents validated against the recorded states by ExportsTrace.tla", EX_NOTE)
prop("C07", "A run depends on the configuration only, not on what was run before",
     "After initialise(), run() gives the same accepted times, fields, derived quantities and files as a simulation newly built with the same configuration - whatever happened earlier in the process: earlier runs of this Simulation (transient or steady, completed or interrupted, with other mesh, materials, temperature, traps, boundary conditions, sources, time settings, element type or exports, "
     "replaced by new objects or edited in place), runs of other Simulations interleaved with it, or use of the same material, mesh, trap, temperature, boundary-condition and settings objects in another Simulation.",
     ["histories", "schedules", "configurations"], "for all sequences of edits, initialise() and run() over one or two simulations",
     "Tests run each simulation once, or twice with one fixed change; state leaking from one run to the next depends on the sequence of configurations.",
     [G, H, "festim/exports/exports.py", "festim/sources/source.py", "festim/concentration/traps/trap.py", "festim/temperature/temperature_solver.py", "festim/stepsize.py"],
     [("Simulation.initialise", G), ("HTransportProblem.initialise", H), ("Exports.reset", "festim/exports/exports.py")],
     ["fields, quantities and files of every run"],
     "TLC model checking of spec/Session.tla (SessionMC) + sessions generated by SessionGen.tla replayed into FESTIM, every run validated by SessionTrace.tla against a fresh run of the configuration in another process",
     "Conformance covers the generated sessions (three runs each, one or two simulations). The oracle is the code itself on a fresh simulation, so only differences caused by history are seen; correctness of a single run is C08-C16, C19, C20. Edits between initialise() and run() are not covered.",
     [("cur", "configuration in force", "Simulation attributes")])
ME = "festim/meshing/"
prop("C17", "Every 1D cell and facet belongs to the subdomain its materials declare",
     "For a 1D mesh the borders of the materials either tile the domain - start at zero, follow each other without gap or overlap, end at the size of the mesh - and then every cell carries the id of the border piece its midpoint lies in, the first and last vertex are surfaces 1 and 2 and no other facet is a surface, "
     "and the integration measures of the subdomains see exactly those cells; or the layout is refused with a ValueError. Materials in any order, with one or several border pieces and ids, one-piece borders flat or nested, one material without borders, and vertices in any order or repeated give the same result; "
     "missing borders with several materials are refused.",
     ["inputs", "configurations"], "for all materials, borders, ids and vertex lists",
     "Tests check a few hand-written layouts; wrong markers silently give the wrong material to a cell.",
     [ME + "mesh_1d.py", ME + "mesh_from_vertices.py", ME + "mesh.py", "festim/materials/materials.py"],
     [("Mesh1D.define_markers / define_surface_markers / define_volume_markers", ME + "mesh_1d.py"), ("Materials.check_borders / find_subdomain_from_x_coordinate", "festim/materials/materials.py"), ("Mesh.define_measures", ME + "mesh.py")],
     ["cell and facet markers", "measures", "ValueError"],
     "TLC model checking of spec/Geometry.tla (GeometryMC: the acceptance rule is equivalent to covering every cell exactly once) + layouts generated by GeometryGen.tla replayed into FESTIM, markers validated by GeometryTrace.tla",
     "GeometryMC is exhaustive for up to three pieces with any end points on a small grid; conformance covers the generated layouts (up to 6 pieces, 3 materials, three length units). Does not cover meshes read from files.")
prop("C18", "A contradictory configuration is refused before anything is computed",
     "Simulation.initialise() accepts a sound configuration and refuses with the documented kind of error - leaving no file and time zero - one with: dt in steady state, no dt or final_time in transient, no temperature, no initial temperature for a transient heat problem, heat sources or heat boundary conditions without a heat problem, "
     "a boundary condition on an unknown field, a second condition on a surface that already has a Dirichlet condition or surface kinetics for that field, surface kinetics outside 1D, AdsorbedHydrogen without surface kinetics there, spherical coordinates outside 1D or cylindrical in 3D, a property defined for only some materials, "
     "missing borders of several 1D materials, repeated material ids, thermal properties missing for a heat problem, a trap in an unknown or repeated material, Henry materials with traps under chemical-potential conservation. The order of conditions, the spelling of fields and the presence of other mistakes do not matter.",
     ["configurations", "inputs"], "for all configurations with any combination of those mistakes",
     "Tests give one example of each mistake; whether it is caught depends on the rest of the configuration (order, spelling, dimension, other objects).",
     [G, "festim/materials/materials.py", "festim/concentration/traps/trap.py", "festim/temperature/temperature_solver.py", H],
     [("Simulation.initialise", G), ("Simulation.check_boundary_conditions", G), ("Materials.check_materials", "festim/materials/materials.py"), ("Simulation.check_mesh_dim_coords", G)],
     ["exception raised by initialise()", "files", "simulation time"],
     "the acceptance rules as a TLA+ operator (spec/Rules.tla); configurations with zero to two mistakes generated by RulesGen.tla replayed into FESTIM, outcome validated by RulesTrace.tla",
     "Conformance covers the generated configurations (1-3 materials, 0-2 traps, 1D-3D). With several mistakes any of their documented error kinds is accepted; the wording of messages is not checked.")

prop("C21", "2D and 3D simulations obey the same balances on every cell",
     "On triangular and tetrahedral meshes, whether the mesh and its markers are given as FEniCS objects or read from XDMF files, each accepted step satisfies the same discrete balance of hydrogen, traps and heat as in 1D at every node: every cell contributes with the material its marker names, every marked boundary facet with the condition of its surface, unmarked facets with no flux, "
     "functions of y and z are evaluated at the right coordinates, prescribed values hold on all nodes of the marked facets, and derived quantities are the integrals, averages, extrema and fluxes over the marked cells and facets. Cylindrical 2D meshes carry the weight r.",
     ["inputs", "configurations", "histories"], "for all 2D/3D meshes, markers, materials, traps, boundary conditions, sources, temperatures and step histories",
     "The tests run a few 2D cases for smoke or one manufactured solution; a wrong marker, a lost facet or a dimension-dependent term on other configurations goes unseen.",
     [H, G, "festim/meshing/mesh_from_xdmf.py", "festim/meshing/mesh.py", "festim/materials/materials.py", "festim/exports/exports.py"],
     [("Mesh.define_measures", "festim/meshing/mesh.py"), ("MeshFromXDMF.define_markers", "festim/meshing/mesh_from_xdmf.py"), ("HTransportProblem.define_variational_problem", H)],
     ["nodal fields at every accepted step", "derived quantities"],
     "the finite-element balances on simplices as TLA+ operators (spec/Plane.tla); configurations generated by PlaneGen.tla replayed into FESTIM, every step validated by PlaneTrace.tla",
     "Conformance covers the generated configurations: extrusions of 2-3 columns into up to 24 cells with oblique interior vertices, linear data; resolution as for the 1D transport checks. Parallel (MPI) runs are not covered.")
prop("C22", "A simulation restarted from its checkpoints continues as if never stopped",
     "When a simulation exports checkpoints of its fields and another simulation with the same configuration takes them as initial conditions (InitialCondition with a file, label and time step; HeatTransferProblem with an initial condition file), its initial state is the state of the first at that step - mobile concentration in every material also across interfaces with chemical-potential conservation, trapped concentrations, temperature - "
     "and, with data shifted accordingly, it reproduces the remaining steps of the first.",
     ["histories", "crash_points", "configurations"], "for all configurations, step histories, steps to restart from and ways to name them",
     "Tests read one hand-made file; that what is written is what is read, for each field and step, is a round trip through two runs.",
     ["festim/concentration/concentration.py", "festim/concentration/theta.py", "festim/initial_condition.py", "festim/exports/xdmf_export.py", H, "festim/temperature/temperature_solver.py"],
     [("Concentration.get_comp", "festim/concentration/concentration.py"), ("Theta.initialise", "festim/concentration/theta.py"), ("XDMFExport.write", "festim/exports/xdmf_export.py")],
     ["initial state of the restarted run", "states of both runs at every step"],
     "TLC model checking of spec/Restart.tla (RestartMC) + checkpoint plans generated by RestartGen.tla replayed into FESTIM (run, checkpoint, restart), both runs validated against each other and the plan by RestartTrace.tla",
     "Covers 1D meshes. State that has no checkpoint (adsorbed hydrogen, densities of extrinsic traps) cannot be restarted and is excluded, as are Henry materials (the square root of the concentration is not represented exactly at the nodes).")
prop("C23", "The typed lists of a simulation never hold anything but valid items",
     "Materials, Traps, Exports and DerivedQuantities hold only objects of their kind, in the order the operations say, after any history of construction, append, insert, item assignment, extend, +=, pop, reverse, clear and assignment to the attribute of a Simulation (a list, one object or None, as documented); "
     "an operation with a wrong item, or with something that is no list where one is required, raises a TypeError and adds no wrong item.",
     ["histories", "inputs"], "for all histories of list operations with right and wrong items",
     "Tests try one wrong item per operation on one of the lists.",
     ["festim/materials/materials.py", "festim/concentration/traps/traps.py", "festim/exports/exports.py", "festim/exports/derived_quantities/derived_quantities.py", G],
     [("_validate_*", "festim/materials/materials.py"), ("setters of materials, traps, exports", G)],
     ["contents of the list after every operation", "TypeError"],
     "TLC model checking of spec/Containers.tla (ContainersMC) + histories generated by ContainersGen.tla replayed on the four classes, contents validated by ContainersTrace.tla",
     "ContainersMC is exhaustive for short histories over four items; conformance covers the generated histories of 12 operations. Slice assignment is not covered.")
prop("C24", "Each nonlinear problem is solved with the solver and parameters in force",
     "Every Newton solve of a run uses, for hydrogen transport, the tolerances, maximum iterations, linear solver and preconditioner of the Settings at the last initialise(); for a HeatTransferProblem and for the density of each extrinsic or neutron-induced trap, those of that object - also when they were changed, or the object replaced, after an earlier run - "
     "unless the user provided a solver: one given to a problem after initialise() is the one used by run(), and one given to a heat problem is kept by later initialisations. Solvers of different problems are not mixed up.",
     ["histories", "configurations"], "for all sequences of parameter changes, provided solvers, initialise() and run()",
     "Tests check the parameters of a solver right after one initialisation.",
     [H, "festim/temperature/temperature_solver.py", "festim/concentration/traps/extrinsic_trap.py", "festim/concentration/traps/traps.py", "festim/settings.py"],
     [("HTransportProblem.define_newton_solver", H), ("HeatTransferProblem.create_functions", "festim/temperature/temperature_solver.py"), ("ExtrinsicTrapBase.define_newton_solver", "festim/concentration/traps/extrinsic_trap.py")],
     ["solver object and parameters at every call of NewtonSolver.solve"],
     "TLC model checking of spec/Solvers.tla (SolversMC) + histories generated by SolversGen.tla replayed into FESTIM, every solve validated by SolversTrace.tla",
     "SolversMC is exhaustive for two parameter sets; conformance covers the generated histories of three runs. Edits between initialise() and run() other than giving a solver are not covered.")
prop("C25", "A derived-quantity table names its columns and finds them by what they measure",
     "Each column of DerivedQuantities.data, and of its csv file read as csv, is headed by the title of its quantity - kind, field, volume or surface - with, if show_units, the unit that follows from the field, the dimension of the mesh and the coordinate system; columns are in the order of the list and equal the data of the quantities. "
     "filter() returns exactly the quantities matching all given surfaces, volumes, fields and classes (one value or a list; subclasses count), in order, a single match as the object itself. A quantity that is not meant for the coordinate system of the mesh is warned about, and no other.",
     ["inputs", "configurations"], "for all lists of quantities, mesh dimensions and coordinate systems, and all queries",
     "Tests check a title or a query for one quantity at a time, mostly in 1D.",
     [DQ + n for n in ("derived_quantities.py", "derived_quantity.py", "total_volume.py", "total_surface.py", "surface_flux.py", "average_volume.py", "average_surface.py", "point_value.py")] + [G],
     [("DerivedQuantities.make_header / write / filter", DQ + "derived_quantities.py"), ("export_unit / title", DQ + "total_volume.py")],
     ["DerivedQuantities.data", "csv file", "result of filter()", "warnings"],
     "titles, units and queries as TLA+ operators (spec/Table.tla, TableMC); tables generated by TableGen.tla made by FESTIM, validated by TableTrace.tla",
     "Conformance covers the generated tables (1-6 quantities, 1D-3D). Totals of a concentration over a surface follow the documented unit.")
prop("C26", "A value that makes no sense is refused where it is given, and changes nothing",
     "File names without the extension of their export, folders, modes, checkpoint flags, volume and surface ids of derived quantities, azimuth and polar ranges, decay constants, solubility laws, solubility parameters, starting values read from files, the materials of a trap, Newton solvers, and the temperature and stepsize of a Simulation are checked when an object is built and whenever they are assigned: "
     "a value of the wrong kind raises TypeError, one outside its range ValueError, and the object then holds what it held before. Every right value is accepted and is what the attribute holds - numbers given as temperature or stepsize become Temperature and Stepsize, a single trap material becomes a list.",
     ["inputs", "histories"], "for all sequences of right and wrong values on all objects with checked attributes",
     "Tests try one wrong value per attribute, at construction, and never look at the object afterwards.",
     [DQ + n for n in ("total_volume.py", "total_surface.py", "surface_flux.py", "derived_quantity.py")] + ["festim/exports/xdmf_export.py", "festim/exports/txt_export.py", "festim/sources/radioactive_decay.py", "festim/concentration/traps/trap.py", G],
     [("setters of the checked attributes", DQ + "total_volume.py"), ("Simulation.T / dt", G), ("XDMFExport", "festim/exports/xdmf_export.py")],
     ["exception type", "attributes after each assignment"],
     "attribute types, values and errors as TLA+ operators with the state of an object (spec/Attributes.tla, AttributesMC); histories generated by AttributesGen.tla applied to the real classes, validated by AttributesTrace.tla",
     "Conformance covers 35 classes and the sampled histories. Which values are right is taken from the documentation and the setters; values the documentation does not settle (numpy integers, paths that are not strings) are not generated.")
