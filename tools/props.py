"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, state=state))


STEP_FILES = ["festim/generic_simulation.py", "festim/stepsize.py", "festim/h_transport_problem.py"]
STEP_NOTE = ("TLC explores the controller exhaustively over a grid of configurations and all outcome sequences with a bounded "
             "number of slow/failed solves; conformance covers the generated behaviours only. Trusts: float rounding of at most "
             "12e-6 tick, that the scripted Newton solver stands for any solver outcome.")
STEP_TECH = "TLC model checking of spec/Stepping.tla + generated behaviours replayed into Simulation.run(), traces validated by SteppingTrace.tla"

prop("C01", "A transient run marches strictly forward and ends exactly at final_time",
     "In every transient run the simulated time of consecutive accepted steps strictly increases, never exceeds final_time, and the run returns only when the time equals final_time (to relative round-off). "
     "If the solver never fails, and converges slowly (5 iterations or more) only finitely often, the run terminates without error. "
     "This holds whatever the initial stepsize (also one larger than final_time), change ratio, caps, milestones and export times are.",
     ["histories", "inputs", "configurations"],
     "for all stepsize settings, milestones, export times and all sequences of solver iteration counts/outcomes",
     "Tests run a handful of fixed stepsize settings with a solver that always converges; the end of the run depends on the whole history of adaptations.",
     STEP_FILES,
     [("Simulation.run_transient / iterate", "festim/generic_simulation.py"), ("Stepsize.adapt", "festim/stepsize.py")],
     ["DerivedQuantity.compute at every accepted step", "newton_solver.solve"], STEP_TECH, STEP_NOTE,
     [("t", "simulated time", "Simulation.t"), ("dt", "stepsize", "Stepsize.value")])
prop("C02", "Every milestone and every requested export time is an accepted time",
     "Every milestone strictly between 0 and final_time, and every time requested from a text export in that range, coincides (to relative round-off) with the time of an accepted step: no accepted step jumps over it. "
     "This includes milestones smaller than the initial stepsize, milestones close to one another, milestones given in any order, and runs in which steps had to be retried.",
     ["histories", "inputs", "configurations"],
     "for all milestone sets / export times, stepsize settings and solver outcome histories",
     "Tests check a few calls to the stepsize object with one milestone each; whether a milestone is jumped depends on the step history.",
     STEP_FILES + ["festim/exports/txt_export.py"],
     [("Stepsize.next_milestone / adapt", "festim/stepsize.py"), ("milestones from TXTExport.times", "festim/generic_simulation.py")],
     ["DerivedQuantity.compute at every accepted step"], STEP_TECH, STEP_NOTE,
     [("milestones", "times to hit", "Stepsize.milestones")])
prop("C03", "The stepsize follows the documented adaptation law and respects its caps",
     "After an accepted step the next stepsize is the previous one multiplied by the change ratio if the solver needed fewer than 5 iterations and divided by it otherwise, then capped by the maximum stepsize in force at that time, then shortened only as far as needed to hit the next milestone or final_time. "
     "Without a change ratio the stepsize never changes except for that shortening. "
     "The first step uses the initial stepsize, shortened the same way.",
     ["histories", "inputs", "configurations"],
     "for all change ratios, constant or time-dependent caps, t_stop settings, milestones and iteration-count histories",
     "Tests call the adaptation function in isolation for a few argument triples and never check a whole history of steps against the law.",
     STEP_FILES, [("Stepsize.adapt", "festim/stepsize.py"), ("clip to final_time", "festim/generic_simulation.py")],
     ["stepsize seen by newton_solver.solve"], STEP_TECH, STEP_NOTE,
     [("dt", "stepsize", "Stepsize.value")])
prop("C04", "A failed solve is never accepted, and is retried from the last accepted state",
     "When the nonlinear solver fails, no step is accepted: the attempt is repeated from the last accepted time and state with a stepsize divided once by the change ratio, and post-processing does not see the failed attempt. "
     "The run raises a ValueError exactly when the stepsize is not adaptive, no minimum stepsize is set, or the reduced stepsize falls below the minimum. "
     "The solution, boundary values, sources and temperature of an accepted step belong to the accepted time, and the increment of time equals the stepsize used in the equations.",
     ["fault_sequences", "histories", "configurations"],
     "for all sequences of solver successes and failures and all stepsize settings",
     "No test makes the solver fail in the middle of a run; only the isolated adaptation call is tested with converged=False.",
     STEP_FILES, [("HTransportProblem.update", "festim/h_transport_problem.py"), ("Stepsize.adapt", "festim/stepsize.py")],
     ["newton_solver.solve outcomes", "solution and temperature at every accepted step"], STEP_TECH, STEP_NOTE,
     [("u, u_n", "current / last accepted solution", "HTransportProblem")])

exec(open(os.path.join(HERE, "tools", "props_more.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["id"]
na = {x[0] for x in NA}
m = {"version": 1, "setup_cmd": "java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h > /dev/null 2>&1; test -x /opt/venv/bin/python",
     "checks": [{"property": p["id"], "quick_cmd": "bin/check " + p["id"],
                 "thorough_cmd": "VERIF_TIER=thorough bin/check " + p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                 "level": "model_checking", "level_note": p["note"]} for p in P if p["id"] not in na],
     "not_applicable": [{"property": a, "reason": b} for a, b in NA],
     "notes": "No hooks: every observation goes through FESTIM's public extension points. TLA+ checked with TLC; see DESIGN.md."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
