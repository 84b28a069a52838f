CONSTANT Families = {"traps", "dirichlet", "flux", "source", "temp", "chem", "coord", "extr", "surf", "mix"}
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
