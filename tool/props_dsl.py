from props_fv import K

EH = "include/NeoFOAM/dsl/expression.hpp"
SH = "include/NeoFOAM/dsl/spatialOperator.hpp"
TH = "include/NeoFOAM/dsl/temporalOperator.hpp"
CH = "src/dsl/coeff.cpp"
SV = "include/NeoFOAM/dsl/solver.hpp"
FE = "include/NeoFOAM/timeIntegration/forwardEuler.hpp"
BE = "include/NeoFOAM/timeIntegration/backwardEuler.hpp"
TI = "include/NeoFOAM/timeIntegration/timeIntegration.hpp"

K("C30", "An expression evaluates each of its operators once, with the right coefficient",
  "Evaluating an expression runs every operator of the kind asked for (explicit or implicit, spatial or temporal) exactly once, on the source field or linear system given, accumulating onto what the ones before it left (explicit "
  "evaluation of nCells starts from zero on the expression's executor), and no other operator; build reaches every operator. Sums, differences and multiples hold each operand's operators once with coefficients multiplied by 1, -1 or "
  "the factor. Expressions and operators are values: operands stay unchanged and copies share no state.",
  ["inputs"], "expressions of up to three spatial and two temporal operators of every mix of kinds, all coefficients, fields and executors of the expression",
  "tests evaluate expressions of two dummies with constant coefficients; a wrong sign, a shared coefficient or a dropped operator of the other kind goes unseen (and this code is not built here)",
  [EH, SH, TH],
  [("explicitOperation", EH), ("implicitOperation", EH), ("addExpression", EH), ("operator+", EH), ("operator-", EH), ("operator*", EH), ("SpatialOperator", SH), ("TemporalOperator", TH)],
  observe=["Expression", "SpatialOperator", "TemporalOperator", "operator +, -, *"])

K("C31", "An operator's coefficient is its number times its field, element by element",
  "A Coeff made from a number, a field or both has at every element the number times the field's element (1 where none was given) and says whether it has a field. Multiplying by a number or another Coeff multiplies element by element, "
  "keeps or takes over the field, changes only the target, and refuses two fields. toField delivers a field of all the elements (or of one element for a plain number), whatever size it had, on its own executor.",
  ["inputs"], "every number, field, size and target field", "tests use constant fields of one size, where a dropped factor or an exchanged operand can cancel",
  [CH, "include/NeoFOAM/dsl/coeff.hpp"],
  [("operator[]", "include/NeoFOAM/dsl/coeff.hpp"), ("operator*=", CH), ("toField", CH)],
  observe=["Coeff", "toField"])

K("C32", "A time step advances the field by the scheme's formula with every operator in it",
  "Forward Euler makes the field old - dt * (sum of the explicit operators), corrects the boundary from the new values, and stores them as the old-time level. Backward Euler assembles each implicit spatial and temporal operator (with t and dt) "
  "once into one empty system, subtracts explicit operators times the cell volumes from its right-hand side, solves it into the field and updates the old level. solve builds every operator with fvSchemes first, refuses an expression without "
  "operators, picks the integrator named in ddtSchemes, hands it fvSolution for its linear solver, and without temporal operators solves the steady system likewise. Copies of an integrator keep its method and settings.",
  ["inputs", "history"], "the mixes of operators each scheme can treat, every field value, source, volume, time and step, CPU and GPU executors",
  "tests take one step on one cell with one constant source; terms that vanish there or cancel never show (and this code is not built here)",
  [FE, BE, TI, SV],
  [("ForwardEuler::solve", FE), ("BackwardEuler::solve", BE), ("TimeIntegration", TI), ("solve", SV)],
  observe=["dsl::solve", "TimeIntegration", "ForwardEuler", "BackwardEuler"])
