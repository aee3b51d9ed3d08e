from props_fv import K

A = "include/NeoFOAM/core/parallelAlgorithms.hpp"

K("C18", "Parallel algorithms visit every index once, equally on every executor",
  "parallelFor runs the kernel exactly once for every index of the half-open range (or of the field, storing what the kernel returns in that element) and touches nothing outside it; "
  "parallelReduce delivers the reduction of the kernel's contributions over exactly that range, independent of what the target held before, for plain values and for reducers; parallelScan hands the kernel the inclusive running total "
  "and delivers the overall total. An empty range does nothing. The work runs in the execution space of the executor given (a field's own executor for the field forms), the results are the same for the "
  "serial, CPU and GPU executors, and two executors compare equal exactly when they are of the same kind.",
  ["inputs"], "every range, field size, executor and kernel of the shapes used (element update, element value, sum, maximum, running total)",
  "tests use one range starting at 0 and neutral initial values; the tests built here do not compile these headers at all",
  [A, "include/NeoFOAM/core/executor/executor.hpp"],
  [("parallelFor", A), ("parallelReduce", A), ("parallelScan", A), ("operator==", "include/NeoFOAM/core/executor/executor.hpp")],
  observe=["parallelFor", "parallelReduce", "parallelScan", "Executor ==, !="])

FH = "include/NeoFOAM/fields/field.hpp"
FF = "include/NeoFOAM/fields/fieldFreeFunctions.hpp"
EX = "include/NeoFOAM/core/executor/CPUExecutor.hpp"

K("C19", "A field owns exactly one block of its executor's memory and frees it once",
  "Whatever sequence of construction, copy, move, resize, assignment, executor transfer and destruction a program performs, every field owns one live block of memory that lies in its own executor's memory space and is at least "
  "as large as the field says (or owns none and is empty); no block is shared by two fields, used or released after its release, released or reallocated in another space, or lost; host code and kernels never touch memory of the other side.",
  ["inputs", "history"], "every size, executor and reachable state of a field (sized, empty, shrunk to nothing, moved from) and every member operation on it",
  "leaks, double frees and foreign-space accesses need particular histories; the tests run no sanitizer and build no GPU executor",
  [FH, EX, "include/NeoFOAM/core/executor/serialExecutor.hpp", "include/NeoFOAM/core/executor/GPUExecutor.hpp"],
  [("Field", FH), ("resize", FH), ("copyToExecutor", FH), ("operator=", FH), ("realloc", EX)],
  observe=["Field constructors, assignment, resize, copyToExecutor, copyToHost, destructor", "Executor alloc, realloc, free"])

K("C20", "Fields have value semantics and field arithmetic is element-wise",
  "A field holds exactly the size, values and executor it was constructed, copied, moved, transferred or assigned with; copies are independent and a moved-from field is empty. Assignment, fill, setField, map, apply and resize give every element "
  "(of the range asked for) its value and leave all others alone (resize keeps the elements both sizes have); +, -, * and their assignment forms are element-wise, never change an operand other than the target, and refuse operands of "
  "another size; assigning from another executor is refused. equal is true exactly when sizes and all elements agree; size, range and views describe the same elements.",
  ["inputs"], "every size, value, sub-range, executor and element type (scalar, Vector, label), and every reachable state of the target",
  "tests use constant fields, where an exchanged index, an off-by-one range or an aliased operand cannot show",
  [FH, FF],
  [("Field", FH), ("copyToExecutor", FH), ("operator=", FH), ("operator+=", FH), ("fill", FF), ("setField", FF), ("map", FF), ("equal", FF), ("scalarMul", FF)],
  observe=["Field constructors and operators", "fill, setField, map, add, sub, mul, scalarMul, equal"])
