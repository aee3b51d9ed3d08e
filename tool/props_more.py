from props_fv import K

MH = "include/NeoFOAM/linearAlgebra/CSRMatrix.hpp"
LH = "include/NeoFOAM/linearAlgebra/linearSystem.hpp"

K("C34", "Linear systems own their parts; entries, products and resets mean what CSR means",
  "A CSR matrix and a linear system hold their own copies of exactly the values, column indices, row offsets and right-hand side they were given, report the rows, non-zeros and executor that follow from them, and their views address exactly "
  "that memory. entry(i, j) is the stored value of column j in row i and the program ends when row i has no such column; entry(k) is the k-th stored value. Copies and executor transfers have the same contents, are independent, and lie on the "
  "executor asked for. reset() zeroes every value and right-hand side and leaves the structure alone; createEmptyLinearSystem takes its structure from the pattern and holds only zeros; spmv(ls, x) is A x - b row by row on the system's executor "
  "and changes neither operand; convert() keeps structure and values.",
  ["inputs"], "every size, structure, value and executor; entry(i, j) for rows of up to four ascending columns",
  "tests use one full 3x3 matrix, where confused rows, offsets or ranges cannot show, and are not built here",
  [MH, LH],
  [("CSRMatrix", MH), ("entry", MH), ("copyToExecutor", MH), ("convert", MH), ("LinearSystem", LH), ("reset", LH), ("spmv", LH), ("createEmptyLinearSystem", LH)],
  observe=["CSRMatrix, CSRMatrixView", "LinearSystem", "spmv", "convert", "createEmptyLinearSystem"])

SG = "include/NeoFOAM/fields/segmentedField.hpp"

K("C39", "A segmented field has exactly the segments it was built from",
  "A segmented field built from lengths has one segment per length, offset 0 is 0, every later offset is the sum of the lengths before it, and it has room for exactly their sum of values; built from values and offsets it holds its own copies of "
  "both; built from sizes it has those sizes; all on the executor of its input, which stays as it was. segmentsFromIntervals returns the sum and leaves the first offset alone. Segment i is the half-open range from offset i to offset i + 1 in "
  "every form of access: bounds, range (start and length), span, and the raw views.",
  ["inputs"], "every number of segments (none included), every length (all zero included), every executor",
  "tests use equal or ascending lengths and no empty segments, and are not built here",
  [SG], [("segmentsFromIntervals", SG), ("SegmentedField", SG), ("bounds", SG), ("range", SG), ("span", SG)],
  observe=["SegmentedField, SegmentedFieldView", "segmentsFromIntervals"])

SF = "src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp"
SPF = "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"

K("C35", "Sparsity pattern and cell-to-face stencil list exactly the mesh's connections",
  "CellToFaceStencil::computeStencil() returns one segment per cell, holding each internal face of which the cell is owner or neighbour and each boundary face (numbered from nInternalFaces) whose face cell it is, once each and nothing else. A "
  "SparsityPattern has one row per cell; row c holds c itself and, for each internal face of c, the cell on the other side, once each (nCells + 2 nInternalFaces entries in all). Within the rows, rowPtrs[neighbour] + neighbourOffset[f] is where the "
  "owner of face f is stored, rowPtrs[owner] + ownerOffset[f] where its neighbour is, and rowPtrs[c] + diagOffset[c] where c is. Calling update() again gives the same pattern.",
  ["inputs", "schedules"], "every mesh with fewer than 256 entries per row (offsets are 8 bit), every order in which the launches run their iterations",
  "tests use a one-dimensional uniform mesh run serially, where cells are visited in order and have at most two faces, and are not built here",
  [SF, SPF], [("computeStencil", SF), ("SparsityPattern", SPF), ("update", SPF), ("segmentsFromIntervals", SG)],
  observe=["CellToFaceStencil::computeStencil", "SparsityPattern::rowPtrs, colIdxs, ownerOffset, neighbourOffset, diagOffset"])

UMF = "src/mesh/unstructured/unstructuredMesh.cpp"
BMF = "src/mesh/unstructured/boundaryMesh.cpp"

K("C28", "A mesh reports what it was built from; generated meshes are consistent",
  "Every accessor of UnstructuredMesh and BoundaryMesh returns the field, number or boundary mesh given for it at construction, and a boundary accessor with a patch index returns exactly the part of its field from offset i to offset i + 1. "
  "create1DUniformMesh(exec, n) is n cells of size 1/n on [0, 1] numbered from the left: centres, volumes, owners (left cell), neighbours (right cell), face areas and centres follow, the boundary faces come last (left then right, areas pointing "
  "outwards) and every boundary array (faceCells, cf, sf, magSf, nf, delta = face centre minus cell centre, deltaCoeffs = 1/|delta|, weights, offsets) agrees with the faces. createSingleCellMesh is the unit square, one boundary face per side.",
  ["inputs"], "every content and size of the fields given, every patch index, every n >= 1",
  "tests look at one size and a few elements, and are not built here",
  [UMF, BMF], [("UnstructuredMesh", UMF), ("create1DUniformMesh", UMF), ("createSingleCellMesh", UMF), ("BoundaryMesh", BMF), ("extractSubSpan", BMF)],
  observe=["UnstructuredMesh accessors", "BoundaryMesh accessors", "create1DUniformMesh, createSingleCellMesh"])

K("C29", "Copies and clones are complete, of the same type, and own their parts",
  "Copying, cloning or copy-assigning an expression, a type-erased operator, a concrete operator, a scheme (interpolation, gradient, divergence, Laplacian), a boundary condition, a field with its boundary data, a linear system, a linear solver or a "
  "time integrator gives an object of the same dynamic type each of whose parts is a copy of the original's (coefficients, kinds, names, patch ranges, types, values); what the original only refers to, the copy refers to as well, what it owns is "
  "owned anew (an owned strategy is cloned from the original's and absent only where the original has none), and the original stays as it was. A copied Runge-Kutta integrator keeps its settings and starts without the other's solver memory, which "
  "it sets up when it first solves. An object moved to has every part the original had.",
  ["inputs"], "every content of the original; every class that declares a copy or move constructor, a copy or move assignment or clone()",
  "tests copy a few default objects; a member left out shows only once a copy is used where that member matters, which containers and type erasure do out of sight",
  ["include/NeoFOAM/dsl/expression.hpp", "include/NeoFOAM/dsl/spatialOperator.hpp", "include/NeoFOAM/fields/boundaryFields.hpp", "src/timeIntegration/rungeKutta.cpp"],
  [("Expression", "include/NeoFOAM/dsl/expression.hpp"), ("clone", "include/NeoFOAM/dsl/spatialOperator.hpp"), ("clone", "include/NeoFOAM/dsl/temporalOperator.hpp"),
   ("DivOperator", "include/NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp"), ("BoundaryFields", "include/NeoFOAM/fields/boundaryFields.hpp"), ("RungeKutta", "src/timeIntegration/rungeKutta.cpp")],
  observe=["copy constructors, copy assignments", "clone() of operators, schemes, boundary conditions and integrators"])

MPH = "include/NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp"
MPC = "src/core/mpi/halfDuplexCommBuffer.cpp"
MPF = "include/NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
MPO = "include/NeoFOAM/core/mpi/operators.hpp"
CMH = "include/NeoFOAM/mesh/unstructured/communicator.hpp"
CMC = "src/mesh/unstructured/communicator.cpp"

K("C36", "Communication buffers: layout, claiming, transfers, completion",
  "In a half or full duplex buffer the part of rank r has the number of elements given for r, of whatever type it was last initialised for, lies behind the parts of the ranks before it and inside the memory MPI uses; sent and received parts do not overlap. "
  "A buffer is in use from initComm(name) to finaliseComm and can then be initialised again, for any type. send and receive start exactly one transfer with each rank there is data for, of its whole part as bytes, with its own request, the tag of the "
  "name and the environment's communicator. isComplete is true exactly when no transfer is pending, waitComplete returns only then, and no request is tested again once MPI has released it.",
  ["inputs", "schedules"], "every number of elements per rank (none or any) for three ranks, every type and sequence of types, every order in which transfers complete",
  "tests need several MPI ranks and are not built here; a transfer that is late by chance shows a wrong completion only under load",
  [MPH, MPC, MPF], [("initComm", MPH), ("get", MPH), ("send", MPC), ("receive", MPC), ("isComplete", MPC), ("waitComplete", MPC), ("startComm", MPF)],
  observe=["arguments of MPI_Isend, MPI_Irecv, MPI_Test", "spans from get, getSend, getReceive", "isCommInit, isComplete"])

K("C37", "MPI operations, types, tags and wrappers are those MPI knows by that name",
  "getType<T>() is MPI's type for T and getOp(op) MPI's operation of that name. allReduce reduces exactly the value given (all components of a Vector) in place; isend, irecv and test hand MPI the buffer, count, type, rank, tag, communicator and request "
  "they were given and test tells whether the request completed. The tag of a communication name depends on the name only and is at least 0 and at most 32767, the largest tag every MPI accepts.",
  ["inputs"], "all operations and types in the tables, every argument of the wrappers, every name",
  "tests reduce a few values with a few operations on few ranks; a tag out of range depends on the hash of a name",
  [MPO, MPH], [("getOp", MPO), ("getType", MPO), ("allReduce", MPO), ("isend", MPO), ("irecv", MPO), ("bufferHash", MPH)],
  observe=["getOp, getType", "arguments of MPI_Allreduce, MPI_Isend, MPI_Irecv", "bufferHash"])

K("C38", "A communicator delivers each rank's values to the mapped elements",
  "startComm(field, name) sends to rank r, in this order, field[i] for the indices i of r's send map, as they are when it is called, and leaves the field alone. finaliseComm(field, name) returns after every transfer of that name completed, has put the k-th "
  "value received from rank r at the k-th index of r's receive map, changed no other element and kept the field's executor. Communications under different names that are under way together use different buffers, which stay where they are, and end "
  "independently; isComplete(name) tells of that name only. After finaliseComm the name and the buffer can be used again.",
  ["inputs", "schedules"], "scalar, int and Vector fields on every executor, every field content, every order in which transfers complete; three ranks and three representative pairs of maps (empty, unordered, several elements)",
  "tests need several MPI ranks and are not built here; they run one communication at a time to its end",
  [CMH, CMC], [("startComm", CMH), ("finaliseComm", CMH), ("findDuplexBuffer", CMC), ("createNewDuplexBuffer", CMC), ("isComplete", CMC)],
  observe=["memory handed to MPI_Isend", "the field after finaliseComm", "isComplete(name)"])

FCH = "include/NeoFOAM/core/database/fieldCollection.hpp"
FCC = "src/core/database/fieldCollection.cpp"
OTH = "include/NeoFOAM/core/database/oldTimeCollection.hpp"
OTC = "src/core/database/oldTimeCollection.cpp"

K("C33", "Registered fields are kept under their key; oldTime is one field per level",
  "registerField puts a copy of the field given (internal values, boundary data and conditions, mesh, executor) into the collection; its key is its document's id, it knows its database and collection, and the document holds the name and the time, "
  "iteration and sub-cycle index given, or those of the registered field it is made from. FieldCollection::instance gives the one collection of a name, or of the field; a field in none is refused and a constant database gains none. oldTime(f) is, from its first use on, one "
  "field <name>_0 in the same collection with the values f had at that first use, time index one less, other indexes equal, whatever f becomes; oldTime of it is the next level. Its document links the two keys, names f's newest level as current and "
  "counts the level. A constant field without old time gains none.",
  ["inputs", "histories"], "every field content; registrations of up to two fields with up to two old levels, in the collection's own code with documents, dictionaries and the database executed symbolically",
  "tests register one or two fields and are not built here; wrong links show at the second level or after the field was changed",
  [FCH, FCC, OTH, OTC], [("registerField", FCH), ("CreateFromExistingField", FCH), ("instance", FCC), ("getOrInsert", OTH), ("setCurrentFieldAndLevel", OTC), ("findNextTime", OTC), ("oldTime", OTH)],
  observe=["registerField, fieldDoc, FieldCollection::instance", "oldTime(field), OldTimeDocument"])

VECH = "include/NeoFOAM/core/primitives/vector.hpp"
SCAH = "include/NeoFOAM/core/primitives/scalar.hpp"

K("C43", "Vector arithmetic is component-wise, whatever the operands share",
  "A Vector holds the three numbers it is made from (one number: three times; none: zeros); v[i] and v(i) are component i, readable and writable. +, -, += and -= add or subtract component by component and "
  "* and *= multiply every component by the factor as it was when the operator was called, also when the operands are the same object or the factor is one of the vector's own components. == holds exactly when "
  "all three components are equal. a & b is the inner product, mag(v) the Euclidean length, mag of a scalar its absolute value; zero<T>() and one<T>() hold zeros and ones.",
  ["inputs"], "every component value (as exact real numbers), every aliasing of the two operands",
  "tests multiply a few constants; a factor aliasing a component or two equal components hide most mistakes",
  [VECH, SCAH], [("operator*=", VECH), ("operator==", VECH), ("operator+=", VECH), ("mag", VECH), ("mag", SCAH)],
  observe=["Vector's members and operators", "mag, zero, one"])

GSC = "src/finiteVolume/cellCentred/stencil/geometryScheme.cpp"
SPC = "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp"
BDH = "include/NeoFOAM/finiteVolume/cellCentred/boundary.hpp"

K("C41", "A mesh's geometry scheme and sparsity pattern are made once and shared",
  "GeometryScheme::readOrCreate(mesh) and SparsityPattern::readOrCreate(mesh) give the object stored for that mesh; it is made, for that mesh, at the first use and never again, and the two do not disturb each "
  "other. A geometry scheme's weights, deltaCoeffs and nonOrthDeltaCoeffs are four distinct fields with its nonOrthCorrectionVectors, on its mesh and the mesh's executor, each computed by the kernel's function of "
  "that name when the scheme is made from a mesh and whenever update() is called; a scheme made from fields holds copies of them; without a kernel none is made. createCalculatedBCs and createExtrapolatedBCs give "
  "one condition of that kind per patch of the mesh, in patch order.",
  ["inputs", "histories"], "every mesh and every content of its stencil database; meshes of up to three patches for the sets of conditions",
  "tests are not built here; a second object or a swapped coefficient field gives plausible numbers",
  [GSC, SPC, BDH], [("readOrCreate", GSC), ("readOrCreate", SPC), ("update", GSC), ("createCalculatedBCs", BDH), ("createExtrapolatedBCs", BDH)],
  observe=["readOrCreate, mesh.stencilDB()", "weights(), deltaCoeffs(), nonOrthDeltaCoeffs()", "createCalculatedBCs, createExtrapolatedBCs"])

SUNH = "include/NeoFOAM/timeIntegration/sundials.hpp"
RKC = "src/timeIntegration/rungeKutta.cpp"
RKH = "include/NeoFOAM/timeIntegration/rungeKutta.hpp"

K("C42", "Runge-Kutta steps old values by dt times minus the explicit operators",
  "RungeKutta::solve(expression, field, t, dt) with the method Forward-Euler (in the scheme dictionary's Runge-Kutta-Method) sets field = old - dt * (sum of the expression's explicit operators), old being the field's old time level, "
  "starts SUNDIALS at t and leaves the new values in the old level; a second step of the same integrator, with another dt, continues from there. A copy, made before or after steps, does the same on its own. Any other method ends "
  "the program. A SUNDIALS vector set up for an executor has the number of elements asked for in memory of that executor and is only ever used as such; fieldToSunNVector and sunNVectorToField copy every element and nothing "
  "else; a copied vector has its own N_Vector, a moved one keeps it. The right-hand side handed to SUNDIALS is minus the explicit operators, and leaves the state vector alone.",
  ["inputs", "histories"], "every field content, t, dt and executor; expressions of up to two explicit operators; SUNDIALS is represented by the meaning of its documented functions (fixed-step explicit Euler)",
  "tests need SUNDIALS and are not built here; they integrate one equation on one executor",
  [SUNH, RKC, RKH], [("solve", RKC), ("initODEMemory", RKC), ("explicitRKSolve", SUNH), ("stringToERKTable", SUNH), ("fieldToSunNVector", SUNH), ("SKVector", SUNH)],
  observe=["the field and its old level after solve", "N_Vector of an SKVector", "ydot of explicitRKSolve"])

FVI = "include/NeoFOAM/finiteVolume/cellCentred/"
SELH = [FVI + "interpolation/surfaceInterpolation.hpp", FVI + "faceNormalGradient/faceNormalGradient.hpp", FVI + "operators/divOperator.hpp",
        FVI + "operators/laplacianOperator.hpp", "include/NeoFOAM/linearAlgebra/solver.hpp"]

K("C40", "Schemes and operators named in an input are made and used for what they name",
  "create of the interpolation, face-normal-gradient, divergence, laplacian and solver factories makes the class registered under the name the input gives (its own dictionary entry, or the next token of a token "
  "list, which is used up), for the executor, mesh and input given. SurfaceInterpolation, FaceNormalGradient, Solver and the div and laplacian operators hand every call to the scheme given or made, arguments in "
  "order, with the operator's own flux, field and coefficient; nothing is called when nothing was selected. build(dictionary) selects the scheme listed in divSchemes as div(flux,field), or laplacianSchemes as "
  "laplacian(gamma,field), and replaces an earlier one; the dictionary stays as it was. A Gauss scheme reads interpolation, then face-normal gradient. The dsl::imp and dsl::exp helpers make the operator they name, "
  "of their type, on the fields given, with coefficient one.",
  ["inputs", "histories"], "every input, name and field; scalar and vector schemes; token lists read in order, dictionaries with any content",
  "tests name one scheme per factory and use valid inputs; a swapped argument or entry is found only when another scheme is listed",
  SELH + [FVI + "operators/gaussGreenDiv.hpp", FVI + "operators/gaussGreenLaplacian.hpp", "include/NeoFOAM/dsl/implicit.hpp", "src/dsl/explicit.cpp"],
  [("create", f) for f in SELH] + [("build", SELH[2]), ("build", SELH[3])],
  observe=["class and constructor arguments of what create returns", "calls arriving at the scheme", "getType, getField, getCoefficient of an operator"])

K("C45", "Fields are laid out for the mesh, patches and executor they are made for",
  "Boundary data made for patch offsets has one entry per boundary face, one type per patch and the offsets given, and range(i) is patch i's part; boundary data, domain fields and volume and surface fields made "
  "from existing data hold copies of all of it, on the executor asked for, which exec() names. A volume field has one inner value per cell, a surface field one per inner and boundary face, inner data that does not "
  "fit the mesh are turned down. Name, mesh, boundary conditions, key, collection and database are those given; db() throws without a database; registered() holds exactly when key, collection and database are there. "
  "A boundary condition's start, end, size, id and range() are its patch's.",
  ["inputs"], "every constructor of BoundaryFields, DomainField, GeometricFieldMixin, VolumeField, SurfaceField and BoundaryPatchMixin that compiles, for scalars and vectors; patch offsets are not empty, as for every mesh",
  "tests build fields on meshes with equal patches and on one executor, where a swapped member, size or executor is invisible",
  ["include/NeoFOAM/fields/boundaryFields.hpp", "include/NeoFOAM/fields/domainField.hpp", FVI + "fields/geometricField.hpp", FVI + "fields/volumeField.hpp", FVI + "fields/surfaceField.hpp", FVI + "boundary/boundaryPatchMixin.hpp"],
  [("BoundaryFields", "include/NeoFOAM/fields/boundaryFields.hpp"), ("DomainField", "include/NeoFOAM/fields/domainField.hpp"), ("VolumeField", FVI + "fields/volumeField.hpp"), ("GeometricFieldMixin", FVI + "fields/geometricField.hpp")],
  observe=["internalField(), boundaryField(), exec(), mesh(), name, key of the new field", "BoundaryFields::range", "VolumeField::db, registered"])
K("C46", "Host code never touches the memory of a device executor",
  "Wherever the library reads or writes elements of a field's array outside of a parallel launch, the field's executor is known on that path to be the serial or the CPU executor, or the array is a host copy "
  "(copyToHost, or a field made on the serial executor). Everything else that handles elements does so inside a launch on the field's executor.",
  ["inputs"], "every path of the functions entered by the analyses of meshes, geometry, stencils, sparsity patterns, operators, boundary conditions, fields, coefficients, time integration, communication and registered fields, for an executor that is not known beforehand",
  "the tests here run on host executors only, where memory of every executor can be read",
  [FVI + "operators/gaussGreenDiv.hpp", "src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenGrad.cpp", "src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp",
   "src/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.cpp", "src/finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp", "include/NeoFOAM/fields/boundaryFields.hpp", "include/NeoFOAM/mesh/unstructured/communicator.hpp"],
  [("SerialExecutor branch", "src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp"), ("copyToHost", "include/NeoFOAM/fields/field.hpp")],
  observe=["element accesses outside of parallelFor / parallelReduce"])
K("C44", "Every scheme is registered under its documented name, for every value type",
  "A program that includes the library finds, in the tables of the interpolation (linear, upwind), face-normal gradient (uncorrected), divergence and laplacian (Gauss) and boundary condition factories "
  "(fixedValue, fixedGradient, calculated, extrapolated, empty for volumes; fixedValue, calculated, empty for surfaces), for scalars and for vectors, and of the time integrator factory (forwardEuler, backwardEuler, Runge-Kutta), "
  "the class of that name with its documentation. No two schemes of a factory share a name, registering one removes no other, and no two factories are listed under the same name.",
  ["histories"], "every static registration of the library's headers and sources, in the order they run",
  "registration happens before main; a test that names one scheme cannot see that another has been replaced or lost",
  [FVI + "boundary.hpp", FVI + "interpolation/linear.hpp", FVI + "interpolation/upwind.hpp", FVI + "faceNormalGradient/uncorrected.hpp", FVI + "operators/gaussGreenDiv.hpp",
   FVI + "operators/gaussGreenLaplacian.hpp", "include/NeoFOAM/timeIntegration/forwardEuler.hpp", "include/NeoFOAM/timeIntegration/backwardEuler.hpp", RKH, "src/timeIntegration/timeIntegration.cpp",
   "include/NeoFOAM/core/runtimeSelectionFactory.hpp"],
  [("name", FVI + "interpolation/linear.hpp"), ("addSubType", "include/NeoFOAM/core/runtimeSelectionFactory.hpp")],
  observe=["table() and docTable() of every factory after static initialisation", "Factory::name()"])
K("C47", "A linear solver library is given exactly the system to solve",
  "Given a linear system and a field, the PETSc and the Ginkgo solver hand the library a matrix with exactly the system's entries at their rows and columns, of one row per unknown, the system's right-hand side in order, and "
  "memory that is still there when the library reads it and that is read where it lives; after solve every element of the field is the library's solution for that unknown, and PETSc's objects have been destroyed. "
  "Ginkgo is configured with exactly the dictionary's entries, with their types, at every depth; an entry of a type it does not know is turned down.",
  ["inputs"], "both solvers, for systems of one to three rows with full, sparse and unsorted rows (no empty row), for every executor; dictionaries with one entry of each type, two entries, a nested dictionary, none. What the libraries compute is theirs",
  "neither library is here, so no test of theirs is built; and their tests solve one symmetric-pattern system",
  ["include/NeoFOAM/linearAlgebra/petsc.hpp", "include/NeoFOAM/linearAlgebra/petscSolverContext.hpp", "include/NeoFOAM/linearAlgebra/ginkgo.hpp", "src/linearAlgebra/ginkgo.cpp"],
  [("petscSolver::solve", "include/NeoFOAM/linearAlgebra/petsc.hpp"), ("GinkgoSolver::solve", "include/NeoFOAM/linearAlgebra/ginkgo.hpp"), ("parse", "src/linearAlgebra/ginkgo.cpp")],
  observe=["arguments of MatSetPreallocationCOO/MatSetValuesCOO/KSPSolve", "arguments of Csr::create, Dense::create, apply", "the field after solve", "gko::config::pnode returned by parse"])
