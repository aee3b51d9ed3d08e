from props import P

F = "include/NeoFOAM/finiteVolume/cellCentred/"
FS = "src/finiteVolume/cellCentred/"

TECHK = ("abstract interpretation of clang's typed AST of the kernels with symbolic arrays; each launch is summarised for an "
         "arbitrary iteration and the normal form compared with the stated formula")
NOTEK = ("The whole call tree from the public operation down to the kernels is interpreted for an arbitrary mesh (symbolic sizes, "
         "connectivity and field values); each parallel launch is summarised once for an arbitrary iteration and the array contents "
         "after the operation are compared as polynomial normal forms over real numbers, so rounding is not judged. Parsed against "
         "stub headers for Kokkos and MPI (models/stubs), because the real ones are not installed. Trusted: clang's AST, the models of "
         "parallelFor, views and spans. What cannot be decided is reported as undecided in the evidence, never as a violation.")
NOTER = NOTEK.replace("and the array contents after the operation are compared as polynomial normal forms over real numbers, so rounding is not judged",
                      "and the reads, writes and atomic updates of two arbitrary distinct iterations are compared")


def K(*a, **kw):
    kw.setdefault("note", NOTEK)
    kw.setdefault("tech", TECHK)
    P(*a, **kw)


K("C21", "Face interpolation and face-normal gradients follow their scheme's definition",
  "On every internal face linear interpolation yields w*phi(owner) + (1-w)*phi(neighbour) with the geometry scheme's weight w, upwind interpolation yields the value of the "
  "owner cell where the face flux is not negative and of the neighbour cell otherwise, and the uncorrected face-normal gradient yields (phi(neighbour) - phi(owner)) times the face's delta coefficient. On every boundary "
  "face interpolation yields the boundary value of the field weighted with the boundary face's weight, and the gradient the difference of boundary value and owner value times the delta coefficient. An upwind "
  "interpolation requested without a flux ends with an error.",
  ["inputs"], "every mesh (any number of cells, faces and boundary faces, any connectivity), field, flux and weights, for scalar and vector fields",
  "tests interpolate constant or linear fields on a small uniform one-dimensional mesh, where swapped cells or wrong weights give the same values",
  [F + "interpolation/linear.hpp", FS + "interpolation/linear.cpp", F + "interpolation/upwind.hpp", FS + "interpolation/upwind.cpp",
   F + "interpolation/surfaceInterpolation.hpp", F + "faceNormalGradient/uncorrected.hpp", FS + "faceNormalGradient/uncorrected.cpp"],
  [("linear kernel", FS + "interpolation/linear.cpp"), ("upwind kernel", FS + "interpolation/upwind.cpp"),
   ("face-normal gradient kernel", FS + "faceNormalGradient/uncorrected.cpp")],
  observe=["Linear::interpolate", "Upwind::interpolate", "Uncorrected::faceNormalGrad"])

K("C22", "Geometric coefficients and the Courant number follow their definitions",
  "The linear weight of every internal face is the neighbour-side share of the face-normal distance, and the delta coefficients "
  "are the reciprocal distances between the cell centres, or between owner and face centre on the boundary, where the weight is 1; non-orthogonal delta coefficients use the face-normal component of that distance, at least 5 % of it. The Courant number of a flux is half the time step times the largest, "
  "over all cells, ratio of the summed magnitudes of the fluxes through the cell's internal and boundary faces to its volume.",
  ["inputs"], "every mesh geometry and connectivity, flux and time step",
  "tests use a uniform one-dimensional mesh, where owner and neighbour distances are equal, and a few flux values",
  [F + "stencil/basicGeometryScheme.hpp", FS + "stencil/basicGeometryScheme.cpp", FS + "auxiliary/coNum.cpp", F + "auxiliary/coNum.hpp"],
  [("weights and delta coefficients", FS + "stencil/basicGeometryScheme.cpp"), ("Courant number", FS + "auxiliary/coNum.cpp")],
  observe=["BasicGeometryScheme::updateWeights", "updateDeltaCoeffs", "updateNonOrthDeltaCoeffs", "computeCoNum"])

K("C23", "Parallel kernels are free of data races on every mesh",
  "In every parallel loop of the discretisation, boundary conditions, geometry and interpolation, two different iterations never access the same memory element unless both only read it or both update "
  "it atomically, for any connectivity the mesh may have. In particular several faces contributing to one cell do so atomically, and no kernel writes to variables shared by all iterations.",
  ["schedules", "inputs"], "every schedule of the iterations on any executor and every mesh (any number of faces per cell, internal and boundary)",
  "a race needs a particular interleaving on a parallel backend; the tested build runs serially, and tests on small meshes rarely collide",
  [FS + "operators/gaussGreenDiv.cpp", FS + "operators/gaussGreenGrad.cpp", FS + "operators/gaussGreenLaplacian.cpp",
   FS + "operators/surfaceIntegrate.cpp", FS + "operators/ddtOperator.cpp", FS + "operators/sourceTerm.cpp", FS + "auxiliary/coNum.cpp",
   FS + "stencil/basicGeometryScheme.cpp", FS + "interpolation/linear.cpp", FS + "interpolation/upwind.cpp", FS + "faceNormalGradient/uncorrected.cpp"],
  [("atomic accumulation into cells", FS + "operators/gaussGreenDiv.cpp"), ("atomic matrix updates", FS + "operators/gaussGreenLaplacian.cpp")],
  observe=["parallelFor", "parallelReduce"], note=NOTER,
  tech="abstract interpretation of each kernel for two arbitrary distinct iterations; alias classes of index expressions and atomicity of their accesses")

K("C24", "Explicit operators add exactly the discretised term to every cell",
  "An explicit Gauss divergence, gradient, Laplacian or surface integral gives in every cell the operator's coefficient divided by the cell volume "
  "times the signed sum of the face contributions: plus for faces the cell owns, minus for internal faces it neighbours, plus for its boundary faces. "
  "Contributions are flux times face value, face value times area vector, or diffusion coefficient times face area times face-normal gradient. Explicit source and time terms add coefficient times source coefficient times value, and coefficient times volume times the "
  "difference quotient of current and old value, to what the result already holds, as do div and laplacian operators evaluated with a Gauss scheme; forms returning a new field start from zero.",
  ["inputs"], "every mesh, connectivity, flux, field value and coefficient, for scalar and vector fields",
  "tests use constant or linear fields on tiny uniform meshes, where most terms cancel or a wrong sign, volume or coefficient gives the same result",
  [FS + "operators/gaussGreenDiv.cpp", FS + "operators/gaussGreenGrad.cpp", FS + "operators/gaussGreenLaplacian.cpp", FS + "operators/surfaceIntegrate.cpp",
   FS + "operators/sourceTerm.cpp", FS + "operators/ddtOperator.cpp",
   F + "operators/gaussGreenDiv.hpp", F + "operators/gaussGreenGrad.hpp", F + "operators/gaussGreenLaplacian.hpp", F + "operators/surfaceIntegrate.hpp"],
  [("face loops with atomic accumulation", FS + "operators/gaussGreenDiv.cpp"), ("division by volume", FS + "operators/gaussGreenGrad.cpp")],
  observe=["GaussGreenDiv::div", "GaussGreenGrad::grad", "GaussGreenLaplacian::laplacian", "SurfaceIntegrate::explicitOperation", "SourceTerm::explicitOperation", "DdtOperator::explicitOperation"])

K("C25", "Kernels never access an array outside its bounds",
  "Every array access made by a parallel loop of the discretisation, boundary, geometry and interpolation code lies inside the "
  "array, for every mesh whose addressing is valid: face indices below the number of faces the array covers, cell indices below the number of cells, boundary indices below the number of boundary faces, and matrix entries below the number of entries.",
  ["inputs"], "every valid mesh, including meshes without internal or without boundary faces, and every iteration",
  "release builds do not check bounds, and an access just outside an array seldom changes a test's result",
  [FS + "operators/gaussGreenDiv.cpp", FS + "operators/gaussGreenGrad.cpp", FS + "operators/gaussGreenLaplacian.cpp",
   FS + "operators/surfaceIntegrate.cpp", FS + "auxiliary/coNum.cpp", FS + "stencil/basicGeometryScheme.cpp", FS + "interpolation/linear.cpp",
   FS + "interpolation/upwind.cpp", FS + "faceNormalGradient/uncorrected.cpp", F + "boundary/volume/fixedGradient.hpp"],
  [("index computation of boundary faces", FS + "operators/gaussGreenDiv.cpp"), ("matrix addressing", FS + "operators/gaussGreenLaplacian.cpp")],
  observe=["parallelFor"], note=NOTER.replace("and the reads, writes and atomic updates of two arbitrary distinct iterations are compared", "and the index of each access is compared with the array's symbolic extent"),
  tech="abstract interpretation of each kernel for an arbitrary iteration; symbolic range of every index against the symbolic extent of its array")

K("C26", "Implicit operators assemble exactly the discretised matrix and right-hand side",
  "An implicit upwind divergence, Laplacian, source or time term adds to the linear system exactly its discretisation: for each internal face the owner's and neighbour's diagonal and off-diagonal entries "
  "in their own rows, each scaled with the coefficient of its row's cell; for each boundary face the implicit part to the owner's diagonal and the part "
  "known from the boundary condition (fixed value and fixed gradient, weighted by the value fraction) to the right-hand side; for each cell the volume-weighted source or time terms. Every other entry keeps its value.",
  ["inputs"], "every mesh, sparsity pattern, flux, diffusion coefficient, boundary condition and coefficient, for scalar and vector fields",
  "tests assemble on one small mesh and compare a few entries or none at all",
  [FS + "operators/gaussGreenDiv.cpp", FS + "operators/gaussGreenLaplacian.cpp", FS + "operators/sourceTerm.cpp", FS + "operators/ddtOperator.cpp"],
  [("upwind matrix entries", FS + "operators/gaussGreenDiv.cpp"), ("diffusion matrix entries", FS + "operators/gaussGreenLaplacian.cpp")],
  observe=["GaussGreenDiv::div", "GaussGreenLaplacian::laplacian", "SourceTerm::implicitOperation", "DdtOperator::implicitOperation"])

K("C27", "Boundary conditions act on exactly their own patch, as their kind prescribes",
  "Correcting a boundary condition sets value, reference value or gradient and value fraction of every face of its own patch as its kind prescribes: the fixed value with fraction 1; "
  "the owner value plus fixed gradient over delta coefficient with fraction 0; the owner value with fraction 1 (extrapolated); nothing (calculated, empty). Faces of other patches and "
  "internal values of volume fields stay as they were. The patch's extent is the one the mesh gives for the "
  "patch index, and a field boundary applies the condition its dictionary names.",
  ["inputs"], "every mesh and patch layout (any number of patches of any size, including empty ones), patch index, field content and dictionary value",
  "tests use a mesh with one or two one-face patches and look at the corrected patch only",
  [F + "boundary/volume/fixedValue.hpp", F + "boundary/volume/fixedGradient.hpp", F + "boundary/volume/extrapolated.hpp", F + "boundary/volume/calculated.hpp",
   F + "boundary/volume/empty.hpp", F + "boundary/surface/fixedValue.hpp", F + "boundary/surface/calculated.hpp", F + "boundary/surface/empty.hpp",
   F + "boundary/boundaryPatchMixin.hpp", F + "boundary/volumeBoundaryFactory.hpp", F + "boundary/surfaceBoundaryFactory.hpp"],
  [("patch range", F + "boundary/boundaryPatchMixin.hpp"), ("kernels on the patch range", F + "boundary/volume/fixedGradient.hpp")],
  observe=["correctBoundaryCondition", "patchStart", "patchEnd"])
