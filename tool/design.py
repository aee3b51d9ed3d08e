"""Writes DESIGN.md from tool/design_head.md, the prose below, the evidence of the last run and seeded/*/meta.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# what is analysed / against what oracle / bounds and what stays undecided / why tests cannot settle it
HOW = {
"C01": ("Dictionary's members on an abstract dictionary: a symbolic base map with entries written on top, symbolic keys q, k and value v.",
        "McCarthy's array laws: select(store(m,k,v),q) = v if q = k else select(m,q); presence likewise; keys() as a set.",
        "None on size or contents. Three or more successive changes follow from the single-step laws."),
"C02": ("The same lookups with the key absent, present, present with another type; exceptional exits are outcomes of the interpreter.",
        "The lookup throws out_of_range / bad_any_cast, and the store after it equals the store before, also on exceptional exits.", "None."),
"C03": ("TokenList's members on an abstract sequence (slices of a symbolic base and single elements).",
        "The sequence algebra: insert = append, remove(i) = base[0,i) ++ base[i+1,n), get(i) = element i or the named exception. Besides arbitrary lists, lists of 0..3 tokens are run literally, so loops over tokens are unrolled there.",
        "remove(i) for i outside the list is left out: the interface leaves it undefined."),
"C04": ("TokenList's cursor as observed through the public interface: what next<T>() yields next, before and after every other operation.",
        "A cursor that moves by one on each successful next and only then.", "None."),
"C05": ("Database on an abstract name->collection map.", "Map laws; insert keeps the first; at() throws; no operation registers a name except insert.", "None."),
"C06": ("Collection's members on a handle holding an arbitrary model object; every virtual call is recorded.",
        "The recorded call is the one of the same name with the caller's arguments, and its result is returned.", "None."),
"C07": ("CollectionMixin instantiated with a driver document type, on an abstract id->document map; loops over the map are summarised as comprehensions, for_each/copy_if/transform likewise.",
        "Set-builder definitions of find, sortedKeys (ordered by std::string's <), size, doc.", "None on the number of documents."),
"C08": ("Document construction on arbitrary dictionaries; the id source is examined as an effect: one atomic read-modify-write on one process-wide object.",
        "The id equals the user's if there is one, else a value drawn from a strictly advancing counter in one indivisible step, used by nothing else.",
        "Wrap-around of the counter is out of reach and ignored."),
"C09": ("Document constructors and validate() with a symbolic validator whose verdict is forked; the validator call records the dictionary it saw.",
        "A path that returns normally has an accepting call whose argument is the final content; a rejecting path throws runtime_error.", "None."),
"C10": ("RuntimeSelectionFactory::create on an abstract table, for one driver hierarchy with two creator signatures.",
        "Absent key: the path ends in abort/throw. Present key: the result is the value of the creator stored there on the caller's arguments in their order.", "None on the number of registered classes."),
"C11": ("Register's static initialisers, addType/registerClass, the registries' accessor functions (linkage and storage class read from the AST).",
        "Each registry is one function-local or inline static with program lifetime; the initialiser is odr-used by Register's members; tables keyed by name() exactly.",
        "Whether a linker drops an unused object file is outside the source."),
"C12": ("StencilDataBase on an abstract string->any map.", "Map laws plus std::any's type laws.", "None."),
"C13": ("View::operator[] in release and NF_DEBUG configurations (two exports), on views of symbolic length and index.",
        "index < size: element index and no effect; else in debug: abort, or failureIndex set once.", "None."),
"C14": ("Probe functions that use every macro (models/error_probes.hpp) in release, debug and MPI-debug configurations; dangling-else and side-effect probes.",
        "The end of the path: returns / throws NeoFOAMException with the message / exit with a non-zero code or MPI_Abort. Failing to type-check is a violation (type-level witness).", "None."),
"C15": ("read<T> with probe classes whose read overloads are opaque events.", "The overload and argument match the alternative held.", "None."),
"C16": ("demangle() as a typestate problem over __cxa_demangle's result: null/non-null, owned/freed, on every exit path (destructors of guards run).",
        "Exactly one free on each path where memory was handed out, no use after it, the returned string is non-null.", "None."),
"C17": ("MPIEnvironment and MPIInit against models of MPI_Comm_rank/size/Init/Init_thread/Finalize with symbolic results.",
        "The queries go to the environment's own communicator; initialise and finalise once each (typestate); thread level checked before use.", "What an MPI library does is modelled, not analysed."),
"C18": ("parallelFor/Reduce/Scan (all overloads) per executor with an opaque kernel; the launch is an event carrying space, range and kernel.",
        "Exactly one launch over the range in the executor's space, or a loop summarised to the same set of indices; the reduction's identity and target treatment per space.",
        "Kokkos itself is trusted. Schedules are covered because the law fixes the set of kernel applications, not their order."),
"C19": ("Field's and the executors' members over an ownership abstraction: blocks with space, size and live/freed state.",
        "After every operation from every reachable class of states (empty, zero-size block, n elements; per executor): one live block of the right space owned, none lost, none freed twice.",
        "Three executors, the value types instantiated (scalar, Vector, label, localIdx)."),
"C20": ("The same members with symbolic array contents; kernels are run for one arbitrary index.",
        "Element-wise definitions, as exact polynomial identities.", "Rounding is not modelled: reals instead of floats."),
"C21": ("Interpolation and gradient kernels on a symbolic mesh: one arbitrary face, its owner/neighbour/weights as symbols.",
        "The scheme's textbook formula, compared as rational functions.", "Exact arithmetic."),
"C22": ("Weights, deltaCoeffs, nonOrthDeltaCoeffs, computeCoNum on the same symbolic mesh.", "Geometric definitions as rational functions with dot/mag/max atoms.", "Exact arithmetic."),
"C23": ("Every parallelFor/Reduce in the operators, gradients, boundary conditions and field functions: read/write/atomic sets of one arbitrary iteration, as functions of the iteration index.",
        "Two different iterations must not touch one element unless both do so atomically; index maps known injective (identity, offsets) are separated, owner/neighbour maps are not.",
        "Launches the public interface reaches."),
"C24": ("Explicit Gauss operators: for an arbitrary cell the set of contributions over faces, with sign.", "Divergence theorem in its discrete form: +flux for owned, -flux for neighboured faces, boundary flux with its own offset.", "Exact arithmetic."),
"C25": ("The same launches: every index expression against the array's symbolic size.", "0 <= index < size by linear facts plus the mesh's size relations (faces = internal + boundary, ...).", "Mesh invariants are assumed, as documented on UnstructuredMesh."),
"C26": ("Implicit div, laplacian, ddt, source on a symbolic sparsity pattern.", "The per-face stamp of the discretisation in (owner,owner), (owner,neighbour), (neighbour,owner), (neighbour,neighbour), diagonal and right-hand side.", "Exact arithmetic; the pattern's meaning is C35's."),
"C27": ("Boundary kernels for an arbitrary patch and an arbitrary face in it / outside it.", "Per kind: value, fraction, reference value/gradient; frame condition outside the patch.", "All conditions registered."),
"C28": ("UnstructuredMesh/BoundaryMesh constructors and accessors; createSingleCellMesh and create1DUniformMesh for arbitrary n by summarised kernels.",
        "Reported = given; and geometric identities (closed cells, owner < neighbour, areas, centres, deltas).", "Exact arithmetic."),
"C29": ("Copy constructors, assignments and clone() of every copyable class with owned parts.", "Member-by-member equality of an arbitrary original and its copy, dynamic class included, no shared ownership unless documented as shared.",
        "RungeKutta's SUNDIALS state is built afresh on the first solve of a copy."),
"C30": ("Expression and operators with opaque operators, one to four terms of each kind and arbitrary numbers as coefficients; loops over the operator lists are unrolled.",
        "Multiset of evaluations with coefficient = product of the factors; value semantics.", "Up to four operators per expression; the list code treats all alike."),
"C31": ("Coeff and toField.", "Products of numbers and field elements.", "None."),
"C32": ("ForwardEuler, BackwardEuler, dsl::solve and TimeIntegration, with operators, linear solver and oldTime as opaque events.", "The scheme's update formula; each operator once; the settings dictionary of the right kind.", "Exact arithmetic; what the linear solver returns is a symbol."),
"C33": ("FieldCollection and OldTimeCollection with the real Document, Dictionary, Collection and Database code, executed on symbolic fields, for histories of up to two fields and two old levels.",
        "The relation between a field, its document, its old field and their indexes.", "History depth two; deeper levels repeat the same code."),
"C34": ("CSRMatrix, LinearSystem, their views, SpMV, convert, createEmptyLinearSystem.", "CSR meaning of entries and products; copies by value; executor.", "Exact arithmetic."),
"C35": ("StencilDB and SparsityPattern builders on an arbitrary mesh: loops with counters summarised per cell.", "Set definitions of the stencil and pattern.",
        "One offset per cell face is stored in 8 bits; cells with more than 255 faces are outside the statement."),
"C36": ("HalfDuplexCommBuffer/FullDuplexCommBuffer over arbitrary per-rank sizes; MPI calls are events.", "Layout as prefix sums; one transfer per rank with data; completion = all requests done.", "Rank loops are run for three ranks, sizes symbolic."),
"C37": ("getType, getOp, allReduce, isend/irecv/test, bufferHash.", "MPI's own tables; argument-for-argument hand-over; tag in [0, 32767].", "None."),
"C38": ("Communicator's start/finalise on three ranks and representative maps, MPI modelled as events that may complete in any order.", "What is handed to MPI and where received values land.", "Three ranks, three map patterns."),
"C39": ("SegmentedField, its view and segmentsFromIntervals.", "Offsets as prefix sums; segment i = [offset i, offset i+1).", "None."),
"C40": ("The scheme and operator front ends (create, delegating constructors, build, dsl::exp/imp helpers) with the numerical classes as opaque objects.",
        "The class created is the one named in the input, it gets the caller's arguments, and every query of the front end is answered by it.", "None."),
"C41": ("readOrCreate of GeometryScheme and SparsityPattern, the GeometryScheme constructors and update(), boundary-condition factories of a mesh.",
        "One object per mesh, made once; every coefficient field filled by the kernel of the same name.", "None."),
"C42": ("RungeKutta::solve and the SUNDIALS adaptors with SUNDIALS' C functions modelled as events over vectors with symbolic contents.",
        "ydot = -(explicit operators), the step, start time and tableau handed over, results copied back element by element in the right memory space.", "SUNDIALS' own integration is trusted."),
"C44": ("A translation unit that includes every header, plus the library's sources: the static REGISTERED initialisers that exist there are run one after another on empty tables.",
        "The documented names, each for its class and value type; each registration adds one name.", "Needs no bound: the set of registrations is finite."),
"C47": ("petscSolver::solve, petscSolverContext, GinkgoSolver's constructor and solve and ginkgo::parse against declarations of the libraries' interfaces; PETSc's and Ginkgo's functions are models that record what they are handed and who owns it.",
        "The matrix as {(row, column): value} and the right-hand side handed over, against the CSR arrays; element by element the field after solve; arrays freed before they are read; PETSc's list of what was created and destroyed; the configuration tree against the dictionary.", "Systems of up to three rows with symbolic values (the code has no other case per row); dictionaries of up to two entries per level."),
"C46": ("An effect analysis laid over the runs of the other properties' functions: every element access that happens outside of a launch is reported with the array it touches.",
        "The array's executor on that path: known to be serial or CPU (type tests passed on the way), or a host copy; an executor that may be the GPU is a violation.", "Quick watches nine properties' runs, thorough seventeen. Launch bodies are not judged here (C23, C25)."),
"C45": ("Every constructor body is run on symbolic offsets, mesh sizes and source data that live on another executor; then the object is read back through its own accessors.",
        "Sizes, an arbitrary element, executor and identity of each part against what the constructor was handed.", "Needs no bound: sizes and contents are symbols."),
"C43": ("Vector's and scalar's bodies with symbolic components, operands also aliased.", "Component-wise polynomial identities.", "Exact arithmetic."),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    out = [open(os.path.join(HERE, "tool", "design_head.md")).read().rstrip(), "", "## Properties", ""]
    for p in sorted(props, key=lambda p: p["id"]):
        i = p["id"]
        out.append("### %s %s" % (i, p["title"]))
        h = HOW.get(i)
        if h:
            out += ["", "*Analysed:* " + h[0], "*Oracle:* " + h[1], "*Bounds and gaps:* " + h[2]]
        ev = os.path.join(HERE, "evidence", i + ".json")
        if os.path.exists(ev):
            c = json.load(open(ev))["coverage"]
            out += ["", "| rule | obligations | text |", "|---|---|---|"]
            for r, t in c["rules"].items():
                out.append("| %s | %d | %s |" % (r, c["obligations_per_rule"].get(r, 0), t.replace("|", "/")))
        out.append("")
    for n in man.get("not_applicable", []):
        out.append("### %s not applicable" % n.get("property", n.get("id")))
        out += ["", n.get("reason", ""), ""]
    out += ["## Planted bugs (seeded/) and the checks that catch them", "",
            "Every one was confirmed to apply, build, pass the stable tests and fail its demonstration; `selftest/mkseed.py` redoes that.", "",
            "| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        out.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"], d["property"]))
    out += ["", open(os.path.join(HERE, "tool", "design_tail.md")).read().rstrip(), ""]
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


main()
