"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, na=na))


POSE = ["poseutils.c", "poseutils.h", "poseutils-uses-autodiff.cc", "_autodiff.hh", "_strides.h"]

prop("C01", "Pose functions address every array argument through its own strides",
     "Every pose-transformation function of the C API reads and writes each of its array arguments exactly at the elements "
     "that the array's own shape and strides designate, for any strides; a stride that is zero or negative means contiguous. "
     "Inputs are never written, and every element of every requested output is written on every path.",
     ["inputs", "configurations"], "all values of the inputs, all strides of every argument, all combinations of flags",
     "The tests exercise a few non-contiguous layouts with a few flag combinations; each function has up to 20 independent strides.",
     POSE, [("init_stride_1D/2D/3D, P1/P2/P3", "_strides.h"), ("mrcal_*_full()", "poseutils.c"), ("vec_withgrad_t", "_autodiff.hh")],
     "Decides the addresses of all memory accesses of all pose functions with symbolic strides (loop-free after specialisation). "
     "Assumes each array has its own storage and that byte strides do not overflow.")

prop("C02", "Pose functions documented as in-place give the same answer in place",
     "A pose-transformation function whose output may be stored over an equally-shaped input returns, in place, exactly the "
     "results and gradients it returns with separate storage.",
     ["inputs", "configurations"], "all input values, flags, in-place choices, with and without gradients, contiguous and strided",
     "Order-of-write bugs show only for particular aliasing combinations; tests cover some of them at one sample point each.",
     POSE, [("local copies before output writes", "poseutils.c"), ("writeref/readref", "_autodiff.hh")],
     "Compares value numbers of outputs with and without aliasing; a mismatch is decided by random interpretation of both terms. "
     "Assumes exact overlap.")

prop("C03", "Any subset of the optional outputs may be omitted",
     "Every gradient output of the pose-transformation functions may be omitted (NULL), in any combination, without a crash and "
     "without changing any of the outputs that are still requested.",
     ["inputs", "configurations"], "all input values, flags and the all/one/all-but-one subsets of outputs (all subsets in the thorough tier)",
     "Tests request all outputs or none; a gradient computed from another gradient's storage goes unnoticed.",
     POSE, [("NULL checks around each gradient", "poseutils.c"), ("extract_grad", "_autodiff.hh")],
     "All code paths of each NULL-specialised variant are covered; equality of terms by value number, else random interpretation.")

prop("C04", "Reported gradients of pose functions are the derivatives of their results",
     "Each gradient reported by a pose-transformation function is the derivative of the result that the same call returns with "
     "respect to the input it names, in every branch of the computation, including small rotations.",
     ["inputs", "configurations"], "all real inputs in each branch region, all inversion flags",
     "Tests compare against finite differences at a handful of points, with loose tolerances and few flag combinations.",
     POSE + ["minimath/minimath_generate.pl"], [("hand-written gradients", "poseutils.c"), ("forward autodiff", "_autodiff.hh")],
     "Formal differentiation of the value-numbered result against the value-numbered gradient; equality by algebraic normal form, "
     "and where that exceeds its budget by random interpretation (probabilistic). Real arithmetic, not rounding. Gradients of "
     "functions on the rotation-matrix manifold (r_from_R, rt_from_Rt) are excluded.")

prop("C05", "Reported projection gradients are the derivatives of the projection",
     "The gradients that projecting a point reports with respect to the point and to the lens parameters are the derivatives of "
     "the pixel coordinates returned by the same call, for every supported parametric lens model with a closed form; each of N "
     "points is processed independently, so its results equal those of a call with that point alone.",
     ["inputs", "configurations"], "all real inputs in each branch region, each lens model with a closed-form projection, N=1,2,3",
     "Tests compare a few points per model to finite differences, and multi-point calls only for some models.",
     ["mrcal.c", "mrcal.h", "opencv.c", "cahvore.cc", "_autodiff.hh"],
     [("mrcal_project", "mrcal.c"), ("_project_point", "mrcal.c"), ("mrcal_project_stereographic etc", "mrcal.c"), ("_mrcal_project_internal_opencv", "opencv.c")],
     "As C04, over specialised projection entry points.")

prop("C06", "Pose functions satisfy their defining algebra",
     "Rotation, transformation, composition and inversion functions compute the mathematical operation they name: R x + t, "
     "products and inverses of poses, and conversions between rotation vectors and matrices, with the documented meaning of every "
     "inversion flag.",
     ["inputs", "configurations"], "all real inputs in each branch region, all inversion flags",
     "Tests sample a few poses per function and flag combination.",
     POSE, [("mrcal_*_full()", "poseutils.c"), ("compose_r_core", "poseutils-uses-autodiff.cc")],
     "Value numbers compared to the defining formulas by algebraic normal form; the composed rotation vector and r_from_R are "
     "decided by interpreting the terms at sampled points of each branch region only.")

prop("C24", "Projection functions compute the documented lens-model formulas",
     "Projecting a point with a pinhole, stereographic, lonlat, latlon, OpenCV (4, 5, 8, 12) or CAHVOR lens model returns the pixel "
     "given by the documented formula of that model, for every point in front of the camera and every set of lens parameters.",
     ["inputs", "configurations"], "all real points and lens parameters in each branch region of each closed-form model",
     "Tests compare a few points to reference values; an error confined to one coefficient or one branch needs the right parameters to show.",
     ["mrcal.c", "opencv.c", "mrcal.h"],
     [("mrcal_project", "mrcal.c"), ("mrcal_project_pinhole/stereographic/lonlat/latlon", "mrcal.c"), ("_mrcal_project_internal_opencv", "opencv.c")],
     "Value numbers compared with independently written formulas; decided by algebraic normal form, else random interpretation.")

prop("C25", "Closed-form unprojection inverts projection",
     "For the pinhole, stereographic, lonlat and latlon models, projecting the observation vector that unprojection returns for a "
     "pixel gives that pixel back, for every pixel and every set of core parameters, and the reported vector points into the scene.",
     ["inputs", "configurations"], "all pixels and core lens parameters of the four invertible models",
     "Tests round-trip a handful of pixels.",
     ["mrcal.c", "mrcal.h"], [("mrcal_unproject_pinhole/stereographic/lonlat/latlon", "mrcal.c")],
     "Composition of value numbers; decided by normal form, else random interpretation. Iterative unprojection of the other models is not covered.")

OPT = ["mrcal.c", "mrcal.h", "scales.h", "internal.h"]
STRUCT = ("Decided for every input value over an enumerated set of small problem structures (up to 3 cameras, 3 frames, 4 points, 6-point boards); "
          "larger structures run the same loops. ")

prop("C07", "State-vector queries agree with the state vector the optimizer packs",
     "The optimizer's state vector holds exactly the quantities selected for optimization, in the documented order (intrinsics per "
     "camera, extrinsics, frames, variable points, board warp), each once; every mrcal_state_index_...() and mrcal_num_states_...() "
     "answer names the position and size of its block there, and reports -1 (or 0 states) for anything not optimized or out of range.",
     ["inputs", "configurations"], "all combinations of optimization selections, lens models, camera/frame/point counts",
     "Tests query a few layouts; the number of combinations of selections, models and counts is large and each consumer recomputes offsets.",
     OPT, [("mrcal_state_index_*", "mrcal.c"), ("mrcal_num_states*", "mrcal.c"), ("pack_solver_state", "mrcal.c")],
     STRUCT + "Packed elements are value-numbered and must be one scaled input each.")

prop("C08", "Each measurement row is the residual of the observation its index names",
     "Measurement rows found through mrcal_measurement_index_...() hold weight x (projection - observation) of exactly the board corner "
     "or point observation that index documents; rows of observations marked as outliers are 0; triangulated rows depend only on the "
     "two cameras of their pair, and decoding a triangulated row yields that pair; regularization rows depend on camera parameters "
     "only; the blocks tile the whole measurement vector and all size queries agree with it.",
     ["inputs", "configurations"], "all input values over enumerated problem structures, lens models and selections",
     "Tests check sizes and a few residual values for a few structures.",
     OPT, [("mrcal_measurement_index_*", "mrcal.c"), ("mrcal_num_measurements*", "mrcal.c"), ("optimizer_callback", "mrcal.c"),
           ("mrcal_decode_observation_indices_points_triangulated", "mrcal.c")],
     STRUCT + "Residuals are compared with terms built from mrcal_transform_point_rt() and mrcal_project(): normal form, else random interpretation.")

prop("C09", "Packing and unpacking a state vector are inverse and use the optimizer's scales",
     "mrcal_pack_solver_state_vector() divides each element of a state vector by the scale the optimizer itself uses for that element, "
     "mrcal_unpack_solver_state_vector() multiplies by it, so each undoes the other; both change exactly the elements of the state vector.",
     ["inputs", "configurations"], "all state values over enumerated problem structures, lens models and selections",
     "Tests round-trip one or two states; an element scaled by its neighbour's scale still round-trips.",
     OPT, [("mrcal_pack_solver_state_vector", "mrcal.c"), ("mrcal_unpack_solver_state_vector", "mrcal.c"), ("SCALE_*", "scales.h")],
     STRUCT + "Scales are constants, compared exactly up to rounding.")

prop("C10", "The optimizer's sparse Jacobian is the derivative of its residuals",
     "The optimizer callback reports a sparse Jacobian in which every stored entry is the derivative of its measurement with respect to "
     "its packed state element, every entry that is not stored is zero, all indices are in range, no entry is duplicated, and the number "
     "of entries is the number announced by the size query; residuals do not depend on whether the Jacobian was requested.",
     ["inputs", "configurations"], "all input values over enumerated problem structures, selections and lens models, outliers included",
     "Tests compare the gradient to finite differences for some problems, with tolerances; missing or misplaced entries for rarer selections go unnoticed.",
     OPT + ["poseutils.c", "poseutils-uses-autodiff.cc", "triangulation.cc", "opencv.c"],
     [("optimizer_callback", "mrcal.c"), ("STORE_JACOBIAN*", "mrcal.c"), ("_mrcal_num_j_nonzero", "mrcal.c"), ("project", "mrcal.c")],
     STRUCT + "Formal derivative against stored entry, by normal form, else random interpretation on the path each interpretation point takes.")

prop("C26", "Triangulation returns the published point, and exact gradients",
     "Each mrcal_triangulate_...() method returns the intersection of rays that meet, its published compromise for rays that do not, and "
     "0 for rays that meet behind the cameras or diverge; the result does not depend on the lengths of the observation vectors; "
     "each reported gradient is the derivative of the result; leaving out any of the gradients changes nothing else.",
     ["inputs"], "all non-degenerate camera pairs and observation vectors",
     "Tests check a few geometries with tolerances; the methods branch on the geometry, and each branch has its own formulas and gradients.",
     ["triangulation.cc"], [("mrcal_triangulate_*", "triangulation.cc"), ("_mrcal_triangulated_error", "triangulation.cc")],
     "Every branch of every method is value-numbered; identities are decided by formal differentiation and random interpretation with 60 digits.")

prop("C20", "Functions of the Python API leave the objects they are given alone",
     "A function of the mrcal package never modifies the arrays, lists, dicts, camera models or other objects passed to it, unless modifying that "
     "argument is what it documents (out=, in-place functions); and a camera model shares no array with its users: what is stored in it or returned by "
     "it is a copy, so changing one afterwards does not change the other.",
     ["inputs", "histories"], "all public functions and methods of the mrcal package, all arguments, through aliases, views, containers and calls",
     "An in-place change of an argument shows only in what the caller does with it afterwards, and mostly only for some combination of options.",
     ["mrcal/cameramodel.py", "mrcal/model_analysis.py", "mrcal/utils.py", "mrcal/visualization.py", "mrcal/synthetic_data.py", "mrcal/calibration.py", "mrcal/stereo.py"],
     [("intrinsics / rt_cam_ref / optimization_inputs", "mrcal/cameramodel.py"), ("stereo_pair_diff", "mrcal/model_analysis.py"),
      ("hypothesis_board_corner_positions", "mrcal/utils.py"), ("add_outliers / make_perfect_observations", "mrcal/synthetic_data.py")],
     "Aliases are tracked per statement through numpy views, containers and calls within the package; objects reached through unknown callables are assumed "
     "unchanged. The exceptions are listed in checks/alias.py.")

prop("C23", "Poses and points are composed in matching coordinate frames",
     "Everywhere the Python code (library and command-line tools) composes poses, inverts them, or transforms points, the frames agree: "
     "the 'from' frame of the left pose is the 'to' frame of the right one, a point is expressed in the frame its transformation maps from, "
     "and the result is used as what it is (X_cam_ref maps ref to cam), as the documented naming convention and the cameramodel API say.",
     ["inputs", "configurations"], "all pose operations in all Python modules and tools, all paths",
     "A swapped or inverted transformation is still a valid pose: results stay plausible, and for identity or near-identity reference poses, as in most tests, even right.",
     ["mrcal/*.py", "mrcal-* (tools)"], [("compose_Rt/compose_rt/invert_*/transform_point_*", "mrcal/poseutils.py"),
      ("rt_cam_ref", "mrcal/cameramodel.py"), ("_propagate_calibration_uncertainty", "mrcal/uncertainty.py")],
     "Hindley-Milner-style inference: poses have type (to <- from) with frame variables, unified at every operation; two distinct named frames unified are reported.")

prop("C28", "Camera, frame, point and observation indices are not confused",
     "Every quantity is used for what it indexes or counts: an intrinsics index or count is never passed, compared, subscripted or assigned "
     "as an extrinsics, frame, point or observation one (nor width as height, min as max, left as right), across every call in the C library, "
     "the Python extension and the Python code.",
     ["inputs", "configurations"], "all call sites, comparisons, assignments and subscripts of named quantities",
     "With as many intrinsics as extrinsics, square boards or cameras that never move, as in the tests, confused indices give the same numbers.",
     ["mrcal.c", "mrcal-pywrap.c", "mrcal/*.py", "mrcal-* (tools)"], [("mrcal_num_states and friends", "mrcal.c"),
      ("optimize / optimizer_callback", "mrcal-pywrap.c"), ("state_index_*", "mrcal/model_analysis.py")],
     "Kind checking over clang's syntax trees and Python's: the kind of an expression comes from the declared name of the parameter, field or variable it denotes.")

prop("C11", "Library calls release every resource they acquire, on all paths",
     "Whatever happens during a call of the C library - unreadable files, parse errors, failed allocations, a failed solve - every file stream, "
     "descriptor, memory mapping, heap block and solver context the call acquired is released exactly once before it returns, or handed to the "
     "caller as documented; nothing is used after being released, or used on a path on which it was never acquired; and a call that fails hands nothing over.",
     ["inputs", "crash points"], "all paths of all C library functions, failing system calls included",
     "Leaks and double releases sit on error paths that tests rarely take and whose effects a passing test does not show.",
     ["mrcal.c", "mrcal-image.c", "cameramodel-parser.re", "stereo.c", "traverse-sensor-links.c", "heap.cc"],
     [("acquisitions", "fopen/open/mmap/malloc/dogleg_optimize2/stbi/jpeg"), ("solver context", "mrcal.c:mrcal_optimize")],
     "Branches on unknown conditions are explored both ways with correlated conditions respected; memory reached through variable indices is not tracked.")

prop("C12", "The Python extension reports each failure as exactly one exception",
     "Every function of the compiled extension returns NULL (its failure value) if and only if a Python exception is set: failing "
     "conversions, imports, allocations, validations and failing library calls all surface as exceptions, never as a crash, a SystemError or a "
     "silent success; and the SIGINT handling replaced during a solve is restored on every path out, successful or not.",
     ["inputs", "crash points"], "all paths of all functions of mrcal-pywrap.c and the camera model converter, any Python API call failing",
     "Failures of allocation and of the Python API, and combinations of bad arguments, are not produced by tests; a NULL without an exception, or a pending "
     "exception, crashes unrelated code later.",
     ["mrcal-pywrap.c", "python-cameramodel-converter.c", "python-wrapping-utilities.h"],
     [("_optimize", "mrcal-pywrap.c"), ("state_index_generic", "mrcal-pywrap.c"), ("SET_SIGINT/RESET_SIGINT", "python-wrapping-utilities.h")],
     "The Python C API is modelled: fallible functions either succeed or return their failure value with an exception set. numpysane's generated wrappers are not covered.")

prop("C13", "A failure inside a library call makes the call itself fail",
     "Whenever a function of the C library that can fail (returns false or NULL to say so) is called by another, the caller checks, and on "
     "every path on which the callee failed it returns failure itself, rather than going on with missing results; so that false or NULL from the "
     "innermost failure reaches the user.",
     ["inputs", "crash points"], "all paths of all C library functions that call fallible functions",
     "A dropped failure matters only when the rare inner failure happens, and then shows as wrong numbers far away.",
     ["mrcal.c", "mrcal-image.c", "stereo.c", "cameramodel-parser.re", "traverse-sensor-links.c"],
     [("bool-returning functions", "mrcal.h"), ("_mrcal_precompute_lensmodel_data and parsing", "mrcal.c")],
     "mrcal_project() is exempt: it fails only when asked for gradients of a model that has none, and all models have them.")

prop("C14", "Library calls keep no state from one call to the next",
     "Results of the library's functions depend on their arguments only: no C function, Python extension function or Python function of the package "
     "writes static, module-level, class-level or default-argument state (other than a flag limiting a repeated warning), or changes settings "
     "of the process such as numpy's error handling or random seed, so that calls may be interleaved and made from several threads at once.",
     ["histories", "schedules"], "all call histories and thread interleavings",
     "State left behind by one call shows only in a particular sequence of calls, or in another thread; tests make single-threaded, short sequences.",
     ["mrcal.c", "cameramodel-parser.re", "stereo.c", "poseutils.c", "mrcal-pywrap.c", "mrcal/*.py"],
     [("static variables", "mrcal.c"), ("re2c tag variables", "cameramodel-parser.re"), ("module-level names", "mrcal/*.py")],
     "All stores in all functions are classified by the variable they may reach. Objects passed to other libraries are trusted to be left alone.")

prop("C15", "The library leaves stdout, the process and unnamed files alone",
     "Library functions never write to stdout, end or signal the process on their own account (assertions of preconditions excepted), or remove or rename files; "
     "every file the C library opens is the one its caller named, and opened for writing only by the functions that save or write; "
     "diagnostics go to stderr (the tools write models and tables to stdout, which must stay parseable).",
     ["inputs", "crash points"], "all calls, all error paths",
     "Most diagnostics are on error paths no test takes, and no test looks at where they are written.",
     ["mrcal.c", "image.c", "cameramodel-parser.re", "mrcal/*.py"],
     [("MSG()", "mrcal.c"), ("generic_load/generic_save", "image.c"), ("mrcal_write_cameramodel_file", "mrcal.c"), ("print(..., file=sys.stderr)", "mrcal/*.py")],
     "All call sites and references are enumerated; file names are traced back through the call graph to an argument.")

prop("C16", "The Python extension keeps its references to Python objects balanced",
     "Every function of the compiled extension, and every converter and callback it registers, releases each reference it acquires - new objects, "
     "converted arguments, Py_INCREF - exactly once, hands it to a container or to its caller, or loses nothing: on no path, successful or failing, is "
     "an object leaked, released without being owned, used after its last reference was released, or returned without a reference.",
     ["inputs", "crash points"], "all paths of all functions of mrcal-pywrap.c and the camera model converter, with each acquired object followed separately",
     "A leaked or missing reference changes no result: memory grows, or an object is destroyed much later, in unrelated code.",
     ["mrcal-pywrap.c", "python-cameramodel-converter.c", "python-wrapping-utilities.h"],
     [("_optimize", "mrcal-pywrap.c"), ("state_index_generic", "mrcal-pywrap.c"), ("PyArray_Converter_leaveNone", "mrcal-pywrap.c")],
     "The Python C API is modelled (who returns new references, who takes them over). Initialisation of the module, which runs once, may fail with objects "
     "left behind. References held in structures on the heap are not followed; numpysane's generated wrappers are not covered.")

prop("C18", "The Python API computes what the C library computes, for arrays of any layout",
     "A function of the Python API that wraps a C function returns what that C function returns for the corresponding arguments: for every "
     "broadcast slice, for every legal memory layout of its arrays, for each combination of its flags; it fills and returns the arrays given "
     "in out=, rejects arrays its C function cannot address and leaves its inputs alone.",
     ["inputs", "configurations"], "all values; contiguous and strided layouts of each argument; broadcasting, gradients, inversion and out= combinations of each wrapper",
     "Two layers of generated and hand-written wrappers choose the C call, its arguments and strides: the tests use contiguous, unbroadcast arrays almost throughout.",
     ["poseutils-genpywrap.py", "triangulation-genpywrap.py", "mrcal-genpywrap.py", "mrcal/poseutils.py", "mrcal/projections.py", "mrcal/triangulation.py"],
     [("m.function(...)", "poseutils-genpywrap.py"), ("compose_Rt / transform_point_rt / ...", "mrcal/poseutils.py"), ("project, project_simple models", "mrcal/projections.py"),
      ("triangulate_*", "mrcal/triangulation.py")],
     "Generated slice functions are value-numbered and compared with direct calls of the C API; the Python wrappers are value-numbered from their syntax "
     "trees over small concrete shapes, with the compiled functions as uninterpreted leaves. apply_color_map is not compared.")
