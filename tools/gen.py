"""Writes properties.jsonl and MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
I="include/vecmath/"
P=[]
P.append(prop("C01","Printing a value survives a failing stream",
 "Inserting a value (vector, matrix, bounding box, line, ray, plane, approximate value) into an output stream writes exactly the value's textual form, formatted according to the stream's own precision, flags and locale. If the device behind the stream fails or throws at any byte, what was delivered is a prefix of that form, nothing is delivered after the failure, and the failure is reported through the stream (its state, or its exception if enabled). In every case the value and the stream's formatting state are unchanged, no other stream is touched, and a repeated insertion after the stream is cleared is complete.",
 ["inputs","fault_sequences","schedules"],"every value, formatting state, byte position and kind of device failure, and every interleaving of tasks printing to different streams",
 "The tests print a few values into healthy string streams; none ever sees a device fail, an exception enabled stream, a non-default format or a stream that has already failed.",
 [I+x for x in ("vec_io.h","mat_io.h","bbox_io.h","line_io.h","ray_io.h","plane_io.h","approx.h")],
 [("operator<<",I+"*_io.h"),("operator<< of approx",I+"approx.h")],["std::streambuf behind the stream","stream state and formatting fields"]))
P.append(prop("C02","Parsing depends only on the bytes of the given text",
 "Parsing a vector, a list of vectors or a matrix from a text gives the same result whatever lies before or behind the text in memory, including a neighbouring record, the remains of an older longer record, or an inaccessible page. No byte outside the text is read and the text is not modified.",
 ["inputs","schedules","histories"],"every text (as a view into larger storage), every content and change of the surrounding bytes",
 "The tests parse string literals, which always end in a NUL byte, so nothing behind the text can ever be mistaken for part of it.",
 [I+"vec_io.h",I+"mat_io.h"],[("detail::parse, parse, parse_all",I+"vec_io.h"),("detail::parse_mat, parse",I+"mat_io.h")],["result of parse and parse_all","guard pages around the text"]))
P.append(prop("C03","Written values are read back exactly, also after a torn write",
 "A value or list of values written with enough digits and stored intact is parsed back to exactly the same values, in order. If the storage was cut off at any byte (a crash in the middle of writing), a record is returned only if every one of its components is at least partly present, every component that is completely present has its exact value, and no record is invented, reordered or lost before the cut.",
 ["inputs","crash_points","fault_sequences"],"every value with finite components, every list length, every byte at which the stored text ends",
 "The tests print and parse separately, with a few short literals; none writes, cuts the text at an arbitrary byte and reads it back.",
 [I+"vec_io.h",I+"mat_io.h"],[("operator<<",I+"vec_io.h, mat_io.h"),("parse, parse_all",I+"vec_io.h"),("parse",I+"mat_io.h")],["parsed values against written values"]))
P.append(prop("C04","Results are delivered to an output exactly once, in order",
 "A function that delivers a sequence to an output (parsing a list of vectors, collecting the vertices of segments or polygons) delivers every element exactly once and in order. If the output or the source fails at some element, the elements before it have been delivered, nothing is delivered afterwards and the failure reaches the caller unchanged. On any bytes whatsoever it terminates and delivers a bounded number of elements.",
 ["inputs","fault_sequences","schedules"],"every text or sequence, every position at which the output or the source fails, outputs that use the same functions themselves",
 "The tests collect into vectors with inserters that never fail, from a handful of well formed texts.",
 [I+"vec_io.h",I+"segment.h",I+"polygon.h"],[("parse_all",I+"vec_io.h"),("segment::get_vertices",I+"segment.h"),("polygon::get_vertices",I+"polygon.h")],["output iterator"]))
P.append(prop("C05","Ranges are consumed once, in order, and completely",
 "A function over a range of elements with a getter (bounds of points, average, comparison of ranges, plane from points, polygon containment, ray against polygon, adding a range to a bounds builder) reads each element in order, never past the end and never again after advancing where one pass suffices, applies the getter exactly once per element it uses, and its result accounts for every element of the range as seen through the getter. A plane from points reads at most three elements. If the source or the getter fails, the failure reaches the caller unchanged and the range is not used any further.",
 ["inputs","fault_sequences","schedules"],"every range length and content, single-pass sources, every position and kind of failure, getters that use the library",
 "The tests pass small vectors, mostly with the default getter; no test has a single-pass, counting or failing source or getter.",
 [I+x for x in ("bbox.h","vec.h","plane.h","intersection.h")],
 [("bbox::merge_all, bbox::builder::add",I+"bbox.h"),("average, compare",I+"vec.h"),("from_points",I+"plane.h"),("polygon_contains_point, intersect_ray_polygon",I+"intersection.h")],["iterator operations and getter calls"]))
P.append(prop("C06","Box visitors see each face, edge and vertex exactly once",
 "Visiting a three dimensional box (also a flat one) calls the callback exactly once for each of its six faces (four corners of that face in adjacent order, the outward unit normal, all faces wound in the same direction), twelve edges or eight vertices. A callback that fails stops the visit with its own failure and is not called again; a callback may itself visit boxes; the callback object itself is called, not a copy, and what it returns is ignored; the box is unchanged.",
 ["inputs","fault_sequences","schedules"],"every valid box, every call at which the callback fails, nested visits, interleaved visits",
 "The tests visit a single cube with callbacks that never fail.",
 [I+"bbox.h"],[("for_each_face, for_each_edge, for_each_vertex, vertices, corner",I+"bbox.h")],["callback arguments"]))
P.append(prop("C07","Running out of memory is clean",
 "An operation that allocates (building, copying, assigning, converting, inverting or transforming a polygon, computing a convex hull, multiplying a matrix with a list of vectors, collecting results) either completes with the same result as with unlimited memory, or reports the allocation failure. After a failure nothing is leaked, the operands are unchanged, an assignment target still holds its old value, and the same operation succeeds once memory is available.",
 ["inputs","fault_sequences","schedules"],"every operand, every allocation of the operation (and bursts of them) failing",
 "No test makes an allocation fail.",
 [I+x for x in ("polygon.h","convex_hull.h","mat.h","mat_ext.h","vec_io.h","segment.h")],[("value semantics of polygon",I+"polygon.h"),("convex_hull",I+"convex_hull.h"),("operator*(mat, vector<vec>)",I+"mat.h")],["operator new / delete","operands before and after"]))
P.append(prop("C08","Polygons and segments stay canonical through any history",
 "Whatever sequence of constructions, copies, moves, assignments (also copy assignment to itself), inversions, translations, transformations and component type conversions produced them, also with failed attempts in between, a polygon's vertex list starts with its smallest vertex and is the expected cyclic sequence in the expected orientation, and a segment's start is not greater than its end. Consequently two polygons with distinct vertices compare equal exactly if they describe the same cyclic sequence (in either direction, where orientation is disregarded), and two segments exactly if they have the same end points.",
 ["histories","inputs","fault_sequences"],"every sequence of operations, every failed allocation inside it, every vertex list",
 "The tests check single operations on single values, and no conversion or failed attempt.",
 [I+"polygon.h",I+"segment.h"],[("polygon constructors, invert, translate, transform",I+"polygon.h"),("segment constructors, transform, translate",I+"segment.h")],["vertices(), start(), end(), comparison"],
 [("m_vertices","cyclic vertex list, smallest first",I+"polygon.h"),("m_start, m_end","end points, smaller first",I+"segment.h")]))
P.append(prop("C09","A bounds builder holds exactly the bounds of what was added",
 "After any sequence of additions of points, boxes and ranges, a bounds builder reports that it is initialised exactly if something was added, and its bounds are the smallest box around everything added so far (an empty box at the origin if nothing was added); also when an added range fails midway, in which case they are the bounds of everything added up to the failure.",
 ["histories","fault_sequences","inputs"],"every sequence of additions, copies and self feeding, every position at which a source or getter fails",
 "The tests add a few points once; none continues after a range that failed midway.",
 [I+"bbox.h"],[("bbox::builder",I+"bbox.h")],["bounds(), initialized()"],[("m_bounds, m_initialized","bounds so far",I+"bbox.h")]))
P.append(prop("C10","Concurrent callers need no synchronisation",
 "Any number of threads may call any operations of the library at the same time on shared constant operands without synchronising: no call ever writes memory another thread may access without ordering, and every call returns what it returns when it runs alone, also while other calls fail.",
 ["schedules","inputs","fault_sequences"],"every set of concurrent calls of public operations on shared const values, every interleaving of their memory accesses, failing allocations and getters in some of them",
 "The test suite is single threaded.",
 [I+"*.h"],[("no mutable or static state in any operation",I+"*.h")],["memory accesses of the operations","results"]))
P.append(prop("C11","Results depend on the argument values only, and calls leave no trace",
 "The result of every operation is determined by the values of its arguments: it is the same for the first call in a process as after any history of other calls (also failed ones and long repetitions), for operands at the same address overwritten with new values, for equal operands at different addresses and for aliased operands, and it does not depend on the time, on random numbers, on files or on the process's identity or environment variables. A call changes none of its constant operands and no process wide state (floating point environment, locale, handlers including signal handlers, set-up and state of the standard streams, environment variables, the sequence of rand) and writes nothing to standard output or error or to any file. (Parsing follows std::atof as documented, and thus a fixed C locale.)",
 ["histories","inputs","fault_sequences"],"every sequence of calls of public operations, every placement of their operands, every clock, random source and environment",
 "Tests call each operation once or a few times from fresh values and compare with constants; a result remembered from an earlier call, or keyed by address, passes them.",
 [I+"*.h"],[("pure functions of their arguments",I+"*.h")],["results, operands, process wide state"]))
P.append(prop("C12","Results never depend on what memory held before",
 "The result of every operation is independent of the previous contents of the stack, of freshly allocated heap blocks and of uninitialised variables: no operation uses an indeterminate value, whatever its inputs and whichever way it ends.",
 ["inputs","histories","fault_sequences"],"every argument value of every public operation, every prior content of memory",
 "In a test process unused memory nearly always holds zeros or the leftovers of the same computation, so an uninitialised component goes unnoticed.",
 [I+"*.h"],[("every component is initialised before use",I+"*.h")],["results under different memory contents"]))
NA=[]
def na(id,title,statement,why,files,mech,reason):
    P.append(prop(id,title,statement,["inputs"],"every input value of the operation",why,[I+f for f in files],[(m,I+f) for m,f in mech]))
    NA.append({"property":id,"reason":reason})
PURE="Pure function of its arguments: no schedule, clock, I/O, fault, crash or history can influence it, so a simulator has nothing to control; deciding it is input sampling or proof over arithmetic, which is a different technique. "
T="The tests evaluate a handful of constants."
na("C13","Vector algebra obeys its laws","Addition, subtraction, scaling, dot and cross product, length, normalisation, lerp and component access of vectors agree with their mathematical definition component by component, within rounding.",T,["vec.h","vec_ext.h"],[("operators, dot, cross, length, normalize","vec.h")],PURE+"(C10-C12 still cover these operations for thread safety, history and memory contents.)")
na("C14","Matrix algebra, determinant and inverse are consistent","Matrix product, transpose, minors, determinant, adjugate, linear solving and inversion agree with their definition; inversion and solving report failure exactly for singular matrices.",T,["mat.h","mat_ext.h"],[("operator*, compute_determinant, lup_solve, invert","mat.h")],PURE)
na("C15","Transformation matrices do what their name says","Rotation, mirroring, scaling, shearing, projection, view and coordinate system matrices map the defining vectors and points to the documented images, and Euler angle extraction inverts rotation construction.",T,["mat_ext.h"],[("rotation_matrix, mirror_matrix, coordinate_system_matrix, points_transformation_matrix","mat_ext.h")],PURE)
na("C16","Quaternions represent rotations","A quaternion built from an axis and an angle, or from two vectors, rotates vectors accordingly, and composition and conjugation correspond to composition and inversion of rotations.",T,["quat.h"],[("quat, operator*","quat.h")],PURE)
na("C17","Plane operations are geometrically right","A plane's point status, distance, projection, transformation, flip and construction from points agree with its equation.",T,["plane.h"],[("point_status, project_point, transform, from_points","plane.h")],PURE)
na("C18","Intersections are complete and exact","A ray or line intersection is reported exactly if it exists, as the nearest admissible distance, and the point at that distance lies on both operands within tolerance.",T,["intersection.h"],[("intersect_ray_*, intersect_line_plane, intersect_plane_plane","intersection.h")],PURE)
na("C19","Distances are minimal","The distance between points, rays, segments and lines is the smallest distance of any two of their points, at the reported positions.",T,["distance.h"],[("distance, squared_distance","distance.h")],PURE)
na("C20","The convex hull is the hull of its points","The hull of a planar point set contains every input point, has only input points as vertices, is convex and does not depend on the order of the input.",T,["convex_hull.h"],[("convex_hull","convex_hull.h")],PURE+"(Its memory and failure behaviour is covered by C07 and C10-C12.)")
na("C21","Comparisons are consistent orderings","Comparison of vectors, matrices, segments, polygons (also disregarding orientation) and approximate values is antisymmetric, transitive for zero tolerance, and consistent with equality.",T,["vec.h","mat.h","segment.h","polygon.h","approx.h"],[("compare, compareUnoriented, operators","vec.h, polygon.h, segment.h")],PURE)
na("C22","Scalar helpers meet their definitions","Rounding, snapping, correcting, clamping, interpolation, angle normalisation and circular successor functions return the documented value for every argument in their domain.",T,["scalar.h"],[("round, snap, correct, normalize_degrees, succ, pred","scalar.h")],PURE)
na("C23","Polynomial solvers return all real roots","The solvers for polynomials up to degree four return exactly the distinct real roots within tolerance.",T,["scalar.h"],[("solve_quadratic, solve_cubic, solve_quartic","scalar.h")],PURE)
na("C24","Bezier surfaces interpolate their control points","Evaluating a quadratic surface gives the Bernstein polynomial of its control points.",T,["bezier_surface.h"],[("evaluate_quadratic_bezier_surface","bezier_surface.h")],PURE)
na("C25","Compile time and run time evaluation agree","Every operation usable in a constant expression gives the same value there as at run time, within the tolerance of its square root and trigonometric replacements.",T,["constexpr_util.h","scalar.h"],[("constexpr operations","*.h")],"Compile time evaluation happens in the compiler, where there is no run to simulate.")
na("C26","Component selection and ordering helpers are permutations","Axis selection by weight, major component, swizzling and sorting helpers return components of their argument, each as often as documented.",T,["vec.h","vec_ext.h"],[("find_max_component, get_max_component, swizzle, xy, xyz","vec.h")],PURE)
na("C27","Bounding box algebra is right","Merging, intersecting, containment, constraining, expanding and transforming boxes agree with the point sets they stand for.",T,["bbox.h"],[("merge, intersect, contains, encloses, transform","bbox.h")],PURE+"(Histories of additions are covered by C09, visitation by C06.)")
na("C28","Lines and rays are parameterised consistently","Projection onto, position along and transformation of lines, rays and segments are mutually consistent, and a canonical line has one representation.",T,["abstract_line.h","line.h","ray.h","segment.h"],[("point_at_distance, project_point, make_canonical","abstract_line.h, line.h")],PURE)
P.append(prop("C29","Every operation finishes, in steps bounded by its operands' size",
 "Every operation on finite operands finishes after a number of steps that is bounded by the size of its operands (number of elements, vertices or bytes) and never by the magnitude of the numbers in them: no value, however large, small or oddly placed, no text and no point set makes it loop, recurse or wait without end. This also holds for operations called from within the callbacks, getters and outputs of other operations, for operations called after others were cut short by a failing callback or allocation, and under every interleaving with operations of other threads.",
 ["inputs","schedules","fault_sequences","histories"],"every operation on finite operands of any magnitude, every text, point set and polygon, every nesting in callbacks, every prior failure and every interleaving",
 "The tests call each operation on a few moderate values, never nested, never after a failure and never from two threads; a loop that only ends for moderate values, or a lock kept after a failure, passes all of them.",
 [I+x for x in ("scalar.h","vec_io.h","mat_io.h","convex_hull.h","polygon.h","mat.h","intersection.h","bbox.h")],
 [("normalize_radians, normalize_degrees, sqrt_c, solve_*",I+"scalar.h"),("parse, parse_all",I+"vec_io.h"),("convex_hull",I+"convex_hull.h"),("lup_find_pivot, lup_solve",I+"mat.h")],["steps (basic blocks) executed per operation","locks waited for"]))
open(HERE+"/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
NOTE={
"C01":"Seeded runs against the real insertion operators with a simulated device that fails or throws at any byte. Trusts the standard stream implementation. Field width is left at zero.",
"C02":"Seeded runs over a shared storage page with live neighbours and guard pages; any read of an outside byte either changes the result or faults. Reads that change nothing and hit accessible bytes are only seen at the guard page.",
"C03":"Seeded runs of write, crash at a byte, read back, against the list of values written. Trusts the C library's number conversion.",
"C04":"Seeded runs with outputs and sources that fail at a chosen element or re-enter the library; the complete list is the oracle.",
"C05":"Seeded runs with single-pass, counting, failing sources and getters; results against an independent fold (values chosen so that the expected result is exact or beyond doubt).",
"C06":"Seeded runs with failing and re-entrant callbacks; boxes have exactly representable corners.",
"C07":"Seeded runs with each allocation (or a burst) failing; global allocator replaced. Deep inside the standard library its own behaviour is trusted.",
"C08":"Seeded histories with failing allocations compared with a model of the cyclic sequence after each operation.",
"C09":"Seeded histories with failing sources compared with a min/max model after each operation.",
"C10":"Seeded schedules with a scheduling point at each memory access outside the own stack, a happens-before race detector, and comparison with a serial run. Uninstrumented standard library code is not observed.",
"C11":"Seeded histories, each call compared bit for bit with the same call in a fresh process that has another clock, other random numbers, another process id and no environment variables. A direct read of the processor's time stamp counter would show up as a determinism error, not as a violation.",
"C12":"Each call under four different contents of stack, heap and uninitialised variables. Values that do not influence the result are not observed.",
"C29":"Seeded runs with a step counter at every basic block of the library, which is also the pre-emption point; budget = 300000 + 20000 n + 400 n^2 steps, more than twenty times what any operation takes. Loops inside the compiled standard library are only bounded by CPU time.",
}
man={"version":1,"setup_cmd":"true","checks":[],"not_applicable":NA,
 "notes":"No hooks in /repo: every seam the properties depend on (stream buffer, text storage, iterators, getters, outputs, callbacks, allocator, memory accesses by compiler instrumentation) is reached without changing the code. The level is exploration throughout: seeded search, not exhaustive."}
for i in list(range(1,13))+[29]:
    c="C%02d"%i
    man["checks"].append({"property":c,"quick_cmd":"python3 check.py "+c,"thorough_cmd":"python3 check.py %s --tier thorough"%c,
     "evidence_file":"evidence/%s.json"%c,"technique":"deterministic simulation with fault injection (seeded schedules and faults, exact replay)","level":"exploration","level_note":NOTE[c]})
json.dump(man,open(HERE+"/MANIFEST.json","w"),indent=1); open(HERE+"/MANIFEST.json","a").write("\n")
