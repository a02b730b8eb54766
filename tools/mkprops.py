import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,title
    P.append(d)
S="src/lamberthub/"
ALLF=[S+x for x in ["ecc_solvers/avanzini.py","ecc_solvers/utils.py","p_solvers/battin.py","p_solvers/gauss.py","p_solvers/jiang.py","p_solvers/pan.py","regularization/delatorre.py","series_solvers/thorne.py","universal_solvers/arora.py","universal_solvers/der.py","universal_solvers/gooding.py","universal_solvers/izzo.py","universal_solvers/mcelreath.py","universal_solvers/negrete.py","universal_solvers/vallado.py"]]
MUL=[S+x for x in ["regularization/delatorre.py","universal_solvers/arora.py","universal_solvers/der.py","universal_solvers/gooding.py","universal_solvers/izzo.py","universal_solvers/mcelreath.py","universal_solvers/negrete.py"]]
U=S+"utils/"
p("C01","Every direct transfer a solver returns flies the requested transfer",
  "Whenever any of the library's solvers returns velocities for a zero-revolution problem, the two-body orbit that leaves the initial position with the first velocity reaches the final position exactly after the requested time of flight, sweeping less than one revolution, and arrives with the second velocity. A solver never returns wrong velocities silently: where its method does not work it raises instead.",
  ["inputs","configurations"],"All gravitational parameters, position vectors (any plane, any transfer angle in (0, 2 pi) away from 0, 180 and 360 degrees, any radius ratio), times of flight from strongly hyperbolic to strongly elliptic, unit systems, directions and tolerances, for each of the fourteen solvers.",
  "The tests sample about ten textbook transfers, nearly all elliptic, short-way and in kilometres; correctness is a statement over a continuum with different code paths for ellipses, parabolas and hyperbolas, short and long way.",
  ALLF,[("each solver's time equation, root finder and velocity reconstruction",S+"*_solvers/*.py, "+S+"regularization/*.py")],["return value of each public solver"])
p("C02","Direct transfers within the methods' domain are solved, not refused",
  "Every robust solver, and each other solver within the domain its method is known to cover, returns a solution for every well-posed zero-revolution problem, whatever the orientation, direction, conic type, units or size of the transfer. A solvable problem is not refused with an exception, an infinite loop or a non-finite result.",
  ["inputs","configurations"],"All well-posed zero-revolution problems with transfer angle at least 0.05 rad from 0, 180 and 360 degrees, radius ratio in [0.1, 10] and time of flight in [0.05, 300] parabolic times; per-solver domains for the non-robust methods.",
  "Robustness is a universal claim; the tests only try a handful of geometries per solver, and an initial guess or bracket that fails on a thin region of the domain goes unnoticed.",
  ALLF,[("initial guesses, brackets and fallbacks of each solver",S+"*_solvers/*.py")],["exceptions and return value of each public solver"])
p("C03","Multi-revolution solutions fly the transfer with exactly M revolutions",
  "For every multi-revolution solver and every number of revolutions M >= 1 for which the time of flight is feasible, the returned velocities define an elliptic orbit which connects both positions in the requested time of flight after completing exactly M full revolutions. No solver answers with the solution for another number of revolutions.",
  ["inputs","configurations"],"All feasible multi-revolution problems: M from 1 to 15, any geometry away from collinear positions, times of flight from just over the minimum one to a hundred times it, both paths, both directions.",
  "The tests cover M = 1 and 2 for two book cases; each solver has separate branches for each path, direction and M.",
  MUL,[("multi-revolution time equations and their minimum",S+"universal_solvers/*.py"),("revolution count in the bracket of z",S+"regularization/delatorre.py:_initial_bracket")],["return value of the multi-revolution solvers"])
p("C04","Low and high path select the two distinct multi-revolution solutions",
  "Among the two orbits with M revolutions that solve a problem, every multi-revolution solver returns for the low path the same one of the two as every other solver does, and for the high path the other one; the two coincide only at the minimum time of flight. For zero revolutions the path selection changes nothing.",
  ["inputs","configurations"],"All feasible multi-revolution problems (any M, geometry, direction, time of flight over the minimum) and all zero-revolution problems, for both values of the path flag.",
  "The tests assert the branch on two geometries only; a solver whose iterations cross the minimum returns a valid orbit of the wrong branch, which no validity check reveals.",
  MUL,[("selection of the root with respect to the minimum-time one",S+"universal_solvers/*.py")],["return value of the multi-revolution solvers"])
p("C05","Multi-revolution problems without a solution are refused, the rest are solved",
  "A multi-revolution solver never returns velocities for a problem whose time of flight is below the minimum one with which M revolutions can be completed between both positions: it raises an error instead. It accepts the problems above that minimum, and the threshold is sharp and the same for every solver, path and unit system.",
  ["inputs","configurations"],"All geometries, M from 1 to 10, directions and paths, with times of flight at relative distances of 1e-9 to 1 at either side of the threshold.",
  "The tests try one infeasible case per solver, far from the threshold, so a threshold that is off by a few per cent or computed for another geometry passes.",
  MUL,[("minimum time of flight",S+"universal_solvers/izzo.py:_compute_T_min, der.py:_compute_minimum_time, arora.py:_get_multirev_k_guess, gooding.py:xlamb, ../regularization/delatorre.py:_find_minimum_time")],["exceptions of the multi-revolution solvers"])
p("C06","Prograde and retrograde select opposite directions of motion",
  "The orbital angular momentum of a prograde solution has a positive component along the Z axis and that of a retrograde one a negative component, for every solver; the two solutions of a problem move in opposite directions and their transfer angles add up to 360 degrees, also for planes which contain the Z axis. The departure and arrival velocities lie within the plane of both positions and share the same angular momentum.",
  ["inputs","configurations"],"All problems for all solvers: equatorial, inclined, nearly polar and exactly polar transfer planes, short and long way, any number of revolutions.",
  "The tests fix the direction in a few inclined cases, so a solver that takes the wrong sense in some quadrant or for special planes is not noticed.",
  [U+"angles.py"]+ALLF,[("transfer angle and orbit normal",U+"angles.py:get_transfer_angle, get_orbit_normal_vector"),("sense of motion",S+"ecc_solvers/utils.py:get_geometry")],["return value of each public solver"])
p("C07","All solvers agree on the same problem",
  "Any two solvers that return a solution for the same problem with converged tolerances return the same velocities up to the conditioning of the problem, so solvers are interchangeable.",
  ["inputs","configurations"],"All problems, zero and multi-revolution, for every pair of solvers that accept them, including the exact parabola, circular and minimum-energy orbits, rectilinear-like hyperbolas and large numbers of revolutions.",
  "The tests compare each solver to the same tabulated answers of about ten cases.",
  ALLF+[S+"__init__.py"],[("fourteen independent implementations of one signature",S+"__init__.py:ALL_SOLVERS")],["return values"])
p("C08","Solutions rotate and reflect with the problem",
  "Rotating both positions about the Z axis rotates the velocities likewise; reflecting them through the fundamental plane reflects the velocities; and reflecting them through a plane containing the Z axis, or applying any rotation that reverses the sense of the angular momentum, together with swapping prograde and retrograde, transforms the velocities likewise. Solvers depend on no absolute direction but the Z axis.",
  ["inputs"],"All problems, all rotations and reflections, for every solver.",
  "Metamorphic relation over all orientations; the tests use fixed vectors in a few orientations.",
  [U+"angles.py",U+"elements.py"]+ALLF,[("direction handling",U+"angles.py"),("classical elements of the transfer orbit",S+"ecc_solvers/utils.py:coe_at_eccT")],["return values"])
p("C09","Solutions scale with the units of length and time",
  "Expressing the same problem in other units of length and time gives the same solution in those units, for every solver; in particular gravitational parameter and time of flight enter only through their dimensionless combination.",
  ["inputs","configurations"],"All problems and all scale factors of length and time over many orders of magnitude, from metres and seconds to astronomical units and years.",
  "Most tests are in km and s; a constant with hidden dimensions shows only for other unit systems.",
  ALLF,[("non-dimensional time equations",S+"*_solvers/*.py")],["return values"])
p("C10","Time reversal exchanges departure and arrival",
  "Flying a transfer backwards is a transfer: exchanging both positions and swapping prograde and retrograde gives the same orbit flown in reverse, that is, the velocities are exchanged and change sign, with the same time of flight, number of revolutions and path.",
  ["inputs","configurations"],"All problems, zero and multi-revolution, for every solver that accepts both.",
  "Metamorphic relation over all inputs; no test exchanges the positions.",
  ALLF,[("expressions symmetric in both radii",S+"*_solvers/*.py")],["return values"])
p("C11","Solvers are pure functions of the values of their arguments",
  "A call returns the same result whatever calls were made before it, by the same or another solver, in the same or another thread, and whether they succeeded or raised. A call does not modify its arguments nor results returned before, and depends only on the values of the arguments: not on the memory layout, integer or floating type, writability or identity of the arrays, nor on passing arguments by position or by keyword.",
  ["histories","inputs","schedules"],"All sequences of calls of all solvers with arbitrary arguments, array representations and outcomes, sequential or concurrent.",
  "Each test makes one isolated call with fresh float64 arrays; caching, aliasing and leaked state need sequences.",
  ALLF,[("stateless functions","all modules"),("compiled kernels specialised by argument type",S+"**/*.py, @jit(cache=True)")],["return values, argument arrays"])
p("C12","Invalid problems are rejected with ValueError by every solver",
  "Every solver raises ValueError for a gravitational parameter or time of flight which is not positive and finite, a negative number of revolutions, a null or non-finite position vector, position vectors which are equal or are not three-dimensional, and one or more revolutions when the solver is a zero-revolution one; whatever the rest of arguments are. Valid problems are not rejected.",
  ["inputs"],"All argument tuples in which one or more arguments are invalid, of any magnitude down to subnormal numbers, for every solver and combination of the rest of arguments.",
  "The tests call the assertion helpers with one invalid value each, and not through every solver.",
  [U+"assertions.py"]+ALLF,[("parameter assertions",U+"assertions.py:assert_parameters_are_valid")],["exceptions"])
p("C13","Singular and extreme problems end in a valid solution or a clean error",
  "For position vectors that are collinear or nearly so, transfer angles of almost 0, 180 or 360 degrees, extreme radius ratios and extreme times of flight, each call terminates and either returns finite velocities or raises ValueError or RuntimeError: it never returns nan or infinite values and never fails with another kind of exception. Velocities returned for positions at least 1e-3 rad away from collinear solve the problem to the accuracy that its conditioning and the tolerances allow, and those returned for exactly collinear positions fly the transfer.",
  ["inputs","configurations"],"All finite problems however ill-conditioned, for every solver, with default and tight tolerances.",
  "The tests check one collinear case for a few solvers.",
  ALLF+[U+"angles.py",U+"assertions.py"],[("assertions on the transfer angle",U+"assertions.py:assert_transfer_angle_not_zero, assert_transfer_angle_not_pi"),("collinearity",U+"angles.py:get_transfer_angle")],["exceptions, return values"])
p("C14","All solvers share one calling and result convention",
  "Every solver accepts the same arguments in the same order, with the same defaults for the number of revolutions, direction, path and kind of output, and returns two new three-dimensional floating point vectors; asking for the full output adds the number of iterations, a non-negative integer, and the time per iteration, a non-negative finite number, and changes neither the velocities nor the errors.",
  ["inputs","configurations"],"All problems and argument passing styles, for every solver and on each of its code paths, fallbacks included.",
  "The tests read the full output of one or two cases; solvers have several return statements, each of which must honour the convention.",
  ALLF,[("return statements of every solver",S+"*_solvers/*.py")],["signature, return values"])
p("C15","Results are converged to the requested tolerance or the solver raises",
  "Whatever the limit of iterations, a solver returns a solution accurate to the requested tolerances or raises an error: running out of iterations never yields an unconverged result as if it were good. The reported number of iterations does not exceed the limit (or the least number of evaluations which the method needs), tightening the tolerances does not worsen the accuracy, and raising the limit does not change a converged result beyond the tolerances.",
  ["inputs","configurations"],"All problems and all combinations of iteration limits (1 to 100) and tolerances (1e-4 to 1e-12), for every solver.",
  "The tests always use limits which are large enough.",
  ALLF,[("loops with a limit of iterations, for/else raise",S+"*_solvers/*.py")],["exceptions, return values"])
p("C16","The lists of solvers tell the truth",
  "The list of all solvers has each public solver once; every solver of the zero-revolution, multi-revolution and robust lists is in it and solves the problems which its list promises: direct transfers, feasible multi-revolution ones in both paths, and direct ones of any geometry and conic, respectively. Solvers not in the multi-revolution list refuse such problems instead of answering them.",
  ["configurations","inputs"],"All solvers of all lists against generated problems of each class.",
  "The tests iterate over the lists, so a solver missing from a list silently loses its tests.",
  [S+"__init__.py"]+ALLF,[("registries",S+"__init__.py:ALL_SOLVERS, ZERO_REV_SOLVERS, MULTI_REV_SOLVERS, NON_ROBUST_SOLVERS, ROBUST_SOLVERS")],["module attributes, behaviour of each listed solver"])
p("C17","Compiled and interpreted execution agree",
  "Every solver and every public helper behaves the same with just-in-time compilation enabled and disabled: same errors, and same results up to rounding errors.",
  ["configurations","inputs"],"All problems, for every solver, run both ways.",
  "The tests run in a single mode; compiled kernels differ from Python in integer and division semantics, in identity comparisons and with fast-math.",
  ALLF+[S+"linalg.py",U+"angles.py",U+"elements.py",U+"kepler.py",U+"stumpff.py"],[("numba kernels with fastmath","@jit(cache=True, fastmath=True) all over "+S)],["return values under NUMBA_DISABLE_JIT=1 and without"])
p("C18","Orbital elements and state vectors convert back and forth",
  "Converting classical elements into position and velocity gives the state on that orbit at that true anomaly, and converting any state with non-zero angular momentum into elements and back gives the same state, for elliptic, parabolic and hyperbolic, prograde and retrograde, circular and equatorial orbits alike. The elements returned lie within their conventional ranges and agree with the energy, angular momentum and eccentricity vector of the state; the rotation matrices used are proper rotations by the given angle.",
  ["inputs"],"All gravitational parameters, states and element sets, including the singular ones (circular, equatorial, both, retrograde equatorial, polar, parabolic) and values at either side of the tolerances.",
  "The tests convert a couple of generic orbits; singular branches are reached by measure-zero inputs.",
  [U+"elements.py"],[("conversion functions",U+"elements.py:coe2rv, rv2coe, rv_pqw, coe_rotation_matrix, rotation_matrix")],["return values"])
p("C19","Anomaly conversions and Kepler's equations are exact inverses and true",
  "Conversions between true and eccentric, parabolic and hyperbolic anomalies are mutually inverse, odd and monotonic over their domains, and satisfy the geometric definition of each anomaly; the mean anomaly computed from the true one agrees with the area swept (the time elapsed by two-body motion), for any eccentricity, and negative eccentricities are rejected.",
  ["inputs"],"All true anomalies within the domain of each conic and all eccentricities, including 0, 1 and values next to 1.",
  "The tests check a few tabulated angles.",
  [U+"angles.py",U+"kepler.py"],[("anomaly conversions",U+"angles.py:nu_to_E, E_to_nu, nu_to_B, B_to_nu, nu_to_H, H_to_nu"),("Kepler's equations",U+"kepler.py")],["return values"])
p("C20","Stumpff functions are accurate over their whole range",
  "The second and third Stumpff functions agree with their series definition to nearly machine precision for arguments of any sign and magnitude, are continuous across the switches between closed forms and series, and satisfy their recurrence identities; those used inside solvers are the same functions.",
  ["inputs"],"All real arguments for which the functions do not overflow, concentrated around zero and the switching points, for each implementation in the library.",
  "No test evaluates them on their own.",
  [U+"stumpff.py",S+"regularization/delatorre.py",S+"universal_solvers/negrete.py"],[("Stumpff functions",U+"stumpff.py:c2, c3"),("its siblings",S+"regularization/delatorre.py:_stumpff*, "+S+"universal_solvers/negrete.py:_c2,_c3")],["return values"])
p("C21","Geometry helpers match their definitions for all vectors",
  "The transfer angle, the orbit normal, the inclination and right ascension of the node computed from two positions and a direction of motion, and the vector operations they are built on, agree with their mathematical definitions for all vectors: angles in [0, 2 pi) up to rounding, accurate however small, and unit normal orthogonal to both positions with the sign the direction requires. Collinear positions have a transfer angle of exactly 0 or pi, and no magnitude of the vectors overflows or underflows the angles.",
  ["inputs"],"All pairs of vectors of any magnitude and orientation, including axis-aligned, equatorial, polar, nearly collinear and exactly collinear ones.",
  "The tests evaluate four or five hand-picked pairs.",
  [S+"linalg.py",U+"angles.py"],[("vector operations",S+"linalg.py"),("angles between positions",U+"angles.py:get_transfer_angle, get_orbit_normal_vector, get_orbit_inc_and_raan_from_position_vectors")],["return values"])
p("C22","The benchmark report tells what the benchmark files say",
  "For any set of benchmark reports the generated performance section has one row for each benchmark, under its group and scenario, whose rank, speed-up and times follow from the medians of its own case; and injecting it in a document replaces the previous section alone, verbatim, leaves the rest of the document untouched (but for trailing blanks at its end), appends it when there is none, and doing it twice is the same as doing it once.",
  ["inputs","histories"],"All benchmark reports (any solvers, cases, groups, ties, missing metadata) and all documents, with or without a previous section, with any characters.",
  "There is no test of the report generator.",
  ["scripts/generate_benchmark_report.py"],[("section builder","scripts/generate_benchmark_report.py:build_section"),("injection","scripts/generate_benchmark_report.py:update_readme")],["generated document"])
p("C23","Transverse-eccentricity helpers describe the orbits through both positions",
  "For any two positions which are not collinear, direction of motion and transverse component of eccentricity with an orbit that joins them, the helpers of the transverse-eccentricity formulation return its elements: the eccentricity, semi-latus rectum and semi-major axis of that orbit, in the plane of the positions and with the sense of the direction, which passes through the initial and final positions at the true anomalies returned. The time of flight they compute is the one of two-body motion between both positions along that orbit, for ellipses, parabolas and hyperbolas alike, without loss of accuracy next to the parabola.",
  ["inputs"],"All pairs of positions which are not collinear, both directions, and all transverse eccentricities from the elliptic range up to strong hyperbolas, the parabolic limits included.",
  "The tests only run the solver built on these helpers on a few transfers; the helpers are public and have no test of their own.",
  [S+"ecc_solvers/utils.py"],[("shape of the orbit",S+"ecc_solvers/utils.py:get_geometry, get_fundamental_ellipse_properties, eap_from_eccT"),("elements and time",S+"ecc_solvers/utils.py:coe_at_eccT, kepler_tof_at_eccT")],["return values"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(d)+"\n" for d in P))
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,sch)
    import re
    n=len(re.findall(r'[.](?= |$)',d['statement'])); assert n<=3,(d['id'],n)
print(len(P))
