import json
M='subpackages/mav_trajectory_generation/'
S=M+'src/'; H=M+'include/mav_trajectory_generation/'; I=H+'impl/'
D='src/dynamic_trajectory.cpp'; DH='include/dynamic_trajectory_generator/dynamic_trajectory.hpp'
W='src/dynamic_waypoint.cpp'; WH='include/dynamic_trajectory_generator/dynamic_waypoint.hpp'
TS='include/dynamic_trajectory_generator/thread_safe_trajectory.hpp'; TM='include/dynamic_trajectory_generator/utils/traj_modifiers.hpp'
P=[]
NT="The repository's two tests only print: they never compare a numeric result, so no value is settled for any input. "
def prop(id,title,stmt,over,q,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=NT+why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
prop('C01','Polynomial evaluation gives the exact value and derivatives',
 "Evaluating a polynomial with coefficients c_0..c_(N-1) at time t and derivative order k gives the k-th derivative of the sum of c_i*t^i at t, and 0 when k is at least N. Asking for all derivatives at once, for the coefficients of the k-th derivative, or for the row of basis values at a time, agrees with that same polynomial. This holds for every supported number of coefficients (up to 22), every derivative order and every time, negative and zero included.",
 ['inputs'],"all coefficient vectors, all real times, N in 1..22, all derivative orders","the quantifier is over all reals and all (N, order) pairs; a slip in one table entry or one order shows only there",
 [H+'polynomial.h',S+'polynomial.cpp'],[('Horner evaluation over the shared derivative-factor table','Polynomial::evaluate'),('derivative-factor table','computeBaseCoefficients'),('derivative coefficients','Polynomial::getCoefficients'),('basis row','Polynomial::baseCoeffsWithTime')],
 [('base_coefficients_','row k column i holds i!/(i-k)!','polynomial.cpp')],['Polynomial::evaluate','Polynomial::getCoefficients','Polynomial::baseCoeffsWithTime'])
prop('C02','Polynomial arithmetic agrees pointwise with the functions it represents',
 "The sum, product, scalar multiple, time scaling by b, constant offset and zero-padding of polynomials are the polynomials p+q, p*q, s*p, t -> p(b*t), p+offset and p itself, for every coefficient vector and length. Operands that are passed as inputs are left unchanged, and a request to shrink a polynomial is refused with the polynomial handed back unchanged. Two polynomials compare equal exactly when their coefficients are equal.",
 ['inputs'],"all coefficient vectors and lengths, all scalars","pointwise identity must hold for all coefficients and all lengths, and no test multiplies, scales or pads a polynomial",
 [H+'polynomial.h',S+'polynomial.cpp',H+'convolution.h'],[('discrete convolution','Polynomial::convolve, mav_trajectory_generation::convolve'),('time scaling','Polynomial::scalePolynomialInTime'),('padding','Polynomial::getPolynomialWithAppendedCoefficients')],(),['Polynomial operators'])
prop('C03','Polynomial extrema over an interval are complete and correctly selected',
 "For an interval [a,b] with a<=b, the candidate times for an extremum are a, b and every real critical point inside the interval and nothing outside it; an interval with a>b is refused. The reported minimum and maximum are the smallest and largest value of the requested derivative over the candidates, each paired with a candidate time at which it is attained. Nothing is reported from an empty candidate list.",
 ['inputs'],"all polynomials, derivative orders, intervals and root sets","which roots lie inside, on or just outside the interval is an input-dependent boundary question, and no test computes an extremum",
 [S+'polynomial.cpp',H+'polynomial.h'],[('candidate filtering','Polynomial::selectMinMaxCandidatesFromRoots, computeMinMaxCandidates'),('selection','Polynomial::selectMinMaxFromCandidates, selectMinMaxFromRoots, computeMinMax')],(),['Polynomial::computeMinMax'])
prop('C04','Trajectory evaluation uses the segment that covers the time',
 "For any time in [0, duration], evaluating a trajectory gives the value of the segment whose half-open span contains that time, at the offset of the time from that segment's start, for the requested derivative; at the very end it is the end of the last segment. A time beyond the end gives the zero vector of the trajectory's dimension. The value at a segment is, in each dimension, that dimension's polynomial at the local time.",
 ['inputs'],"all trajectories (any number of segments, dimensions, durations), all times, all derivative orders","boundary times between segments and at the end, and arbitrary segment counts, are not sampled",
 [S+'trajectory.cpp',S+'segment.cpp'],[('segment search','Trajectory::evaluate'),('per-dimension evaluation','Segment::evaluate')],[('segments_','consecutive pieces','trajectory.h'),('max_time_','total duration','trajectory.h')],['Trajectory::evaluate','Segment::evaluate'])
prop('C05','Range sampling yields the requested, equally spaced samples',
 "Sampling a trajectory from t_start in steps dt up to (excluding) t_end, with 0<=t_start<=t_end<=duration and dt>0, gives one sample at every t_start+k*dt below t_end, and each reported sampling time is that instant. Each sample is the trajectory's value at its instant (at an instant joining two segments, the value of either). Results of an earlier call are discarded, and a start beyond the end of the trajectory gives no samples.",
 ['inputs'],"all trajectories, ranges, steps and derivative orders","range starts inside or at the end of a segment and steps longer than a segment are needed to expose an error",
 [S+'trajectory.cpp'],[('incremental sampling','Trajectory::evaluateRange')],(),['Trajectory::evaluateRange'])
prop('C06','Trajectory bookkeeping: duration, sizes and segment order stay consistent',
 "After segments are set or added, a trajectory's duration is the sum of its segment times, its dimension and coefficient count are those of its segments, and its segments are exactly the given ones in the given order after any it already had. Merging trajectories appends theirs in order and leaves the operands unchanged, and is refused when dimension or coefficient count differs. Segment times, comparison, clearing and offsetting by a vector (first three dimensions only, refused when the vector is too short) reflect exactly those segments.",
 ['inputs','histories'],"all sequences of segment lists, trajectories and offsets","the sum must be maintained over any history of additions; no test adds, merges or offsets",
 [S+'trajectory.cpp',H+'trajectory.h',S+'segment.cpp',H+'segment.h'],[('segment insertion','Trajectory::setSegments, addSegments'),('merge','Trajectory::addTrajectories'),('offset','Trajectory::offsetTrajectory, Segment::offsetSegment')],[('max_time_','sum of segment times','trajectory.h'),('D_, N_','dimension and coefficient count','trajectory.h')],['Trajectory::getMaxTime','Trajectory::getSegmentTimes'])
prop('C07','Splitting and stacking dimensions preserves the path',
 "Extracting one dimension of a segment or trajectory keeps its durations and gives exactly that dimension's values; an index that does not exist is refused for a segment. Stacking two segments or two equally segmented trajectories gives the first's dimensions followed by the second's; each original keeps its shape, stretched to the longer duration of the pair, and shorter polynomials are padded without changing values. Stacking with an empty operand gives the other one.",
 ['inputs'],"all pairs of segments and trajectories, with equal and different durations and coefficient counts","the four combinations of equal/different duration and coefficient count are all needed, and no test splits or stacks",
 [S+'segment.cpp',S+'trajectory.cpp'],[('extraction','Segment::getSegmentWithSingleDimension, Trajectory::getTrajectoryWithSingleDimension'),('stacking','Segment::getSegmentWithAppendedDimension, Trajectory::getTrajectoryWithAppendedDimension')],(),['Trajectory::getTrajectoryWithAppendedDimension'])
prop('C08','Stretching time keeps the path and its limits only ever slow it down',
 "Scaling segment times by s>0 multiplies every segment time and the total duration by s and leaves the geometric path unchanged: position at s*t after equals position at t before, and a k-th derivative shrinks by s^k; a scale below 1e-6 is refused with nothing changed. Scaling to meet velocity and acceleration limits never shortens a segment, keeps the path, scales all segments evenly, slows the trajectory at least by the measured excess when a limit is exceeded by more than 0.1%, and reports success only when the measured maxima are within 0.1% of the limits. A trajectory already within limits is left unchanged.",
 ['inputs'],"all trajectories, scales and limits","every combination of dominating limit and segment count matters; the tests never rescale",
 [S+'trajectory.cpp',S+'polynomial.cpp'],[('uniform scaling','Trajectory::scaleSegmentTimes'),('limit-driven scaling','Trajectory::scaleSegmentTimesToMeetConstraints'),('maxima','Trajectory::computeMaxVelocityAndAcceleration')],(),['Trajectory::scaleSegmentTimes'])
prop('C09','Magnitude extrema over chosen dimensions bound the whole path',
 "For any derivative and any set of dimensions, the extrema reported for a segment or a trajectory are values of the Euclidean norm over exactly those dimensions, attained at the reported time and segment, the minimum and maximum over all candidates inside the interval. The candidates include the interval's ends and the interior critical points of the norm, so the reported maximum and minimum bound the norm everywhere on the path. An empty set of dimensions, a dimension out of range, or a reversed interval is reported as failure.",
 ['inputs'],"all segments, trajectories, derivative orders, dimension subsets and intervals","critical points depend on all coefficients; no test asks for a magnitude extremum",
 [S+'segment.cpp',S+'trajectory.cpp',H+'extremum.h',I+'polynomial_optimization_linear_impl.h'],[('critical polynomial of the squared norm','Segment::computeMinMaxMagnitudeCandidateTimes'),('evaluation and selection','Segment::computeMinMaxMagnitudeCandidates, selectMinMaxMagnitudeFromCandidates'),('trajectory level','Trajectory::computeMinMaxMagnitude'),('optimiser level','PolynomialOptimization::computeMaximumOfMagnitude')],(),['Trajectory::computeMinMaxMagnitude'])
prop('C10','Vertex constraints behave as a per-derivative store',
 "A vertex holds at most one value per derivative order: adding sets exactly that order, removing erases exactly that order and tells whether it was there, and queries return the stored value without changing anything. Marking a vertex as start or end sets its position and zeroes every derivative up to the given order and nothing else. Taking a subset of dimensions keeps exactly the constraints up to the given order with the chosen components in the chosen order (refused when a component does not exist), and tolerance comparison is true exactly when both hold the same orders with values closer than the tolerance.",
 ['inputs','histories'],"all histories of constraint operations, all orders, dimensions and values","a store's frame condition ranges over all other keys and histories; tests only add",
 [S+'vertex.cpp',H+'vertex.h'],[('constraint map','Vertex::addConstraint, removeConstraint, getConstraint, hasConstraint'),('rest vertices','Vertex::makeStartOrEnd'),('projection','Vertex::getSubdimension'),('comparison','Vertex::isEqualTol')],[('constraints_','derivative order -> value','vertex.h')],['Vertex API'])
prop('C11','Initial segment times are positive and follow the stated allocation rule',
 "For n>=2 waypoints with positive velocity and acceleration limits, time estimation returns n-1 strictly positive times, one per consecutive pair, each computed only from that pair. The default estimate is the straight-line distance over the velocity limit, plus one acceleration ramp (v/a) when either end is required to be at rest, and never below 0.1 s; the ramp estimate is the rest-to-rest trapezoidal time times the requested factor, never below 0.1 s. Hence no segment is allotted less time than covering its distance at maximum velocity takes.",
 ['inputs'],"all vertex lists, limits and factors, coincident and resting vertices included","coincident vertices and the short/long distance switch are corner inputs the tests avoid",
 [S+'vertex.cpp'],[('default estimate','estimateSegmentTimes, estimateSegmentTimesNfabian'),('ramp estimate','estimateSegmentTimesVelocityRamp, computeTimeVelocityRamp')],(),['estimateSegmentTimes'])
prop('C12','Optimised trajectories meet every vertex constraint and are continuous',
 "The trajectory returned by the linear optimiser passes, at each vertex, through every constrained derivative value of that vertex (up to the supported order, higher ones being ignored), and consecutive segments agree at their shared vertex in all derivatives up to half the coefficient count minus one. Its segment times are the ones given and it has one segment per consecutive vertex pair. This stays true after changing the segment times and solving again and for any free derivative values set by hand.",
 ['inputs','histories'],"all vertex lists, constraint patterns, segment times, dimensions and free values","the tests run one waypoint list and check no constraint; patterns of fixed and free derivatives are combinatorial",
 [I+'polynomial_optimization_linear_impl.h',H+'polynomial_optimization_linear.h'],[('endpoint mapping and its inverse','PolynomialOptimization::setupMappingMatrix, invertMappingMatrix'),('fixed/free reordering','PolynomialOptimization::setupConstraintReorderingMatrix'),('assembly','PolynomialOptimization::updateSegmentsFromCompactConstraints, setFreeConstraints, updateSegmentTimes')],[('fixed_constraints_compact_','fixed derivative values per dimension','polynomial_optimization_linear.h'),('free_constraints_compact_','free derivative values per dimension','polynomial_optimization_linear.h'),('constraint_reordering_','0/1 matrix from compact to per-segment order','polynomial_optimization_linear.h')],['PolynomialOptimization::getTrajectory'])
prop('C13','The linear optimiser minimises exactly the integral of the squared derivative',
 "The cost reported by the linear optimiser is the sum over segments and dimensions of the integral of the squared chosen derivative of the trajectory. The free derivatives it returns make that cost stationary: no other choice of the free vertex derivatives gives a lower cost with the same segment times. The compact matrices it exposes are consistent with that cost and with the trajectory.",
 ['inputs'],"all vertex lists, constraint patterns, segment times and derivatives to optimise","optimality is a statement about all alternative trajectories",
 [I+'polynomial_optimization_linear_impl.h'],[('per-segment cost matrix','PolynomialOptimization::computeQuadraticCostJacobian'),('cost','PolynomialOptimization::computeCost'),('normal equations','PolynomialOptimization::constructR, solveLinear')],(),['PolynomialOptimization::computeCost','PolynomialOptimization::solveLinear'])
prop('C14','The nonlinear optimiser searches the problem the user stated',
 "The objective the nonlinear optimiser evaluates is the linear optimiser's cost for the candidate times and free derivatives plus the time penalty on the total time plus the enabled soft penalties (for the outer-loop search over times, whose times are rescaled to the limits afterwards, the cost alone, with the change of the optimal cost per second as its gradient when a segment is lengthened by 0.1 s and the others are shortened equally, never below 0.1 s), and each added magnitude limit contributes the constraint 'maximum of that derivative's norm minus its limit'. Candidate variables are read in one fixed layout (segment times first, then free derivatives dimension by dimension) shared by the starting point, the bounds and the objective, segment times are bounded away from zero, and bounds for a limited derivative are placed on the variables of that derivative only. After optimisation the stored trajectory is the one of the accepted variables and still meets every vertex constraint.",
 ['inputs'],"all vertex lists, limits, parameter sets and candidate points","the layout must agree for every pattern of fixed and free derivatives, and the tests look at no value",
 [I+'polynomial_optimization_nonlinear_impl.h',H+'polynomial_optimization_nonlinear.h'],[('objectives','PolynomialOptimizationNonLinear::objectiveFunctionTime, objectiveFunctionTimeAndConstraints'),('limits','PolynomialOptimizationNonLinear::addMaximumMagnitudeConstraint, evaluateMaximumMagnitudeConstraint'),('bounds','PolynomialOptimizationNonLinear::optimizeTimeAndFreeConstraints, setFreeEndpointDerivativeHardConstraints')],(),['PolynomialOptimizationNonLinear::optimize'])
prop('C15','Saving and loading a trajectory gives the same trajectory',
 "Converting segments or a trajectory to YAML or to a file and back gives the same number, order, sizes and coefficients, with each duration kept to within a nanosecond. Loading replaces the previous content of the target. Input that lacks a required field, or whose sizes disagree with its header when read from a file, is refused.",
 ['inputs'],"all trajectories and all malformed documents","a round trip must hold for every value and shape; the tests do no input or output",
 [S+'io.cpp'],[('YAML','coefficientsToYaml, segmentToYaml, segmentFromYaml, trajectoryToYaml, trajectoryFromYaml'),('files','segmentsToFile, segmentsFromFile, trajectoryToFile, trajectoryFromFile')],(),['trajectoryToFile','trajectoryFromFile'])
prop('C16','Sampled vehicle states are the trajectory\'s derivatives at the stamped time',
 "Sampling a state at a time inside the trajectory (or segment) fills position, velocity, acceleration, jerk and snap with the corresponding derivatives of the first three dimensions and stamps that time in nanoseconds; with four dimensions the fourth gives heading, heading rate and heading acceleration, with six the last three give orientation and angular rates. Sampling a range gives those states at start + k*interval. A time or range outside the trajectory, or fewer than three dimensions, is refused.",
 ['inputs'],"all trajectories with 3, 4 or 6 dimensions, all times, ranges and intervals","each derivative goes through its own line for every sample; no test samples states",
 [S+'trajectory_sampling.cpp',M+'include/mav_msgs/mav_msgs/eigen_mav_msgs.hpp'],[('single state','sampleTrajectoryAtTime, sampleSegmentAtTime, sampleFlatStateAtTime'),('range','sampleTrajectoryInRange, sampleTrajectoryStartDuration, sampleWholeTrajectory')],(),['sampleTrajectoryAtTime','sampleTrajectoryInRange'])
prop('C17','Attitude conversions are consistent with each other',
 "Building a rotation from a heading and reading the heading back gives the same angle modulo a full turn, for every angle, and the same for roll-pitch-yaw away from pitch singularity. A matrix is accepted as a rotation only if it is orthonormal with determinant +1; the skew matrix applied to a vector is the cross product and its inverse recovers the vector. A world velocity given to an odometry is kept turned into the body frame and is read back unchanged. Rotation-vector to matrix and back is the identity for angles below half a turn, and the derived angular velocity and acceleration are the time derivatives of that attitude (for rotation vectors shorter than 1e-3 rad the derivatives of the vector itself are returned instead).",
 ['inputs'],"all angles, vectors and matrices","wrap-around, small-angle and reflection inputs are corner cases no test reaches",
 [M+'include/mav_msgs/mav_msgs/common.hpp',M+'include/mav_msgs/mav_msgs/eigen_mav_msgs.hpp'],[('conversions','yawFromQuaternion, quaternionFromYaw, isRotationMatrix, skewMatrixFromVector, vectorFromSkewMatrix, matrixFromRotationVector, vectorFromRotationMatrix, omegaFromRotationVector, omegaDotFromRotationVector'),('velocity frames','EigenOdometry::setVelocityWorld, EigenOdometry::getVelocityWorld')],(),['mav_msgs conversion functions'])
prop('C18','Waypoint deformations are smooth bumps with consistent derivatives',
 "A waypoint deformation adds to the path a Gaussian bump in time centred at the waypoint's time whose peak equals the requested displacement, and its reported first and second derivatives are the true time derivatives of the bump. Outside 3.5 standard deviations from the centre, and for displacements under 2 cm, it contributes exactly zero in every order. It is finite for every time and every width, zero included.",
 ['inputs'],"all times, centres, widths, displacements and orders","analytic derivative identity over all reals; the tests never look at a deformed path",
 [TM],[('bump and derivatives','GaussianModifier::operator()')],(),['GaussianModifier::operator()'])
prop('C19','Moving a waypoint deforms the path to reach the new position',
 "Each time a waypoint is moved, the sum of its recorded deformations at its own time grows by exactly the displacement from its previous current position in every axis (for displacements of at least 2 cm, while the waypoint's time is still ahead of the time given), and its current position and position constraint become the new one. Assigning a time to the waypoint recentres all its deformations there; resetting it makes the current position its original one and removes all deformations. A copy of a waypoint behaves identically to the original under every later operation, without sharing state.",
 ['inputs','histories'],"all histories of moves, retimings, resets and copies","the sum over an arbitrary history of moves and copies is not sampled",
 [W,WH,TM],[('move','DynamicWaypoint::setCurrentPosition'),('retiming','DynamicWaypoint::setTime'),('sum','DynamicWaypoint::trajectoryCompensation'),('copy','DynamicWaypoint copy constructor'),('reset','DynamicWaypoint::resetWaypoint, resetWaypointWithCurrentPosition, setConstraint')],[('modifiers_','deformations applied so far','dynamic_waypoint.hpp')],['DynamicWaypoint::trajectoryCompensation'])
prop('C20','A reference is the trajectory at the local time plus waypoint deformations',
 "The reference returned for global time t is, in position, velocity and acceleration, the current trajectory's derivative of that order at t minus the trajectory's start time plus the time offset, clamped to the trajectory's duration, plus the deformations of all named waypoints at the offset global time when that is positive. Asking for positions only leaves the other orders out. Converting a time to global and back is the identity, and the reported minimum and maximum times are the start and the start plus duration in global time; evaluating records the time asked for, unless done for plotting.",
 ['inputs','histories'],"all trajectories, waypoint sets, deformations, offsets and times","clamping, named/unnamed waypoints and offsets combine; the tests ignore the values returned",
 [D,DH,TS],[('evaluation','DynamicTrajectory::evaluateTrajectory, getReferences, evaluateModifiedTrajectory'),('time conversion','DynamicTrajectory::convertFromGlobalTime, convertIntoGlobalTime, getMaxTime, getMinTime')],[('parameters_','start time, offset and last evaluated times','dynamic_trajectory.hpp')],['DynamicTrajectory::evaluateTrajectory'])
prop('C21','Pending waypoint requests are combined in the documented way',
 "Setting waypoints discards every pending request and keeps exactly the given list; appending adds one at the end of the pending ones; modifying keeps one pending position per name, the latest. When a new trajectory is planned, its waypoints are the set list if there is one, otherwise the current waypoints not yet passed, reset to their current positions, followed by the appended ones, with pending modifications applied to every waypoint of that name (unnamed ones never); the pending requests are then empty.",
 ['inputs','histories'],"all histories of set, append and modify requests between two plannings","histories of requests with repeated names and mixed kinds are not sampled",
 [D],[('requests','DynamicTrajectory::setWaypoints, appendWaypoint, modifyWaypoint, modifyWaypoints'),('consumption','DynamicTrajectory::generateWaypointsForTheNextTrajectory, filterPassedWaypoints')],[('waypoints_to_be_set_, waypoints_to_be_added_, waypoints_to_be_modified_','pending requests','dynamic_trajectory.hpp')],['DynamicTrajectory::setWaypoints'])
prop('C22','A stitched plan starts on the trajectory being flown',
 "When a new plan is stitched onto the current one, its first waypoint is constrained to the position, velocity and acceleration that the current (deformed) trajectory has at the current evaluation time plus offset, and its second to the position a fixed look-ahead later. The remaining waypoints follow in their order, without those that fall before the end of the look-ahead and already have a time assigned. When the plan starts from scratch, its first waypoint is the vehicle position at rest, followed by the planned waypoints.",
 ['inputs','histories'],"all current trajectories, times, offsets and waypoint lists","smoothness of the joint depends on the instant of replanning, which tests do not control",
 [D],[('stitching','DynamicTrajectory::stitchActualTrajectoryWithNewWaypoints'),('from scratch','DynamicTrajectory::appendDronePositionWaypoint'),('decision','DynamicTrajectory::checkStitchTrajectory')],(),['DynamicTrajectory::stitchActualTrajectoryWithNewWaypoints'])
prop('C23','Waypoint times, indices and remaining counts follow the planned segments',
 "After a plan is computed, waypoint i of the plan has index i and is scheduled at the plan's start time plus the durations of the first i segments; the plan has one vertex per waypoint and ends at rest. The waypoints reported as upcoming are exactly those scheduled after the last evaluated time, in order, and the remaining count ignores leading stitching points. Cumulative time refuses an index outside the segments.",
 ['inputs'],"all waypoint lists, segment durations, indices and evaluation times","sums over arbitrary prefixes and boundary indices are not sampled",
 [D,DH],[('scheduling','DynamicTrajectory::computeTrajectory, getCummulativeTime'),('vertices','extractVerticesFromWaypoints'),('queries','DynamicTrajectory::getNextTrajectoryWaypoints, getRemainingWaypoints')],[('dynamic_waypoints_','waypoints of the trajectory being flown','dynamic_trajectory.hpp')],['DynamicTrajectory::getNextTrajectoryWaypoints','DynamicTrajectory::getRemainingWaypoints'])
prop('C24','Replanning starts only when it is safe and one plan at a time',
 "A new plan is started only when no other plan is being computed and the next named waypoint ahead is farther in time than the security margin (or there is none, or no trajectory yet). The current trajectory is stitched only if there is one and at least twice the planning time remains of it; otherwise the plan starts from scratch. A modification of a waypoint of the flown trajectory is applied to every waypoint with that name and to no other; a modification taken in while no plan is being computed is applied, in the order of the requests, to the flown waypoints and to those still waiting to be planned.",
 ['inputs','histories'],"all waypoint schedules, evaluation times and planning times","the decision depends on timing, which tests do not control",
 [D],[('gate','DynamicTrajectory::checkInSecurityZone, checkIfTrajectoryCanBeGenerated, checkStitchTrajectory'),('modification','DynamicTrajectory::applyWaypointModification')],[('computing_new_trajectory_','a plan is being computed','dynamic_trajectory.hpp')],['DynamicTrajectory::todoThreadLoop'])
prop('C25','Swapping in a plan fits its time to where the vehicle is',
 "When a finished plan replaces the current one, the trajectory, its waypoints and its parameters are replaced together and the caller is told once that a trajectory was regenerated. The time offset is chosen so that evaluation resumes at the sampled instant of the new plan, among multiples of 0.1 s within one and a half planning times, closest to the vehicle's position (for a plan from scratch) or to the current reference (for a stitched plan), plus one step. A speed set while a plan is being computed stays set when that plan is swapped in. Without a finished plan nothing is replaced. When several clients notice the finished plan at the same time one of them swaps it in and none fails; no report is lost or made twice.",
 ['inputs','schedules','histories'],"all plans, vehicle positions, times and offsets; all interleavings of clients at the swap","the fit depends on positions and times at the swap; tests do not look",
 [D],[('swap','DynamicTrajectory::swapTrajectory, swapDynamicWaypoints, checkTrajectoryGenerated'),('fit','DynamicTrajectory::timeFittingWithVehiclePosition')],[('parameters_, new_parameters_','time bookkeeping of the flown and the next plan','dynamic_trajectory.hpp')],['DynamicTrajectory::evaluateTrajectory'])
prop('C26','Locks are always released and never acquired in a cycle',
 "No public call or worker step acquires a lock it already holds, every lock is released on every way out, and all acquisitions, including waiting for a computation while holding a lock, respect one global order. Hence no interleaving of public calls with the background worker can deadlock on the object's locks. Pending request lists and the flown waypoint list are only changed with their lock held. Destroying the object waits for the worker and for a plan being computed before anything they use goes away.",
 ['schedules'],"all interleavings of any number of client threads with the worker and the planning task","deadlocks need a particular interleaving; a test run shows one schedule",
 [D,DH,TS],[('scoped and manual locking','DynamicTrajectory and ThreadSafeTrajectory member functions')],[('todo_mutex, future_mutex_, dynamic_waypoints_mutex_, parameters_mutex_, time_measure_mutex_, vehicle_position_mutex_, traj_mutex_','locks','dynamic_trajectory.hpp')],['all public members of DynamicTrajectory'])
prop('C27','An accepted waypoint request is never forgotten',
 "Once setting, appending or a replanning modification of waypoints returns, the object keeps reporting that a new trajectory must be generated until a plan has taken that request in, whatever other requests, plannings and swaps happen in between. A modification that does not ask for replanning never cancels a pending request to replan.",
 ['schedules','histories'],"all interleavings and histories of requests, plannings and swaps","losing a request needs it to arrive between the start of a plan and its swap",
 [D],[('request flag','DynamicTrajectory::setWaypoints, appendWaypoint, modifyWaypoint, todoThreadLoop, checkTrajectoryGenerated')],[('generate_new_traj_','a plan is requested','dynamic_trajectory.hpp')],['DynamicTrajectory::getGenerateNewTraj'])
prop('C28','Vertices read back from a trajectory are its states at the joints',
 "Reading the vertex of a trajectory at a time gives, for each derivative up to the requested order and no other, the trajectory's value at that time; the start and goal vertices are those at zero and at the duration. Reading all vertices gives one more than the number of segments, the i-th being the vertex at the end of the first i segments. With separate position and heading orders, the position vertices hold the first three dimensions and the heading vertices the fourth, each up to its own order.",
 ['inputs'],"all trajectories and derivative orders","joints and per-part orders combine; tests never read vertices back",
 [S+'trajectory.cpp',S+'vertex.cpp'],[('vertices','Trajectory::getVertexAtTime, getStartVertex, getGoalVertex, getVertices')],(),['Trajectory::getVertices'])
prop('C29','Generated test vertices satisfy what they promise',
 "Creating random vertices in a box whose diagonal exceeds 0.4 gives one more vertex than segments, all positions inside the given box, consecutive ones farther apart than 0.2, both ends at rest up to the given derivative and inner ones constrained in position only, and is a function of its arguments and seed alone. Creating a square gives a closed loop through the four corners around the centre, in order, once per round, starting and ending at rest.",
 ['inputs'],"all dimensions, boxes, seeds, centres, side lengths and rounds","universally quantified over seeds and boxes",
 [S+'vertex.cpp'],[('generation','createRandomVertices, createSquareVertices, createRandomVertices1D')],(),['createRandomVertices','createSquareVertices'])
prop('C30','Timing statistics equal the statistics of the recorded samples',
 "For any sequence of recorded durations, the timer's sample count, total, mean, minimum and maximum are those of the whole sequence and its rolling figures those of the most recent window. Timers with the same tag share their record, different tags do not interfere, and a running timer contributes exactly one sample when it is stopped or destroyed, a never started or already stopped one none.",
 ['histories'],"all sequences of samples and timer operations","an arbitrary history is quantified",
 [H+'timing.h',S+'timing.cpp'],[('accumulator','timing::Accumulator'),('registry','timing::Timing, timing::Timer')],(),['timing::Timing'])
prop('C31','Shared fields are free of data races',
 "Every access to a field shared between client threads, the worker and the planning task is ordered by a lock or is atomic.",
 ['schedules'],"all interleavings","a race needs a particular interleaving and a detector",
 [D,DH,TS],[('mutexes and atomics','DynamicTrajectory')],(),['DynamicTrajectory'])
prop('C32','Real roots of a polynomial are found to floating-point accuracy',
 "For every polynomial the root finder returns all its roots, with multiplicity, to working accuracy, and reports failure otherwise.",
 ['inputs'],"all coefficient vectors","numerical convergence of an iterative method over all inputs",
 [S+'rpoly/rpoly_ak1.cpp'],[('Jenkins-Traub iteration','rpoly_ak1.cpp, findRootsJenkinsTraub')],(),['findRootsJenkinsTraub'])
prop('C33','Optimised trajectories respect the speed and acceleration limits',
 "The trajectory flown after planning never exceeds the requested speed and the maximum acceleration by more than the configured tolerance.",
 ['inputs'],"all waypoint lists and speeds","depends on the convergence of an iterative numerical optimiser",
 [D,I+'polynomial_optimization_nonlinear_impl.h'],[('nonlinear optimisation','PolynomialOptimizationNonLinear::optimize')],(),['DynamicTrajectory::evaluateTrajectory'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
