import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="mpc-walkgen/"
p("C01","Constant-jerk and constant-acceleration predictions equal exact integration",
"For every horizon length, first-step duration and sampling period, the predicted position, velocity, acceleration and jerk at every future sample equal what integrating the piecewise-constant jerk (or, for the two-state dynamics, the piecewise-constant acceleration) sample by sample from the current state gives, the first piece lasting the first-step duration and every other piece the sampling period. The stored transposed prediction matrices are the transposes of the prediction matrices. Advancing one state by one constant jerk for a given duration is exact as well.",
["inputs","configurations"],"all S>0, T>0, all states and all jerk sequences, every horizon length",
"The tests only reach these matrices through a few models at fixed sampling periods and zero or unit jerks; a wrong coefficient at a large sample index, or one that vanishes when S==T, is not seen.",
["src/tools.cpp","src/lineardynamic.cpp","mpc-walkgen/tools.h"],
[("computePosDynamic / computeVelDynamic / computeAccDynamic / computeJerkDynamic / computeOrder2*","src/tools.cpp"),("LinearDynamic::reset","src/lineardynamic.cpp"),("updateState","src/tools.cpp")])
p("C02","Predicted CoP follows the (mass-scaled) inverted-pendulum law",
"For every horizon, height, gravity vector (with non-zero vertical part) and pair of masses, the predicted centre of pressure at every sample equals the mass ratio times (c - h/gz*(acceleration + gx)) of the exactly integrated centre of mass. The stored inverses of the prediction matrices, when the matrix is square and invertible, really are their inverses, and the stored inverse of the transpose is the transpose of the inverse.",
["inputs","configurations"],"all S,T>0, states, jerks, heights, gravities and masses with total mass >= mass",
"Existing tests use zero horizontal gravity, one mass and S equal to T.",
["src/tools.cpp","mpc-walkgen/tools.h","src/model/lip_model.cpp","src/model/zebulon_base_model.cpp"],
[("computeCopDynamic","src/tools.cpp"),("inverseLU","mpc-walkgen/tools.h")])
p("C03","A model's predictions depend on its current parameters only",
"After any sequence of parameter changes, every prediction a pendulum, base or trajectory model hands out (for the first sample of each feedback sub-period too) is the one a model freshly configured with the final parameters hands out, and applying a jerk to a model advances each of its axes by exactly the stated duration. No accepted parameter change leaves a prediction stale, of the wrong size or uninitialised.",
["histories","inputs"],"all sequences (bounded length) of setter calls on each of the three models with arbitrary valid arguments",
"Each test configures a model once, in one order; stale data needs a second change in another order.",
["src/model/lip_model.cpp","src/model/zebulon_base_model.cpp","src/model/no_dynamic_model.cpp"],
[("computeDynamics and the setters that call it","src/model/lip_model.cpp"),("computeDynamics","src/model/zebulon_base_model.cpp"),("computeDynamics","src/model/no_dynamic_model.cpp")])
p("C04","Foot trajectories join initial and final state smoothly",
"For every pair of initial and final states and every positive duration, the generated three-piece cubic trajectory starts at the initial position, velocity and acceleration, ends at the final ones, and is continuous up to acceleration at the two junctions, which lie at one third and two thirds of the duration; the piece used at a time is the one covering that time. Moving a foot for a time t towards a target in remaining time T puts it on that trajectory at t, for position, velocity and acceleration, on each axis, and reaches the target when t equals T.",
["inputs"],"all initial/final states, all T>0 and all 0<=t<=T",
"The tests evaluate a few hard-coded states and times.",
["src/interpolator.cpp","src/model/humanoid_foot_model.cpp","mpc-walkgen/tools.h"],
[("computePolynomialNormalisedFactors / selectFactors","src/interpolator.cpp"),("interpolateTrajectory, updateStateX/Y/Z","src/model/humanoid_foot_model.cpp"),("polynomValue and derivatives","mpc-walkgen/tools.h")])
p("C05","Convex hull is the convex hull of the given points",
"For every non-empty set of points, duplicates and aligned points included, the polygon built from them has only given points as vertices, lists them once each in counter-clockwise strictly convex order, and contains every given point. Building it always terminates without reading outside the points.",
["inputs"],"all small point sets, including degenerate ones (bounded count and coordinates)",
"The hull tests are disabled or use one generic point set; degenerate inputs are rare among floats but common in robot descriptions (rectangular feet, overlapping feet).",
["src/convexpolygon.cpp","mpc-walkgen/convexpolygon.h"],
[("extractVertices / getIndexOfSmallestAngleVertice / getIndexOfLowestAndLeftmostVertice / angleBetweenVecs","src/convexpolygon.cpp")])
p("C06","Polygon half-planes and bounds describe exactly the polygon",
"For every non-degenerate convex polygon, a point satisfies all the polygon's axis-aligned bounds and general linear constraints if and only if it lies in the polygon, and an axis-parallel edge is expressed as a bound while every other edge is expressed as one general constraint. A polygon without vertices constrains nothing.",
["inputs"],"all convex polygons with up to a bounded number of vertices and all points",
"Tests look at one polygon and do not evaluate the constraints at points.",
["src/convexpolygon.cpp"],
[("computeBoundsAndGeneralConstraintValues","src/convexpolygon.cpp")])
p("C07","Scaling a quadratic program never changes its solutions",
"Normalising a quadratic program multiplies the objective (both parts) by one positive factor and the linear constraints (matrix and both bounds) by one positive factor and leaves the variable bounds alone, so the feasible set and the minimisers are unchanged for every program and threshold. Every significant entry below one is brought up to at least one. The dimension check accepts a program exactly when all of its parts have the announced sizes.",
["inputs"],"all quadratic programs of bounded size, all thresholds",
"The repository's tests of the solver layer are not built here and only check one program.",
["qpsolver/mpc-walkgen/qpsolver.h"],
[("normalizeMatrices / getNormalizationFactor / dimensionsAreConsistent","qpsolver/mpc-walkgen/qpsolver.h")])
O="value, gradient and Hessian of the stated least-squares cost, for all states, references and decision variables"
p("C08","Trajectory objectives are the gradient and Hessian of their tracking errors",
"For the trajectory generator, the position-tracking, velocity-tracking and jerk-minimisation objectives return, at every decision vector, the exact gradient and Hessian of half the sum of squared differences between the predicted quantity and its reference over the horizon, for every state, reference, horizon length and sampling period, and keep doing so after the horizon or the period changed.",
["inputs","configurations"],O+"; horizon bounded",
"There are no tests for these classes at all.",
["src/function/trajectory_position_tracking_objective.cpp","src/function/trajectory_velocity_tracking_objective.cpp","src/function/trajectory_jerk_minimization_objective.cpp"],
[("getGradient/getHessian","src/function/trajectory_*_objective.cpp")])
p("C09","Base tracking and jerk objectives match their least-squares cost",
"For the wheeled robot, the base velocity tracking, base position tracking and jerk minimisation objectives return, at every decision vector, the exact gradient and Hessian of half the sum of squared errors they stand for (predicted base velocity or position minus reference on both axes; all jerks), for every state, reference and horizon.",
["inputs","configurations"],O+"; horizon bounded",
"Tests check values at one or two fixed decision vectors with sampling period 1.",
["src/function/zebulon_base_velocity_tracking_objective.cpp","src/function/zebulon_base_position_tracking_objective.cpp","src/function/zebulon_jerk_minimization_objective.cpp"],
[("getGradient/getHessian","src/function/zebulon_*_objective.cpp")])
p("C10","CoP and CoM centring pull towards the right point, whatever the gravity",
"For the wheeled robot, the centre-of-pressure centring objective has the exact gradient and Hessian of half the squared distance of the predicted total centre of pressure, relative to the base, to its reference; the centre-of-mass centring objective does the same for the centre of mass relative to the base, with the reference shifted, once requested, by what keeps the static centre of pressure centred (mean mass height times horizontal over vertical gravity). A reference given in the world frame yields the same cost as the squared distance of the predicted total centre of pressure in the world frame to that reference, for every gravity direction.",
["inputs","configurations","histories"],O+", all gravities, masses, heights; changes of horizon and gravity in between",
"World-frame references are only tested with zero horizontal gravity, and the gravity shift only with one setter order.",
["src/function/zebulon_cop_centering_objective.cpp","src/function/zebulon_com_centering_objective.cpp"],
[("getGradient/getHessian/setCopRefInWorldFrame","src/function/zebulon_cop_centering_objective.cpp"),("updateGravityShift, setNbSamples, setComRef","src/function/zebulon_com_centering_objective.cpp")],)
p("C11","Tilt objectives penalise the predicted tilt angle and tilt rate",
"For the wheeled robot, the tilt and tilt-rate objectives return the exact gradient and Hessian of half the sum over the horizon of the squared tilt angle (respectively tilt rate) of the base about its current contact point, predicted by integrating the linearised tipping dynamics from the current tilt state along the predicted motion of the two masses, on both axes. They follow every change of masses, heights, sampling period, horizon and contact point.",
["inputs","configurations","histories"],O+", masses, heights and contact points",
"No test covers these two classes.",
["src/function/zebulon_tilt_minimization_objective.cpp","src/function/zebulon_tilt_velocity_minimization_objective.cpp"],
[("computeConstantPart/getGradient/getHessian","src/function/zebulon_tilt_*_objective.cpp")])
p("C12","Humanoid objectives are exact in CoP and footstep variables",
"For the humanoid, the CoP-centring, CoM-velocity-tracking and jerk-minimisation objectives return, at every decision vector (CoP offsets and footsteps), the exact gradient and Hessian of half the sum of squared errors obtained by mapping the decision vector through the selected support feet to CoP positions, then to centre-of-mass jerks and velocities, the errors of the last two being weighted with the per-sample weights of the current phase. This holds in every gait phase and feedback phase.",
["inputs","histories"],O+", every reachable gait phase within bounded histories",
"Tests cover only the initial standing phase without any previewed footstep.",
["src/function/humanoid_cop_centering_objective.cpp","src/function/humanoid_lip_com_velocity_tracking_objective.cpp","src/function/humanoid_lip_com_jerk_minimization_objective.cpp","mpc-walkgen/humanoid_walkgen.h","src/humanoid_walkgen.cpp"],
[("getGradient/getHessian","src/function/humanoid_*_objective.cpp")])
p("C13","Motion limits hold at every sample exactly when the constraints do",
"For the trajectory generator and for the wheeled robot's base, a decision vector satisfies the motion constraints if and only if the predicted velocity and acceleration stay within the configured limits at every sample of the horizon, on each axis, for every state and limit. For the tilting robot the motion constraint holds if and only if the predicted velocities of base and centre of mass have no component perpendicular to the heading, at every sample.",
["inputs","configurations"],"all states, limits, headings, decision vectors; horizon bounded",
"Tests sample a few decision vectors around hard-coded limits; the trajectory constraint has no test.",
["src/function/trajectory_motion_constraint.cpp","src/function/zebulon_base_motion_constraint.cpp","src/function/zebulon_tilt_motion_constraint.cpp"],
[("getFunctionInf/Sup, getGradient","src/function/trajectory_motion_constraint.cpp"),("getFunctionInf/Sup, getGradient","src/function/zebulon_base_motion_constraint.cpp"),("getFunction/getGradient","src/function/zebulon_tilt_motion_constraint.cpp")])
p("C14","Wheeled robot's CoP and CoM constraints are the polygons, at every sample",
"For the wheeled robot, a decision vector satisfies the CoP (respectively CoM) constraints if and only if at every sample the predicted total centre of pressure (respectively centre of mass) relative to the predicted base position lies in the configured polygon, for every polygon, state, gravity, mass distribution and heading.",
["inputs","configurations"],"all polygons (bounded vertices), states, gravities, masses, decision vectors; horizon bounded",
"Tests use one square-like polygon and a few points, one sample at a time.",
["src/function/zebulon_cop_constraint.cpp","src/function/zebulon_com_constraint.cpp"],
[("getFunction/getGradient/computeConstantPart","src/function/zebulon_cop_constraint.cpp"),("getFunction/getGradient/computeConstantPart","src/function/zebulon_com_constraint.cpp")])
p("C15","Humanoid CoP constraint keeps the CoP in the current support polygon",
"For the humanoid, a decision vector satisfies the bounds and general constraints on the centre of pressure if and only if at every sample the centre of pressure, relative to the support foot of that sample, lies in the polygon of the support phase of that sample (left foot, right foot, or hull of both feet in double support). This holds in every gait phase.",
["inputs","histories"],"all polygons from a stated family, foot states, decision vectors; every gait phase within bounded histories",
"The test covers the initial double support only.",
["src/function/humanoid_cop_constraint.cpp","src/humanoid_feet_supervisor.cpp"],
[("getFunction/getGradient/getSupBounds/getInfBounds","src/function/humanoid_cop_constraint.cpp"),("getCopConvexPolygon/computeDSCopConvexPolygon","src/humanoid_feet_supervisor.cpp")])
p("C16","Humanoid footstep constraint keeps each step reachable from the previous one",
"For the humanoid, a decision vector satisfies the general constraints on footsteps if and only if each previewed step, relative to the step before it (the first one relative to the current support foot), satisfies the slanted edges of the reachable polygon of the foot that is the support before it; the bounds on footsteps express the axis-parallel edges the same way, relative to the current plan of the previous step. This holds for every number of previewed steps and every gait phase.",
["inputs","histories"],"all polygons from a stated family, foot states, decision vectors; every gait phase within bounded histories",
"The test evaluates constraint counts only, with an empty function value.",
["src/function/humanoid_foot_constraint.cpp","src/humanoid_feet_supervisor.cpp"],
[("getFunction/getGradient/getSupBounds/getInfBounds/computeFeetMatrices","src/function/humanoid_foot_constraint.cpp"),("getKinematicConvexPolygon","src/humanoid_feet_supervisor.cpp")])
p("C17","Gait sequence alternates feet and never skips or overruns a phase",
"For every sequence of start and stop commands and every feedback rate dividing the sampling period, the gait starts in double support, each walking phase lasts the configured step period, single supports alternate left and right (starting with the left foot as support), a stop command lets the current step finish and then returns to double support, and no foot is ever moved while it is the support foot. The number of previewed steps, and the footstep part of the decision vector, always match the steps that end within the horizon; footsteps already planned keep their values when the window moves, and newly previewed ones start within the extent of the range reachable from the foot before them. Changing the step period, the length of double supports or the control rate during the walk makes what is left of the current phase longer or shorter by the difference and disturbs nothing else.",
["histories","schedules"],"all start/stop command sequences up to a bounded number of cycles, several horizons, periods and feedback rates, one change of these on the way; all footstep values",
"The supervisor's test only constructs the object.",
["src/humanoid_feet_supervisor.cpp"],
[("updateTimeline/processFSM/setPhase","src/humanoid_feet_supervisor.cpp"),("shortenStepVec/enlargeStepVec","src/humanoid_feet_supervisor.cpp")],
state=[{"name":"timeline_","meaning":"phases from now to the end of the horizon","where":"mpc-walkgen/humanoid_feet_supervisor.h"}])
p("C18","Each sample of the horizon is attached to exactly one support foot",
"In every reachable gait state, each sample of the horizon is associated with exactly one support: either the current one or exactly one previewed step, the step that is being stood on at that instant of the timeline, and the transposes and linear dynamics handed out agree with that association. The sample weights are one except for the first sample, weighted by the fraction of its period left, and the last one, weighted so that both add to a constant.",
["histories","schedules"],"all start/stop command sequences up to a bounded number of cycles, several horizons and feedback rates",
"No test updates the timeline more than once.",
["src/humanoid_feet_supervisor.cpp"],
[("computeSelectionMatrix/computeSampleWeightMatrix/computeFeetPosDynamic","src/humanoid_feet_supervisor.cpp")])
p("C19","Swing foot flies from its place to the planned step and lands on time",
"During single support the flying foot, and only it, moves; when a step ends, the foot that was flying stands at the planned position of that step with zero velocity, acceleration and height, having been raised towards its maximum height in the first half of its flight, for every plan, feedback rate and step period. The support foot and both feet in double support do not move.",
["histories","inputs"],"all planned step positions and foot states; complete steps with several step periods and feedback rates",
"No test runs a step.",
["src/humanoid_feet_supervisor.cpp","src/model/humanoid_foot_model.cpp"],
[("updateFeetStates","src/humanoid_feet_supervisor.cpp"),("updateStateX/Y/Z","src/model/humanoid_foot_model.cpp")])
p("C20","Trajectory generator solves the problem its current settings describe",
"At every control step, and whatever the order and repetition of the preceding setting changes, the quadratic program handed to the solver is the weighted sum of the active objectives and the motion constraints for the current settings, state and feedback phase, and a solver keeping its first matrices is never reused after these changed. On success the state advances by one feedback period with the first computed jerk; on failure it reports failure.",
["histories","inputs","fault_sequences"],"all bounded setter/solve sequences with arbitrary valid values, any solver result",
"The generator is not tested here at all (it needs the solver library).",
["src/trajectory_walkgen.cpp"],
[("solve/computeConstantPart/computeNormalizationFactor and setters","src/trajectory_walkgen.cpp")])
p("C21","Wheeled-robot generator solves the problem its current settings describe",
"At every control step, and whatever the order and repetition of the preceding setting changes, the quadratic program handed to the solver is (up to a positive factor on the objective and on the constraints) the weighted sum of the active objectives and the active constraints for the current settings and state, and a solver keeping its first matrices is never reused after these changed. On success base and centre of mass advance by the requested time with the first computed jerks; on failure it reports failure.",
["histories","inputs","fault_sequences"],"all bounded setter/solve sequences with arbitrary valid values, any solver result",
"The generator is not tested here at all (it needs the solver library).",
["src/zebulon_walkgen.cpp"],
[("solve/computeConstantPart/computeNormalizationFactor and setters","src/zebulon_walkgen.cpp")])
p("C22","Humanoid generator solves the problem its current gait phase describes",
"At every control step of every start/stop history, the quadratic program handed to the solver has the size of the solver that receives it and is the weighted sum of the active objectives with the active CoP and footstep constraints of the current gait phase, whatever the order of the preceding setting changes. After it the centre of mass advances by the feedback period with the jerk belonging to the solution and the feet follow the planned steps.",
["histories","inputs"],"start/stop histories up to a bounded number of cycles, setter orders, any solver result",
"The generator is not tested here at all (it needs the solver library).",
["src/humanoid_walkgen.cpp"],
[("solve/computeConstantPart and setters","src/humanoid_walkgen.cpp")])
p("C23","A failed solve is reported as a failure",
"Solving a quadratic program through the bundled solver adapter reports success exactly when the underlying solver succeeded, with or without a diagnostic stream; the first solve and every solve without warm start passes the complete program, a warm start passes all vectors, and the solution vector receives the solver's primal solution.",
["inputs","fault_sequences","histories"],"all return codes of the solver, all programs of bounded size, all sequences of warm/cold solves up to a bound",
"The adapter is not built here; its upstream tests always pass feasible programs.",
["qpsolver/src/qpsolver_qpoases.hxx"],
[("QPOasesSolver::solve","qpsolver/src/qpsolver_qpoases.hxx")])
p("C24","Valid settings are always accepted",
"Any sequence of setting changes that leaves a physically meaningful combination after each change is accepted by models, supervisor and generators: no internal check fires, nothing is read out of range or before being initialised. In particular, raising and lowering masses, replacing weightings and gravities work from any previous setting.",
["histories","inputs"],"bounded setter sequences with arbitrary valid arguments on every model, objective, constraint and generator",
"A firing check needs a particular previous value; tests configure each object once.",
["src/zebulon_walkgen.cpp","src/trajectory_walkgen.cpp","src/humanoid_walkgen.cpp","src/model/lip_model.cpp","src/model/zebulon_base_model.cpp"],
[("setters and their assertions","src/*.cpp")])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(q)+'\n' for q in P))
