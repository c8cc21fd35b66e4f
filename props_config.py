COMMON_ASSUMPTIONS = [
  "arithmetic is exact (rationals/reals): rounding of the machine's floating point is outside the claim; literals stand for the simplest rational that rounds to them",
  "Eigen's LU inverse is replaced by an exact Gauss-Jordan inverse; with symbolic sampling periods the inverse is left unmodelled and any obligation that would depend on it is reported as inconclusive",
  "agreement with the oracle is up to 1e-6 (absolute) unless the case states otherwise, inside the stated input boxes",
]
PROPS = {
 "C01": dict(harness=["h_dyn"], bounds={"quick": "horizons 1..16, 18, 20, 24, 30; S,T in [0.001,2]; states, jerks in [-5,5]", "thorough": "also horizons 40, 50, 64; S,T in [0.001,2]; states, jerks in [-5,5]"}),
 "C02": dict(harness=["h_dyn"], bounds={"quick": "CoP: horizons 1..6,8,10,12,16,20, all masses/heights/gravities in stated boxes; inverses: concrete periods (5 pairs) horizons 1..6,8, symbolic periods horizons 1..3", "thorough": "CoP: horizons up to 40; inverses: horizons up to 12"}),
}
PROPS.update({
 "C03": dict(harness=["h_models"], bounds={"quick": "histories of <= 3 setters (2 with concrete periods) from every constructor; horizons 1..3 (and 7 for histories of <= 2); feedback period = sampling period / {1,2,3} (and 6 for histories of <= 2) or nine tenths of that; parameters symbolic in stated boxes", "thorough": "the same"}),
})
PROPS.update({
 "C04": dict(harness=["h_foot"], bounds={"quick": "all states/targets in [-5,5]^3, durations in [0.01,5], times in [0,T]; sequences of 1 move (any duration) or 2 moves (durations 0.3 and 1) on any axes, both constructors; two moves of any duration alike in all but one respect", "thorough": "sequences of up to 3 moves"}),
})
PROPS.update({
 "C07": dict(harness=["h_qp"], bounds={"quick": "programs with 1..2 variables and 0..2 constraints, entries in [-10,10], thresholds 0 and [1e-5,0.5]; dimension check: 1..3 variables, 0..2 constraints, up to two mis-sized parts", "thorough": "also 3 variables"}),
 "C23": dict(harness=["h_qp"], bounds={"quick": "programs with 1..3 variables and 0..2 constraints; sequences of <= 2 solves (<= 3 for the 1-constraint programs), six solver return codes, warm/cold and with/without stream at each step", "thorough": "sequences of <= 4 solves"}, assumptions=["qpOASES itself is not installed: it is a recording stand-in that answers every call with an arbitrary return code and primal solution"]),
})
PROPS.update({
 "C08": dict(harness=["h_traj"], bounds={"quick": "horizons 1..6, 8, 10, 12, 16; sampling period in [0.01,2] symbolic; objects built directly, or for another horizon or period and then recomputed", "thorough": "the same"}),
 "C13": dict(harness=["h_traj", "h_zeb"], bounds={"quick": "", "thorough": ""}),
})
PROPS["C13"]["bounds"] = {"quick": "trajectory: horizons 1..6, 8, 10, 12, 16; base and tilt: also 20; period in [0.01,2] symbolic, all states, limits, headings and decision vectors in stated boxes; objects built directly or reconfigured", "thorough": "the same"}
ZEB = "objects built for the final setting, or for another horizon, or with another period/parameters and then recomputed; all states, references and decision vectors in [-5,5]; "
GAP = "inputs are exactly degenerate or away from the code's tolerances: coordinate differences and cross products of the given points are 0 or at least 1/100 in absolute value (coordinates in [-2,2])"
PROPS.update({
 "C05": dict(harness=["h_poly"], assumptions=[GAP, "atan2 is compared exactly through half-planes and cross products"], bounds={"quick": "1..2 free points (also duplicated); 19 fixed point sets (1..8 points, duplicates, aligned) in every rotation; 16 of them (1..5 points) plus one free point at three positions; 17 of them plus one point sliding along any line through two of them", "thorough": "one free or sliding point with every fixed set (8 points for the two-feet set)"}),
 "C06": dict(harness=["h_poly"], assumptions=[GAP], bounds={"quick": "9 polygons (3..8 vertices) translated and mirrored, each with any vertex sliding along an axis, triangles and square with any vertex free, rectangles with three free sides; all query points in [-5,5]^2", "thorough": "also diamond and trapezoid with any vertex free"}),
 "C09": dict(harness=["h_zeb"], bounds={"quick": ZEB + "horizons 1..6, 8, 10, 12, 16, 20; period in [0.01,2] symbolic", "thorough": "the same"}),
 "C10": dict(harness=["h_zeb"], bounds={"quick": ZEB + "horizons 1..6, 8, 10, 12; period, masses, heights and gravity vector symbolic; all orders of setting the reference and updating the shift", "thorough": "also horizons 16 and 20"}),
 "C11": dict(harness=["h_zeb"], assumptions=["the linearised tipping equation, its sign convention (roll with the x axis, pitch with the y axis) and the fixed 9.81 gravity are the code's own definition"], bounds={"quick": ZEB + "horizons 1..6, 8, 10, four parameter sets (period, masses, heights), contact point and tilt state symbolic", "thorough": "also horizons 12, 16, 20"}),
 "C14": dict(harness=["h_zeb"], bounds={"quick": ZEB + "horizons 1..6 and 8, 8 polygons (3..6 vertices), symbolic scale, period, masses, heights, gravity", "thorough": "horizons up to 16 (CoP) and 20 (CoM)"}),
})

GAIT = ["periods are whole multiples: the sampling period is m feedback periods, the step and double-support lengths are whole numbers of sampling periods, the steps last at least two and the horizon at least one step period", "time is exact: the accumulation of rounding errors in the timers is outside the encoding"]
GB = "9 timings (horizons 2..8 samples, steps of 2..4 samples, double support 1..3 samples, 1..3 feedback periods per sample), sampling period symbolic or 0.1, both construction orders; 12 to 15 control cycles; every start/stop sequence (one sample per cycle) or with at most 3-4 changes; all planned footsteps and initial foot positions; one change of the step period, double-support length or control rate at any cycle of a walk (concrete times)"
GT = GB + "; also 16 timings up to horizons of 16 samples and 50 cycles"
PROPS.update({
 "C17": dict(harness=["h_gait"], assumptions=GAIT, bounds={"quick": GB, "thorough": GT}),
 "C18": dict(harness=["h_gait"], assumptions=GAIT, bounds={"quick": GB, "thorough": GT}),
 "C19": dict(harness=["h_gait"], assumptions=GAIT, bounds={"quick": GB + "; all step heights", "thorough": GT + "; all step heights"}),
})
HB = "10 timings (horizons 2..5, 8, 10, 16 samples, 1..3 feedback periods per sample, up to 10 control cycles), every start/stop sequence with at most 1-3 changes, looked at in every cycle; "
HT = HB + "thorough: also horizon 6, 20 cycles, or 12 changes; "
PROPS.update({
 "C12": dict(harness=["h_hum"], assumptions=GAIT, bounds={"quick": HB + "three sets of sampling period, height and gravity (also horizontal); all CoM states, foot positions, planned steps, references and decision vectors", "thorough": HT}),
 "C15": dict(harness=["h_hum"], assumptions=GAIT, bounds={"quick": HB + "three pairs of sole polygons (3..6 vertices), three stances, concrete planned steps; all decision vectors; soles or feet changed after the same object was asked", "thorough": HT}),
 "C16": dict(harness=["h_hum"], assumptions=GAIT, bounds={"quick": HB + "one pair of reachable polygons (5 vertices each); all foot positions, plans and decision vectors; polygons replaced after the same object was asked", "thorough": HT}),
})
WALK = ["the solver library (qpOASES) is not installed: it is a recording stand-in behind the repository's real adapter, answering with an arbitrary primal solution and, where stated, failures"]
PROPS.update({
 "C20": dict(harness=["h_trajwalk"], assumptions=WALK, bounds={"quick": "horizons 1..3: every sequence of up to 2 setting changes before and one between up to 2 solves, one change between two pairs of solves, six solves in a row, one change before each of three solves (N=2, unless the first is of the weights); horizons 5, 8, 12, 20 (and changes to 7): one change before or between two solves; all values symbolic; the solver may fail", "thorough": "also longer sequences and horizons"}),
 "C21": dict(harness=["h_zebwalk"], assumptions=WALK + ["polygons are symmetric about the origin (what happens to others is C14's finding); a reference in the world frame is converted when it is given"], bounds={"quick": "from the constructor, a default or a generic configuration; horizons 1..4: every setting change before or between up to 3 solves; horizons 6 and 8: the same for most settings; horizons 1..2: every change between two pairs of solves, every pair of changes before one solve or one each before two solves (N=1; N=2 from the generic configuration), five solves in a row, every pair of changes between one and two solves (N=2; these last with a fixed feedback period); states, references, limits, contact point, feedback period and solver answers symbolic; periods, masses, heights, gravity, polygons, weightings and headings from finite lists; the solver may fail", "thorough": "also triples of changes, pairs between solves to horizon 4, masses, heights and period changed at horizon 6"}),
 "C22": dict(harness=["h_humwalk"], assumptions=GAIT + WALK, bounds={"quick": "seven gaits (horizons 2..4, 6, 8, 10, 1..2 feedback periods per sample, steps of 2..3 samples): every history of up to 2 start/stop commands (horizons from 6 up: 1) over 5..8 cycles; three of them: setters in nine cyclic orders with any one of them called twice; any one of twelve settings (step period, double-support length and control rate among them) changed at any cycle of a five-cycle walk, with or without a stop; all CoM states, references and solver answers (with CoP or footstep constraints: footsteps, feet and, with polygons that have edges along an axis, also the CoM and the answers are numbers); increments of the decision vector always symbolic; the solver may fail", "thorough": "also 12 cycles, 4 commands"}),
 "C24": dict(harness=["h_trajwalk", "h_zebwalk", "h_humwalk", "h_models"], assumptions=WALK + ["valid means: meaningful together with the settings already made (total mass at least the partial one; humanoid: reachable regions configured, step period at least two sampling periods and at most the horizon, sampling period not changed after the first control step, control rate changed between two samples only, a step not shortened to less than what has passed of it, reference given again after the number of samples changed)"], bounds={"quick": "trajectory generator: every sequence of up to 3 setting changes or solves with valid arguments, wheeled robot: up to 2 (up to 4 of masses, heights, gravity and period with all values symbolic), humanoid: up to 2 (3 from the constructor) before three control steps, models: up to 4", "thorough": "one or two changes more each"}),
})
