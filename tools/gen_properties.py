"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=mechanism, where=", ".join(files))], observe_at=[observe]))
    d["anchors"].update({k: ([dict(name=v, meaning="state the property quantifies over", where=files[0])] if k == "state" else v) for k, v in kw.items()})
    P.append(d)

A = "aerokit/aero/"
p("C01", "Isentropic total/static ratios, their inverses and velocity are consistent",
  "For every Mach number M>=0 and every ratio of specific heats g>1, the total-to-static temperature ratio is 1+(g-1)/2 M^2 and the pressure ratio is that value to the power g/(g-1). The Mach number recovered from either ratio is the one the ratio was computed from, both ratios are 1 at rest and strictly increase with M; a reversed flow (negative Mach number) has the same ratios and the opposite velocity. The velocity given by Mach number and total temperature carries exactly the kinetic energy separating total from static temperature, for any gas constant and total temperature.",
  ["inputs"], "all |M| in [0, 1000], g in [1.01, 3], r, Tt > 0, passed as Python or numpy scalars or arrays of any shape, g positional, by keyword or omitted (1.4)",
  "No test file covers the module directly; it is only reached through other modules at a few Mach numbers with g=1.4. The laws quantify over M, g and calling form.",
  [A+"Isentropic.py"], "closed-form ratio functions and their inverses", "return values of the total/static ratio functions, their inverses and the velocity function, current and legacy names")
p("C02", "Area ratio and mass-flow weight describe one conserved mass flow",
  "For every M>0 and g>1 the critical area ratio is A/A* = weight(1)/weight(M), where weight(M) is the dimensionless mass flow rho*u*sqrt(r Tt)/Pt of an isentropic flow. The area ratio is never below 1, equals 1 at M=1 only, decreases for M<1 and increases for M>1.",
  ["inputs"], "all M in (0, 1000], g in [1.01, 3], scalar or array, any gas constant argument",
  "Tests check a few sampled Mach numbers at g=1.4; conservation and monotonicity are statements about all M and g.",
  [A+"MassFlow.py"], "Sigma and WeightMassFlow closed forms", "return values of the area-ratio and mass-flow weight functions")
p("C03", "Area-ratio inversion returns a root on the requested branch",
  "For every area ratio s>=1 and g>1, the subsonic inversion returns a Mach number in (0,1] and the supersonic one a Mach number in [1,inf), and either one has area ratio s. The generic inversion returns the root on the side indicated by its Mach hint, element by element when the hint is an array.",
  ["inputs"], "s in [1, 1e8] including s=1 exactly and 1+tiny, g in [1.01, 3], scalar and array s and hint (any positive hint), g explicit or omitted",
  "Tests invert a handful of moderate area ratios at g=1.4; an iterative solver can fail, diverge or switch branch anywhere else in the (s, g) plane.",
  [A+"MassFlow.py"], "Newton/secant inversion from a branch-dependent initial guess", "returned Mach number(s), substituted in the area-ratio function and compared to the branch")
p("C04", "Prandtl-Meyer function, its inverses and isentropic turning are consistent",
  "For every supersonic M and g>1 the Prandtl-Meyer angle is 0 at M=1, increases with M, satisfies d(angle)/dM = sqrt(M^2-1)/(M(1+(g-1)/2 M^2)) and stays below its vacuum limit. The Mach number recovered from the angle, or from angle minus Mach angle, is the one it came from. Turning a supersonic stream isentropically and asking which turning gives the resulting pressure ratio returns the same turning (counted positive for a compression in the former, for an expansion in the latter), the pressure ratio being that of an isentropic flow between the two Mach numbers.",
  ["inputs"], "M in [1, 200], angles in [0, 0.99*limit], g in [1.01, 3], expansions and compressions keeping M>=1, scalar and array arguments",
  "Tests sample a few Mach numbers at g=1.4; the inverse is iterative and its convergence depends on the angle and g.",
  [A+"Supersonic.py", A+"IterativeSolve.py"], "closed-form angle; Newton inversion; isentropic relations between two Mach numbers", "return values of the Prandtl-Meyer functions, inverses and isentropic deflection/pressure functions")
p("C05", "Normal-shock ratios conserve mass, momentum and energy, and lose total pressure",
  "For every normal Mach number Mn>=1 and g>1, density, pressure and temperature ratios and the downstream Mach number satisfy the three Rankine-Hugoniot balances and the perfect-gas law. The downstream Mach number is subsonic and the relation is an involution; the total pressure ratio follows from the pressure ratio and both Mach numbers, is 1 at Mn=1 and strictly decreases. Inverting the pressure ratio (also that of the same jump seen from downstream) or the total pressure ratio returns the Mach number it came from.",
  ["inputs"], "Mn in [1, 1000] (total-pressure inverse: [1+1e-10, 50]), g in [1.01, 3], scalar and array arguments, g explicit or omitted",
  "Tests check tabulated values at g=1.4 and a few Mach numbers; the balances and inverses are claimed for every Mach number and g.",
  [A+"ShockWave.py"], "closed-form Rankine-Hugoniot ratios and iterative inversion of the total pressure loss", "return values of the normal-shock functions and inverses")
p("C06", "Plane oblique-shock relations satisfy the oblique Rankine-Hugoniot jump",
  "For every upstream Mach number and shock angle between the Mach angle and 90 degrees, the flow deflection is the angle between upstream and downstream velocity vectors of a shock conserving mass, normal and tangential momentum and energy; it is zero at both ends of the range and positive between. Giving the static pressure ratio instead of the shock angle yields the same deflection, and the downstream Mach number is that of the same jump.",
  ["inputs"], "M in [1.0001, 200], shock angle in [Mach angle, 90], g in [1.01, 3], scalar and array arguments",
  "Tests sample a few points at g=1.4; the relation is two-dimensional in (M, angle) and three with g.",
  [A+"ShockWave.py", A+"degree.py"], "theta-beta-M relation and pressure-ratio parametrisation", "deflection and downstream Mach number returned")
p("C07", "Weak, strong and iterative shock angles are right roots of the deflection law",
  "For every M and attached deflection the weak and strong solutions are shock angles whose deflection is the requested one, with Mach angle <= weak <= angle of maximum deflection <= strong <= 90 degrees. The iterative solver with its default start returns the weak solution, and its result changes sign with the deflection. For a deflection above the maximum the direct solvers say no attached shock exists and return the Mach angle (weak) or 90 degrees (strong).",
  ["inputs"], "M in [1.001, 50], deflection from 0 to beyond the maximum, g in [1.01, 3]",
  "Tests sample a few attached cases at g=1.4; root selection can fail anywhere, notably near 0, near the maximum and for other g.",
  [A+"ShockWave.py", A+"IterativeSolve.py"], "cubic closed-form roots and secant iteration", "returned shock angles, substituted in the deflection law")
p("C08", "Maximum-deflection and sonic shock angles are the true maximum and sonic points",
  "For every M>1 and g>1 no shock angle gives a deflection larger than the reported maximum deflection, which is attained at the reported angle. At the reported sonic angle the downstream Mach number is exactly 1, and the sonic angle does not exceed the angle of maximum deflection.",
  ["inputs"], "M in [1.0001, 200], g in [1.01, 3], competing shock angles over the whole admissible range, scalar and array M",
  "Tests compare a few values at g=1.4; maximality is a statement over all shock angles.",
  [A+"ShockWave.py"], "closed-form extremum and sonic-point angles", "maximum/sonic angle and deflection returned")
p("C09", "Conical shock and its inverses agree with the Taylor-Maccoll flow",
  "For every attached conical shock, the cone angle returned for an upstream Mach number and shock angle is the one where the Taylor-Maccoll flow behind the shock becomes tangent to the wall, within the requested tolerance. The cone angle lies between the plane-shock deflection and the shock angle. The inverses for the shock angle and for the upstream Mach number return values which reproduce the cone angle.",
  ["inputs"], "M in [1.02, 50], shock angles between the Mach angle and 90, g in [1.02, 3], tolerances down to 1e-8; inverses for attached weak cases",
  "Tests check a few values at g=1.4; the solution needs an adaptive integration whose stopping rule can fail anywhere in the range.",
  [A+"ShockWave.py", "aerokit/common/_ode.py"], "adaptive Runge-Kutta integration from shock to wall and secant inversions", "returned cone angle, compared with an independent integration")
p("C10", "Fanno ratios describe adiabatic constant-area flow to the sonic state",
  "For every M>0 and g>1 the ratios to the critical state satisfy the perfect-gas law, constant mass flux and constant total temperature, and all are 1 at M=1. The total pressure ratio and the entropy function are those of the same state, entropy being maximal at M=1. The friction parameter is zero at M=1, positive elsewhere, and its derivative along the Mach number is that of the momentum balance with wall friction.",
  ["inputs"], "M in [1e-4, 1000], g in [1.01, 3], scalar and array, g positional, keyword or omitted",
  "Tests check a few values, mostly at g=1.4 and M=1; conservation holds for all M and g.",
  [A+"Fanno.py"], "closed-form ratios", "return values of the Fanno functions")
p("C11", "Rayleigh ratios describe heated flow to the sonic state, with inverses",
  "For every M>0 and g>1 the ratios to the critical state satisfy the perfect-gas law, constant mass flux and constant impulse, with total temperature, total pressure and entropy those of the same state, and all are 1 (entropy 0) at M=1. Total temperature is maximal at M=1 and the maximum heating ratio is the inverse of its critical ratio. Subsonic and supersonic inversions of the total temperature ratio return the root on the named side.",
  ["inputs"], "M in [1e-4, 1000], g in [1.01, 3], total temperature ratios in the attainable range of the side, scalar and array",
  "Tests check a few values, mostly g=1.4; conservation holds for all M and g.",
  [A+"Rayleigh.py"], "closed-form ratios and quadratic inverses", "return values of the Rayleigh functions")
p("C12", "A 1D flow state keeps its gas and gives consistent derived quantities",
  "For every state (density, velocity, pressure, g) the sound speed, Mach number, acoustic speeds, mass flow, total pressure and total temperature are those of that perfect gas, and copies, indexed elements and transformed states keep the same g. The Rankine-Hugoniot transform conserves mass, momentum and energy fluxes and undoes itself; the isentropic transform reaches the requested Mach number with the same total pressure and total temperature. Building a state from total pressure, total temperature and one of Mach number, velocity or pressure yields a state with these three values. Scalars and arrays of any shape, integers included, may be mixed, and the size is the number of densities held. A value changed by the user is the one all derived quantities follow; copies of unsteady states do not follow it.",
  ["inputs", "histories"], "density and pressure over many orders of magnitude, any |M| <= 20, g in [1.05, 1.67], scalar and array states, any chain of transforms/copies/index operations/changed values",
  "Tests build a few states at g=1.4, which hides any loss of g; chains of operations are not explored.",
  [A+"model1D.py"], "state class, transforms and constructors", "density, velocity, pressure and derived quantities of states")
p("C13", "Unsteady wave curves satisfy the moving-wave jump and invariant relations",
  "For every state and target pressure, the velocity and density changes through a shock satisfy the Rankine-Hugoniot relations in the frame of that shock, and through an expansion conserve entropy and the Riemann invariant. The jump computed for a given shock velocity satisfies the same relations, mirrored states give mirrored results, and shock and expansion branches join with the same value and slope at the state's own pressure.",
  ["inputs"], "density, pressure over many orders of magnitude, any velocity up to Mach 100, pressure ratio in [1e-8, 1e8], g in [1.02, 3]",
  "Tests check a few air states; the relations hold for every pressure ratio and g.",
  [A+"unsteady1D.py"], "wave-curve closed forms", "velocity/density changes and states returned")
p("C14", "Riemann problem: star state connects to both sides by admissible waves",
  "For every pair of perfect-gas states that do not create a vacuum, the solver returns one positive star pressure and one star velocity reached from both sides through a shock (if star pressure is above the side pressure) or an expansion (if below). Star densities follow the same wave, shock speeds satisfy the jump relations, expansion heads and tails move at the local acoustic speeds, and wave speeds are ordered left to right.",
  ["inputs"], "density and pressure ratios up to 1e5 in both directions, velocities up to several sound speeds short of vacuum, different g in [1.03, 3] on each side, nearly equal and identical states, integer states",
  "Tests solve a few classic shock tubes; iteration convergence and wave selection depend on the state pair.",
  ["aerokit/instance/riemann.py", A+"unsteady1D.py"], "nonlinear solve for star pressure, wave finalisation", "star pressure, velocity, star states, fastest waves, checked against jump relations")
p("C15", "Riemann problem: the sampled solution is the self-similar weak solution",
  "Sampling the solution at any x/t gives the left or right state outside the waves, the star states between them, and inside an expansion the state carried by the characteristic x/t with the entropy and invariant of its side; each sample carries the g of its own side of the contact, and sampling again, or solving another problem meanwhile, leaves results as they are. Integrated over any fan that contains all waves, mass, momentum and energy change exactly by the flux difference between the two ends.",
  ["inputs"], "state pairs as in C14 and any sample positions, sorted or not, including exact wave speeds",
  "Tests sample a few tubes on a fixed grid at one g; conservation is an integral over all x/t.",
  ["aerokit/instance/riemann.py"], "piecewise sampling of the similarity solution", "density, velocity, pressure (and sound speed) of the sampled state")
p("C16", "Riemann problem respects mirror, Galilean and scaling symmetries",
  "Mirroring the two states mirrors the solution (a mirrored state has the exact opposite velocity), adding a velocity to both states adds it to every velocity and wave speed, and scaling density, pressure or the unit of velocity scales the solution accordingly. Two equal states give that state back at every x/t, a pure contact is only advected, and the two halves of a known wave give back a solution with only that wave.",
  ["inputs", "configurations"], "state pairs as in C14, any shift, any positive scale factors",
  "Relations between different runs are never compared by the tests.",
  ["aerokit/instance/riemann.py", A+"unsteady1D.py"], "as C14", "star state and wave speeds of transformed problems")
p("C17", "Inflow problem: reservoir state and right wave meet at one pressure and velocity",
  "For every initial state and reservoir total pressure and temperature that can feed it, the solved boundary state has these total pressure and temperature, and its pressure and velocity are connected to the initial state by a right-running shock or expansion. The initial state is left untouched, and solving again with other reservoir values, or another problem meanwhile, gives the same result as a fresh problem.",
  ["inputs", "histories"], "initial states over wide ranges and in any units, with any velocity up to Mach 3 whose right wave leaves the boundary, reservoirs giving subsonic or sonic inflow, g in [1.05, 1.67], repeated solves",
  "No test covers the inflow problem.",
  ["aerokit/instance/unsteady_inflow.py", A+"model1D.py", A+"unsteady1D.py"], "nonlinear solve for boundary pressure", "boundary pressure, velocity and both star states")
p("C18", "Nozzle pressure-ratio limits and exit Mach number follow quasi-1D theory",
  "For every exit-to-throat area ratio, the three limiting pressure ratios correspond to the subsonic and supersonic isentropic solutions and to a normal shock standing at exit, and are ordered. The exit Mach number for any pressure ratio is the fully subsonic, internal-shock or supersonic one of its regime, conserves the throat mass flow when choked, matches the exit pressure whenever the exit is subsonic, and is continuous across the regime limits except across the shock at exit. The adapted-jet Mach number equals it when the exit is subsonic and otherwise follows from the isentropic expansion or oblique shock that matches ambient pressure.",
  ["inputs"], "area ratio in [1+1e-9, 5000], pressure ratio in (1, 100 * supersonic limit], including values near each limit",
  "Tests use one area ratio and four pressure ratios; regimes and their limits depend on both.",
  ["aerokit/instance/nozzle.py"], "regime selection and closed-form exit conditions", "limiting pressure ratios and Mach numbers returned")
p("C19", "Nozzle field conserves mass and matches inlet and exit in every regime",
  "For every nozzle section law, g and pressure ratio, the field has no undefined value, total pressure is the reservoir one upstream and only drops across at most one normal shock located in the diverging part, by the loss of a normal shock at that Mach number. Mach number, static and total pressure satisfy the isentropic relation and the same mass flow passes through every section; flow is subsonic before the throat, and the exit static pressure matches the given pressure ratio whenever the exit is subsonic. Changing the pressure ratio of an existing nozzle gives the same field as building a new one, and leaves fields read before as they were.",
  ["inputs", "histories"], "smooth and sampled convergent-divergent laws of 5..200 stations, exit area ratio in [1, 60], g in [1.03, 3], every regime, sequences of pressure-ratio changes",
  "Tests build one nozzle at g=1.4 and look for undefined values in one regime.",
  ["aerokit/instance/nozzle.py", A+"MassFlow.py"], "piecewise field construction with shock placement", "Mach, static and total pressure arrays")
p("C20", "Default gas register: get/set/save/restore histories and omitted arguments",
  "After any history of calls, the default ratio of specific heats and gas constant read back the last value set or restored, and restoring returns both to the values at the last save. Functions given an explicit ratio of specific heats or gas constant are not affected by the register. Functions for which it is omitted behave as if given the default one.",
  ["histories", "inputs"], "random sequences of set/get/save/restore and library calls, including building nozzles which save and restore the register themselves",
  "Tests run one short sequence; history dependence needs sequences.",
  ["aerokit/common/defaultgas.py", "aerokit/instance/nozzle.py"], "module-level register", "register getters and values of functions with omitted/explicit gas", state="process-wide default gas register")
p("C21", "Flow functions are elementwise, pure and identical through legacy names",
  "Calling any algebraic flow function with arrays of any broadcastable shape gives in each element what the scalar call gives, whatever the numeric type used for the scalar. No call, accepted or refused, modifies its arguments, the default gas or numpy's error handling, or changes the result of any other call, made later or meanwhile (from another thread). Legacy modules and legacy function names give the same results as the current ones.",
  ["inputs", "histories"], "every public closed-form function, scalar types, array shapes (0-d, 1-d, 2-d, broadcast against array g), any order of calls",
  "Tests call most functions with Python floats only.",
  [A+"Isentropic.py", A+"MassFlow.py", A+"Supersonic.py", A+"ShockWave.py", A+"Fanno.py", A+"Rayleigh.py", A+"CompressibleFlow.py", A+"nozzle.py", A+"riemann.py"], "numpy ufunc expressions and re-exports", "return values and arguments after the call")
p("C22", "Trigonometry in degrees agrees with trigonometry in radians",
  "For every angle, the degree versions of sine, cosine and tangent equal the radian ones of the converted angle, and the inverse functions return degrees in the principal range that reproduce the argument, with the quadrant of the two-argument arctangent respected. They accept scalars and arrays.",
  ["inputs"], "angles in +-1e4 degrees, arguments over the whole domain of the inverse functions, both signs for both arguments of arctangent",
  "Tests check a few notable angles.",
  [A+"degree.py"], "conversion wrappers", "return values")
p("C23", "Chebyshev differentiation is exact on polynomials, whatever was asked before",
  "For every number of points, interval and derivative order, the differentiation matrix maps nodal values of any polynomial of degree below the number of points to the nodal values of its derivative, up to round-off growth. Nodes are the Chebyshev extrema mapped to the interval, end points included. The matrix of a given order does not depend on which orders were requested before or between, nor on other operators alive or computed meanwhile in the process.",
  ["inputs", "histories"], "2..64 points, intervals of any position, length and direction, orders 1..6, random request sequences over several operators",
  "Tests check a few sizes and one request order.",
  ["aerokit/common/numspectral.py"], "recursive differentiation-matrix construction with a cache", "returned matrices and nodes", state="matrix cache of each operator")
p("C24", "Chebyshev interpolation and fitting reproduce polynomials on their own interval",
  "Interpolating nodal values at any position gives back the nodal values at nodes and the exact polynomial when the data come from one of degree below the number of points. Fitting scattered samples of such a polynomial returns its nodal values, and fitting general data is the least-squares best polynomial. Both hold on any interval, for the data given now, whatever was asked before or is asked to another operator meanwhile; interpolated values have the shape of the positions asked.",
  ["inputs", "histories"], "2..24 points, any interval, any polynomial, samples not fewer than the points, any order of samples, sequences of requests with data changed in place",
  "Tests check a single function and size.",
  ["aerokit/common/numspectral.py"], "Vandermonde solve and least squares in mapped coordinate", "interpolated and fitted values")
p("C25", "ODE integrators and secant solver reach the requested end and accuracy",
  "The fixed-step integrator ends exactly at the requested abscissa after positive steps no longer than the given one, with fourth-order accuracy. The adaptive integrator ends at the requested abscissa in either direction, with an error controlled by its tolerance, whatever the initial step. Integer abscissas and initial values count as equal real ones. Solvers may be called by the functions given to them, or while another one runs. The secant solver returns, element by element, a point where a smooth monotone function takes the requested value.",
  ["inputs"], "linear and nonlinear scalar and vector problems with known solutions, random steps, spans, tolerances; integrations up to 6000 steps; smooth monotone functions with a start in the neighbourhood of the root",
  "No test calls the integrators' end-of-range logic; the secant solver is only reached via other functions.",
  ["aerokit/common/_ode.py", A+"IterativeSolve.py"], "Runge-Kutta steps with end-of-range clipping; secant iteration", "returned abscissae and values")
p("C26", "Stability eigenpairs, selection and refinement are genuine",
  "Every eigenpair returned for a linear stability operator satisfies the generalised problem of the operator's own matrices with time dependence exp(-i omega t). Selection keeps exactly the eigenvalues inside the requested window together with their own eigenvectors, and orders them by increasing real part or decreasing imaginary part. Refining an approximate eigenpair returns an eigenpair of the same operator with a smaller residual.",
  ["inputs", "histories"], "compressible 1D and incompressible shear-flow operators of random size and base state, random windows and sort keys, random perturbation of an eigenpair",
  "Tests check a few eigenvalues of two configurations.",
  ["aerokit/stability/_base.py"], "generalised eigenvalue solve, filtering, Rayleigh-quotient iteration", "returned eigenvalues, eigenvectors and order")
p("C27", "1D Euler stability operator is the linearised Euler problem with its boundaries",
  "For every base flow, the operator's interior rows are the derivative of the nonlinear 1D Euler equations in primitive variables, and boundary rows impose symmetry, periodicity or the linearised jump of a moving shock. Uniform flows have the acoustic and entropy frequencies of the box: k(u+-a), k u when periodic, and harmonics of a/2L between walls at rest. Results depend only on the current base flow and boundary conditions, not on earlier or simultaneous computations or on the operator's history, and caller's data are left untouched; integer base flows count as equal real ones. Unknown boundary conditions are refused and leave the current ones in force; missing ones, or ones which cannot be applied, are refused at every use.",
  ["inputs", "histories", "configurations"], "random smooth positive base flows up to |M|=20, sizes 9..80, any interval, g in [1.01, 3], every boundary type, sequences of set/solve calls",
  "Tests check two configurations with a single computation each.",
  ["aerokit/stability/Euler.py", "aerokit/stability/_base.py"], "assembly of collocation matrices and boundary rows, cached operators", "right-hand side and time matrices, eigenvalues", state="cached matrices of each operator")
p("C28", "Orr-Sommerfeld operator is the linearised shear flow with no-slip walls",
  "For every profile, wave number and Reynolds number, interior rows of the operator applied to a smooth function equal the Orr-Sommerfeld equation, and boundary rows impose zero value and slope at both walls. Shifting the profile by a constant velocity shifts all frequencies by wave number times that velocity, and mirroring the profile leaves them unchanged; plane Poiseuille flow has its published critical eigenvalue. A base state lacking required data is refused, and other operators have no effect.",
  ["inputs", "histories"], "polynomial profiles, wave numbers in [1e-3, 50], Reynolds in [0.1, 1e9], sizes 12..110, any interval (spectra: moderate ones)",
  "Tests check one published eigenvalue.",
  ["aerokit/stability/OrrSommerfeld.py", "aerokit/stability/_base.py"], "assembly of collocation matrices", "right-hand side and time matrices, eigenvalues, raised errors")
p("C29", "Real-gas thermodynamic functions are mutually consistent",
  "For burnt air and for kerosene vapour at any temperature, heat capacity is the temperature derivative of enthalpy, and the entropy function (decimal log form) has derivative heat capacity over r T ln 10; for air the ratio of specific heats is Cp/(Cp-r). The effective heating value of kerosene varies with temperature as the opposite of its enthalpy.",
  ["inputs"], "T in [30, 3500] K",
  "No test covers these modules; the relations are derivatives, over all T.",
  [A+"ThermoRealGas.py", A+"ThermoKerosen.py"], "fitted polynomial/vibrational expressions", "return values and their derivatives")
p("C30", "Gas generator, turbojet and turbofan cycles balance energy, pressure and thrust",
  "For every cycle definition and flight condition, total temperatures and pressures through inlet, compressor, combustor and turbine follow the given losses and polytropic efficiencies, fuel satisfies the combustor energy balance with the given combustion efficiency, and turbine work pays for compressor (and fan) work through the given mechanical efficiency. Jet velocities expand to ambient pressure; thrust, fuel consumption and thermal/propulsive/overall efficiencies are ratios of these same quantities, overall being the product of the two others. Re-evaluating after changing flight conditions, or while another cycle is evaluated, equals a fresh cycle.",
  ["inputs", "histories"], "overall pressure ratio 1.1..200, turbine temperature 600..3000 K, Mach 0..5 where the cycle is feasible, efficiencies and losses in (0.3, 1], different cold/hot gas, bypass 0.02..100, scalar and array parameters",
  "No test covers the engine package.",
  ["aerokit/engine/gasgenerator.py", "aerokit/engine/turbojet.py", "aerokit/engine/turbofan.py"], "station-by-station cycle evaluation", "station temperatures, pressures, velocities and performance values")
p("C31", "Staged turbofan cycle is order-safe and agrees with the direct calculation",
  "Whatever order, repetition or grouping of stage calls a user makes, a stage only takes effect once its inputs are available, and once all stages have run the results are those of the direct end-to-end calculation. Repeating a completed calculation, or running other cycles meanwhile, changes nothing. Both fan models satisfy the shaft power balances, efficiencies and jet expansions of the written cycle, and the two independent direct calculations agree with them. Arrays of parameters give, element by element, the results of scalar ones. The optimum fan calculation gives the fan temperature ratio which equalises both jet velocities of the loss-free cycle.",
  ["histories", "inputs"], "random stage-call sequences and random cycle parameters in the feasible range (pressure ratio 1.2..150, bypass 0.02..60, Mach 0.01..4, losses and efficiencies in (0.3, 1])",
  "No test covers the staged cycles; order-safety quantifies over call sequences.",
  ["aerokit/engine/Cycle_Turbofan.py", "aerokit/engine/propu_be.py", "aerokit/engine/propu_be_double_corps.py"], "stage counters guarding each step", "cycle attributes and returned/printed performances", state="stage counters of each cycle object")
p("C32", "Variable-name dictionary behaves as a map for the selected software",
  "After any history of selecting, adding and changing names, each lookup form (index, call, get) returns the name last defined for the selected software, adding an existing or changing an unknown name is refused without effect, and unknown names are refused. Selecting a software by any of its aliases restores exactly its own table, unaffected by earlier changes or by other tables in use; an unknown software is refused and leaves the current selection in use.",
  ["histories"], "random sequences of selections (known and unknown), additions, changes, lookups",
  "No test covers this module; isolation between selections needs histories.",
  ["aerokit/common/dicovar.py"], "deep-copied per-software tables", "lookup results, key lists, raised errors", state="process-wide selected table")
p("C33", "Plotted polars show the computed relation",
  "For every Mach number and option set, each curve drawn by the shock and isentropic polar plots consists of points satisfying the shock or isentropic relation for the requested gas, shifted and scaled as requested, from the Mach wave to the normal shock, on the requested side(s). Maximum-deflection and sonic markers sit on these curves at the right points.",
  ["inputs", "configurations"], "M in [1.001, 150], g in [1.02, 3], all curve/marker/shift/scale options",
  "No test covers the plotting package.",
  [A+"plot/shockpolar.py", A+"plot/isentropicpolar.py"], "sampling of the relations into plotted lines", "data of the lines added to the axes")
p("C34", "Thrust function, its inverse and derived-variable expressions are right",
  "For every Mach number and g>1 the thrust function is the impulse p A (1+g M^2) divided by total pressure and critical area, minimal at M=1, and its inverse returns a Mach number on the side of the given start. The derived-variable expressions generated for post-processing evaluate, for any flow sample, to the total pressure, temperature, entropy function, speed, sound speed, Mach number(s) and angle they are named after, written with the variable names now in use.",
  ["inputs"], "M in [1e-5, 1000], g in [1.01, 3], any start on the side of the root; positive density and pressure, any velocity vector",
  "No test covers these modules.",
  [A+"Propulsion.py", "aerokit/common/extendvar.py"], "closed form with secant inverse; expression strings", "return values; numerical value of the expression strings")
p("C35", "Printed summaries and drawn parameter sweeps show the values held",
  "For every flow state, Riemann problem, solved inflow problem, engine cycle at any stage, variable-name table and eigenvalue selection, the printed form shows the values the object holds now, each under its own name, whatever transforms, stages or changes came before; printing changes nothing. The parametric study of the two-spool turbofan draws, for each swept parameter and over the requested range, the performances of the direct calculation at the base values, each under its own label.",
  ["inputs", "histories"], "scalar and array states, chains of transforms, cycles stopped at any stage, table histories, random spectra, random sweep ranges and constants",
  "No test reads what is printed or drawn; it must follow the object through every history.",
  [A+"model1D.py", "aerokit/instance/riemann.py", "aerokit/instance/unsteady_inflow.py", "aerokit/engine/Cycle_Turbofan.py", "aerokit/engine/propu_be_double_corps.py", "aerokit/common/dicovar.py", "aerokit/stability/_base.py"], "__repr__, show_attributes, printDatabase, sweep figures", "printed text and drawn curves", state="states, cycles and tables displayed")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        if len(d["title"]) > 80: print("LONG", d["id"], len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
