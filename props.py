"""What each check covers. gen_meta.py turns this into properties.jsonl and MANIFEST.json; run.py reads it to run the checks."""
COMMON_ASSUMPTIONS=[
 "number arithmetic is exact: double, MPFR and MPC operations are interpreted over the real and complex numbers; rounding, overflow and signed zeros are outside the claim",
 "transcendental functions are uninterpreted up to their defining identities (exp of sums, sin^2+cos^2, sqrt squared, tan=sin/cos, ...); principal branches are not distinguished except at constants",
 "branches that hold only on a measure-zero set of the continuous inputs (exact equality of a generic expression with a constant) are skipped where the harness says explore_eq(false)",
 "instrumented build: clang++ -O0 LLVM IR of /repo's current sources, EIGEN_DONT_VECTORIZE; threads and files are not modelled",
 "the random generator of the library is replaced by a stub returning fixed generic or symbolic unit numbers, unless the harness says otherwise",
]
A="core/src/function_tree/"; H="core/include/bertini2/"
PROPS={}
def P(id,title,statement,over,text,why,files,mech,harnesses,functions,bounds,note,assumptions=()):
    PROPS[id]=dict(title=title,statement=statement,over=over,text=text,why=why,files=files,mech=mech,harnesses=harnesses,functions=functions,bounds=bounds,note=note,assumptions=list(assumptions))
P("C01","Expression evaluation computes the value of the written expression",
 "Evaluating an expression built with the public operators and functions yields its mathematical value at the current variable values, in double and in multiple precision alike. This holds for every point, for repeated evaluation, after the variables move and the expression is reset, and for subexpressions shared between several expressions. Building a new expression from an existing one never alters the existing one.",
 ["inputs","programs"],"every expression shape up to the bound, every complex value of variables and floating constants, every order of evaluate/move/reset",
 "The function-tree tests evaluate a few dozen expressions at one or two fixed points (and do not compile at this commit); they cannot cover operator nesting, sharing and both number types for all points.",
 [A+"operators/arithmetic.cpp",A+"operators/trig.cpp",A+"symbols/number.cpp",A+"symbols/variable.cpp",H+"function_tree/node.hpp",H+"function_tree/operators/arithmetic.hpp"],
 [("per-operator fresh evaluation with memoised values",A+"operators/arithmetic.cpp"),("operator overloads which build trees",H+"function_tree/operators/arithmetic.hpp")],
 [{"src":"tree_eval.cpp","expect":["value-double","value-multiple","shared-subexpression"]}],
 ["Node::Eval/EvalInPlace/Reset","*Operator::FreshEval_d/_mp","Number/Variable/SpecialNumber evaluation","operator overloads +,-,*,/,pow,sqrt,exp,log,trig on nodes and numbers","Function::FreshEval_*"],
 "expression shapes: 25 inner shapes combined by every unary operator, every binary operator, two nested binary operators (10 operands, both associations), complex powers, nested analytic functions; about 10,000 shapes, two variables, two symbolic constants; values: all of C",
 "exact symbolic execution over all complex points for every listed shape; shapes beyond the table are outside")
P("C02","Derivatives are the mathematical derivatives",
 "Differentiating an expression with respect to a variable gives an expression equal to its mathematical partial derivative wherever the expression is differentiable; it is zero for variables that do not occur. The Jacobian form of the derivative, evaluated in any direction and in any order of directions, gives the same numbers, and differentiating repeatedly gives higher derivatives. The original expression keeps its value.",
 ["inputs","programs"],"every expression shape up to the bound, every complex point, every sequence of directions",
 "Differentiation tests (which do not compile here) compare against hand-typed derivatives at one point for a few expressions; product, quotient, power and chain rules interact over all nestings.",
 [A+"operators/arithmetic.cpp",A+"operators/trig.cpp",A+"roots/jacobian.cpp",A+"symbols/differential.cpp"],
 [("symbolic differentiation rules per operator",A+"operators/arithmetic.cpp"),("directional evaluation of differentials",A+"roots/jacobian.cpp")],
 [{"src":"tree_diff.cpp","expect":["partial-double","jacobian-x-again"]},{"src":"tree_diff2.cpp","expect":["second-derivative"]}],
 ["*Operator::Differentiate","Jacobian::EvalJ/EvalJInPlace/Reset","Differential::FreshEval_*"],
 "same shape table as C01 for first derivatives; second derivatives for 10 (quick) or 25 (thorough) inner shapes under every unary and binary operator; all complex points",
 "compared against forward-mode dual numbers computed independently of the library")
P("C03","Reported degrees, polynomiality and homogeneity are true",
 "The degree reported for an expression in a variable, in a variable group or in all variables equals the true degree of the polynomial it denotes, and its multidegree lists the degrees in each variable. Expressions that are not polynomial are reported as such, and the homogeneity report is true exactly when scaling the variables scales the value by the matching power. Order of the variables in a group and variables that do not occur make no difference.",
 ["inputs","programs"],"every polynomial shape up to the bound with generic symbolic coefficients",
 "Degree tests list expected integers for a few expressions; a degree wrongly reported on another nesting silently corrupts homogenization and start point counts.",
 [A+"operators/arithmetic.cpp",A+"operators/operator.cpp",A+"roots/function.cpp"],
 [("degree computation per operator",A+"operators/arithmetic.cpp"),("homogeneity tests per operator",A+"operators/arithmetic.cpp")],
 [{"src":"tree_degree.cpp","expect":["degree-group","nonpolynomial-group","homogeneous-group"]}],
 ["Node::Degree (variable, group, total)","Node::MultiDegree","Node::IsHomogeneous","Node::IsPolynomial"],
 "32 polynomial shapes of degree <= 4 combined pairwise by +,-,*,/constant, powers and nested squares (about 5,000 shapes), 133 non-polynomial shapes; degree of the combination up to 14; coefficients symbolic",
 "the true degree is decided from the value function by vanishing of finite differences along a symbolic ray, not from syntax")
P("C04","Homogenization preserves the polynomial and makes it homogeneous",
 "Homogenizing a polynomial expression with respect to a variable group and a new variable gives an expression which is homogeneous of the original degree in the extended group and returns to the original when the new variable is one. With several groups each is homogenized independently. Homogenizing an expression that is already homogeneous leaves it alone.",
 ["inputs","programs"],"every polynomial shape up to the bound, symbolic coefficients, every point, expressions that share subtrees",
 "Homogenization tests check printed degrees or one evaluation for a handful of polynomials and do not compile here.",
 [A+"operators/arithmetic.cpp",A+"operators/operator.cpp"],
 [("degree deficit multiplied into each term of a sum",A+"operators/arithmetic.cpp")],
 [{"src":"tree_homog.cpp","expect":["dehomogenizes","two-homogeneous"]}],
 ["Node::Homogenize","Node::Degree(group)","Node::IsHomogeneous(group)"],
 "polynomial shapes as in C03, one group, one group homogenized twice, two groups; subtrees shared or not; all complex points and scalings",
 "decided as polynomial identities in the variables, the homogenizing variables and the scaling factor")
P("C05","Simplification never changes the function",
 "Simplifying an expression (removing zeros and ones, flattening nested sums and products) leaves an expression with the same value and derivatives at every point, provided the variables held generic values when it was simplified. This includes expressions whose parts cancel and expressions that are constant.",
 ["inputs","programs"],"every expression shape up to the bound, every point, generic variable values during simplification",
 "Transform tests check the shape of a few simplified trees, not that the function is unchanged, and do not compile here.",
 [A+"simplify.cpp",A+"operators/arithmetic.cpp"],
 [("elimination of zeros and ones","core/src/function_tree/operators/arithmetic.cpp"),("flattening of nested operators","core/src/function_tree/simplify.cpp")],
 [{"src":"tree_simplify.cpp","expect":["simplified-value","simplified-derivative"]}],
 ["Simplify","Node::EliminateZeros/EliminateOnes/ReduceDepth","*Operator::ReduceSub*"],
 "same shape table as C01; three simplification entry points; all complex points",
 "value at symbolic point before and after; elimination decisions taken at symbolic generic values")
P("C06","A system's values, Jacobian and time derivative match its functions",
 "Evaluating a system gives the values of its functions followed by its patch equations, its Jacobian gives their partial derivatives in the system's variable order, and its time derivative gives their derivatives in the path variable. All ways of evaluating (expression tree or compiled program, either differentiation method, with or without simplification, double or multiple precision) agree. This holds whether the system is homogenized, patched, has several variable groups, ungrouped variables, subfunctions or a path variable.",
 ["inputs","programs","configurations"],"every pair of functions from the table, every evaluation and differentiation method, every variable structure in the table, every complex point and time",
 "System and straight-line-program tests compare a few fixed systems at fixed points and do not compile at this commit; no test compares all the evaluation routes.",
 ["core/src/system/system.cpp",H+"system/system.hpp","core/src/system/straight_line_program.cpp",H+"system/straight_line_program.hpp",H+"system/patch.hpp"],
 [("straight line program compiler and interpreter","core/src/system/straight_line_program.cpp"),("system evaluation entry points",H+"system/system.hpp")],
 [{"src":"sys_eval.cpp","expect":["double-value","double-jacobian","multiple-timederiv","subfunction-value"]}],
 ["System::Eval/Jacobian/TimeDerivative (+InPlace)","System::Differentiate*","SLPCompiler::Visit(*)","StraightLineProgram::Eval/GetFuncVals/GetJacobian/GetTimeDeriv","Patch::Eval/Jacobian","System::Homogenize/AutoPatch"],
 "systems of 2 functions drawn from 17 polynomial or 22 analytic shapes (pairs), 4 variable structures, optional path variable, homogenization, patch, subfunction; 2x2 methods, simplification on/off; all complex points",
 "reference values and derivatives by dual numbers from the written functions")
P("C07","Whatever was done to a system, it evaluates to its current functions",
 "After any sequence of copying, moving, swapping, cloning, scaling, adding, concatenating, reordering by degree, changing evaluation or differentiation method, asking for derivatives, simplifying, changing precision, changing parameters or adding functions and variables, a system evaluates to its current functions, Jacobian and time derivative. Operations that make a new system leave the systems they were given unchanged. Reordering by degree permutes the functions into sorted order.",
 ["histories","inputs","configurations"],"every operation in the table, before or after a first evaluation, for every evaluation and differentiation method, at every point",
 "Tests exercise each operation alone on a fresh system; stale caches and shared pieces show only after particular orders of operations.",
 ["core/src/system/system.cpp",H+"system/system.hpp",H+"system/straight_line_program.hpp"],
 [("cached derivatives and compiled program, invalidated by changes","core/src/system/system.cpp"),("separate evaluated flags per number type",H+"system/straight_line_program.hpp")],
 [{"src":"sys_hist.cpp","expect":["copy-value","clone-value","scaled-value","parameter-changed-value"]},{"src":"sys_seq.cpp","expect":["seq-final-value","seq-final-mp-jacobian"]}],
 ["System copy/move/swap/Clone","System::operator+=,*=","Concatenate","System::Reorder*","System::SetEvalMethod/SetDerivMethod","System::Simplify","System::precision","System::SetImplicitParameters","System::AddFunction/AddVariableGroup"],
 "22 histories of up to 4 operations x evaluated before or not x 2 evaluation methods x 2 differentiation methods x path variable x 2 variable structures x plain/homogenized/patched; all complex points",
 "each history is followed by evaluation of values, Jacobian and time derivative in both number types at new symbolic points")
P("C08","Variable structure: ordering, counts, homogenizing and dehomogenizing",
 "A system lists its variables in the order their groups were declared, each homogenized group led by its homogenizing variable, and its counts of variables, groups and functions agree with that. Homogenizing gives the functions multiplied by the right powers of the homogenizing coordinates, makes the system homogeneous of the reported degrees, and can be repeated after adding functions. Dehomogenizing a point divides each group by its own homogenizing coordinate and leaves other coordinates alone; patching and rescaling never change the dehomogenized point.",
 ["inputs","configurations"],"every sequence of declarations up to the bound, every complex point",
 "Tests look at one or two fixed structures; mistakes with several groups, interleaved group kinds or a second homogenization are invisible to them.",
 ["core/src/system/system.cpp",H+"system/system.hpp",H+"system/patch.hpp"],
 [("ordering built from the time order of declarations","core/src/system/system.cpp"),("dehomogenizing points group by group",H+"system/system.hpp")],
 [{"src":"sys_structure.cpp","expect":["d-dehomogenized","d-homogenized-value","d-rescaled-same-point","homogenized-order","degrees-in-group"]}],
 ["System::AddVariableGroup/AddHomVariableGroup/AddUngroupedVariable","System::VariableOrdering/Variables","System::VariableGroupSizes","System::Homogenize","System::IsHomogeneous/IsPolynomial","System::Degrees/DegreeBound","System::DehomogenizePoint","System::AutoPatch/CopyPatches/RescalePointToFitPatch","System::CopyVariableStructure"],
 "1 to 3 (quick) or 4 (thorough) declarations, each an affine group of 1 or 2 variables, a homogeneous group of 2 or an ungrouped variable, in every order; plain, homogenized, homogenized again after adding a function, patched; three functions of degree up to 3 per group with symbolic coefficients; all complex points",
 "the expected structure is recomputed from the declarations by the harness")
P("C09","Patches: rescaling lands on the patch and keeps the projective point",
 "A patch has one linear equation per variable group with the coefficients it was made with, its value and Jacobian say so in both number types, and writing them behind other equations leaves those untouched. Rescaling any point puts it on the patch without changing the projective point it stands for, and rescaling again changes nothing. Copies are equal to, as precise as, and independent of their source, and any sequence of precision changes leaves coefficients accurate to the current precision.",
 ["inputs","histories"],"every group structure up to the bound, all coefficients, every point and scaling, every sequence of two precision changes from the table",
 "Patch tests use fixed sizes and random coefficients in one precision and look at norms against a tolerance.",
 [H+"system/patch.hpp"],
 [("coefficients kept at highest precision and down-sampled",H+"system/patch.hpp")],
 [{"src":"patch.cpp","expect":["patch-rescaled-satisfies","patch-mp-value","second-change-accuracy","copy-precision-accuracy","real-patch-is-real"]}],
 ["Patch::Patch (all constructors)","Patch::Random/RandomReal","Patch::Eval/EvalInPlace","Patch::Jacobian/JacobianInPlace","Patch::RescalePoint/RescalePointToFitInPlace","Patch::Precision","Patch::operator==/!="],
 "1 to 3 groups of sizes 1 to 3 (39 structures); precisions 16,20,30,50,100,300 in every pair; coefficients and points symbolic",
 "precision is tracked as the number of bits that were kept along the way")

P("C10","Total degree start system: every start point is an exact, distinct solution",
 "The total degree start system of a square polynomial system has the same variables, patch and degrees as the target, as many start points as the product of the degrees, and each of them solves it exactly in either number type. Start points with different indices are different points, indices beyond the count are refused, and targets for which no such system exists (not square, not polynomial, several groups, already a homotopy) are refused.",
 ["inputs","configurations"],"every degree pattern up to the bound, every random constant, every start point index, affine and patched targets",
 "Tests look at a few start points of fixed systems with one set of random constants and a tolerance (and do not compile at this commit).",
 ["core/src/system/start/total_degree.cpp",H+"system/start/total_degree.hpp",H+"system/start/utility.hpp"],
 [("roots of unity times a root of the random constant, indexed by subscripts","core/src/system/start/total_degree.cpp"),("index to subscript conversion",H+"system/start/utility.hpp")],
 [{"src":"total_degree.cpp","expect":["double-solves","multiple-solves","double-distinct","multiple-no-point-beyond","same-patch","unsuitable-refused"]}],
 ["TotalDegree::TotalDegree","TotalDegree::NumStartPoints","TotalDegree::GenerateStartPoint (double, multiple)","IndexToSubscript","System::Homogenize/CopyPatches/RescalePointToFitPatchInPlace"],
 "1 to 3 variables (4 thorough); degrees up to 8 for one variable, 5 for two, 3 for three (12, 5, 3, 2 thorough); homogenized and patched up to 4, 3, 2 (6, 3, 2, 2 thorough); both evaluation methods; random constants symbolic; 5 kinds of unsuitable targets",
 "roots are algebraic atoms with their defining relation, so a start point solves the system for every value of the random constants",
 ["random rationals drawn by the start system are replaced by arbitrary symbolic reals"])
P("C11","Predictors reach their advertised order",
 "A prediction step from a point on a homotopy path lands on the continued path up to an error of the advertised order in the step, for every supported predictor, in double and multiple precision, in every direction of complex time. Predictors with an error estimate report one of the advertised order, and the reported Jacobian norms are those at the start of the step. Reusing a predictor object after changing its method, its system or its precision gives the same prediction as a new object.",
 ["inputs","histories"],"every starting point and step length (as an exact power series in the step), every predictor, both number types, every way of reaching the predictor object",
 "Predictor tests compare one step on one or two systems against stored decimals and do not compile at this commit; a wrong coefficient in a table only lowers the order.",
 [H+"trackers/explicit_predictors.hpp","core/src/tracking/explicit_predictors.cpp",H+"trackers/predict.hpp"],
 [("Butcher tables","core/src/tracking/explicit_predictors.cpp"),("stage evaluation and update",H+"trackers/explicit_predictors.hpp")],
 [{"src":"predict.cpp","expect":["order-of-accuracy","estimate-order","norm-J","singular-start","singular-stage","size-proportion","norm-J-inverse"]}],
 ["ExplicitRKPredictor::Predict (three overloads)","FullStep","EvalRHS","SetErrorEstimate","SetSizeProportion","SetNormsCond","ChangeSystem","ChangePrecision","PredictorMethod"],
 "8 predictors, 6 homotopies (quadrature of degree 8, triangular and chained systems with symbolic start points, three nonlinear ones at fixed rational points), step h symbolic in (0,1/100) along 1 or (3-4i)/5",
 "order decided exactly from the lowest power of the symbolic step in the residual of the homotopy")
P("C12","Newton correction returns true Newton iterates and an honest status",
 "Correcting a point runs Newton's method on the system at the given time: the result is the iterate after the reported number of steps, and success is reported exactly when a step not before the minimum count was shorter than the tolerance. Otherwise the report says truthfully why it stopped: too few iterations allowed, a singular Jacobian, or (adaptive precision) a precision criterion that the current digits do not meet. The reported step length, Jacobian norms and condition number are those of the last iteration, whatever the corrector object was used for before.",
 ["inputs","histories"],"every point and tolerance, every choice of iteration limits up to three, both number types, every way of reaching the corrector object",
 "Corrector tests compare a few iterates with stored decimals; the decision logic (limits, tolerance, criteria) is not sampled at its boundaries.",
 [H+"trackers/newton_corrector.hpp",H+"trackers/newton_correct.hpp",H+"trackers/amp_criteria.hpp"],
 [("iteration loop and stopping decisions",H+"trackers/newton_corrector.hpp"),("precision criteria",H+"trackers/amp_criteria.hpp")],
 [{"src":"newton.cpp","expect":["status","iterate","last-step-size","norm-J","norm-J-inverse","condition","singular"]}],
 ["NewtonCorrector::Correct (three overloads)","EvalIterationStep","ChangeSystem","ChangePrecision","amp::CriterionB","amp::CriterionC"],
 "5 systems (three of one variable, triangular and linear systems of two) plus singular ones; iteration limits (1,1),(1,2),(1,3),(2,2),(2,3),(3,3); tolerance symbolic in (0,1]; points symbolic in a real interval with a fixed imaginary part; 5 histories",
 "decided path by path against an independent Newton iteration on the same symbolic numbers",
 ["Boost's hypot is computed as sqrt(x^2+y^2) without its overflow branches, and the L1 norm Eigen stores for rcond() is not computed (never used)"])
P("C13","Fixed precision tracking takes exactly the steps its settings describe",
 "Tracking a path in fixed precision moves from the start to the end time by steps of the current step size, never past the end; a point is accepted only if predicted and corrected to the tolerance, and a rejected step leaves point and time unchanged and shrinks the step by the fail factor. After the configured number of consecutive successes the step grows by the success factor up to its maximum. Success is reported only at the end time with the corrected point there; otherwise the status names the limit that stopped it (steps, step size, truncation of a diverging path), and every step is announced to the observers exactly once.",
 ["inputs","histories"],"every step size, limit, tolerance, threshold and path length in the stated ranges, both trackers, directions in complex time, repeated use of a tracker",
 "Tracker tests follow a handful of fixed homotopies to a stored end point with default settings; the step-control state machine over all settings is not exercised (and the suite does not compile at this commit).",
 [H+"trackers/base_tracker.hpp",H+"trackers/fixed_precision_tracker.hpp"],
 [("tracking loop",H+"trackers/base_tracker.hpp"),("step acceptance and step size control",H+"trackers/fixed_precision_tracker.hpp")],
 [{"src":"track_fixed.cpp","expect":["accepted-point","time","step-size-after-success","step-size-after-failure","status","counts","events","solution-on-path","at-end-time"]}],
 ["Tracker::TrackPath","FixedPrecisionTracker::TrackerIteration/PreIterationCheck/OnStepSuccess/OnStepFail/CopyFinalSolution","DoublePrecisionTracker/MultiplePrecisionTracker::TrackerLoopInitialization","ExplicitRKPredictor::Predict","NewtonCorrector::Correct","Observable::NotifyObservers"],
 "paths linear in space (polynomial of degree up to 3 in time), Euler prediction, at most 3 accepted and 2 rejected steps; initial, minimal and maximal step sizes, tolerance, truncation threshold and path length symbolic; directions -1, 1 and (3+4i)/5; 5 settings families, 3 histories",
 "whole TrackPath calls executed symbolically against a reference state machine; boundaries of inequalities (measure zero) are left out",
 ["Boost's hypot is computed as sqrt(x^2+y^2) without its overflow branches"])
P("C14","Adaptive precision picks the cheapest precision meeting its error bounds",
 "The adaptive precision criteria accept a precision exactly when its digits exceed the stated error bounds in the norms of the Jacobian, its inverse, the point, the residual and the tolerance. From a required minimum and a permitted maximum the tracker picks a usable precision no lower than the minimum and a step size no larger than permitted, at least cost, and the smallest usable step size and the digits a step size needs follow from each other.",
 ["inputs"],"all norms, tolerances, residuals, bounds and step sizes in the stated ranges, over the listed precisions, safety digits, iterations and predictor orders",
 "The criteria are inequalities over six real quantities and the choice is a minimisation; tests only observe them through a few tracked paths.",
 [H+"trackers/amp_criteria.hpp",H+"trackers/amp_tracker.hpp",H+"trackers/config.hpp"],
 [("criteria A, B, C",H+"trackers/amp_criteria.hpp"),("choice of precision and step size",H+"trackers/amp_tracker.hpp"),("bounds taken from the system",H+"trackers/config.hpp")],
 [{"src":"amp_criteria.cpp","expect":["A-digits","A-decision","B-digits","B-decision","C-digits","C-decision","Phi","Psi","degree-bound","smallest-step","digits-for-step-sufficient","precision-at-least-required","step-size","cheapest"]}],
 ["amp::CriterionA/B/C and right hand sides","amp::D","AdaptiveMultiplePrecisionConfig::SetBoundsAndEpsilonFrom/SetPhiPsiFromBounds","MinTimeForCurrentPrecision","MinStepSizeForPrecision","StepsizeSatisfyingCriterionB","MinDigitsForLogOfStepsize","MinDigitsForStepsizeInterval","MinimizeTrackingCost","ArithmeticCost"],
 "norms of the Jacobian in [1e-3,1e6], of its inverse in [1e-3,1e30], tolerance in [1e-12,0.5], residual in [1e-15,1e3]; precisions 16, 20, 50 for the criteria; minimum precision 5..39, maximum 16..60, digits of criterion B 0..33, 1 to 3 iterations, predictor orders 0, 2, 4; step sizes in [1e-12,2]",
 "comparisons of sums of logarithms are decided exactly as comparisons of products; boundaries of inequalities (measure zero) are left out",
 [])
P("C15","Adaptive precision tracking keeps the path, raises precision when needed",
 "Tracking with adaptive precision advances only by steps corrected to the tolerance at a precision satisfying the criteria, and a rejected step leaves point and time unchanged. A step rejected for lack of precision strictly raises the precision to what is required and strictly shrinks the step, a step that did not converge shrinks the step by the fail factor and raises precision until that step can be resolved, and after a success precision drops and the step grows only after the configured number of successes, never below the required digits. All stored quantities share the current precision, success means the end time was reached with the point of the path there, and otherwise the status names the limit reached.",
 ["inputs","histories"],"every step size, path length, error bound and start offset in the stated ranges, for start precisions 16, 20 and 30",
 "The tracker tests follow a few homotopies with default settings to a stored end point, and do not compile at this commit; interactions of step size and precision depend on real valued settings.",
 [H+"trackers/amp_tracker.hpp",H+"trackers/base_tracker.hpp"],
 [("tracking loop",H+"trackers/base_tracker.hpp"),("precision and step size control",H+"trackers/amp_tracker.hpp")],
 [{"src":"track_amp.cpp","expect":["outcome-of-step","everything-in-current-precision","accepted-point","time-advances","precision-enough-after-success","step-grows","step-kept","point-kept-on-failure","precision-raised-on-criterion-failure","raised-precision-enough","step-shrinks-on-criterion-failure","step-shrinks-on-convergence-failure","precision-for-small-step","bad-start-refused","precision-restored","status","solution-on-path","solution-precision"]}],
 ["Tracker::TrackPath","AMPTracker::TrackerLoopInitialization/InitialRefinement/PreIterationCheck/TrackerIteration","AMPTracker::AdjustAMPStepSuccess/AMPCriterionError/NewtonConvergenceError","AMPTracker::ChangePrecision and conversions between precisions","MinimizeTrackingCost","ExplicitRKPredictor::Predict","NewtonCorrector::Correct"],
 "paths linear in space, Euler prediction, at most 3 accepted steps; initial step, path length, error bound of function evaluation and start offset symbolic; 6 settings families; no step shorter than 1/100 of the step size",
 "whole TrackPath calls executed symbolically; a reference follows each announced step; boundaries of inequalities (measure zero) are left out",
 ["Boost's hypot is computed as sqrt(x^2+y^2) without its overflow branches","random unit vectors in norm estimates have fixed values"])
P("C16","Text input means what its formulas say, and malformed text is refused",
 "A system read from text has exactly the variables, variable groups, constants, parameters and functions declared there, in order and for every permitted choice of names, and its functions take, with their derivatives, the values the written formulas have under the usual precedence of signs, powers, products and sums. Splitting an input file into its configuration and input sections keeps exactly the text of each section, without comments, whichever markers are present. Text without a meaning (unknown names, missing operators or operands, repeated declarations, unfinished statements) is refused instead of being read as something else.",
 ["inputs"],"every value of the variables, for each of the several thousand generated texts",
 "The tests parse a handful of formulas and compare values at one point; wrong precedence or binding of a sign changes only some combinations of operators.",
 [H+"io/parsing/function_rules.hpp",H+"io/parsing/system_rules.hpp",H+"io/parsing/number_rules.hpp",H+"io/parsing/classic_utilities.hpp",H+"io/parsing/system_parsers.hpp"],
 [("formulas",H+"io/parsing/function_rules.hpp"),("declarations",H+"io/parsing/system_rules.hpp"),("numbers",H+"io/parsing/number_rules.hpp"),("input files",H+"io/parsing/classic_utilities.hpp")],
 [{"src":"parse_text.cpp","expect":["formula-value","formula-derivative","nested-value","nested-derivative","number-value","number-derivative","declared-value","declared-derivative","declared-time-derivative","kinds-of-variables","file-readable","config-section","file-value","malformed-text-refused"]}],
 ["FunctionParser","SystemParser","rules::LongNum","CommentStripper","SplitInputFileParser","ParseInputFile","System::System(string)","System::Eval/Jacobian/TimeDerivative and all nodes they reach"],
 "formulas of 3 operands (4 to 6 in the thorough tier) with every combination of binary operators and signs, one level of parentheses or functions, integer exponents; 20 number formats; 5 sets of names, 4 kinds of variables, 3 orders of statements; 52 file layouts; 170 malformed texts; values of the variables symbolic",
 "the text is generated and parsed by the executed library code, then evaluated at a symbolic point and compared as terms with a separate precedence parser's reading of the same text",
 ["text itself is concrete, one text per structure: characters are not symbolic","repeated powers without parentheses (a^b^c) are left out: their grouping is not documented","names starting with a declaration keyword are left out"])
P("C17","Observers of a tracked path see its whole history, once and in order",
 "Every observer attached to a tracker receives each event of a tracked path exactly once and in the order in which it happened, whatever other observers do meanwhile, including leaving, removing others or adding new ones while an event is delivered; an observer that left or was removed receives nothing more. Each path is announced once when tracking starts and once when it ends, each announced step is followed by exactly one outcome, and each announced change of precision is real. The recorders report exactly the starting, extreme and first increased precision of the path, and the time of that increase.",
 ["inputs","histories"],"every initial step and error bound in the stated ranges, for several orders of observers and actions during delivery",
 "The tests attach loggers without checking what they receive; delivery while observers are removed depends on their order.",
 [H+"detail/observable.hpp",H+"trackers/observers.hpp",H+"trackers/events.hpp",H+"trackers/amp_tracker.hpp",H+"trackers/fixed_precision_tracker.hpp"],
 [("event delivery",H+"detail/observable.hpp"),("recorders",H+"trackers/observers.hpp")],
 [{"src":"observe.cpp","expect":["all-see-the-same","start-and-end-announced-once","each-step-has-one-outcome","no-events-after-leaving","removed-observer-stops","added-observer-starts","newcomer-sees-the-rest","first-increase-reported","start-precision-reported","increased-precision-reported","time-of-increase-reported","extreme-precisions-reported","announced-change-is-real"]}],
 ["Observable::AddObserver/RemoveObserver/NotifyObservers","FirstPrecisionRecorder","MinMaxPrecisionRecorder","AMPTracker and DoublePrecisionTracker TrackPath with all events they emit"],
 "6 observers plus one added later, 4 orders, 4 actions at 1 to 4 moments of the history; paths of at most 2 accepted steps with symbolic initial step and error bound",
 "whole TrackPath calls executed symbolically, the event logs compared with each other",
 ["Boost's hypot is computed as sqrt(x^2+y^2) without its overflow branches","random unit vectors in norm estimates have fixed values"])
NOT_APPLICABLE=[]
