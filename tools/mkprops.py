import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
V="viennamath/"
p("C01","Evaluation is compositional and the same through every entry point",
"Evaluating a runtime expression at a point gives exactly the value obtained by evaluating its operands at that point and applying the written operation (+, -, *, /, exp, sin, cos, tan, fabs, sqrt, log, log10, identity) in the numeric type, with variable i reading the i-th component. Every way of supplying the point (a bare number, std::vector, another indexable container, a 1/2/3-component compile-time vector, a runtime constant, a compile-time constant), on every expression class that can be evaluated, gives the same number.",
["inputs","programs"],"all expression trees, all points, all ways of calling",
"Tests print or compare a handful of fixed polynomial expressions at one point; an operation, overload or operand order they do not sample is unobserved.",
[V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp",V+"runtime/expr.hpp",V+"runtime/variable.hpp",V+"compiletime/unary_op_tags.hpp",V+"compiletime/binary_op_tags.hpp",V+"manipulation/eval.hpp"],
[("operator tags apply()","compiletime/*_op_tags.hpp"),("operator() convenience layer","runtime/expr.hpp"),("eval()","manipulation/eval.hpp")])
p("C02","Operators and functions build exactly the expression that was written",
"For every combination of operand kinds (number, runtime or compile-time constant, runtime or compile-time variable, function symbol, unary, binary or wrapped expression, compile-time expression) a op b denotes the operation op with a on the left and b on the right, and f(a) denotes f applied to a. The result has the value the same formula has mathematically, wherever that formula is defined, and building it leaves the operands unchanged.",
["programs","inputs"],"all operand-kind pairs, all four operators, all unary functions, all operand contents",
"There are several hundred overload combinations, many with hand-written constant-merging rules; the tests use a few dozen of them and mostly only require that they compile.",
[V+"forwards.h",V+"runtime/operations/rt_rt.hpp",V+"runtime/operations/constant.hpp",V+"runtime/operations/function_symbol.hpp",V+"compiletime/operations/ct_constant.hpp",V+"compiletime/operations/ct_expr.hpp",V+"compiletime/operations/ct_variable.hpp",V+"manipulation/detail/unary_operations.hpp"],
[("result_of::add/subtract/mult/div","runtime/operations/rt_rt.hpp"),("constant-merging overloads","runtime/operations/constant.hpp, compiletime/operations/*")])
p("C03","Runtime simplification never changes the value of an expression",
"Simplifying a runtime expression, in place or into a new expression, yields an expression with the same value at every point at which the original is defined; the original of a not-in-place simplification is unchanged. This also holds for expressions with function symbols, differential operators and integrals inside, read as uninterpreted operations.",
["inputs","programs"],"all expression trees and all points",
"The tests simplify four or five expressions and check the final evaluation at one point.",
[V+"manipulation/simplify.hpp",V+"manipulation/detail/binary_operations.hpp",V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp"],
[("op_*_simplify rules","manipulation/detail/binary_operations.hpp"),("simplify()/can_simplify()","runtime/binary_expr.hpp, runtime/unary_expr.hpp")])
p("C04","Runtime simplification terminates in a normal form without trivial operations",
"Simplification of every finite expression terminates; its result contains no arithmetic operation with two constant operands, no addition or subtraction of a literal 0, no multiplication by a literal 0 or 1, no division by a literal 1 and no division of a literal 0 (outside expression vectors). Simplifying the result again returns the same expression, and an expression reports that it can be simplified exactly as long as it is not in this normal form.",
["inputs","programs"],"all expression trees",
"Fixed-point and idempotence claims quantify over all trees and over chains of rewrites that enable each other.",
[V+"manipulation/simplify.hpp",V+"manipulation/detail/binary_operations.hpp",V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp"],
[("while(can_simplify) loop","manipulation/simplify.hpp inplace_simplify"),("*_can_simplify predicates","manipulation/detail/binary_operations.hpp")])
p("C05","Runtime differentiation yields the exact derivative",
"For every differentiable runtime expression and every variable, the expression returned by differentiation has, at every point at which the original expression is differentiable, the value of the partial derivative with respect to that variable; vectors are differentiated componentwise, and the derivative with respect to a variable that does not occur is zero. The differentiated expression itself is unchanged.",
["inputs","programs"],"all trees over constants, variables, + - * /, exp, sin, cos, tan, sqrt, log, log10; all variables; all points",
"diff_test checks one point for a few functions; products, quotients and chains nest arbitrarily.",
[V+"manipulation/diff.hpp",V+"manipulation/detail/binary_operations.hpp",V+"manipulation/detail/unary_operations.hpp"],
[("op_binary::diff","manipulation/detail/binary_operations.hpp"),("op_unary::diff","manipulation/detail/unary_operations.hpp"),("diff() overloads","manipulation/diff.hpp")])
p("C06","Symbolic derivatives: function symbols, Gateaux derivatives and refusals",
"Differentiating a function symbol with respect to a variable through the diff interface gives the symbolic partial derivative with respect to that variable, and differentiating with respect to a function symbol treats that symbol as the independent quantity: 1 for the symbol itself, 0 for any other symbol and for variables and constants, with the sum, product, quotient and chain rules above it and grad(e) mapped to grad of the derivative of e. Expressions for which no rule exists (modulus, divergence, partial derivatives, integrals) are refused with the expression-not-differentiable exception rather than given a wrong result.",
["inputs","programs"],"all trees containing function symbols, differential operators and integrals, all symbols",
"No test differentiates with respect to a function symbol beyond one example, and none checks a refusal.",
[V+"manipulation/diff.hpp",V+"manipulation/detail/unary_operations.hpp",V+"runtime/function_symbol.hpp",V+"exception.hpp"],
[("op_gradient/divergence/partial_deriv diff","manipulation/detail/unary_operations.hpp"),("rt_function_symbol::diff","runtime/function_symbol.hpp")])
p("C07","Substitution replaces all occurrences and nothing else",
"Substituting a search expression (variable, function symbol, unary or binary expression, any expression, or a list of them) by a replacement yields, up to simplification, the expression in which every topmost occurrence of the search expression is replaced and everything else is kept; lists are applied simultaneously, the first match winning, and replacements are not searched again. Evaluating the result equals evaluating the original with the replaced variable bound to the replacement's value, and the original, the search and the replacement expression are unchanged.",
["inputs","programs"],"all trees, all search/replacement pairs and lists, all overloads",
"The substitution tests replace a variable in three expressions and print the result.",
[V+"manipulation/substitute.hpp",V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp",V+"runtime/variable.hpp",V+"runtime/constant.hpp",V+"runtime/function_symbol.hpp",V+"runtime/vector_expr.hpp"],
[("substitute() overloads","manipulation/substitute.hpp"),("virtual substitute()","runtime/*.hpp")])
p("C08","Expressions are values: copies are independent and operations leave inputs alone",
"Over every history of constructions, copies, assignments (from every expression kind, including self-assignment), combinations and manipulations, each expression object holds exactly the expression last stored in it: changing or destroying one object never changes another, and no operation changes its arguments.",
["histories","programs"],"all histories of API calls over a set of expression objects",
"Aliasing shows only through a multi-step history in which a shared node is changed or destroyed later; tests create expressions and use them once.",
[V+"runtime/expr.hpp",V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp",V+"runtime/vector_expr.hpp",V+"runtime/equation.hpp",V+"runtime/interval.hpp"],
[("rt_expr copy constructor and assignments","runtime/expr.hpp"),("clone()","runtime/*.hpp")])
p("C09","Every history releases exactly what it allocated",
"Over every history of API calls, every expression node that is created is destroyed exactly once: after all expression objects of a history have been destroyed no memory allocated by the library remains, and no operation reads or frees memory that has been released, also when the operation ends with an exception.",
["histories"],"all histories of API calls including ones that end in exceptions",
"The tests never check for leaks or invalid accesses, and a leak or double free does not change their output.",
[V+"runtime/expr.hpp",V+"manipulation/simplify.hpp",V+"manipulation/diff.hpp",V+"manipulation/detail/unary_operations.hpp",V+"manipulation/detail/binary_operations.hpp",V+"runtime/functor_wrapper.hpp",V+"runtime/numerical_quadrature.hpp"],
[("auto_ptr ownership","runtime/*.hpp"),("raw pointers returned by clone/simplify/diff/substitute","runtime/expression_interface.hpp")])
p("C10","Deep equality is structural identity; shallow equality is sameness of kind",
"Two runtime expressions compare deeply equal exactly if they are the same tree: same kinds of nodes, same operations with the same parameters (differentiation variable, integration domain and variable), same variable and symbol identities, same constant values, same operands in the same order and number. Deep equality is reflexive, symmetric and transitive, agrees with copying, and shallow equality holds exactly between expressions of the same kind of node.",
["inputs","programs"],"all pairs and triples of expression trees",
"No test compares expressions that differ in one deep detail, and equality underlies substitution.",
[V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp",V+"runtime/constant.hpp",V+"runtime/variable.hpp",V+"runtime/function_symbol.hpp",V+"runtime/vector_expr.hpp",V+"runtime/unary_operators.hpp",V+"runtime/binary_operators.hpp"],
[("deep_equal / shallow_equal","runtime/*.hpp"),("op equal()","runtime/unary_operators.hpp, runtime/binary_operators.hpp")])
p("C11","An expression reported constant has a value that needs no variables",
"An expression that reports itself constant contains no variable, function symbol or symbolic operation, and its unwrapped value equals its value at every point. Constants and every arithmetic combination of constants are reported constant; unwrapping an expression that depends on a variable, a function symbol or a vector raises an exception instead of producing a number.",
["inputs","programs"],"all expression trees",
"Only single constants are tested; the claim is about every tree.",
[V+"runtime/expression_interface.hpp",V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp",V+"runtime/constant.hpp",V+"runtime/variable.hpp"],
[("is_constant / unwrap","runtime/*.hpp")])
p("C12","Evaluation that has no value raises an exception",
"Evaluating an expression raises an exception exactly if some part that evaluation reaches has no number: a variable whose index is not below the dimension of the point (or above 0 for a scalar point) raises the index-out-of-bounds exception naming the index, and function symbols, expression vectors, differential operators and integrals raise their not-evaluable exceptions. No such evaluation returns a number or reads outside the point.",
["inputs","programs"],"all trees, all point dimensions including 0, all entry points",
"No test evaluates outside the domain.",
[V+"runtime/variable.hpp",V+"runtime/function_symbol.hpp",V+"runtime/vector_expr.hpp",V+"runtime/integral.hpp",V+"compiletime/unary_op_tags.hpp",V+"exception.hpp",V+"runtime/unary_operators.hpp"],
[("rt_variable::eval bounds checks","runtime/variable.hpp"),("apply() of symbolic operators","runtime/integral.hpp, compiletime/unary_op_tags.hpp")])
p("C13","Traversal and manipulation visit every node exactly once",
"A traversal functor is called on every node reachable through the nodes it steps into, exactly once each, operands of a binary node before and after it in left-to-right order and a unary node before its operand. A manipulation functor's result replaces exactly those nodes it declares it modifies (topmost first, their operands not visited), and everything else is rebuilt unchanged.",
["inputs","programs"],"all trees, all step-into and modifies predicates",
"Only indirectly exercised by one substitution of a symbolic interval.",
[V+"runtime/functor_wrapper.hpp",V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp",V+"runtime/expression_interface.hpp"],
[("recursive_traversal / recursive_manipulation","runtime/binary_expr.hpp, runtime/unary_expr.hpp")])
p("C14","Numerical quadrature integrates exactly what its rule promises",
"Numerical quadrature of an integral expression replaces sums and differences of integrals by the sum or difference of their quadratures, gives zero for a zero constant, and for a single integral with constant bounds returns (b - a) times the integrand's value at the midpoint in the integration variable, hence the exact integral of every integrand of degree at most one, for any integration variable, orientation of bounds and signs. An expression without an integral or with a purely symbolic integral is refused with the corresponding exception.",
["inputs","programs"],"all sums and differences of integrals, all linear integrands, all bounds and integration variables",
"One example with a fixed interval is computed and printed.",
[V+"runtime/numerical_quadrature.hpp",V+"runtime/integral.hpp",V+"exception.hpp"],
[("rt_numerical_quadrature::operator()","runtime/numerical_quadrature.hpp"),("rt_gauss_quad_1","runtime/numerical_quadrature.hpp")])
p("C15","Expression vectors behave componentwise and multiply to the dot product",
"Sum, difference, scaling from either side and division by a scalar of expression vectors act on every component and keep the dimension; the product of two vectors of equal dimension is the sum of the products of corresponding components, also when it appears only after substitution inside an expression. Substitution and differentiation of a vector act on every component, copies are independent, and a new vector is all zeros.",
["inputs","programs"],"all dimensions, all component expressions, all scalar kinds",
"Vectors appear in one test with fixed content.",
[V+"runtime/vector_expr.hpp",V+"manipulation/detail/binary_operations.hpp"],
[("rt_vector_expr operators","runtime/vector_expr.hpp"),("vector dot product rule","manipulation/detail/binary_operations.hpp")])
p("C16","LaTeX output reads back as the same formula",
"The LaTeX string of an expression, read with the usual precedence rules, denotes a formula with the same value as the expression at every point, with every operator, function, derivative, integral, variable and function symbol named by its own or its customized name. A customization of a symbol affects exactly that symbol from then on, and an equation or interval prints both its sides.",
["inputs","programs","histories"],"all trees, all customization histories",
"Output is only printed; missing parentheses are visible only for particular operator nestings.",
[V+"manipulation/latex.hpp"],
[("binary/unary processors","manipulation/latex.hpp"),("customize()","manipulation/latex.hpp")])
p("C17","The detailed string identifies an expression",
"Two expressions over the same constants, variables, tagged function symbols and operators have the same detailed string exactly if they are the same tree: operators, operand order, variable numbers, symbol numbers and tags, vector components and integration domains are all present and unambiguous in it.",
["inputs","programs"],"all pairs of expression trees with constants of at most six significant digits",
"Strings are only printed by the tests.",
[V+"runtime/binary_expr.hpp",V+"runtime/unary_expr.hpp",V+"runtime/function_symbol.hpp",V+"runtime/variable.hpp",V+"runtime/vector_expr.hpp",V+"runtime/integral.hpp"],
[("deep_str","runtime/*.hpp"),("op str()","compiletime/*_op_tags.hpp")])
p("C18","Intervals, equations and integrals hold exactly the parts they were built from",
"An interval, equation or integral built from any supported combination of argument kinds holds the given lower bound, upper bound, left side, right side, integrand and integration variable, each in its own place, and keeps them through copying and assignment. Replacing a symbolic integration domain by a concrete interval and variable turns exactly the integrals over that symbolic domain into integrals of the same integrand over the interval and leaves everything else as it was.",
["inputs","programs","histories"],"all argument-kind pairs for all generators, all expressions with symbolic integrals",
"About fifty generator overloads exist; the tests call a handful and print the result.",
[V+"runtime/interval.hpp",V+"runtime/equation.hpp",V+"runtime/integral.hpp",V+"runtime/symbolic_interval.hpp",V+"compiletime/ct_interval.hpp",V+"compiletime/ct_equation.hpp",V+"manipulation/substitute.hpp"],
[("make_interval / make_equation","runtime/interval.hpp, runtime/equation.hpp, compiletime/ct_interval.hpp, compiletime/ct_equation.hpp"),("integral_substitution_functor","manipulation/substitute.hpp")])
p("C19","Applying a Cartesian coordinate system expands gradients and divergences",
"Applying a 1-, 2- or 3-dimensional Cartesian coordinate system replaces every gradient of the unknown or test function by the vector of its partial derivatives in the coordinate order (by the single derivative in one dimension) and every divergence of them by the sum of the partial derivatives, in both sides of an equation; products of two gradients become the sum of the products of corresponding partial derivatives. All other parts of the expression keep their meaning.",
["inputs","programs"],"all expressions over the unknown and test function, all dimensions",
"One weak formulation is transformed and printed.",
[V+"manipulation/apply_coordinate_system.hpp",V+"manipulation/substitute.hpp",V+"manipulation/detail/binary_operations.hpp"],
[("apply_coordinate_system(cartesian<n>, .)","manipulation/apply_coordinate_system.hpp")])
p("C20","Compile-time expressions denote what was written and evaluate to it",
"A compile-time expression built with the operators has the exact rational value of the written formula at every point at which that formula is defined. Evaluating it, at run time with numbers or vectors, or at compile time with compile-time constants and vectors of them, gives that value.",
["programs","inputs"],"all compile-time expression types, all points, all kinds of evaluation argument",
"The compile-time tests check some twenty fixed expressions.",
[V+"compiletime/ct_binary_expr.hpp",V+"compiletime/ct_variable.hpp",V+"compiletime/ct_constant.hpp",V+"compiletime/ct_vector.hpp",V+"compiletime/operations/ct_ct.hpp",V+"compiletime/operations/ct_constant.hpp",V+"compiletime/operations/ct_expr.hpp",V+"compiletime/operations/ct_variable.hpp",V+"manipulation/eval.hpp"],
[("operator overloads","compiletime/operations/*.hpp"),("eval metafunctions","manipulation/eval.hpp")])
p("C21","Compile-time simplification preserves value and reaches a reduced fixed point",
"Compile-time simplification of an expression yields a type denoting a formula with the same exact rational value at every point at which the original is defined. The result contains no sum with a literal 0 and no product with a literal 0 or 1, constant sub-expressions are reduced to an integer or a fraction, and simplifying it again gives the same type.",
["programs","inputs"],"all compile-time expression types whose integer constants stay within range",
"The rules overlap pairwise and nest; the tests instantiate a few.",
[V+"manipulation/simplify.hpp"],
[("simplify_impl specializations","manipulation/simplify.hpp")])
p("C22","Compile-time expansion multiplies out completely without changing the value",
"Expanding a compile-time expression yields a type with the same exact value at every point; in the result no product has a factor that contains a sum or difference outside denominators.",
["programs","inputs"],"all compile-time polynomial and rational expression types",
"Distribution recurses through nested products and sums; two expressions are tested.",
[V+"manipulation/expand.hpp"],
[("expand_product / expand_with_factor","manipulation/expand.hpp")])
p("C23","Compile-time substitution replaces every occurrence",
"Compile-time substitution of a variable, constant or sub-expression by a replacement type yields exactly the type in which every topmost occurrence is replaced, so that the value of the result is the value of the original with the substituted quantity bound to the replacement.",
["programs","inputs"],"all compile-time expression, search and replacement types",
"One substitution is tested.",
[V+"manipulation/substitute.hpp"],
[("result_of::substitute","manipulation/substitute.hpp")])
p("C24","Compile-time differentiation is exact",
"The compile-time derivative of an expression with respect to a compile-time variable denotes, at every point at which the expression is defined, the exact partial derivative.",
["programs","inputs"],"all compile-time polynomial and rational expression types, all variables",
"Two polynomials are tested.",
[V+"manipulation/diff.hpp"],
[("result_of::diff","manipulation/diff.hpp")])
p("C25","Compile-time integration is exact for polynomials",
"Compile-time integration of a polynomial in any number of variables over an interval with respect to one variable yields the exact definite integral: integration variable replaced by the bounds, every other variable treated as a parameter, bounds being any constants or expressions free of the integration variable.",
["programs","inputs"],"all polynomial compile-time integrands, all integration variables, all bounds",
"The tests integrate a few polynomials over [0,1] with all variables eventually integrated out.",
[V+"manipulation/integrate.hpp",V+"manipulation/expand.hpp",V+"manipulation/substitute.hpp"],
[("integrate_impl / integrate_monomial / polynomial_degree","manipulation/integrate.hpp")])
p("C26","Coefficient extraction and dropping of dependent terms decompose a polynomial",
"For a compile-time polynomial e that is at most linear in a factor f, e equals f times the extracted coefficient plus the terms that remain after dropping those dependent on f, and neither the coefficient nor the remainder contains f. Dropping dependent terms of any polynomial gives its value with f set to zero, without f.",
["programs","inputs"],"all compile-time polynomial types and factors",
"Three extractions are tested.",
[V+"manipulation/coefficient.hpp",V+"manipulation/drop_dependent_terms.hpp"],
[("coefficient_impl","manipulation/coefficient.hpp"),("drop_dependent_terms","manipulation/drop_dependent_terms.hpp")])
p("C27","Converting a compile-time expression to a runtime expression keeps its structure",
"Constructing or assigning a runtime expression from any compile-time constant, variable or binary expression gives the runtime tree with the same operations, operand order, variable numbers and constants, and therefore the same value at every point.",
["programs","inputs"],"all compile-time expression types, construction and assignment",
"The conversion has one constructor per operand-kind pair; tests use a few of them.",
[V+"runtime/binary_expr.hpp",V+"runtime/expr.hpp",V+"runtime/operations/rt_rt.hpp"],
[("rt_binary_expr(ct_binary_expr) constructors","runtime/binary_expr.hpp"),("rt_expr constructors and assignments","runtime/expr.hpp")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
ids=set()
for x in P:
    jsonschema.validate(x,s); assert x["id"] not in ids; ids.add(x["id"]); assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
