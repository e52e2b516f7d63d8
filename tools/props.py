"""Writes properties.jsonl (run tools/manifest.py afterwards)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
U='uncertainties/ureal.hpp'; U2='uncertainties/ureal2.hpp'; H='uncertainties/internal/hessgrad.hpp'; M='uncertainties/internal/moments.hpp'
CM='uncertainties/internal/checkmoments.hpp'; MA='uncertainties/math.hpp'; F='uncertainties/functions.hpp'; IO='uncertainties/io.hpp'
ST='uncertainties/stat.hpp'; US='uncertainties/ureals.hpp'; D='uncertainties/distr.hpp'; C='uncertainties/core.hpp'; I='uncertainties/impl.hpp'

p('C01','First-order propagation is exact linear propagation for any expression',
 'For every expression built from independent first-order variables and plain numbers with the arithmetic operators, mathematical functions and the low-level unary/binary/nary interfaces, the mean of the result is the function of the means, and its variance and its covariance with any other variable are those of the linearised function, i.e. the sum over the independent variables of the products of derivatives times variances. This holds regardless of the shape of the expression: operands sharing independent variables, an operand used more than once, exact constants, null derivatives, exact cancellations, any number of variables.',
 ['programs','inputs'],'all straight-line programs over UReal: shapes of the expression graph (shared subexpressions, repeated operands), numbers of independent variables, values and signs of means, deviations and derivatives',
 'test/ evaluates a few fixed formulas with one to three variables; the merging of dependency lists behaves differently for each combination of exact/independent/dependent operands, of interleaving ids and of lengths, which only generated programs reach.',
 [U],[('binary/unary/nary merge the coefficient maps of the operands','uncertainties/ureal.hpp: unary, binary, nary'),('arithmetic operators give the derivatives','uncertainties/ureal.hpp: operator+,-,*,/')],
 [('sigma','coefficients derivative*sdev for each independent variable',U),('id/sdev','heap-free representation of an independent variable',U)],['n()','s()','var','cov','corr'])
p('C02','In-place operators are equivalent to the out-of-place ones',
 'For first-order variables, `a op= b` leaves in `a` exactly the variable that `a = a op b` would (same mean, variance, covariance with every other variable, within rounding) and leaves every other variable unchanged, for all four operators and for the low-level in-place function, including `a op= a`, plain-number operands, operands of any dependency status, and any history of previous operations and queries on `a` and `b`.',
 ['histories','inputs'],'all sequences of in-place and out-of-place operations, queries and copies on a set of variables, including aliasing of the target with the operand',
 'test/accumulate.cpp is a benchmark and test/generic.cpp runs each in-place operator once on fresh variables; the target has several internal representations and a cached deviation whose validity depends on the history.',
 [U],[('binary_assign','uncertainties/ureal.hpp: binary_assign, operator+= etc.')],[('sdev','cached standard deviation, negative when invalid',U)],['n()','s()','var','cov'])
p('C03','Queries, copies and caching never change what a variable represents',
 'Reading a first- or second-order variable (mean, deviation, variance, covariance, correlation, gradient, formatting, independence) in any order, any number of times, through const or non-const references, never changes the result of any later query or operation, and every way of obtaining the same quantity agrees: s() const and non-const, sdev(x), sqrt(var(x)), var(x) and cov(x,x), nom(x) and n(). Copies, moved-to and swapped objects represent the same variable as the original (fully correlated with it) and later operations on one never affect the other.',
 ['histories'],'all interleavings of queries, copies, assignments, moves and operations',
 'tests call s() or var() at the end only; a stale cache needs a query, then a particular operation, then a query, or a copy made in between.',
 [U,U2],[('caching s() and var() overloads, copy semantics','uncertainties/ureal.hpp: s(), var; change_nom')],[('sdev','cache of the deviation',U)],['s()','var','cov','corr','copies'])
p('C04','Covariance is symmetric, bilinear and positive semidefinite',
 'For any set of first-order variables however computed, cov(x,y) equals cov(y,x), is bilinear under linear combinations and invariant under change of means, cov(x,x) equals the variance, the covariance of an exact number with anything is zero, every covariance matrix is positive semidefinite within rounding, and corr(x,y)=cov/(s s) lies in [-1,1] and is +-1 for two functions of one single independent variable.',
 ['programs','inputs'],'all pairs and sets of variables produced by arbitrary programs, with arbitrary overlaps of the independent variables they depend on',
 'tests compare single covariances of two or three variables; the intersection of two dependency lists has many interleavings (disjoint, nested, prefix, one exhausted before the other, ids equal or far apart).',
 [U],[('cov: parallel visit of the two sorted coefficient maps','uncertainties/ureal.hpp: cov, var, corr')],[],['cov','corr','var'])
p('C05','Independent variables keep a unique, stable identity',
 'Every construction with an explicit uncertainty (first- or second-order, by any constructor, factory or distribution) gives a fresh positive id shared with no other variable of either class, while exact numbers carry no id; copies, conversions, change of mean and one-variable computations keep the id and stay independent, and a variable that depends on two or more independent variables is reported as dependent with the invalid id. Invalid constructions (negative deviation) throw std::invalid_argument, and covariance between variables of different ids is zero.',
 ['histories'],'all histories of constructions, copies and computations over both classes',
 'test/indep.cpp checks three fixed cases of first-order variables; collisions across classes and constructors or a wrongly kept/lost id need mixed histories.',
 [U,U2,D,C],[('++last_id in each constructor','uncertainties/ureal.hpp, uncertainties/ureal2.hpp'),('isindep/indepid','uncertainties/ureal.hpp, uncertainties/ureal2.hpp')],[('last_id','global atomic counter of ids',I)],['indepid()','isindep()'])
p('C06','Variables can be created and used concurrently from many threads',
 'Independent variables created concurrently by any number of threads, through any constructor of either class, all have distinct ids and zero mutual correlation, and computations by different threads on distinct variables (also sharing const operands) give the same results as when run alone, without data races.',
 ['schedules'],'all interleavings of constructions and computations in several threads',
 'no test uses threads; a lost update of the id counter or a race on lazily initialised shared data shows only under particular interleavings.',
 [U,U2,I,D,MA],[('std::atomic counter','uncertainties/impl.hpp: last_id'),('function-local statics for constants','uncertainties/math.hpp, uncertainties/distr.hpp')],[('last_id','global atomic counter of ids',I)],['indepid()','cov'])
p('C07','First-order mathematical functions have the right value and derivative',
 'For each mathematical function provided for first-order variables (abs, fmod, remainder, fmax, fmin, exp, exp2, expm1, log, log10, log2, log1p, pow, sqrt, cbrt, hypot, trigonometric, hyperbolic and their inverses, atan2, erf, erfc) and every argument in the interior of its differentiable domain, the mean is the standard function of the means and the uncertainty is propagated with its true partial derivatives, sign included, for each argument of the two-argument functions, also when one of them is exact or both are the same variable.',
 ['inputs'],'every function and every point of its differentiable domain (negative, zero, tiny, large arguments; all quadrants)',
 'test/math.cpp checks each function at one or a few random points of a narrow positive range, in which e.g. the negative half-line, zero, or quadrants other than the first never occur.',
 [MA],[('derivative expressions','uncertainties/math.hpp, UReal overloads')],[],['n()','cov with the argument','grad'])
p('C08','Second-order mathematical functions have the right first and second derivatives',
 'For each mathematical function provided for second-order variables and every argument in the interior of its twice differentiable domain, the first-order mean is the standard function and all the first and second partial derivatives reported by grad and hess (including the mixed one of two-argument functions) are those of the function, with both propagation modes.',
 ['inputs'],'every function, every point of its domain',
 'test/math2.cpp and test/deriv2.cpp sample each function at a handful of points in a narrow range.',
 [MA],[('derivative expressions','uncertainties/math.hpp, UReal2 overloads')],[],['first_order_n()','grad','hess'])
p('C09','Second-order propagation obeys the chain rule for any program',
 'For every expression built from second-order variables with operators, functions and the low-level unary/binary interfaces, the gradient and every element of the hessian of the result with respect to the independent variables equal the true first and second derivatives of the composed function, including elements that cancel or are zero in one operand only, mixed derivatives that arise only from the nonlinearity of the outer function, repeated operands and any number of independent variables.',
 ['programs','inputs'],'all straight-line programs over UReal2 and all values',
 'test/deriv2.cpp tries a fixed list of one- and two-variable functions; whether a mixed derivative is stored or implicit depends on the history of the operands.',
 [U2,H],[('unary/binary merge sparse gradients and hessians','uncertainties/ureal2.hpp: unary, binary'),('ConstHessIt visits the sparse triangular hessian','uncertainties/internal/hessgrad.hpp')],[('diagmap/trimap','gradient, hessian diagonal, moments; off-diagonal hessian',H)],['grad','hess','first_order_n()'])
p('C10','Second-order moments are exact for the quadratic expansion',
 'The mean correction, variance, third and fourth central moments, skewness and kurtosis of a second-order variable are exactly the moments of its second-order Taylor expansion when the independent variables have the moments they were constructed with, for any number of independent variables, any pattern of null and non-null derivatives and any (asymmetric, discrete, heavy-tailed) distributions.',
 ['inputs','programs'],'all gradients, hessians (sparsity patterns) and all realisable moments of the independent variables',
 'test/distr.cpp compares with tolerance of a Monte Carlo for a few functions of normal variables, for which odd moments vanish and whole groups of terms are never exercised.',
 [M,U2,'dev/ureal2.py'],[('expanded sums over index patterns','uncertainties/internal/moments.hpp: compute_m1..compute_m4'),('centering','uncertainties/ureal2.hpp: update_mom')],[],['m(1..4)','s()','skew()','kurt()','n()'])
p('C11','Second-order covariance and correlation are exact for the quadratic expansion',
 'The covariance of two second-order variables is exactly the covariance of their second-order expansions for any overlap of the independent variables they depend on; it is symmetric, cov(x,x) equals var(x) and m(2), it vanishes for variables without common independent variables, it is bilinear, and corr = cov/(s s) stays within [-1,1].',
 ['inputs','programs'],'all pairs of gradients/hessians with arbitrary overlaps and moments',
 'the tests check covariance only through a few sums of two variables; terms with third and fourth moments and mixed hessian elements of both operands need general inputs.',
 [M,U2],[('compute_c2','uncertainties/internal/moments.hpp'),('cov','uncertainties/ureal2.hpp')],[],['cov','corr','var'])
p('C12','The two propagation modes differ only in the sign of the bias correction',
 'For the same program, variables with propagation mode mean and est have the same first-order mean, derivatives, variance, covariance and higher moments, and their n() is the first-order mean respectively plus and minus the second-order correction m(1); nom, sdev, var and formatting are consistent with n(), s() and m(2) in both modes.',
 ['programs','inputs'],'all programs run in both modes',
 'tests run formulas mostly in one mode and check the other on single expressions.',
 [U2],[('propsign, n()','uncertainties/ureal2.hpp')],[],['n()','m(1)','first_order_n()'])
p('C13','Second-order variables agree with first-order ones to first order',
 'Running the same program on first- and second-order variables gives the same first-order mean and the same first derivatives with respect to each independent variable, and whenever the computation is linear the same deviation, covariances and correlations.',
 ['programs'],'all programs on both classes',
 'no test runs one program on both classes.',
 [U,U2],[('shared definitions of operators and functions','uncertainties/ureal.hpp, uncertainties/ureal2.hpp, uncertainties/math.hpp')],[],['first_order_n()','grad','s()','cov'])
p('C14','Formatting shows the mean and deviation correctly rounded and aligned',
 'For every variable and every number of requested digits, the formatted string parses as a mean and a deviation, in plain or common-exponent notation, each within half a unit of the last shown digit of the true value (up to rounding errors of the numeric type), with the right sign, both ending at the same decimal place, including values that round up to a power of ten, means much smaller or larger than the deviation, null means, negative numbers and very small or very large magnitudes. Null or non-finite deviations and non-finite means are shown as each number separately with its sign, nan and inf being written out.',
 ['inputs'],'all means, deviations (all binades) and digit counts',
 'test/format.cpp has a table of fixed strings; the carries (9.99 to 10.0), alignment and notation choice depend jointly on mean, deviation and digits.',
 [IO,I],[('mantissa/exponent extraction, rounding and dot insertion','uncertainties/io.hpp; uncertainties/impl.hpp: insert_dot, format_exp')],[],['format()','operator<<'])
p('C15','The number of uncertainty digits follows the documented rule',
 'The deviation is written with floor(errdig) significant digits, or one more exactly when the decimal logarithm of its mantissa is smaller than the fractional part of errdig or when rounding carries it to a power of ten; a common exponent is used exactly when the last shown digit is above the units or the larger number is below 0.1, and then the larger number has one digit before the point; values without a positive finite deviation are written with six significant digits. The free function, the member function and the stream operator produce the same text for the same options, for both variable classes and plain numbers; the separator is inserted verbatim; errdig below 1 or not a number throws std::invalid_argument.',
 ['inputs'],'all deviations and all (also fractional) digit counts, separators, classes',
 'the table in test/format.cpp samples integer and half-integer digit counts on a few mantissas.',
 [IO,C],[('ndigits/naive_ndigits','uncertainties/io.hpp')],[],['format()','operator<<'])
p('C16','Correlated generation reproduces the requested means and covariance',
 'For every vector of means and every positive semidefinite covariance matrix of matching size (singular, diagonal, badly scaled or permuted included), the generated variables have those means and that covariance matrix within rounding, in the given order, using only the documented (lower, column-major) triangle; indefinite matrices and mismatching sizes are rejected with an exception and an empty input gives an empty output.',
 ['inputs'],'all sizes, means and covariance matrices, valid or not',
 'test/ureals.cpp tries random positive definite matrices and test/smallureals.cpp is disabled; singular, pivoted and indefinite matrices and wrong sizes are not covered.',
 [US],[('LDLT factorisation, transpositions, rebuild','uncertainties/ureals.hpp')],[],['nom','cov_matrix'])
p('C17','Covariance-matrix helpers are the elementwise definition',
 'cov_matrix and corr_matrix return, for iterators and containers alike and for both classes, the matrix whose (i,j) element is cov or corr of elements i and j in order; corr2cov multiplies each correlation by the two deviations and rejects inconsistent sizes with std::invalid_argument; nom_vector lists the means in order; output iterators are advanced past exactly n*n elements and nothing beyond is written.',
 ['inputs'],'all vectors of variables of any length, containers and iterator kinds',
 'test/stathpp.cpp only compiles the header; matrices are checked indirectly in test/ureals.cpp.',
 [ST],[('outer, cov_matrix, corr_matrix, corr2cov, nom_vector','uncertainties/stat.hpp')],[],['returned matrices'])
p('C18','Conversions between numeric types and modes preserve everything',
 'Converting a first-order variable to another numeric type, or a second-order variable to another numeric type and/or propagation mode, keeps mean, derivatives, moments, independence and all correlations up to the rounding of the narrower type: converted variables have the same covariances among themselves as the originals, keep their id, and a widening conversion and back is the identity.',
 ['histories','inputs'],'all variables produced by arbitrary programs, all pairs of types and modes',
 'test/cast2.cpp checks that a few conversions compile and keep single numbers.',
 [U,U2,H],[('conversion operators and constructor','uncertainties/ureal.hpp, uncertainties/ureal2.hpp, uncertainties/internal/hessgrad.hpp')],[],['n()','cov','m()','grad','hess','indepid()'])
p('C19','Predefined distributions have their true first eight moments',
 'For all valid parameters, the variables made by normal, uniform and chisquare have the mean, deviation and (through quadratic functions of the variable) all the central moments up to the eighth of those distributions, in both modes and for all numeric types; a null chisquare is the exact number 0, invalid parameters (negative deviation, left > right, k < 0) throw std::invalid_argument, and each call gives a new independent variable.',
 ['inputs'],'all parameters of each distribution',
 'test/distrhpp.cpp checks a few parameters; moments 5-8 only enter variance, skewness and kurtosis of nonlinear functions.',
 [D],[('tables of standardized moments','uncertainties/distr.hpp')],[],['n()','m()','grad'])
p('C20','Impossible moments are rejected and possible ones accepted',
 'A second-order variable can be constructed from any first eight moments of a real distribution that is not on the border of the allowed region, given either as central or as standardized moments, and the constructed variable has those moments; a set of moments whose Hankel matrix has a clearly negative eigenvalue is rejected with std::invalid_argument unless checking is disabled by a negative threshold, a positive threshold accepts exactly violations within it, and a negative deviation is always rejected.',
 ['inputs'],'all arrays of moments, all thresholds',
 'test/checkmom.cpp tries a few known distributions and a few invalid arrays.',
 [CM,U2],[('smallest eigenvalue of the 5x5 Hankel matrix','uncertainties/internal/checkmoments.hpp'),('constructors','uncertainties/ureal2.hpp')],[],['constructor','m()'])
p('C21','Function factories with explicit derivatives propagate those derivatives',
 'Function objects made with uunary, ubinary, uunary2 and ubinary2 from a function and its explicit derivatives evaluate each callable at the (first-order) means of the arguments, in argument order, and propagate exactly those values as mean, first and second derivatives, for any variables, repeated calls, copies of the object and aliasing arguments.',
 ['inputs','histories'],'all callables and all arguments',
 'test/functionshpp.cpp tries a few functions at fixed points where e.g. swapped derivatives may coincide.',
 [F],[('uunary, ubinary, uunary2, ubinary2','uncertainties/functions.hpp')],[],['n()','cov','grad','hess'])
p('C22','Factories with numerical derivatives use the documented difference formulas',
 'Function objects made without (some) explicit derivatives propagate the derivatives given by the documented finite differences with the given step (forward for first-order, forward of the given first derivatives or central for second-order, including the mixed one), so they are exact within rounding for polynomials for which the formula is exact and within the documented order of the step for smooth functions, with the default step too.',
 ['inputs'],'all smooth functions, points and steps',
 'test/functionshpp.cpp compares to a loose tolerance at single points, which cannot tell the order of the formula.',
 [F],[('finite differences, default_step','uncertainties/functions.hpp')],[],['cov','grad','hess'])
p('C23','The library is generic in the numerical type',
 'With float, long double, multiprecision floating point and (for first-order arithmetic) exact rational numbers, propagation, functions, moments, formatting and matrix helpers give results accurate to the precision of that type, never narrowing through double, and exact for exact types.',
 ['configurations','inputs'],'all programs and numeric types',
 'the mpfr tests run single computations and print or compare loosely, so a narrowing to double in one code path is not visible.',
 [U,U2,MA,IO,US,D,F,M],[('templates on Real, using std::f + argument-dependent lookup','all headers')],[],['n()','cov','grad','m()','format()'])
p('C24','Derivatives with respect to a variable are right and misuse is rejected',
 'For both classes, f.grad(x) is the derivative of f with respect to the independent variable x (or to the one-variable function x of it), also when f itself depends on x only or is exact, and zero if f does not depend on x; f.hess(x,y) is the second derivative, symmetric in x and y and zero when absent; both throw std::invalid_argument when the argument is dependent or carries no uncertainty, and hess also when its arguments are different functions of the same independent variable.',
 ['inputs','programs'],'all f, x, y produced by arbitrary programs',
 'test/deriv2.cpp uses freshly constructed independent variables and results depending on all of them only.',
 [U,U2],[('grad, hess','uncertainties/ureal.hpp, uncertainties/ureal2.hpp')],[],['grad','hess'])
p('C25','Documented cost guarantees hold',
 'Constructing, copying and applying unary functions to independent first-order variables uses no heap memory; accumulating N independent variables with += costs a number of numeric operations and copies proportional to N (up to logarithms), and binary operations, variance and covariance are linear in the number of independent variables involved. The deviation of a dependent non-const variable is computed once and kept until the variable changes.',
 ['inputs','histories'],'all numbers of variables and kinds of operations',
 'test/accumulate.cpp is a benchmark that asserts nothing.',
 [U],[('id/sdev representation, binary_assign','uncertainties/ureal.hpp')],[],['allocation count','operation count of the numeric type'])
p('C26','No input or history causes undefined behaviour, crash or hang',
 'Any sequence of public operations on variables of either class, with any finite, infinite, not-a-number, subnormal, zero or extreme argument, either returns normally or throws a standard exception: no invalid memory access, leak, undefined behaviour, failed internal assertion or endless computation.',
 ['inputs','histories'],'all operation sequences with special values, under address and undefined-behaviour sanitizers',
 'tests are built without sanitizers and with ordinary numbers only.',
 [U,U2,H,M,MA,IO,US,ST,D,F],[('value semantics, checked iterators and assertions','all headers')],[],['process exit, sanitizer reports'])
p('C27','Finiteness predicates reflect every coefficient',
 'isfinite(x) is true exactly when the mean and the deviation of a first-order variable are finite, or when the mean and all first and second derivatives of a second-order variable are finite; isnormal is the same with normal numbers (null mixed second derivatives aside), whichever coefficient (mean, one of the derivatives, an off-diagonal second derivative) is the offending one.',
 ['inputs','programs'],'all variables and all positions of a non-finite, zero or subnormal coefficient',
 'no test calls these predicates on second-order variables.',
 [MA,U2],[('isfinite/isnormal, all','uncertainties/math.hpp, uncertainties/ureal2.hpp')],[],['isfinite','isnormal'])
p('C28','Headers work alone, in any order and combination, in many translation units',
 'Every public header compiles when included alone and in any order and combination with the others, the features of the included headers work and give the same results whatever the order, with and without the extern-template options, in C++11 and later, with one translation unit including impl.hpp and any number of others using the library together. The templates accept every container and iterator that meets the documented requirements (pointers, lists, deques, output iterators included).',
 ['configurations'],'all subsets and orders of headers, options, language standards and partitions in translation units',
 'the *hpp tests compile each header alone in one order only.',
 [C,U,U2,MA,F,IO,ST,US,D,I],[('include guards, forward declarations in core.hpp, extern templates in impl.hpp','all headers')],[],['compilation, linking and results'])
p('C29','Results are right over the whole range of the numerical type',
 'At whatever magnitude of means and deviations the results (variances and moments included), the partial derivatives and their products with the deviations are normal numbers of the type, the operators and the mathematical functions give the right mean, deviation, covariances, correlations and moments at first and second order, even where a naive intermediate expression (the square of an argument, the product of two variances) would overflow or underflow. Multiplying variables by powers of two multiplies every statistic (variance, covariance, moments, covariance matrices, and those of variables produced from a covariance matrix) by the corresponding power, leaving correlations and standardized quantities unchanged.',
 ['inputs'],'all magnitudes representable in float and double',
 'tests use numbers of order one; an expression that squares its argument is right there and gives zero, infinity or NaN elsewhere.',
 [U,U2,MA,M,US,ST],[('derivatives of operators and functions','uncertainties/ureal.hpp, uncertainties/ureal2.hpp, uncertainties/math.hpp'),('corr, skew, kurt, thresholds','uncertainties/ureal.hpp, uncertainties/ureal2.hpp, uncertainties/ureals.hpp, uncertainties/stat.hpp')],[],['n()','s()','var','cov','corr','m()','grad','hess'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['title']
    import re
    n=len(re.findall(r'\.(\s|$)',x['statement']))
    assert n<=3,(x['id'],n)
