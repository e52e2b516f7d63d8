"""What each check builds and runs."""


def b(name, src, **kw):
    return dict(name=name, src=src, **kw)


PROPS = {
    'C01': dict(
        bins=[b('main', ['props/C01.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random straight-line programs over UReal, compared with a reference model in extended precision with running error bounds.',
    ),
    'C09': dict(
        bins=[b('main', ['props/C09.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random straight-line programs over UReal2, compared with forward automatic differentiation in extended precision with running error bounds.',
    ),
    'C10': dict(
        bins=[b('main', ['props/C10.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random programs and quadratic forms over UReal2 with discrete distributions, moments compared with exact enumeration of the outcomes.',
    ),
    'C11': dict(
        bins=[b('main', ['props/C11.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random programs over UReal2 with discrete distributions, covariances compared with exact enumeration of the outcomes; bilinearity.',
    ),
    'C12': dict(
        bins=[b('main', ['props/C12.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='The same random program, or function, run with both propagation modes; conversions between the modes.',
    ),
    'C13': dict(
        bins=[b('main', ['props/C13.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='The same random program, or function, run on first- and second-order variables.',
    ),
    'C02': dict(
        bins=[b('main', ['props/C02.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random programs over UReal with in-place operators, compared with the reference model of the out-of-place ones.',
    ),
    'C03': dict(
        bins=[b('main', ['props/C03.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Metamorphic: the same random program with and without queries in between; copies.',
    ),
    'C04': dict(
        bins=[b('main', ['props/C04.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random programs over UReal; algebraic laws of the covariance of what they leave.',
    ),
    'C05': dict(
        bins=[b('main', ['props/C05.cpp'], fuzz=True)],
        rule='Random constructions and programs over both classes; ids compared with the set of the independent variables that entered.',
    ),
    'C06': dict(
        bins=[b('stress', ['props/C06.cpp'], flags=['-O2'], ld=['-pthread']),
              b('tsan', ['props/C06.cpp'], flags=['-DC06_TSAN', '-fsanitize=thread'], ld=['-pthread'])],
        rule='Random schedules of threads creating variables and computing with shared const operands, with and without ThreadSanitizer.',
    ),
    'C07': dict(
        bins=[b('main', ['props/C07.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random arguments in the interior of the domain of each function; value and derivatives in quadruple precision, the derivatives by central differences of eighth order.',
    ),
    'C08': dict(
        bins=[b('main', ['props/C08.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random arguments in the interior of the domain of each function; value, first and second derivatives in quadruple precision, the derivatives by central differences of eighth order.',
    ),
    'C14': dict(
        bins=[b('main', ['props/C14.cpp'], fuzz=True)],
        rule='Random means, deviations and numbers of digits; the text is read back and compared with the values in quadruple precision.',
    ),
    'C15': dict(
        bins=[b('main', ['props/C15.cpp'], fuzz=True, ld=['-lquadmath'])],
        rule='Random means, deviations and options of the formatting; digits and notation are read back from the text and compared with the documented rule.',
    ),
    'C16': dict(
        bins=[b('main', ['props/C16.cpp'], fuzz=True)],
        rule='Random means and covariance matrices (definite, singular, badly scaled, permuted, indefinite, of the wrong size); the covariances of what is generated are compared with the matrix asked for.',
    ),
    'C17': dict(
        bins=[b('main', ['props/C17.cpp'], fuzz=True)],
        rule='Random variables, correlation buffers and containers; every element of the matrices is compared with the definition.',
    ),
    'C18': dict(
        bins=[b('main', ['props/C18.cpp'], fuzz=True)],
        rule='Metamorphic: random programs, every result converted to other numerical types and modes and back.',
    ),
    'C19': dict(
        bins=[b('main', ['props/C19.cpp'], fuzz=True)],
        rule='Random distributions and parameters; moments of quadratic functions of the variable compared with those computed from factorials and cumulants.',
    ),
    'C20': dict(
        bins=[b('main', ['props/C20.cpp'], fuzz=True)],
        rule='Random moments, possible and impossible; acceptance compared with the eigenvalues of the Hankel matrix computed with Jacobi rotations, and the moments of quadratic functions with the given ones.',
    ),
    'C21': dict(
        bins=[b('main', ['props/C21.cpp'], fuzz=True)],
        rule='Random callables with values unrelated at each point, random programs of function objects; compared with the chain rule with the values of the callables.',
    ),
    'C22': dict(
        bins=[b('main', ['props/C22.cpp'], fuzz=True)],
        rule='Random smooth functions, points and steps; derivatives compared with the documented difference formulas evaluated in extended precision with error bounds.',
    ),
    'C23': dict(
        bins=[b('main', [('props/C23.cpp', ['-DC23_TYPE=%d' % k]) for k in range(6)], ld=['-lmpfr', '-lgmp'])],
        rule='Random programs, functions, texts, matrices, distributions and callables with long double, multiprecision types and exact rationals; compared with a reference in 100 digits to the precision of the type, exactly for rationals.',
    ),
    'C24': dict(
        bins=[b('main', ['props/C24.cpp'], fuzz=True)],
        rule='Random programs; derivatives of every result with respect to functions of one variable compared with the chain rule, misuse expected to throw.',
    ),
    'C27': dict(
        bins=[b('main', ['props/C27.cpp'], fuzz=True)],
        rule='Variables with chosen coefficients infinite, NaN, null, overflowing or subnormal; the predicates compared with the classification of the coefficients.',
    ),
    'C25': dict(
        bins=[b('main', ['props/C25.cpp'])],
        rule='Random operations and numbers of variables with a numerical type that counts its operations and a counting allocator; growth between N and 2N variables compared with the documented one.',
    ),
    'C26': dict(
        bins=[b('main', [('props/C26.cpp', ['-DC26_PART=%d' % k]) for k in range(6)], san=True, fuzz=True,
                flags=['-fsanitize=float-cast-overflow', '-D_GLIBCXX_DEBUG'])],
        rule='Random histories of public operations with special values, under the address and undefined-behaviour sanitizers with assertions enabled; each operation must return or throw a standard exception, in bounded time.',
    ),
    'C29': dict(
        bins=[b('main', ['props/C29.cpp'], ld=['-lquadmath'])],
        rule='Random arguments of any magnitude of the type; values and derivatives in quadruple precision.',
    ),
    'C28': dict(
        script='c28', cases=40, cases_thorough=1500,
        rule='Random header orders, translation units, options, compilers and language standards; each program is compiled, linked, run, and its output compared with that of the same features in one translation unit.',
    ),
}
