TECH = 'value-graph (GVN/gated-SSA) equivalence of optimised LLVM IR with loop summaries and order-zone abstract interpretation'
NOTE = ('Decided on the value graph of the current source for all operand sizes and contents: `proved` obligations are identities of '
        'normal forms or order-closure facts; `agrees` means random interpretation of the normal forms found no difference; `unknown` '
        'is outside the analysis and never reported. Trusts clang 18 as the front end, the storage invariant as precondition '
        '(itself an obligation of C05), and that heap allocation succeeds.')


def P(id, title, statement, over, text, why, files, mech, technique=TECH, level_note=NOTE):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique,
                level_note=level_note)


B = 'include/etr_bits/'
PROPS = [
 P('C01', 'Elementwise arithmetic follows the recycling rule for every length and type',
   'For any two non-empty operands of + - * / ^ (double and integer vectors, logical vectors mixed with numeric operands, borrowed vectors, scalars, nested expressions) the '
   'result has the length of the longer vector operand and its i-th element is the operator applied to element i modulo length of each operand, '
   'promoted to the common numeric type; / is always a floating point division. An empty vector operand is reported as an error and never divides by zero or reads outside the storage.',
   ['inputs', 'programs'], 'all lengths, all element values, all element type combinations, nested expressions',
   'Tests use a few short vectors, mostly of equal length and of type double; recycling of unequal lengths on each side and in nested expressions is sampled at single points.',
   [B + 'BinaryCalculations.hpp', B + 'Core/Utils.hpp', B + 'Vector/VectorClass.hpp'],
   [('element access and size of binary expressions', B + 'BinaryCalculations.hpp: BinaryOperation::operator[], size'),
    ('safe_modulo', B + 'Core/Utils.hpp')]),
 P('C02', 'Comparisons are elementwise, recycled, and != is the complement of ==',
   'For non-empty operands element i of a comparison expression is true exactly when the relation holds between the recycled elements i (numeric equality '
   'with a tolerance of 1e-3), the length is that of the longer operand, and storing or reading it yields the truth values. != is the complement of == on every element, '
   'a > b equals b < a and a >= b equals b <= a. A logical vector used as a condition is its first element, with a warning unless it has length one; an empty operand is an error.',
   ['inputs', 'programs'], 'all lengths, values and element type combinations',
   'Tests compare a few constant vectors; borderline values (distance near 1e-3, NaN, infinities) and mixed types are not enumerable.',
   [B + 'BinaryCalculations.hpp', B + 'Core/Utils.hpp'],
   [('comparison functions', B + 'BinaryCalculations.hpp: Equal, Smaller, ...'), ('condition conversion', B + 'Vector/VectorClass.hpp: operator RetType')]),
 P('C03', 'Unary minus and the mathematical functions act elementwise on every operand kind',
   'sin, cos, tan, sinh, cosh, tanh, asin, acos, atan, exp, ln, sqrt and unary minus applied to a vector, borrowed vector or expression give a result of the same length whose element i '
   'is the function of element i, also when nested in other expressions or stored in a vector. Applied to a scalar they give the function of the scalar; an empty operand is an error.',
   ['inputs', 'programs'], 'all lengths, all values, all operand kinds',
   'Tests evaluate each function on one short vector.',
   [B + 'UnaryCalculations.hpp'], [('UnaryOperation', B + 'UnaryCalculations.hpp')]),
 P('C04', 'Assignment and construction store the complete right hand side, evaluated before',
   'After assigning or constructing a vector from a scalar, vector, borrowed vector, concatenation or any expression, its length is that of the right hand side and element i is the right hand side\'s '
   'element i converted to the element type of the target, all evaluated on the values before the assignment even if the target occurs on the right hand side. '
   'Copies are independent: later changes to either side, or to any other operand, do not affect the other.',
   ['inputs', 'programs', 'histories'], 'all lengths, types, element values, aliasing patterns and statement sequences of the analysed shapes',
   'Aliasing between target and operands combined with unequal lengths and prior state of the target cannot be enumerated by examples.',
   [B + 'Vector/AssignmentOperator.hpp', B + 'Vector/Constructors.hpp', B + 'Core/BaseStore.hpp'],
   [('temporary evaluation buffer and swap', B + 'Vector/AssignmentOperator.hpp: temp, moveit')]),
 P('C05', 'Vector storage is memory safe and every block is released exactly once',
   'No construction, copy, move, assignment, resize, append, fill or subset access reads or writes outside the storage of a vector; its length never exceeds its capacity and its capacity never exceeds '
   'the block it owns; every owned block is released exactly once and never used afterwards, and caller-owned memory is never released. '
   'Newly obtained storage starts zeroed, operations keep the remaining elements, sizes below one are rejected with an error, and empty vectors yield an error or an empty result, never a wild access.',
   ['inputs', 'histories', 'programs'], 'all sizes, capacities and states satisfying the storage invariant, all statement sequences of the analysed shapes',
   'An off-by-one in capacity bookkeeping or an ownership slip shows only for particular length/capacity combinations and usually not as a wrong value.',
   [B + 'Core/BaseStore.hpp', B + 'Vector/VectorClass.hpp', B + 'Vector/AssignmentOperator.hpp', B + 'Vector/Constructors.hpp'],
   [('Buffer: allocation, realloc, moveit', B + 'Core/BaseStore.hpp')]),
 P('C06', 'Borrowed memory is written in place, never beyond its extent, never released',
   'A vector constructed as a borrow of n elements at an address shows exactly those elements; assigning to it, or to subsets or elements of it, writes the converted values into that '
   'memory in place and changes only the addressed elements. Nothing outside the n elements is read, written or released, more elements than fit are an error, a scalar makes its length one, '
   'and a vector that copies from it is independent. An owned vector constructed from a pointer copies the data and leaves the caller\'s memory alone.',
   ['inputs', 'histories', 'programs'], 'all extents, lengths, contents and right hand sides of the analysed shapes',
   'Tests borrow one small array; overruns and wrong ownership of caller memory are silent for most sizes.',
   [B + 'Core/Borrow.hpp', B + 'Vector/AssignmentOperator.hpp', B + 'Vector/Constructors.hpp'],
   [('Borrow', B + 'Core/Borrow.hpp'), ('borrow branches of operator=', B + 'Vector/AssignmentOperator.hpp')]),
 P('C07', 'Reading a vector subset yields exactly the selected elements in order',
   'subset(v, index) has one element per selected position and its j-th element is v at the j-th selected position: positive 1-based integer or (truncated) numeric positions in the given order '
   'with repetition, TRUE positions of a recycled logical index in increasing order, TRUE for all and a scalar for one element. The index may be a variable, a temporary or an expression, a scalar index any number type, and the subset may occur '
   'in expressions, assignments and nested subsets. Iterating over a subset visits the selected elements in order. Positions outside 1..length and selections of nothing are errors, and v and the index are unchanged.',
   ['inputs', 'programs'], 'all vector lengths, index vectors of every type and length, all operand kinds',
   'Index values, their types and lengths relative to the vector form an unbounded space; tests use a handful of constant indices.',
   [B + 'Subsetting/VectorSubsetting.hpp', B + 'Subsetting/UtilsSubsetting.hpp', B + 'Core/BaseStore.hpp'],
   [('calcInd and subset', B + 'Subsetting/VectorSubsetting.hpp'), ('Subset::operator[]', B + 'Core')]),
 P('C08', 'Assigning to a vector subset changes exactly the selected elements',
   'subset(v, index) = rhs sets the element at the j-th selected position to the j-th element of rhs (or to the scalar) converted to v\'s type, the last assignment to a position winning, '
   'and changes nothing else: other elements, length and shape of v, the index and the right hand side stay. The right hand side is evaluated completely before anything is written, also if it '
   'refers to v. A right hand side of different length, positions outside 1..length and selections of nothing are errors.',
   ['inputs', 'programs'], 'all vector lengths, index vectors, right hand sides and aliasing patterns of the analysed shapes',
   'Overlap between source and target positions and length mismatches only matter for particular index combinations.',
   [B + 'Subsetting/VectorSubsetting.hpp', B + 'Vector/AssignmentOperator.hpp'],
   [('subset branches of operator=', B + 'Vector/AssignmentOperator.hpp')]),
 P('C09', 'Reading a matrix subset yields the selected rows and columns',
   'subset(m, rows, cols) yields, for every operand kind of each index (TRUE, FALSE, integer or numeric scalar, integer, numeric or logical vector, temporary, expression), the element of m at the i-th selected row '
   'and j-th selected column as element (i, j) in column order; it is a matrix of that many rows and columns unless an index is a scalar, then a vector. Numeric positions are 1-based and truncated, logical indices recycle over '
   'their own dimension, TRUE selects all. A position outside its own dimension, FALSE, an empty selection, a logical index longer than the dimension and a base that is no matrix are errors. m and the indices stay unchanged.',
   ['inputs', 'programs'], 'all matrix shapes, all index values, lengths, types and operand kinds of both dimensions',
   'The index kinds combine pairwise and each combination has its own overload; tests use square or constant shapes where swapped dimensions, strides or recycling go unnoticed.',
   [B + 'Subsetting/MatrixSubsetting.hpp', B + 'Subsetting/UtilsSubsetting.hpp'],
   [('calcIndMatrix and subset', B + 'Subsetting/MatrixSubsetting.hpp')]),
 P('C10', 'Assigning to a matrix subset changes exactly the selected cells',
   'subset(m, rows, cols) = rhs sets the cell at the i-th selected row and j-th selected column to the matching element of rhs in column order (or to the scalar), converted to the type of m, the last assignment to a cell '
   'winning, and changes nothing else: other cells, length and shape of m, the indices and rhs stay. rhs is evaluated completely before anything is written, also if it refers to m. A right hand side of '
   'another length, a position outside its own dimension, an empty selection, an overlong logical index and a base that is no matrix are errors.',
   ['inputs', 'programs'], 'all matrix shapes, index values, types and operand kinds, right hand sides and aliasing patterns of the analysed shapes',
   'Which cells change depends on shape, both index contents and the right hand side together; tests use few constant combinations.',
   [B + 'Subsetting/MatrixSubsetting.hpp', B + 'Vector/AssignmentOperator.hpp'],
   [('calcIndMatrix', B + 'Subsetting/MatrixSubsetting.hpp'), ('subset branches of operator=', B + 'Vector/AssignmentOperator.hpp')]),
 P('C11', 'Element access addresses exactly one element and checks its position',
   'at(v, k) of a variable is its k-th element counted from 1 (numeric k truncated) and at(m, r, c) of a matrix variable, expression or subset is the cell in row r and column c; v[k] counts from 0 and back() is the last element. '
   'Reading changes nothing, writing through the result changes that element and no other, and neither length nor shape. A position outside the vector or outside its own dimension, and two indices for an object that is no matrix, are errors, never a wild '
   'access. Iterating a variable visits its elements once in order, fill sets each of them, length is the number of elements, and an empty vector has no last element and no value.',
   ['inputs', 'programs'], 'all lengths, shapes, positions of both index types, element types and operand kinds',
   'Off-by-one and swapped-dimension faults show only at the boundary positions and with non-square shapes of the untested overloads.',
   [B + 'Subsetting/at.hpp', B + 'Core/BaseStore.hpp', B + 'Core/Borrow.hpp', B + 'Core/SubsetClass.hpp', B + 'Vector/VectorClass.hpp'],
   [('at overloads', B + 'Subsetting/at.hpp'), ('operator[] of stores', B + 'Core/BaseStore.hpp')]),
 P('C12', 'Matrix shape carries through expressions, copies and assignments',
   'An operation or function applied to a matrix, or to a matrix and an operand of the same shape, a scalar, or a vector not longer than the matrix, is a matrix of that shape with each element computed from the elements at the same position; '
   'an operation on plain vectors is no matrix. A variable that is assigned or constructed from an expression, matrix or vector takes over exactly its shape, elements and length whatever it was before, and dim reports this shape '
   'for variables and expressions; dim of an object that is no matrix is an error.',
   ['inputs', 'programs', 'histories'], 'all shapes, previous states of the target, operand kinds and types, expressions up to the analysed nesting',
   'Shape is tracked separately from the data, so a stale or swapped shape is invisible until a later matrix access; tests inspect few shapes.',
   [B + 'BinaryCalculations.hpp', B + 'UnaryCalculations.hpp', B + 'Vector/AssignmentOperator.hpp', B + 'Core/MatrixParameter.hpp', B + 'Helper.hpp'],
   [('MatrixParameter', B + 'Core/MatrixParameter.hpp'), ('operator=', B + 'Vector/AssignmentOperator.hpp')]),
 P('C13', 'New vectors and matrices have the requested size, type, shape and content',
   'vector_numeric, vector_integer and vector_logical yield a fresh vector of that element type with exactly the requested number of elements, all zero, and no matrix; matrix(v, r, c) yields an r times c matrix '
   'of v\'s type that holds the scalar everywhere or the elements of v in column order. A size may be an integer, a number (truncated, with a warning if something is cut off), a vector or an expression; a longer size vector is warned about by matrix and its first element '
   'is used, and vector_* require length one. A size below one, an empty size vector and a vector of other length than r * c are errors. With an AllVars object the constant of the given index, and nothing else, gets this size.',
   ['inputs', 'programs'], 'all sizes, contents and argument kinds of the analysed combinations, all previous states of the target',
   'Each argument kind has its own overload or branch; tests use one or two constant sizes per function and square matrices.',
   [B + 'Allocation/Vector.hpp', B + 'Allocation/Matrix.hpp', B + 'Allocation/AllocationUtils.hpp', B + 'Allocation/ScalarForDeriv.hpp', B + 'Vector/Constructors.hpp'],
   [('convertSize, createRVec', B + 'Allocation/AllocationUtils.hpp'), ('matrix', B + 'Allocation/Matrix.hpp')]),
 P('C14', 'Ranges, repetition and concatenation yield exactly the promised elements',
   'a:b runs from a in steps of one upwards (a < b) or downwards without passing b; it is integer for integer operands and numeric otherwise, for every kind of operand (scalar, variable, expression; first element of a vector, '
   'warning if longer). rep(x, n) is x n times over, in order, in the type of x; n is truncated, its first element is used (warning if longer), n below one is an error. coca(...) holds the elements of its arguments in order, '
   'converted to the common type. Results are plain vectors, operands stay as they are, and empty operands of ranges and repetitions are errors.',
   ['inputs', 'programs'], 'all bounds (up to rounding of non-integral ones), counts, lengths and contents, argument kinds and types of the analysed combinations',
   'Length and fill loop are computed separately, per overload; mismatches show for particular bounds, lengths and type combinations only.',
   [B + 'Allocation/Colon.hpp', B + 'Allocation/Rep.hpp', B + 'Coca.hpp'],
   [('colonInternal', B + 'Allocation/Colon.hpp'), ('repInternal', B + 'Allocation/Rep.hpp'), ('coca', B + 'Coca.hpp')]),
 P('C15', 'Interpolation passes through the knots and uses the enclosing segment',
   'For finite, strictly increasing times x and values y of equal length, li(t, x, y) lies on the straight line of the segment that contains t and cmr(t, x, y) on the cubic through its end points with the tangents of the neighbouring '
   'knots (in the first and last segment the missing neighbour is the knot at the other end, the time after the last being first plus last). Both equal y at every knot and the first or last value outside the range of x. '
   'Different lengths, fewer than four knots for cmr, an empty operand and for li a t that is not of length one are errors, cmr warns about a longer t, and no operand changes.',
   ['inputs', 'programs'], 'all numbers of knots, knot positions, values and evaluation points, operand kinds of the analysed combinations',
   'The tests compare one data set with a tolerance of 0.1 and evaluate no point in the first or last segment.',
   [B + 'Interpolation.hpp'],
   [('li', B + 'Interpolation.hpp'), ('cmrInternal', B + 'Interpolation.hpp')]),
 P('C16', 'Derivative variables carry the derivative of every value they hold',
   'In an AllVars program each variable holds as many derivatives as elements. Assigning an expression of sums, differences, products, quotients, sinus, comparisons, variables and constants gives the target its value and, element by element, its derivative by the '
   'sum, product, quotient and chain rule from the operands\' current values and derivatives (0 for a constant operand and for comparisons), also when the target occurs on the right, when operands have different lengths (each operand recycles as a whole, as for values) and when they are borrowed. '
   'initBuffer gives the variables copies of its arguments in order, initBorrow binds the borrowed ones to the memory of its arguments. A constant assigned to the chosen independent variable has derivative 1, to any other 0; before its first assignment the chosen variable has derivative 1, the others 0. Other variables keep values and derivatives; get_derivs returns them in order.',
   ['inputs', 'histories'], 'all values, derivatives, lengths of the variables, choices of the independent variable, expressions up to the analysed nesting; by induction all assignment sequences',
   'Derivatives are computed in a second traversal with its own indexing and operator table; tests use one length, few operators and two-digit tolerances.',
   [B + 'Derivatives/DerivTypes.hpp', B + 'Derivatives/VarPointer.hpp', B + 'Derivatives/AllVars.hpp', B + 'Derivatives/getDerivs.hpp', B + 'Vector/DerivativeCalc.hpp', B + 'Vector/AssignmentOperator.hpp', B + 'Core/Traits.hpp'],
   [('walkTD', B + 'Vector/DerivativeCalc.hpp'), ('getDeriv, setDeriv', B + 'Derivatives/VarPointer.hpp'), ('fDeriv traits', B + 'Core/Traits.hpp')]),
 P('C17', 'Violated checks throw, warnings continue, nothing else is written',
   'Every requirement check goes through etr::ass, which throws a std::runtime_error exactly when its condition is false, and every warning through etr::warn, which writes to standard error exactly when its condition is false and lets the computation continue with its result; '
   'a fulfilled condition does neither, whatever was checked or reported before. No operation other than print writes to standard output, and none but warn to standard error.',
   ['inputs', 'programs'], 'all conditions, sequences of checks, and inputs of the analysed operations',
   'A check with the wrong polarity, that swallows the failure, or turns a warning into a stop is only seen when a test provokes exactly that failure; leftover output is never asserted on.',
   [B + 'Core/Utils.hpp', B + 'Vector/VectorClass.hpp', B + 'Subsetting/at.hpp'],
   [('ass, warn', B + 'Core/Utils.hpp')]),
 P('C19', 'print writes every element once, vectors in order and matrices row by row',
   'print(x) of a plain vector, variable, borrowed object, subset or expression writes its elements in order, each followed by a blank, and ends the line; of a matrix it writes one line per row with the elements of that row in column order, each followed by a tab. '
   'Logical values appear as true and false independent of what was printed before. A scalar or text is written once, print() ends a line. print(v, av) does the same for a derivative variable. Writing a plain vector, borrowed object or subset (or its storage) into a stream with << gives `Vec [ `, its elements in order each followed by a blank, and `]`. Printing changes nothing.',
   ['inputs', 'programs'], 'all lengths, shapes, contents, element types and operand kinds of the analysed combinations',
   'No test looks at the output of print, and the row/column indexing is repeated in every overload.',
   [B + 'Printing.hpp'],
   [('print', B + 'Printing.hpp')]),
 P('C20', 'isNA and isInf mark exactly the undefined and the infinite elements',
   'isNA(x) and isInf(x) yield a fresh logical vector of the length of x that is true exactly where x is NaN respectively plus or minus infinity, for numeric, integer and logical variables, borrowed objects and binary expressions, and the same for scalars; '
   'x stays as it is. The scalar conversions d2i, i2d, d2b, i2b and b2d convert by value (truncation, nonzero is true), length of a scalar is one.',
   ['inputs', 'programs'], 'all lengths and contents including NaN and infinities, operand kinds of the analysed combinations',
   'Tests use one short vector with one special value; a swapped predicate, a sign, or an index slip needs special values at particular places.',
   [B + 'Helper.hpp', B + 'Core/Utils.hpp'],
   [('isNA, isInf', B + 'Helper.hpp'), ('d2i, d2b', B + 'Core/Utils.hpp')]),
 P('C21', 'Constants and temporaries are not writable, undefined operands do not compile',
   'Writing through a constant vector (elements, at, begin/end, subset, fill, resize, assignment), through a temporary vector or an expression, does not compile. Arithmetic, comparison and mathematical functions of a type that is neither number nor vector, '
   'sizes, indices, interpolation and concatenation operands of such a type, and element-wise operations on vectors of such a type do not compile either, while the same program with legal operands does.',
   ['programs'], 'all programs of the enumerated forms: the rejection is decided by the type checker and does not depend on values',
   'A test suite consists of programs that compile; that a program must be rejected is never exercised by it.',
   [B + 'Subsetting/at.hpp', B + 'Vector/AssignmentOperator.hpp', B + 'Vector/VectorClass.hpp', B + 'Allocation/Rep.hpp', B + 'Allocation/Matrix.hpp', B + 'Subsetting/UtilsSubsetting.hpp'],
   [('static_assert, requires, const overloads', B + 'Vector/AssignmentOperator.hpp')],
   technique='compile-fail witnesses: the type checker on program pairs (legal twin accepted, offending program rejected)',
   level_note='Decided by type checking the current headers together with each enumerated program (clang 18, -fsyntax-only); a program counts only if its legal twin is accepted. Forms that are not enumerated are not covered.'),
 P('C22', 'Operations keep no hidden state and leave the operands they read unchanged',
   'The result of an operation depends on its operands alone: no operation reads or changes mutable state outside its operands, its result and the standard streams, so repeating it gives the same result '
   'and operations on distinct objects do not influence each other in any schedule. Evaluating an expression, function, condition, interpolation or print, reading a subset or element, copying, and using an object as index or right hand side leave storage, length, elements and shape of the operands as they are, '
   'so that concurrent readers of one object are safe.',
   ['schedules', 'histories', 'inputs', 'programs'], 'all schedules, histories, lengths and contents; every function of the headers that the rules of this suite instantiate',
   'A cache, counter or flag that outlives a call, or a write through an operand that is only read, shows after a particular sequence of calls or interleaving of threads; the tests run each operation once, in one thread.',
   [B + 'Core/Utils.hpp', B + 'BinaryCalculations.hpp', B + 'UnaryCalculations.hpp', B + 'Subsetting/UtilsSubsetting.hpp', B + 'Vector/AssignmentOperator.hpp', B + 'Interpolation.hpp'],
   [('operands held by reference', B + 'BinaryCalculations.hpp: l, r'), ('copies before swap', B + 'Vector/AssignmentOperator.hpp: temp')],
   technique='effect analysis of static storage and environment calls over the unoptimised LLVM IR of every instantiated header function, and value-graph frame rules'),
 P('C23', 'A failing operation leaves every object as it was',
   'When an operation ends in an error (illegal index, position, length, size or shape, or an empty operand), every object it was given - the vector, borrowed memory or subset owner that was to be written, an AllVars variable with its derivatives, '
   'a constant, and all operands, indices and interpolation tables - still has the storage, length, elements and shape it had before the call, so that the error can be caught and the object used further. For vectors this also holds when memory runs out: the old block stays owned, once. '
   'Only an assignment through a subset of several positions, some of them illegal, may already have stored elements at positions before the first illegal one.',
   ['inputs', 'histories', 'programs'], 'all lengths, contents, indices and shapes that make the operation fail, and failure of any single memory request',
   'The tests only check that an error is raised; the state left behind shows later, after the error has been caught, and a failing memory request cannot be provoked at a chosen point.',
   [B + 'Vector/AssignmentOperator.hpp', B + 'Core/BaseStore.hpp', B + 'Core/Borrow.hpp', B + 'Subsetting/at.hpp', B + 'Allocation/Vector.hpp', B + 'Derivatives/VarPointer.hpp'],
   [('compute into temp, then swap', B + 'Vector/AssignmentOperator.hpp: temp, moveit'), ('checks before writes', B + 'Core/BaseStore.hpp: resize')]),
]


def N(id, title, statement, reason, files, why='see reason'):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=['inputs'], text='all inputs'), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[]), reason=reason)


NA = [
 N('N01', 'Values exchanged with R keep length, type, contents and protection state',
   'Converting between R objects and vectors preserves length, element values, type and the dim attribute, and objects borrowed from R are protected as long as they are used.',
   'The R mode of the headers does not compile: with declarations of the R, Rcpp and Armadillo interfaces in place, clang still rejects Rf_IsLogical (BorrowSEXP.hpp: R has Rf_isLogical) and PRINT_STREAM (Printing.hpp defines it as itself), and R, Rcpp and Armadillo are not installed. There is no program whose conversions an analysis could decide, and repairing code that can be neither built nor tested against R here would not be small and safe.',
   [B + 'SEXPConversions.hpp', B + 'Core/BorrowSEXP.hpp'], 'No test builds the R mode.'),
 N('N02', 'Random number and distribution functions follow their distributions',
   'Each density, probability, quantile and random number function returns the value of the named distribution for every recycled parameter combination.',
   'Distri.hpp is only part of the R mode, which does not compile (see N01), and needs R\'s Rmath (not installed); the statistical clause additionally quantifies over run-time numerical results no static argument in reach decides.',
   [B + 'Distri.hpp'], 'No test covers distributions in standalone mode.'),
 N('N03', 'Mathematical functions and derivatives are numerically accurate',
   'Results of mathematical functions, interpolation and derivatives are within a stated rounding error of the exact real result.',
   'Rounding error accumulation over unbounded data quantifies over run-time values; static error bounds (intervals) diverge on the recycled loops. C01, C03, C15, C16 decide that the right formula is evaluated, not its rounding.',
   [B + 'UnaryCalculations.hpp', B + 'Interpolation.hpp'], 'Tests compare single values.'),
 N('N04', 'A stored lazy expression stays valid as long as it is used',
   'Any expression object that outlives the full expression creating it evaluates to the value it denoted when it was created.',
   'False by design: expression nodes refer to their operands (that is what makes in-place evaluation lazy); user programs generated by ast2ast never store them. Lifetime errors in user programs are outside /repo\'s source.',
   [B + 'BinaryCalculations.hpp', B + 'UnaryCalculations.hpp'], 'Tests never store expressions.'),
]
