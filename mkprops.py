#!/usr/bin/env python3
"""Writes properties.jsonl (the list lives here because JSON lines are hard to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    I = 'include/ode_num_int/'
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [f if f.startswith('src/') or f.startswith('examples/') else I + f for f in files],
                          'mechanism': [{'name': n, 'where': I + w if not w.startswith('src/') else w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None}})

p('C01', 'Dense vector algebra and views are exact and side-effect free',
  'Every vector operation (assignment, sum, difference, scaling, dot product, norms, resize, swap, clear, element-wise functions, text form) yields what the element-wise definition gives, also when an operand is a sub-range view or a scaled view, and writing through a view changes exactly the elements it covers. Operands that are only read, and copies, are never changed by it; indexing past the end is rejected. No norm hides a not-a-number element.',
  ['inputs', 'histories'], 'all vector sizes (empty included), element values, operand forms (owned, block, nested block, scaled) and sequences of operations',
  'The two vector tests check that a constructor copies its input and that a sized vector is zero; no arithmetic, view or norm is exercised.',
  ['la/VectorTemplate.h'], [('element-wise loops over at(), block and scale proxies', 'la/VectorTemplate.h')], ['operators and accessors of vectors and their views'])
p('C02', 'Sparse matrix algebra and views agree with dense algebra',
  'A sparse matrix of any shape, and each of its block, transposed, scaled and compact (fixed-pattern) forms, reports the elements, pattern, size, norms and printed form of the dense matrix it stands for, and sums, products, matrix-vector and vector-matrix products, identity shifts, resizing, removal, clearing and copying give the results dense algebra gives. Writing through a block changes exactly the elements it covers, and copies are independent of the original.',
  ['inputs', 'histories'], 'all shapes (non-square, empty rows or columns, zero dimensions), patterns, values and operation sequences',
  'No stable test multiplies, transposes or takes a block of a sparse matrix; the manual one prints square examples.',
  ['la/SparseMatrixTemplate.h'], [('map- and vector-based storage, block/transpose/scale proxies, product loops', 'la/SparseMatrixTemplate.h')], ['element access, iteration, operators, printing'])
p('C03', 'LU solves the linear system of the matrix that was set last',
  'For every square sparse matrix whose factorization without pivoting is stable, solving returns a vector that satisfies the system to rounding accuracy, for any number of right-hand sides, and the elements of the matrix can be read back before and after factorization. This holds for the matrix set last, whatever was set, solved or rejected before and whichever of the two ways of setting it (full or fast) is used, also when its pattern or size differs from the previous one. A stencil that is not square, has an empty row or column, or does not cover the diagonal is rejected by the full way.',
  ['inputs', 'histories'], 'all patterns including those with fill-in, all sizes, all histories of set/solve calls on one factorizer',
  'The only LU test factorizes one fixed dense 10x10 pattern: no sparsity, fill-in, reuse, pattern change or rejection.',
  ['lu/LUFactorizer.h', 'lu/util.h'], [('profile (skyline) storage m_p/m_q/m_s, in-place factorization, forward and backward substitution', 'lu/LUFactorizer.h'), ('fast refill with fallback when the layout changes', 'lu/LUFactorizer.h')], ['solve, elementAt, luToMatrix'])
p('C04', 'LU secant update satisfies the secant condition and keeps the pattern',
  'After a secant update with a step s and a change y, the factorized matrix maps s to y in every row that s affects and solves accordingly, its profile is the one it had, and each row of the factors changes by the least amount that achieves this: rows for which the condition already held, or which s does not affect, do not change. Setting a matrix afterwards forgets all updates.',
  ['inputs', 'histories'], 'all factorizable sparse matrices, secant pairs and sequences of updates and solves',
  'No test calls the update.', ['lu/LUFactorizer.h'], [('row-wise update of L and U within the profile', 'lu/LUFactorizer.h')], ['elementAt, luToMatrix and solve after an update'])
json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkprops_more.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkprops_more.py')) else None
with open(json_path, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
