#!/usr/bin/env python3
"""Rewrites sections 5 and 6 of DESIGN.md (planted bugs, defects) from seeded/ and known_findings.jsonl."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(root + '/DESIGN.md').read()
d = d.split('\n## 5. Planted bugs')[0].rstrip('\n') + '\n'
FIRST_MISSED = {
    'latex-key-tag': '`manylatex`: a name for every symbol, all tags (C16)',
    'latex-name-limit': '`manylatex`: sixteen names (C16)',
    'simp-round-limit': '`tallsimp`: products that need up to 40 passes (C03, C04)',
    'subst-list-limit': '`biglist`: lists of up to 32 replacements of every kind (C07)',
    'vec-equal-limit': '`bigveceq`: vectors of up to 40 components (C10)',
    'point-index-byte': '`bigeval`: points of up to 300 coordinates (C01)',
    'unary-point-limit': '`bigevalx` (C12)',
    'ct-point-mask': 'the same formula in the last variables of a long point (C20)',
    'id-narrow-clone': 'names beyond 2^32 in histories (C08)',
    'id-narrow-pd': '`hugeeq`: names that agree in their low 32 bits (C10)',
    'promote-single': '`merge2`: constants of type int and float inside compile-time expressions (C20)',
    'mani-shallow': 'calls of the manipulation functor recorded and compared with the nodes replaced (C13)',
    'ct-rt-short': '`ctrtid` (variables with large numbers in every place of an operation)',
    'eq-float-lhs': 'constants that a float cannot hold among the operands of `GenOps`',
    'symint-id': '`ideq` (objects whose numbers differ by a power of two or ten)',
    'ct-rtconst-plus': 'constants that a float cannot hold, and `merge` in the plan of C20',
    'ct-exp-minus-square': '`ctexp2` (products of all pairs of sums, also of equal ones)',
    'simp-near-one': 'constants within 1e-10 of a neutral element (`NearBin`)',
    'binary-memo': 'probed histories: every object evaluated after every change',
    'vec-equal-ends': '`veq` (long vectors differing in one component)',
    'expr-assign-text': 'command `duo` and `Gen!Twins` (values that print alike)',
    'unary-deep-op': '`Twins` in the equality generators',
    'quad-assign': 'user-defined rule through an assigned quadrature',
    'coord-eq-rhs': 'equations with equal sides',
    'ct-coef-both': 'C26 extended from linear polynomials to any degree (`CoefPolyIs`, generator `Powers`)',
    'latex-copy-proc': 'translator histories with user processors',
    'ct-int-pow4': 'generator kind `ctpow` (integrands of degree 3 and 4)',
    'rt27-const-int': '`ctbig` (constants beyond 32 bits)',
    'ct20-var-vec2': '`ctleaf` (leaves alone)',
    'op-mixed-trunc': '`merge` (runtime constants of other numeric types)',
    'fs-expr-order': '`rops` (every pair of runtime operand classes)',
    'vec-list-first': '`lsubst` (lists with whole vectors in any place)',
    'var-far-equal': 'far ids (differing by 256, 65536)',
}
out = ['\n## 5. Planted bugs\n',
       'Each lies in `seeded/<id>/` and was confirmed with `tools/seedtest.sh` (demo 0 without, 1 with the',
       'patch; the seven tests pass; the check of its property exits 1). The last column says what had to',
       'be added where the check of that time missed it.\n',
       '| id | caught by | needs | first missed, then added |', '|---|---|---|---|']
for s in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{s}/meta.json'))
    out.append(f"| {s} | {m['property']} | {m['needs']} | {FIRST_MISSED.get(s, '')} |")
out += ['\nBesides these, single-token mutations (operators, constants, indices, dropped statements) of the',
        'headers were tried at random (about 190, of which about 70 did not compile). Of those that the tests let pass,',
        'about three quarters were rejected by at least one check at once; the survivors were read one by one:',
        'equivalent changes, unreachable code, behaviour no property speaks about (default ids, the',
        'unfinished `ct_unary_expr`), or gaps, which were closed (quadrature points of reversed intervals,',
        'tags, list substitution, long vectors, printing).']
out += ['\n## 6. Defects found and repaired\n',
        'Every one was shown on the real code by a rejected call; each is one `fix:` commit in /repo and an entry',
        'of `known_findings.jsonl` (status fixed: suppresses nothing). There is no unrepaired known finding.\n',
        '| property | commit | what failed |', '|---|---|---|']
for l in open(root + '/known_findings.jsonl'):
    k = json.loads(l)
    out.append(f"| {k['property']} | {k['commit']} | {k['what']} |")
open(root + '/DESIGN.md', 'w').write(d + '\n'.join(out) + '\n')
