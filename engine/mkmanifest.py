import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Bounded: every value of every symbolic input (lengths, chunk sizes, range bounds, consumed counts, panic positions) within the stated '
        'bounds, for every operation history up to the stated depth; the encoding is regenerated from the compiler\'s IR of the working tree '
        'on every run; counterexamples are replayed on the compiled code before they are reported. Trusts rustc, the IR semantics of the '
        'engine (sampled paths are cross-checked natively on every run) and z3. Nothing is claimed outside the bounds.')
CONC = (' Concurrent part: all interleavings of the stated thread programs at the granularity of atomic operations and wrapped-iterator calls, '
        'as one solver query per combination of thread paths (sequentially consistent values; happens-before from the orderings in the code).')
SEQT = 'symbolic execution of the compiled LLVM IR, z3 over all inputs of bounded histories'
CONCT = SEQT + '; interleavings as solver variables'
import sys
sys.path.insert(0, os.path.join(V, 'engine'))
import props
checks = []
NA = []
for i in range(1, 20):
    p = 'C%02d' % i
    if p in props.NOT_APPLICABLE:
        NA.append(dict(property=p, reason=props.NOT_APPLICABLE[p]))
        continue
    conc = p in props.CONC
    checks.append(dict(property=p, quick_cmd='./check.sh %s quick' % p, thorough_cmd='./check.sh %s thorough' % p,
                       technique=props.TECHNIQUE.get(p, CONCT if conc else SEQT), level='model_checking',
                       level_note=props.NOTES.get(p, NOTE + (CONC if conc else ''))))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=NA,
               notes='All checks are ./check.sh <id> <tier>; see DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
