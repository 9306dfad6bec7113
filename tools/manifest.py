import json
T={
'C01':'quad-precision reference oracle (itself checked against brute-force Matsubara sums) observing library evaluations of random integrands',
'C02':'quad-precision reference oracle on integrands with repeated propagators',
'C03':'quad-precision reference oracle with per-pole parity tracked independently',
'C04':'quad-precision reference oracle with a bosonic last frequency',
'C05':'differential runtime monitor: terms vs SPR vs oracle, list permutation/split/concatenation',
'C06':'differential runtime monitor: factorised vs plain evaluation vs oracle',
'C07':'differential runtime monitor: factorised vs plain evaluation of assembled term lists',
'C08':'runtime checker of the factorised lists (coverage, signs, canonical forms) on symbolic and adversarial products',
'C09':'quad-precision oracle for the distribution functions and derivatives',
'C10':'metamorphic runtime monitor: prefactor, conjugation, power-of-two scaling',
'C11':'metamorphic runtime monitor: rewritten integrands, with quad-precision control of invariance',
'C12':'history monitor: used object and containers vs fresh ones, bit-identical results, unchanged inputs',
'C13':'ThreadSanitizer on concurrent workloads, results compared bit by bit with a sequential run',
'C14':'AddressSanitizer + UBSan + checked STL, valgrind memcheck, hang and crash detection under hostile workloads',
'C15':'quad-precision oracle of the degenerate integrand observing on-the-fly evaluation',
'C16':'flag monitor over histories of regular and near-singular evaluations',
'C17':'quad-precision reference oracle with the options applied factor by factor',
'C18':'differential monitor: multiprecision build vs standard build vs oracle',
'C19':'differential monitor: Python module vs the C++ library, bit by bit',
'C20':'runtime invariant checker over every level of constructed solutions',
'C21':'quad-precision reference derivative observing derivative_opt + evaluate',
'C22':'Taylor-series oracle in quad precision for every symbolic step',
'C23':'definition oracle and relation checks (reflexive, symmetric, transitive) on structures and near-misses',
'C24':'quad-precision reference oracle for partial sums; resumed vs one-shot construction',
'C25':'value types and objects built by every constructor in pattern-filled storage, then used; compared with the defaults and bit by bit with the spelled-out problem',
'C26':'every printer called on random real and edited solutions; the numbers and brackets it writes are read back and compared with the structure',
'C27':'live heap bytes counted in the allocator over long series of calls, and process state, output, random generators and files compared around every call sequence',
}
N={
'C13':'Decides only the interleavings that ran; happens-before analysis extends each run to all unsynchronised accesses on the executed paths.',
'C14':'Decides the executions observed; uninitialised reads by memcheck on a smaller sample.',
'C19':'Trusts that the C++ side is right (the other checks decide that).',
}
D='Exploration: random and hostile inputs judged by an independent oracle at the rounding level; trusts libquadmath and the reference model in mon/ref.hpp (checked against brute-force sums in C01).'
ck=[]
for i in range(1,len(T)+1):
    p='C%02d'%i
    ck.append(dict(property=p,quick_cmd='python3 bin/check.py '+p,thorough_cmd='python3 bin/check.py %s --tier thorough'%p,technique='runtime monitoring: '+T[p],level='exploration',level_note=N.get(p,D)))
json.dump(dict(version=1,setup_cmd='python3 bin/check.py --setup',checks=ck,not_applicable=[],notes='No hooks in /repo: every monitor observes the public API (and the public helpers) of the unmodified sources. Replay: python3 bin/check.py --replay <path>.'),open('/verif/MANIFEST.json','w'),indent=1)
