import json
C='src/ami_base_construct.cpp';E='src/ami_base_evaluate.cpp';T='src/ami_base_terms.cpp';TE='src/ami_base_terms_evaluate.cpp';O='src/ami_base_optimize.cpp';TO='src/ami_base_terms_optimize.cpp';H='src/ami_base.hpp';PY='pyami_src/pyami_wrapper.cpp'
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p('C01','The solution evaluates to the exact Matsubara sum',
 "For every product of propagators 1/(sum alpha*nu + sum c*eps) with frequencies routed as in a frequency-conserving diagram (coefficients 0 or +-1, integer c) whose multiple fermionic Matsubara sum converges absolutely, constructing the solution and evaluating it gives prefactor * T^n times that sum, up to the rounding error its own terms justify. One constructed solution is valid for every temperature, every (real or complex) energy, every prefactor and every external frequency, on the imaginary axis or (as the analytic continuation) off it, from one term to tens of thousands.",
 ['inputs'],'all integrands (number of sums, lines, energy symbols, orientations, loop routing) in which no pole of zero symbolic energy falls on a Matsubara frequency (those, which need one energy symbol on lines with different frequencies, are a known finding), and all evaluation points away from the removable singularities of individual terms',
 'Three fixed integrands at a handful of points are compared with stored numbers; nothing quantifies over integrands or points.',
 [C,E],[('pole search, residues and signs',C+': update_gprod_general, find_poles, simple_residue, get_simple_sign'),('S.P (dot), x (cross) and * R (star)',E+': evaluate, dot, cross, star, fermi_pole, eval_gprod')],
 ['construct(parms,R0,R,P,S)','evaluate(parms,R,P,S,external)'],[('R,P,S arrays','symbolic result per integration step',H)])
p('C02','Repeated propagators: higher-order poles are exact',
 "When the same propagator (in either orientation) occurs M times, or becomes repeated only after an earlier frequency was summed, the result still equals the exact Matsubara sum, for every M. This includes all derivatives of the distribution functions and of the remaining propagators, with their factorials and signs, in both the SPR and the term-by-term solution.",
 ['inputs'],'all integrands with repeated propagators, multiplicities up to 18, one to four sums, several repeated groups at once, and all points',
 'Tests differentiate one pole twice and count terms; no test evaluates a multipole integrand at general multiplicity.',
 [C,E,T],[('general residue',C+': evaluate_general_residue, take_derivative_gprod, get_starting_sign, reduce_gprod, factorial'),('term derivative',T+': terms_general_residue, take_term_derivative')],
 ['construct','evaluate'])
p('C03','Bosonic external lines: parity of every pole is right',
 "With a graph type whose external line is bosonic (particle-hole and particle-particle bubbles, force), the result equals the Matsubara sum with a bosonic external frequency: each distribution function is Fermi or Bose according to the number of fermionic frequencies in its pole. With every other graph type (double occupancy apart) the external line is fermionic.",
 ['inputs','configurations'],'all graph types times all integrands in which no pole of zero symbolic energy occurs, and all points',
 'All tests use the fermionic default type.',
 [E],[('parity count and type switch',E+': fermi_pole')],['evaluate with parms.TYPE_'])
p('C04','Double occupancy: the last summed frequency is bosonic',
 "With the double-occupancy type (or a bosonic graph type together with the object's bosonic-external option), summing also over the last frequency treats that last frequency as bosonic. The value returned is minus the Matsubara sum with a bosonic last frequency, for every integrand and point. While the last frequency is left external, the option changes nothing and the double-occupancy type means a bosonic external line.",
 ['inputs','configurations'],'all integrands, the last frequency summed (bosonic) or left external; SPR, term and factorised evaluation',
 'No test uses the double-occupancy type.',
 [E],[('doubleocc branch',E+': fermi_pole')],['evaluate with TYPE_=doubleocc or bosonic_external'])
p('C05','The term-by-term form is the same expression as SPR',
 "For every integrand, graph type and point the list of terms evaluates to the same number as the SPR solution, and holds exactly as many terms (also tens of thousands); the value of the list is the sum of the values of its single terms, in any order and for any concatenation or splitting of lists. Integrating one frequency at a time gives the same list as constructing at once.",
 ['inputs','configurations'],'all integrands (multipoles included), all types, all points; all ways of splitting, permuting and concatenating lists',
 'Tests only count the terms of one integrand.',
 [T,TE],[('term construction',T+': construct, integrate_step, terms_general_residue'),('term evaluation',TE+': evaluate, evaluate_term, eval_fprod')],
 ['construct(...,terms)','evaluate(parms,terms,external)','evaluate_term'])
p('C06','Factorised SPR evaluation equals the plain evaluation',
 "Evaluating the SPR solution through its factorised final products gives the same value as the plain evaluation, for every integrand, size of the solution, type, prefactor and point. With empty factorisation lists it is the plain evaluation.",
 ['inputs','configurations'],'all integrands, all types, all prefactors (negative, huge, tiny, zero), all points',
 'No test calls the factorised evaluation.',
 [O,E],[('factorisation',O+': factorize_Rn, reduce_rref'),('factorised star',E+': optimized_star')],
 ['factorize_Rn','evaluate(...,unique_g,Rref,Eval_list)'])
p('C07','Factorised term evaluation equals the plain evaluation',
 "Evaluating a list of terms through its factorised products gives the same value as evaluating the list, for every list that can be constructed or assembled (concatenation, subsets, permutations, rescaled signs, terms without any propagator, tens of thousands of terms), every prefactor and every point.",
 ['inputs','configurations'],'all lists of terms (constructed, concatenated, permuted, thinned), all prefactors and points',
 'No test calls the factorised term evaluation.',
 [TO,TE,O],[('factorise terms',TO+': factorize_terms, convert_terms_to_ri'),('factorised evaluation',TE+': evaluate')],
 ['factorize_terms','evaluate(parms,terms,external,unique_g,Rref,Eval_list)'])
p('C08','Factorisation covers every product exactly once, with its sign',
 "In the factorised form every original product is referenced exactly once, its referenced group is the same product of unique propagators up to the recorded sign, and nothing else is referenced. The unique propagators are pairwise different even up to overall sign, and no two groups are the same product: equal products, in any order of factors and with repeated factors, are always merged; earlier contents of the output lists never leak in.",
 ['inputs','histories'],'all lists of products (symbolically generated and adversarial: repeats, sign flips, permutations, species labels, empty products), all previous contents of the outputs',
 'No test looks at the factorisation.',
 [O],[('factorisation',O+': factorize_Rn, reduce_rref, pair_v_equiv, g_struct_equiv')],['factorize_Rn, factorize_terms outputs'])
p('C09','Distribution functions and all derivatives are accurate and saturate',
 "The distribution 1/(sigma*exp(beta*E)+1) and its m-th energy derivative are accurate to the rounding level of the alternating sum that defines them for sigma=+1 and -1, every m up to 8, every beta and every complex E away from its poles. For arbitrarily large |beta*E| they saturate to the exact limits (0 or 1, derivatives 0) without producing NaN or infinity.",
 ['inputs'],'all sigma, m<=8, beta in 1e-3..1e4, real and complex E, arguments from 1e-8 to far beyond the range of exp',
 'Tests check m=0,1,2,5 at a few real energies.',
 [E],[('closed form of the derivatives',E+': fermi_bose, frk, binomialCoeff')],['fermi_bose','frk'])
p('C10','Linearity, conjugation and scaling symmetries of the evaluation',
 "The value is proportional to the prefactor; conjugating all energies and frequencies conjugates the value; multiplying all energies and frequencies by 2^k and dividing beta by 2^k multiplies the value by the power of two given by counting. This holds for every integrand, graph type and evaluation route (SPR, terms, both factorised forms).",
 ['inputs','configurations'],'all integrands, types, points, prefactors, k up to +-300, four evaluation routes',
 'Tests evaluate single points with prefactor 1.',
 [E,TE],[('prefactor handling',E+': eval_gprod, optimized_star; '+TE),('distribution functions',E+': fermi_pole, fermi_bose')],['evaluate (four overloads)'])
p('C11','The value does not depend on how the integrand is written',
 "Reordering the propagators, relabelling or linearly re-routing the summed frequencies, changing the order in which they are summed, relabelling or padding the energy symbols, and writing a propagator with reversed sign (with the matching sign of the value) leave the value of the sum unchanged.",
 ['inputs'],'all integrands times all such rewritings times all points',
 'Each test integrand is written in one way.',
 [C,T],[('pole search and substitution by index',C+': find_poles, update_G_pole, update_gprod_general'),('stepwise integration',T+': integrate_step')],['construct','update_gprod_general','integrate_step','evaluate'])
p('C12','Calls are pure: history, reuse and diagnostics do not matter',
 "Construction, factorisation and evaluation give bit-identical results no matter what the same object did before, what the output containers held before, in which order points are evaluated, and whether verbose diagnostics or printing are switched on. Evaluation and factorisation never modify the integrand, the solution, the parameters or the external point, and the parameters that only describe the model (number of externals, interaction and dispersion type, gamma) and surplus entries of the point do not enter the value.",
 ['histories','inputs'],'all histories of calls on one object and one set of containers',
 'Every test uses a fresh object and fresh containers once.',
 [C,E,T,TE,O],[('clearing of outputs',C+': construct; '+T+': construct, integrate_step; '+O+': factorize_Rn'),('by-value working copies',E)],['construct, evaluate, factorize_*, print_*'],[('overflow_detected, verbose, option flags','the only state of the object',H)])
p('C13','Independent objects may be used concurrently on shared solutions',
 "Threads that each own an object may construct, factorise and evaluate at the same time, also reading one shared solution, without data races and with results bit-identical to a sequential run.",
 ['schedules','inputs'],'all interleavings of threads with an object each, sharing solutions read-only',
 'All tests are single-threaded.',
 [C,E,T,TE,O],[('no global or static mutable state','src/')],['construct, evaluate, factorize_* from several threads'])
p('C14','No memory error, undefined behaviour or crash on any valid use',
 "No sequence of documented operations on well-formed inputs reads or writes out of bounds, uses uninitialised or freed memory, overflows or otherwise executes undefined behaviour, loops forever or crashes. This includes degenerate inputs: no propagators left, frequencies that do not occur, sums without poles, all-zero lines, repeated evaluation at singular points.",
 ['inputs','histories'],'all well-formed inputs including degenerate ones, all public operations',
 'Tests run without sanitizers on regular inputs only.',
 [C,E,T,TE,O],[('index handling in residues and products','src/'),('empty-product guards',C+': find_poles; '+E+': evaluate; '+O)],['all public operations under ASan/UBSan/valgrind'])
p('C15','On-the-fly evaluation handles numerically degenerate energies',
 "When energies coincide or cancel exactly at a point although their symbols differ, the on-the-fly evaluation gives the exact Matsubara sum of the degenerate integrand (finite, no NaN), apart from the poles of zero energy on a Matsubara frequency, which the object is documented to ignore. Where nothing is degenerate it agrees with the plain evaluation, and energies that nearly coincide are not taken for equal; it never modifies the stored solution, and it always terminates.",
 ['inputs'],'all integrands and external types times all coincidence patterns, exact or up to the rounding of the sums (with a bosonic external line: those without a pole of zero energy), under any of the evaluation options',
 'No test calls the on-the-fly evaluation.',
 [E],[('degeneracy detection and rebuild',E+': get_triggers, find_equal_values, detect_otf_trigger, evaluate_otf')],['evaluate_otf'])
p('C16','The overflow flag is raised by, and only by, the current evaluation',
 "After every evaluation the overflow flag reflects that evaluation alone: it is set whenever the quantity that the evaluation route guards is far beyond its limit (differentiated distribution functions in every route; a weighted product or its weight in the SPR form; one unique propagator, or a merged product times its total weight, in the factorised forms; a product so large that it has lost all its fraction digits in the term form), and it is clear after an evaluation at a regular point with generic values, whatever happened before. Exactly on a pole of a remaining product no route returns a finite value with the flag clear.",
 ['inputs','histories'],'all sequences of regular and near-singular evaluations over the four evaluation routes and all cut-offs',
 'No test reads the flag.',
 [E,TE],[('flag reset and checks',E+': evaluate, star, optimized_star, fermi_bose; '+TE+': evaluate, evaluate_term')],['overflow_detected after evaluate'],[('overflow_detected','sticky within one evaluation',H),('precision_cutoff','threshold',H)])
p('C17','Regulator and drop options do exactly what they say',
 "The energy regulator shifts the argument of every distribution function away from zero by exactly that amount and nothing else, so that a zero regulator is the unregulated result; dropping bosonic divergences zeroes exactly the Bose factors at zero energy; dropping derivatives zeroes exactly the differentiated factors. Ignoring Matsubara poles removes exactly the poles of zero symbolic energy on a Matsubara frequency. Each option leaves all other factors untouched, in every evaluation route.",
 ['inputs','configurations'],'all option combinations, all integrands and points, zero and non-zero pole energies',
 'No test sets an option.',
 [E],[('option branches',E+': fermi_pole'),('symbolic zero poles',C+': find_poles')],['evaluate with E_REG_, drop_bosonic_diverge, drop_der, drop_matsubara_poles'])
p('C18','The multiprecision build computes the same values',
 "Built with the multiprecision option, construction gives the identical symbolic solution and every evaluation route gives the same value as the standard build within rounding, with the overflow flag set and clear under the same rules.",
 ['configurations','inputs'],'all integrands, types and points, in both builds',
 'The tests are not built with multiprecision.',
 [E,TE],[('MP branches',E+': optimized_star, eval_gprod_mp; '+TE+': evaluate, evaluate_term_mp')],['the same driver linked to both builds'])
p('C19','The Python module is a faithful view of the library',
 "Every function and data member exposed to Python does exactly what its C++ counterpart does: arguments, constructors and fields arrive unpermuted, results are bit-identical, output containers are filled in place, and fields written from Python are the ones used by the evaluation.",
 ['inputs','histories'],'all exposed constructors, fields and calls on random problems',
 'There are no Python tests.',
 [PY,'pyami_src/pyami.cpp'],[('bindings',PY)],['import pyami'])
p('C20','Solutions are well-formed and conserve what they must',
 "Every constructed solution has matching shapes at every level, each summed frequency has disappeared from every remaining propagator and pole, and the number of remaining propagators plus derivatives in each term equals the number of lines minus the number of sums. Weights are the products of orientations over factorials, coefficients stay in {0,+-1} for conserving integrands, and species labels survive the summation.",
 ['inputs'],'all integrands, both forms, every integration step',
 'Tests count the terms of one integrand.',
 [C,T,H],[('construction',C+': update_gprod_general, update_G_pole, evaluate_general_residue'),('terms',T)],['R,P,S arrays and terms after construct'])
p('C21','The external-frequency derivative of a factorised form is exact',
 "Differentiating a factorised SPR or term form with respect to the last frequency and evaluating it gives the derivative of the value with respect to that external frequency, for every form with at least one propagator, whatever the coefficient of that frequency, point and prefactor; differentiating twice gives the second derivative, and an expression that does not depend on it gives zero.",
 ['inputs'],'all factorised forms with at least one propagator, all points, one or two derivatives',
 'No test calls it.',
 [O,E],[('product rule on reference lists',O+': derivative_opt')],['derivative_opt then evaluate'])
p('C22','Each symbolic step is exact on its own',
 "For every product and every frequency: the pole list contains each distinct pole once, located where the propagator vanishes, with its full multiplicity and origin; substituting a pole replaces that frequency everywhere and changes nothing else; removing, splitting and differentiating products and terms obey the algebra they stand for when evaluated numerically at arbitrary points.",
 ['inputs'],'all products (including several frequencies, general integer energy coefficients, labels), all frequencies and poles, all numeric points',
 'Tests check one or two examples of three of these helpers.',
 [C,T],[('helpers',C+': find_poles, update_G_pole, update_Z_pole, simple_residue, reduce_gprod, take_derivative_gprod, get_starting_sign, find_signs, get_simple_sign; '+T+': split_term, take_term_derivative, terms_general_residue')],['the helpers themselves'])
p('C23','Structural comparisons are exact equivalences',
 "Comparing poles, propagators and factor lists answers equal exactly when they are equal in every component (for propagators in a factorisation: equal up to one overall sign, with equal species, and the sign is reported; for factor lists: equal as multisets, with the products of their signs). Each comparison is reflexive, symmetric and transitive, and structures of different length are never equal.",
 ['inputs'],'all pairs and triples of structures, near-misses in one component included',
 'Tests compare sizes of two hand-written structures.',
 [C,O,H],[('predicates',C+': pole_equiv, g_equiv; '+O+': g_struct_equiv, pair_v_equiv; '+H+': isEqual')],['the predicates'])
p('C24','Partial sums and several external frequencies are exact',
 "Summing only the first k of the frequencies, with any number of further frequencies left as external values, gives the exact Matsubara sum over those k at every value of the others; evaluating a fully constructed solution with the number of summed frequencies set to k gives that same partial sum, and continuing the remaining sums from the intermediate solution gives the same as constructing at once.",
 ['inputs'],'all integrands, all k including 0, up to four frequencies left external, fermionic or off-axis values, SPR and terms',
 'Tests always sum all frequencies and have one external frequency.',
 [C,E,T],[('stepwise construction',C+': construct, update_gprod_general; '+T+': integrate_step'),('frequency sums',E+': eval_gprod')],['construct with N_INT_=k','update_gprod_general','integrate_step','evaluate'])
p('C25','Defaults, short constructors and copies mean the full value',
 "A propagator, pole, term, parameter set, point or object built with fewer arguments, by default construction and assignment of its fields, or as a copy, is the value with the documented defaults spelled out (Fermi statistics, species 0, multiplicity 1, no derivative, sign +1, prefactor 1, no regulator, Sigma type where the constructor leaves it out, all options off except dropping Matsubara poles), whatever its storage held before. Solutions and values are then bit-identical to those of the same problem written out in full.",
 ['inputs','histories'],'all constructors and copies of all public value types, in dirty storage, used on random problems through every evaluation route',
 'Tests use one constructor of each type and never look at what was left out.',
 [H,'src/ami_base.cpp'],[('value types',H+': g_struct, pole_struct, term, ami_parms, ami_vars'),('object',H+': AmiBase members; src/ami_base.cpp: constructors')],['the constructors, then construct/factorize/evaluate'])
p('C26','Printed forms show the structures completely and truthfully',
 "Every printer (whole solutions, sign, pole and residue arrays, terms, products, propagators, poles, coefficient lists) writes every entry of what it is given, in order and nested as stored: species, energy and frequency coefficients, remaining frequency coefficients and derivative order of poles, signs and weights to six digits, indices. Empty products and lists show as empty, and printing changes nothing.",
 ['inputs'],'all solutions and all hand-edited structures, every printing function',
 'No test looks at the output.',
 [E,O,T],[('printers',E+': print_final, print_S, print_P, print_Pi, print_R, print_g_prod_array, print_pole_array, print_g_prod_info; '+O+': print_g_struct_info, print_pole_struct_info, print_epsilon_info, print_alpha_info; '+T+': print_term, print_terms')],['standard output of print_*'])
p('C27','Calls leave no trace outside their results',
 "Construction, factorisation, evaluation and differentiation can be repeated without limit: they keep no heap memory beyond their results, neither per point, per problem, per thread nor per reuse of containers. With verbose off they write nothing to the terminal and change no stream formatting, locale, floating-point control, signal handlers, random generator of the C library, open file or directory; nor do results depend on stream formatting or seeds.",
 ['histories','inputs'],'all series of problems, points, short-lived threads and reused containers; all prior states of the process (formatting, seeds)',
 'Tests make a handful of calls and check return values only.',
 [C,E,T,'src/ami_base_terms_evaluate.cpp',O],[('working storage',E+': evaluate, star, fermi; src/ami_base_terms_evaluate.cpp'),('construction storage',C+'; '+T),('diagnostics',E+': verbose branches')],['allocator','file descriptors 1 and 2','process state before and after every call sequence'])
if __name__=='__main__':
    with open('/verif/properties.jsonl','w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
    print(len(P))
    for x in P: assert len(x['title'])<=80,x['title']
