"""Which function decides which property, and what a complete run must at least have looked at."""
import importlib

VG = ('Every function body involved is abstractly interpreted from its THIR into a gated value graph (loops closed into sums, '
      'reductions, point-wise maps); the result is compared with the specification as normal forms, one obligation per '
      'function and output component, one cell per combination of guard outcomes and per stratum of parameter equalities. '
      'Nothing of the repository is executed. ')
VGT = 'abstract interpretation of the type-checked IR into a gated value graph; value numbering by normal forms against the documented formula'
VGN = ('Sound for real arithmetic up to the modelling of ndarray/num-traits calls (engine/builtins_nd.py) and the guard cells reached by the '
       'sample points that name them; an obligation that cannot be decided is reported as undecided and never raises an alarm.')

SV = ('Both solver entry points are abstractly interpreted from their THIR with every helper inlined; the trait methods stand for what M01-M06 '
      'establish of their implementations, solve_lin_sys for what M10 establishes. The nest of iterations, passes and coordinate updates is left as '
      'three loop records (state, one-step transfer, exits) over uninterpreted violations, gradients, proximal operators and objectives; each '
      'obligation is an equation or implication over those records, decided by normal forms. Nothing of the repository is executed. ')
SVT = 'abstract interpretation of the type-checked IR into per-loop transfer functions; obligations on transfer functions, exits and guards decided by value numbering (induction over the loop records)'
SVN = ('Holds for every dataset, datafit and penalty that satisfies the trait contracts of M01-M06; sound for real arithmetic. An obligation whose form the '
       'rules do not recognise is reported as undecided and never raises an alarm.')

HV = ('Builders, validation and every Fit / Solver implementation are abstractly interpreted from their THIR, from an arbitrary configuration (one symbol '
      'per stored hyperparameter), with the two solver entry points as recorders of the arguments that reach them. Nothing of the repository is executed. ')
HT = 'abstract interpretation of the type-checked IR: symbolic data flow from every builder to the solver call; validation decided on the finite arrangement of its comparison atoms'
HN = ('Complete over hyperparameter values: roles are compared as values, validation on every combination of outcomes of its comparisons (NaN and infinities '
      'included; the sign of zero is not distinguished).')

EV6 = ('Both solver entry points and every Fit / Solver implementation are abstractly interpreted from their THIR: the expressions the result is '
       'computed from, loop by loop, are compared under both values of the flag; every output effect is compared with the path condition it is '
       'recorded under; the rest of the call graph is searched for output sites. Nothing of the repository is executed. ')
EVT6 = 'abstract interpretation into loop records, dependence closure and non-interference of the flag; effect analysis of output sites with their path conditions'
EV7 = ('The call graph of every fit (trait calls to every implementation) is searched for ambient sources (clock, environment, files, random numbers, '
       'threads, shared statics, addresses, hash order); where one exists an information-flow analysis on THIR decides whether it reaches the result. '
       'Unsafe code and interior mutability are decided from the type-checked program. Nothing of the repository is executed. ')
EVT7 = 'call-graph effect analysis, interprocedural information flow on the type-checked IR, type-level immutability'
EVN = ('Sound for the code of the two crates; calls into dependencies are taken to be pure unless listed as a source (checks/effects.py). An unrecognised '
       'form is reported as undecided and never raises an alarm.')

PYV = ('The Python layer is abstractly interpreted from its syntax tree (values known by type and cell, by symbol, or as arrays known by where their '
       'entries come from; undecided conditions are followed both ways), the native methods it calls from their THIR, named through the tables the '
       'macros generate; the solver entry points record what reaches them. Neither Python nor Rust code of the repository is executed. ')
PYT = 'abstract interpretation of the Python syntax tree over a finite value partition and an array-provenance domain, composed with the THIR of the bindings'
PYN = ('Conversions of scikit-learn, numpy and scipy are modelled from their documentation (engine/pyint.py); a construct outside the domain is reported '
       'as undecided and never raises an alarm.')

PSV = ('make_correlated_data and compute_alpha_max are abstractly interpreted from their syntax trees: arrays of symbolic size are element functions over the '
       'value graph, every draw of a generator is a fresh array labelled with its distribution and its generator, a loop over columns is summarised by its first steps '
       'and an inductive step. What is returned is compared with the documented model as normal forms, path by path. Nothing of the repository is executed. ')
PST = 'abstract interpretation of the Python syntax tree over symbolic arrays with provenance of random draws; value numbering by normal forms, induction over columns'
PSN = ('For every draw, size and parameter; that the draws of numpy are standard normal and independent is taken from its documentation, so what remains of the '
       'documented expectations is their algebra. Real arithmetic. An unrecognised form is reported as undecided and never raises an alarm.')

LSV = ('The helper is abstractly interpreted from its THIR for a symbolic system; every iteration of its elimination loops is a transfer function on the '
       'augmented matrix. Instantiated at each position of systems of up to five unknowns with symbolic entries and carried zero / non-zero facts, each must be an '
       'invertible combination of rows, divide only by entries known to be non-zero, and return an error only when the zero pattern makes the matrix singular; '
       'the answer must solve the final, invertible system. Nothing of the repository is executed. ')
LST = 'abstract interpretation of the type-checked IR into loop transfer functions; zero/non-zero dataflow facts and row-operation certificates by value numbering'
LSN = ('Every system of one to five unknowns (the extrapolation default K is five), exact arithmetic. A form the rules do not recognise is reported as undecided '
       'and never raises an alarm; a violation is reported only with a system on which the value graph is wrong.')

NOT_APPLICABLE = {
    'N01': 'convergence to the minimum is a statement about the limit of a data-dependent iteration; no static argument in reach bounds it (its static ingredients are S01, S09, M01-M05)',
    'N02': 'rounding and overflow depend on run-time magnitudes and conditioning; a sound static bound would need value ranges the library does not impose',
}


def ent(mod, title, floor, technique=VGT, note=VGN, explain=VG, assume=()):
    return dict(mod=mod, title=title, floor=floor, explain=explain, assume=list(assume), technique=technique, note=note)


SF8 = ('The side conditions recorded while the functions behind M01-M07, both solvers (trait methods by contract) and the linear-system helper are '
       'interpreted from their THIR: index below extent, equal shapes, slice inside its axis, element count of a reshape, unsigned subtraction, '
       'non-zero integer divisor, assertion not reached. Each is decided from its path condition and the ranges of the bound variables. Nothing of '
       'the repository is executed. ')
SFT8 = 'abstract interpretation of the type-checked IR collecting index and shape obligations with their path conditions; linear integer reasoning with case splits'
SFN = ('Sound up to the modelling of ndarray calls, whose side conditions are those of the documentation; integer overflow of sizes is not considered. A condition that '
       'is not derived is reported only with dimensions and parameters that make it fail in the value graph; otherwise it is undecided and raises no alarm.')

SF9 = ('Divisions, logarithms and negative powers in the value graphs of every result of the functions behind M01-M07 and of every value carried through a '
       'solver loop (trait methods by contract), with the selections that guard them. Each denominator is shown non-zero by sign rules, from its guards, or because '
       'its root contradicts them. Nothing of the repository is executed. ')
SFT9 = 'abstract interpretation of the type-checked IR into value graphs; sign and non-zero dataflow over every denominator under its guards'
SFN9 = ('Real arithmetic (underflow to zero is N02). The sum of extrapolation weights relies on the Gram matrix being positive definite when M10\'s helper solves it. A '
        'denominator that is not derived is reported only with parameters and entries on which it is exactly zero while its guards hold; otherwise it is undecided.')

REGISTRY = {
    'H01': ent('hyper', 'hyperparameters in their role', 150, HT, HN, HV),
    'H02': ent('hyper', 'hyperparameter validation', 100, HT, HN, HV),
    'H03': ent('hyper', 'documented defaults', 220, HT, HN, HV),
    'S01': ent('solver', 'certified stopping', 11, SVT, SVN, SV),
    'S02': ent('solver', 'acceleration only if it lowers the objective', 20, SVT, SVN, SV),
    'S03': ent('solver', 'model fit matches the coefficients', 28, SVT, SVN, SV),
    'S04': ent('solver', 'working set', 10, SVT, SVN, SV),
    'S05': ent('solver', 'bounded work', 15, SVT, SVN, SV),
    'S06': ent('effects', 'verbosity', 25, EVT6, EVN, EV6),
    'S07': ent('effects', 'purity', 30, EVT7, EVN, EV7),
    'S08': ent('solver', 'fresh state', 16, SVT, SVN, SV),
    'S09': ent('solver', 'coordinate updates', 22, SVT, SVN, SV),
    'S10': ent('solver', 'extrapolation', 8, SVT, SVN, SV),
    'M01': ent('maths', 'proximal operators, single task', 4),
    'M02': ent('maths', 'proximal operators, blocks', 6),
    'M03': ent('maths', 'optimality violations', 42),
    'M04': ent('maths', 'penalty values', 7),
    'M05': ent('maths', 'datafits', 20),
    'M06': ent('maths', 'CSC and dense agree', 50),
    'M07': ent('maths', 'largest useful penalty', 3),
    'M08': ent('safety', 'index and shape safety', 560, SFT8, SFN, SF8),
    'M09': ent('safety', 'denominators', 38, SFT9, SFN9, SF9),
    'M10': ent('linsys', 'linear systems', 25, LST, LSN, LSV),
    'Y01': ent('pylayer', 'Python validation', 23, PYT, PYN, PYV),
    'Y02': ent('pylayer', 'Python hyperparameter roles', 110, PYT, PYN, PYV),
    'Y03': ent('pylayer', 'Python data', 250, PYT, PYN, PYV),
    'Y04': ent('pylayer', 'Python errors', 40, PYT, PYN, PYV),
    'Y05': ent('pylayer', 'Python prediction', 110, PYT, PYN, PYV),
    'Y06': ent('pylayer', 'Python solver settings', 29, PYT, PYN, PYV),
    'Y07': ent('pysim', 'simulated data', 180, PST, PSN, PSV),
}
for _pid, _e in REGISTRY.items():
    _e['fn'] = (lambda m=_e['mod'], p=_pid: getattr(importlib.import_module(m), p))
