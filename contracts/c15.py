"""C15: the value of every option of the search, of the NLP interface and of the cut generators is the one used by the part that the option names."""
from common import *
from symex import Outcome
import c06
G = 'src/Algorithms/OaGenerators/'
TUS = ['src/Algorithms/BonBabSetupBase.cpp', 'src/Interfaces/BonOsiTMINLPInterface.cpp', G + 'BonOaDecBase.cpp', G + 'BonOaFeasChecker.cpp', G + 'BonEcpCuts.cpp', G + 'BonOaNlpOptim.cpp', G + 'BonOACutGenerator2.cpp', 'src/Algorithms/BonSubMipSolver.cpp', G + 'BonFpForMinlp.cpp', 'src/Algorithms/Branching/BonChooseVariable.cpp', 'src/CbcBonmin/BonDiver.cpp', 'src/Algorithms/BonBonminSetup.cpp', 'src/Algorithms/BonCbcLpStrategy.cpp']
HARNESS = 'h_opt.cpp'
ASSUMPTIONS = ['the options asked for are registered: only the bounded native harness looks at this', 'an option list returns, for a registered option asked by its name, kind and the prefix of the component, the value set by the user or the registered default (Ipopt)',
  'std::string: construction from a literal, copy, c_str, ==, + and += have their usual meaning', 'the constructors of message handlers, of the LP solver and of the Cbc strategies are outside', 'CPLEX and filterSQP are not configured in this build']
BSB = 'Bonmin::BabSetupBase'; OSI = c06.OSI
I32 = scal_ty(4, 'int'); F64 = scal_ty(8, 'real'); PT = scal_ty(8, 'ptr')
KIND = dict(GetIntegerValue='int', GetEnumValue='enum', GetNumericValue='num', GetBoolValue='bool')
class Env: pass
def literal(e, st, p):
    if isinstance(p, P) and p.obj is not None and getattr(p.obj, 'tag', None) and p.obj.tag[0] == 'global' and isinstance(p.off, int):
        s = ''
        for i in range(300):
            b = e.gload(st, p.obj, p.off + i, scal_ty(1, 'int'))
            if not isinstance(b, int): return None
            if b == 0: return (s,) if s else ()
            s += chr(b & 255)
    return None
def norm(d):
    out = []
    for x in d:
        if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
        elif x != '': out.append(x)
    return tuple(out)
def skey(p): return (p.obj, p.off if isinstance(p.off, int) else str(p.off))
def strings(c):
    """text of std::string objects: a tuple of literals and of names of unknown texts"""
    ex = c.ex; c.st.ghost['text'] = {}
    S = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'; S2 = r'std::__cxx11::basic_string<.*>::'
    def put(st, p, d): t = dict(st.ghost['text']); t[skey(p)] = norm(d); st.ghost['text'] = t
    def get(e, st, p):
        t = st.ghost['text'].get(skey(p))
        if t is None: t = (p.obj.name + '@%s' % (p.off,),); t = (('unknown',) + t,)
        return t
    def chars(e, st, p):
        if isinstance(p, P) and p.obj is not None and getattr(p.obj, 'tag', None) and p.obj.tag[0] == 'text': return p.obj.tag[1]
        d = literal(e, st, p)
        return d if d is not None else (('unknown', str(p)),)
    def ctor(e, st, a, ins, dem, ctx):
        sig = dem[dem.rindex('basic_string('):] if 'basic_string(' in dem else dem[dem.rindex('basic_string<std'):]
        arg = sig[sig.index('(') + 1:]
        if arg.startswith('char const*'): put(st, a[0], chars(e, st, a[1]))
        elif 'basic_string' in arg: put(st, a[0], get(e, st, a[1]))
        else: put(st, a[0], ())
    def assign(e, st, a, ins, dem, ctx):
        arg = dem[dem.rindex('operator=('):]; put(st, a[0], chars(e, st, a[1]) if arg.startswith('operator=(char const*') else get(e, st, a[1])); return a[0]
    def append(e, st, a, ins, dem, ctx):
        arg = dem[dem.rindex('('):]; put(st, a[0], get(e, st, a[0]) + (chars(e, st, a[1]) if arg.startswith('(char const*') else get(e, st, a[1]))); return a[0]
    def cstr(e, st, a, ins, dem, ctx):
        o = Obj('chars', lazy=True); o.tag = ('text', get(e, st, a[0])); st.mem[o] = OS(); return P(o)
    def eq(neg):
        def h(e, st, a, ins, dem, ctx):
            arg = dem[dem.rindex('operator') :]; x = chars(e, st, a[0]) if re.search(r'\(char const\*', arg) else get(e, st, a[0])
            y = chars(e, st, a[1]) if re.search(r', char const\*\)$', arg) else get(e, st, a[1])
            if x == y: b = z3.BoolVal(True)
            elif all(isinstance(q, str) for q in x + y): b = z3.BoolVal(False)
            else: b = z3.Bool('same_text(%s,%s)' % tuple(sorted((str(x), str(y)))))
            return z3.Not(b) if neg else b
        return h
    def plus(e, st, a, ins, dem, ctx):       # result through a hidden first argument
        args = dem[dem.rindex('operator+') + 9:]
        f = lambda p, first: chars(e, st, p) if re.search(r'\(char const\*' if first else r', char const\*\)$', args) else get(e, st, p)
        put(st, a[0], f(a[1], True) + f(a[2], False))
    A = ex.add_model
    A(r'std::allocator<char>::|std::__new_allocator<char>::', lambda e, st, a, ins, dem, ctx: None)
    A(r'.*std::operator\+<char', plus)
    A(r'.*std::operator==<char', eq(False)); A(r'.*std::operator!=<char', eq(True))
    A(S2 + r'c_str\(|' + S2 + r'data\(', cstr)
    A(S2 + r'(operator\+=|append)\(', append); A(S2 + r'operator=\(', assign)
    def dtor(e, st, a, ins, dem, ctx):
        t = dict(st.ghost['text']); t.pop(skey(a[0]), None); st.ghost['text'] = t
    A(S2 + r'~basic_string', dtor)
    A(S2 + r'basic_string(<.*>)?\(', ctor)
    E = Env(); E.put = put; E.get = get; return E
SORT = dict(int=z3.Int, enum=z3.Int, num=z3.Real, bool=z3.Int)
def optname(kind, name, prefix): return '%s(%s|%s)' % (kind, ''.join(map(str, prefix)), ''.join(map(str, name)))
def val(kind, name, prefix='<prefix>'):
    p = (('prefix',),) if prefix == '<prefix>' else prefix
    return SORT[kind](optname(kind, (name,), p))
def given(kind, name): return z3.Bool('given_' + optname(kind, (name,), (('prefix',),)))
def options(c, E):
    ex = c.ex; o = Obj('options', lazy=True); c.st.mem[o] = OS(); o.cls = 'Ipopt::OptionsList'
    for q, k in KIND.items():
        def h(e, st, a, ins, m, ctx, k=k):
            if not (isinstance(a[0], P) and a[0].obj is o): raise Unsupported('another option list')
            nm = optname(k, E.get(e, st, a[1]), E.get(e, st, a[3])); v = SORT[k](nm)
            if k == 'enum': st.assume(v >= 0, v <= 50)
            if k == 'bool': st.assume(z3.Or(v == 0, v == 1))
            if k == 'int': st.assume(v >= -2**31, v < 2**31)
            e.store(st, a[2], v, F64 if k == 'num' else scal_ty(1, 'int') if k == 'bool' else I32); return z3.Bool('given_' + nm)
        ex.vmodels['Ipopt::OptionsList::' + q] = h
    def setter(k):
        return lambda e, st, a, ins, m, ctx: z3.BoolVal(True)
    for q in ('SetIntegerValue', 'SetNumericValue', 'SetStringValue'): ex.vmodels['Ipopt::OptionsList::' + q] = setter(q)
    return o
def nops(c):
    ex = c.ex; A = ex.add_model
    def nop(e, st, a, ins, dem, ctx):
        k = ins.ty.kind
        if k == 'void': return None
        if k == 'ptr': return a[0] if a and isinstance(a[0], P) else NULL
        return e.fresh(st, 'int' if k == 'int' else 'real', 'ext')
    A(r'CoinMessageHandler::|CoinMessages::|CoinOneMessage::|Bonmin::OaMessages::|Bonmin::BonChooseVariable::Messages::|LAP::|CglParam::~', nop)
    def loglevel(e, st, a, ins, dem, ctx): st.ghost['log'] = dict(st.ghost.get('log', {}), **{str(a[0]): a[-1]})
    A(r'CoinMessageHandler::setLogLevel\(int\)', loglevel)
    A(r'CglCutGenerator::CglCutGenerator\(|OsiCuts::(OsiCuts|~OsiCuts)\(', nop)
def setup_object(c, E, o):
    b = c.object(BSB, 'setup', vectors=False); c.set(b, 'options_', P(o)); E.put(c.st, P(b, c.offset(BSB, 'prefix_')), (('prefix',),)); return b

INTS = dict(BabLogLevel=('int', 'bb_log_level'), BabLogInterval=('int', 'bb_log_interval'), MaxFailures=('int', 'max_consecutive_failures'), FailureBehavior=('enum', 'nlp_failure_behavior'), MaxInfeasible=('int', 'max_consecutive_infeasible'),
 NumberStrong=('int', 'number_strong_branch'), MinReliability=('int', 'number_before_trust'), MaxNodes=('int', 'node_limit'), MaxSolutions=('int', 'solution_limit'), MaxIterations=('int', 'iteration_limit'), SpecialOption=None, DisableSos=('enum', 'sos_constraints'),
 NumCutPasses=('int', 'num_cut_passes'), NumCutPassesAtRoot=('int', 'num_cut_passes_at_root'), RootLogLevel=('int', 'nlp_log_at_root'))
DBLS = dict(CutoffDecr='cutoff_decr', Cutoff='cutoff', AllowableGap='allowable_gap', AllowableFractionGap='allowable_fraction_gap', IntTol='integer_tolerance', MaxTime='time_limit')
def gather(c):
    E = strings(c); o = options(c, E); b = setup_object(c, E, o); nops(c)
    c.st.ghost['seed'] = ()
    def seed(e, st, a, ins, dem, ctx): st.ghost['seed'] = st.ghost['seed'] + (a[0],)
    c.ex.add_model(r'CoinSeedRandom\(', seed)
    arg = Obj('options_arg', lazy=True); c.st.mem[arg] = OS(); c.ex.store(c.st, P(arg), P(o), PT)
    oi, od = c.offset(BSB, 'intParam_'), c.offset(BSB, 'doubleParam_'); special = zi(c.deref(c.st, P(b, oi + 4 * 10), 'int'))
    vs = val('enum', 'variable_selection'); sd = val('int', 'random_generator_seed')
    for r in rets(c, c.call(BSB + '::gatherParametersValues', [P(b), P(arg)])):
        st = r.st
        for i, (k, w) in enumerate(INTS.items()):
            v = zi(c.deref(st, P(b, oi + 4 * i), 'int')); want = special if w is None else val(*w)
            if k == 'NumberStrong': want = z3.If(vs == 0, 0, want)
            if k == 'MinReliability': want = z3.If(vs == 0, 0, z3.If(vs == 2, 10, want))
            c.require(st, v == want, 'option %s reaches the search' % (w[1] if w else 'special (kept)'))
        for i, (k, w) in enumerate(DBLS.items()): c.require(st, zr(c.deref(st, P(b, od + 8 * i), 'real')) == val('num', w), 'option %s reaches the search' % w)
        c.require(st, zi(c.get(st, b, "nodeComparisonMethod_")) == val('enum', 'node_comparison'), 'option node_comparison reaches the search')
        c.require(st, zi(c.get(st, b, 'treeTraversalMethod_')) == val('enum', 'tree_search_strategy'), 'option tree_search_strategy reaches the search')
        S = st.ghost['seed']; gv = given('int', 'random_generator_seed')
        c.require(st, len(S) <= 1, 'random numbers seeded at most once'); c.require(st, z3.Or(sd == -1, gv) == z3.BoolVal(len(S) == 1), 'random numbers seeded exactly when asked')
        if S: c.require(st, z3.Or(sd == -1, zi(S[0]) == sd), 'random numbers seeded with the seed set')
CASES = [('search parameters', gather)]

IFACE = [('num_retry_unsolved_random_point', 'int', 'numRetryUnsolved_'), ('num_resolve_at_root', 'int', 'numRetryInitial_'), ('num_resolve_at_node', 'int', 'numRetryResolve_'), ('num_resolve_at_infeasibles', 'int', 'numRetryInfeasibles_'), ('num_iterations_suspect', 'int', 'numIterationSuspect_'),
 ('nlp_failure_behavior', 'enum', 'pretendFailIsInfeasible_'), ('random_point_type', 'enum', 'randomGenerationType_'), ('warm_start', 'enum', 'warmStartMode_'), ('max_random_point_radius', 'num', 'maxRandomRadius_'), ('warm_start_bound_frac', 'num', 'pushValue_'),
 ('tiny_element', 'num', 'tiny_'), ('very_tiny_element', 'num', 'veryTiny_'), ('oa_rhs_relax', 'num', 'rhsRelax_'), ('random_point_perturbation_interval', 'num', 'max_perturbation_'), ('resolve_on_small_infeasibility', 'num', 'infeasibility_epsilon_')]
def extract(c):
    E = strings(c); o = options(c, E); this, p, n, m = c06.osi(c); nops(c); ex = c.ex
    app = Obj('solver', lazy=True); c.st.mem[app] = OS(); app.cls = 'Bonmin::TNLPSolver'; c.set(this, 'app_', P(app))
    oh = Obj('holder', lazy=True); c.st.mem[oh] = OS(); ex.store(c.st, P(oh), P(o), PT)
    T = 'Bonmin::TNLPSolver::'
    ex.add_model(r'Bonmin::TNLPSolver::options\(', lambda e, st, a, ins, dem, ctx: (e.store(st, a[0], P(o), PT), None)[1] if len(a) == 2 else P(oh))
    pre = Obj('app_prefix', lazy=True); c.st.mem[pre] = OS(); E.put(c.st, P(pre), (('prefix',),))
    pc = Obj('chars', lazy=True); pc.tag = ('text', (('prefix',),)); c.st.mem[pc] = OS()
    ex.add_model(r'Bonmin::TNLPSolver::prefix', lambda e, st, a, ins, dem, ctx: P(pc) if ins.ty.kind == 'ptr' and len(a) == 1 else (E.put(st, a[0], (('prefix',),)), None)[1])
    h1 = Obj('handler', lazy=True); c.st.mem[h1] = OS(); h2 = Obj('oahandler', lazy=True); c.st.mem[h2] = OS(); c.set(this, 'oaHandler_', P(h2))
    ex.add_model(r'OsiSolverInterface::messageHandler\(', lambda e, st, a, ins, dem, ctx: P(h1))
    ex.vmodels[T + 'clone'] = lambda e, st, a, ins, dem, ctx: (e.store(st, a[0], P(app), PT), None)[1] if ins.ty.kind == 'void' else P(app)
    c.st.ghost['cs'] = ()
    def cs(e, st, a, ins, dem, ctx): st.ghost['cs'] = st.ghost['cs'] + (a[0],)
    ex.add_model(r'Bonmin::CutStrengthener::CutStrengthener\(', cs)
    for r in rets(c, c.call(OSI + '::extractInterfaceParams', [P(this)])):
        st = r.st
        for nm, k, f in IFACE:
            v = c.get(st, this, f, 'real') if k == 'num' else c.get(st, this, f)
            c.require(st, (zr(v) if k == 'num' else zi(v)) == val(k, nm), 'option %s reaches the NLP interface' % nm)
        ab = lambda x: z3.If(x >= 0, x, -x); l, u = ab(val('num', 'nlp_lower_bound_inf')), ab(val('num', 'nlp_upper_bound_inf'))
        c.require(st, zr(c.get(st, this, 'infty_', 'real')) == z3.If(l <= u, l, u), 'infinity is the smaller of the two set')
        lg = st.ghost.get('log', {})
        c.require(st, str(P(h1)) in lg and zi(lg[str(P(h1))]) == val('int', 'nlp_log_level'), 'option nlp_log_level reaches the messages')
        c.require(st, str(P(h2)) in lg and zi(lg[str(P(h2))]) == val('int', 'oa_cuts_log_level'), 'option oa_cuts_log_level reaches the messages of the cuts')
        c.require(st, z3.BoolVal(len(st.ghost['cs']) == 1) == (val('enum', 'cut_strengthening_type') != 0), 'cuts are strengthened exactly when asked')
CASES.append(('NLP interface parameters', extract))

# ---- cut generators -----------------------------------------------------------------------------
DB = 'Bonmin::OaDecompositionBase'
BASE = [('oa_log_frequency', 'num', 'parameters_.logFrequency_'), ('allowable_fraction_gap', 'num', 'parameters_.gap_tol_'), ('milp_log_level', 'int', 'parameters_.subMilpLogLevel_'), ('cutoff_decr', 'num', 'parameters_.cbcCutoffIncrement_'), ('integer_tolerance', 'num', 'parameters_.cbcIntegerTolerance_'),
 ('add_only_violated_oa', 'flag', 'parameters_.addOnlyViolated_'), ('oa_cuts_scope', 'flag', 'parameters_.global_')]
SOLS = [('solution_limit', 'int', 'parameters_.maxSols_')]
def gen(cls, own, base=True, sols=True, sub=False):
    def f(c):
        E = strings(c); o = options(c, E); b = setup_object(c, E, o); nops(c); ex = c.ex
        nlp = c.object(OSI, 'nlp', vectors=False); c.set(b, 'nonlinearSolver_', P(nlp)); this = c.object(cls, 'this', vectors=False)
        same = z3.Bool('same_text(%s,%s)' % tuple(sorted((str((('prefix',),)), str(('bonmin.',))))))
        oi, od = c.offset(BSB, 'intParam_'), c.offset(BSB, 'doubleParam_'); c.st.ghost['sub'] = ()
        if sub:
            def mk(e, st, a, ins, dem, ctx): st.ghost['sub'] = st.ghost['sub'] + ((a[0], a[1], E.get(e, st, a[2])),)
            ex.add_model(r'Bonmin::SubMipSolver::SubMipSolver\(Bonmin::BabSetupBase', mk)
        args = [P(this), P(b)] + ([c.int('leave', 0, 1), c.int('reassign', 0, 1)] if cls == DB else [])
        name = cls + '::' + cls.split('::')[-1] + '(Bonmin::BabSetupBase&'
        name = [d for d in c.proj.mod.bydem if d.startswith(name)][0]
        for r in rets(c, c.call(name, args)):
            st = r.st
            for nm, k, fl in own + (BASE if base else []) + (SOLS if sols else []):
                if k == 'sub':
                    c.require(st, zi(c.get(st, this, fl)) == z3.If(same, val('enum', nm, (sub,)), val('enum', nm, norm((('prefix',), sub)))), 'option %s reaches the generator' % nm)
                elif k == 'flag':
                    v = c.get(st, this, fl, 'bool'); c.require(st, zb(v) == (val('enum', nm) != 0), 'option %s reaches the generator' % nm)
                else:
                    v = c.get(st, this, fl, 'real') if k == 'num' else c.get(st, this, fl); c.require(st, (zr(v) if k == 'num' else zi(v)) == val(k, nm), 'option %s reaches the generator' % nm)
            c.require(st, c.ex.ptreq(c.get(st, this, 'nlp_', 'ptr'), P(nlp)), 'the generator works on the NLP of the setup')
            if base:
                h = c.get(st, this, 'handler_', 'ptr'); lg = st.ghost.get('log', {}); c.require(st, str(h) in lg and zi(lg[str(h)]) == val('int', 'oa_log_level'), 'option oa_log_level reaches the messages')
                c.require(st, c.ex.ptreq(c.get(st, this, 's_', 'ptr'), P(b)), 'the generator knows its setup')
            if cls == DB:
                c.require(st, zb(c.get(st, this, 'leaveSiUnchanged_', 'bool')) == (args[2] != 0), 'LP left unchanged as asked'); c.require(st, zb(c.get(st, this, 'reassignLpsolver_', 'bool')) == (args[3] != 0), 'LP reassigned as asked')
            if cls == 'Bonmin::OaFeasibilityChecker': c.require(st, zi(c.get(st, this, 'cut_count_')) == 0, 'no cuts counted yet')
            if sub:
                p1, p2 = (sub,), norm((('prefix',), sub)); V = lambda k, nm: z3.If(same, val(k, nm, p1), val(k, nm, p2))
                ms, mt = zi(c.deref(st, P(b, oi + 4 * 8), 'int')), zr(c.deref(st, P(b, od + 8 * 5), 'real')); lo = lambda x, y: z3.If(x <= y, x, y)
                c.require(st, zi(c.get(st, this, 'parameters_.maxSols_')) == lo(V('int', 'solution_limit'), ms), 'number of solutions: the smaller of the limits for the algorithm and for the search')
                c.require(st, zr(c.get(st, this, 'parameters_.maxLocalSearchTime_', 'real')) == lo(V('num', 'time_limit'), mt), 'time: the smaller of the limits for the algorithm and for the search')
                c.require(st, zi(c.get(st, this, 'parameters_.maxLocalSearch_')) == 2**31 - 1, 'number of MILPs not limited')
                S = st.ghost['sub']; c.require(st, len(S) == 1, 'one MILP solver')
                if len(S) == 1:
                    c.require(st, c.ex.ptreq(S[0][0], c.get(st, this, 'subMip_', 'ptr')), 'the MILP solver is the one used'); c.require(st, c.ex.ptreq(S[0][1], P(b)), 'MILP solver set up from the same options')
                    c.require(st, z3.If(same, z3.BoolVal(S[0][2] == p1), z3.BoolVal(S[0][2] == p2)), 'MILP solver set up with the options of the algorithm')
    return f
CASES += [('cut generators [common]', gen(DB, [])),
 ('feasibility checker', gen('Bonmin::OaFeasibilityChecker', [('feas_check_cut_types', 'enum', 'type_'), ('feas_check_discard_policy', 'enum', 'pol_'), ('generate_benders_after_so_many_oa', 'int', 'maximum_oa_cuts_')])),
 ('ECP cuts', gen('Bonmin::EcpCuts', [('ecp_max_rounds', 'int', 'numRounds_'), ('ecp_abs_tol', 'num', 'abs_violation_tol_'), ('ecp_rel_tol', 'num', 'rel_violation_tol_'), ('ecp_probability_factor', 'num', 'beta_')])),
 ('cuts at NLP optima', gen('Bonmin::OaNlpOptim', [('nlp_solve_max_depth', 'int', 'maxDepth_'), ('nlp_solves_per_depth', 'num', 'solves_per_level_'), ('add_only_violated_oa', 'flag', 'addOnlyViolated_'), ('oa_cuts_scope', 'flag', 'global_')], base=False, sols=False)),
 ('outer approximation', gen('Bonmin::OACutGenerator2', [], sols=False, sub='oa_decomposition.')), ('feasibility pump', gen('Bonmin::MinlpFeasPump', [('fp_pass_infeasible', 'sub', 'passBound_')], sols=False, sub='pump_for_minlp.'))]

def submip(c):
    E = strings(c); o = options(c, E); b = setup_object(c, E, o); nops(c); ex = c.ex
    this = c.object('Bonmin::SubMipSolver', 'this', vectors=False); pre = Obj('prefix_arg', lazy=True); c.st.mem[pre] = OS(); E.put(c.st, P(pre), (('prefix',),))
    c.st.ghost['made'] = ()
    def mk(what):
        def h(e, st, a, ins, dem, ctx): st.ghost['made'] = st.ghost['made'] + ((what, a[0], E.get(e, st, a[2]) if what == 'choose' else None),)
        return h
    ex.add_model(r'CbcStrategyDefault::CbcStrategyDefault\(', mk('default')); ex.add_model(r'Bonmin::CbcStrategyChooseCuts::CbcStrategyChooseCuts\(Bonmin::BabSetupBase&', mk('choose')); ex.add_model(r'Bonmin::CbcStrategyChooseCuts::~|CbcStrategyDefault::~', lambda e, st, a, ins, dem, ctx: None); ex.add_model(r'OsiClpSolverInterface::OsiClpSolverInterface\(', mk('lp'))
    hd = Obj('handler', lazy=True); c.st.mem[hd] = OS(); ex.add_model(r'OsiSolverInterface::messageHandler\(', lambda e, st, a, ins, dem, ctx: P(hd))
    ms = val('enum', 'milp_solver'); name = [d for d in c.proj.mod.bydem if d.startswith('Bonmin::SubMipSolver::SubMipSolver(Bonmin::BabSetupBase&')][0]
    for r in c.call(name, [P(this), P(b), P(pre)]):
        st = r.st
        if r.kind == 'throw': c.require(st, ms == 2, 'refused only when CPLEX is asked for, which this build does not have'); continue
        if r.kind != 'ret': continue
        c.require(st, ms != 2, 'a MILP solver that is not there is refused')
        c.require(st, zi(c.get(st, this, 'milp_strat_')) == z3.If(val('enum', 'milp_strategy') == 0, 0, 1), 'option milp_strategy reaches the MILP solver'); c.require(st, zr(c.get(st, this, 'gap_tol_', 'real')) == val('num', 'allowable_fraction_gap'), 'option allowable_fraction_gap reaches the MILP solver')
        M = st.ghost['made']; sg = c.get(st, this, 'strategy_', 'ptr'); lp = c.get(st, this, 'clp_', 'ptr')
        at = lambda w, p: any(x[0] == w and c.ex.ptreq(x[1], p) is True and (w != 'choose' or x[2] == (('prefix',),)) for x in M)
        c.require(st, z3.Implies(ms == 0, z3.BoolVal(at('default', sg) and at('lp', lp))), 'milp_solver = default strategy'); c.require(st, z3.Implies(ms == 1, z3.BoolVal(at('choose', sg) and at('lp', lp))), 'milp_solver = strategy with the chosen cuts, read with the same options')
        lg = st.ghost.get('log', {}); c.require(st, z3.Implies(ms <= 1, z3.BoolVal(str(P(hd)) in lg) if str(P(hd)) not in lg else zi(lg[str(P(hd))]) == val('int', 'milp_log_level')), 'option milp_log_level reaches the LP solver')
CASES.append(('MILP solver', submip))

# ---- branching and tree -------------------------------------------------------------------------
CV = 'Bonmin::BonChooseVariable'
def choose(c):
    E = strings(c); o = options(c, E); b = setup_object(c, E, o); nops(c); ex = c.ex; this = c.object(CV, 'this', vectors=False); lp = Obj('solver', lazy=True); c.st.mem[lp] = OS()
    no = c.int('objects', 0); oi = c.offset(BSB, 'intParam_'); ex.add_model(r'OsiSolverInterface::numberObjects\(', lambda e, st, a, ins, dem, ctx: no)
    def base(e, st, a, ins, dem, ctx): e.store(st, P(this, c.offset(CV, 'solver_')), a[1], PT)
    ex.add_model(r'OsiChooseVariable::OsiChooseVariable\(OsiSolverInterface const\*', base); ex.add_model(r'OsiChooseVariable::~', lambda e, st, a, ins, dem, ctx: None)
    c.st.ghost['pc'] = ()
    ex.add_model(r'OsiPseudoCosts::(OsiPseudoCosts|~OsiPseudoCosts)\(', lambda e, st, a, ins, dem, ctx: None)
    def pi(e, st, a, ins, dem, ctx): st.ghost['pc'] = st.ghost['pc'] + (a[1],)
    ex.add_model(r'OsiPseudoCosts::initialize\(', pi)
    st0 = c.st; ns, mr = zi(c.deref(st0, P(b, oi + 4 * 5), 'int')), zi(c.deref(st0, P(b, oi + 4 * 6), 'int'))
    name = [d for d in c.proj.mod.bydem if d.startswith(CV + '::BonChooseVariable(Bonmin::BabSetupBase&')][0]
    for r in rets(c, c.call(name, [P(this), P(b), P(lp)])):
        st = r.st
        for nm, k, fl in [('bb_log_level', 'int', 'bb_log_level_'), ('time_limit', 'num', 'time_limit_'), ('setup_pseudo_frac', 'num', 'setup_pseudo_frac_'), ('maxmin_crit_no_sol', 'num', 'maxmin_crit_no_sol_'), ('maxmin_crit_have_sol', 'num', 'maxmin_crit_have_sol_'), ('trust_strong_branching_for_pseudo_cost', 'enum', 'trustStrongForPseudoCosts_'),
                          ('number_strong_branch_root', 'int', 'numberStrongRoot_'), ('min_number_strong_branch', 'int', 'minNumberStrongBranch_'), ('number_look_ahead', 'int', 'numberLookAhead_')]:
            v = c.get(st, this, fl, 'real') if k == 'num' else c.get(st, this, fl); c.require(st, (zr(v) if k == 'num' else zi(v)) == val(k, nm), 'option %s reaches the branching' % nm)
        c.require(st, zi(c.get(st, this, 'numberBeforeTrustedList_')) == z3.If(given('int', 'number_before_trust_list'), val('int', 'number_before_trust_list'), mr), 'option number_before_trust_list, by default number_before_trust')
        c.require(st, zi(c.get(st, this, 'numberStrong_')) == ns, 'number of strong branching candidates'); c.require(st, zi(c.get(st, this, 'pseudoCosts_.numberBeforeTrusted_')) == mr, 'number before trust'); c.require(st, len(st.ghost['pc']) == 1 and zi(st.ghost['pc'][0]) == no, 'pseudo costs for every object')
CASES.append(('variable selection', choose))
def diver(cls, own):
    def f(c):
        E = strings(c); o = options(c, E); b = setup_object(c, E, o); nops(c); this = c.object(cls, 'this', vectors=False)
        for r in rets(c, c.call(cls + '::initialize', [P(this), P(b)])):
            for nm, k, fl in own:
                if k == 'bool': c.require(r.st, zb(c.get(r.st, this, fl, 'bool')) == (val(k, nm) != 0), 'option %s reaches the tree search' % nm)
                else: c.require(r.st, zi(c.get(r.st, this, fl)) == val(k, nm), 'option %s reaches the tree search' % nm)
            c.unchanged(r.st, [this])
    return f
SD = [('stop_diving_on_cutoff', 'bool', 'stop_diving_on_cutoff_')]
CASES += [('diving', diver('Bonmin::CbcDiver', SD)), ('probed diving', diver('Bonmin::CbcProbedDiver', SD)), ('depth-first diving', diver('Bonmin::CbcDfsDiver', [('max_dive_depth', 'int', 'maxDiveDepth_'), ('max_backtracks_in_dive', 'int', 'maxDiveBacktracks_')]))]
MILP = [('Gomory_cuts', 'CglGomory'), ('mir_cuts', 'CglMixedIntegerRounding2'), ('2mir_cuts', 'CglTwomir'), ('cover_cuts', 'CglKnapsackCover'), ('clique_cuts', 'CglClique'), ('flow_cover_cuts', 'CglFlowCover'), ('lift_and_project_cuts', 'CglLandP'), ('reduce_and_split_cuts', 'CglRedSplit')]
def milpcuts(c):
    E = strings(c); o = options(c, E); b = setup_object(c, E, o); nops(c); ex = c.ex; c.st.ghost['cgl'] = {}; c.st.ghost['gens'] = (); CM = BSB + '::CuttingMethod'
    for _, k in MILP:
        def mk(e, st, a, ins, dem, ctx, k=k): st.ghost['cgl'] = dict(st.ghost['cgl'], **{str(a[0]): k})
        ex.add_model(k + r'::(?!%s\()' % k, lambda e, st, a, ins, dem, ctx: None); ex.add_model(r'%s::%s\(' % (k, k), mk)
    lst = P(b, c.offset(BSB, 'cutGenerators_'))
    def push(e, st, a, ins, dem, ctx):
        e.oblige(st, e.ptreq(a[0], lst), 'pre', 'added to the cut generators of the search')
        ld = lambda f, t: e.load(st, P(a[1].obj, iadd(a[1].off, c.offset(CM, f))), t); B = scal_ty(1, 'int')
        st.ghost['gens'] = st.ghost['gens'] + ((ld('frequency', I32), st.ghost['cgl'].get(str(ld('cgl', PT))), ld('normal', B), ld('atSolution', B), ld('always', B)),)
    ex.add_model(r'std::__cxx11::list<Bonmin::BabSetupBase::CuttingMethod.*>::(push_back|emplace_back<.*>)\(', push)
    for r in rets(c, c.call('Bonmin::BonminSetup::addMilpCutGenerators', [P(b)])):
        st = r.st; g = st.ghost['gens']
        for nm, k in MILP:
            m = [x for x in g if x[1] == k]; f = val('int', nm)
            c.require(st, len(m) <= 1 and z3.BoolVal(len(m) == 1) == (f != 0), 'option %s decides whether its cuts are used' % nm)
            if len(m) == 1: c.require(st, zi(m[0][0]) == f, 'option %s is the frequency of its cuts' % nm); c.require(st, z3.And(zi(m[0][2]) == 1, zi(m[0][3]) == 0, zi(m[0][4]) == 0), 'cuts generated in the normal way')
        c.require(st, all(x[1] in dict((k, n) for n, k in MILP) for x in g), 'no other cut generator')
CASES.insert(0, ('MILP cuts', milpcuts))

def lpcuts(c):
    E = strings(c); o = options(c, E); b = setup_object(c, E, o); nops(c); K = 'Bonmin::CbcStrategyChooseCuts'; this = c.object(K, 'this', vectors=False); pre = Obj('prefix_arg', lazy=True); c.st.mem[pre] = OS(); E.put(c.st, P(pre), (('prefix',),)); g = c.offset(K, 'gen_freqs_')
    for r in rets(c, c.call(K + '::setup', [P(this), P(b), P(pre)])):
        st = r.st
        c.require(st, zi(c.get(st, this, 'numberStrong_')) == val('int', 'number_strong_branch'), 'option number_strong_branch reaches the MILP strategy'); c.require(st, zi(c.get(st, this, 'numberBeforeTrust_')) == val('int', 'number_before_trust'), 'option number_before_trust reaches the MILP strategy')
        for i, nm in enumerate(('Gomory_cuts', 'cover_cuts', 'clique_cuts', 'flow_cover_cuts', 'mir_cuts')):
            c.require(st, zi(c.deref(st, P(this, g + 4 * (i + 1)), 'int')) == z3.If(given('int', nm), val('int', nm), -99), 'option %s is the frequency of its cuts in the MILP, by default at the root only' % nm)
CASES.append(('MILP strategy', lpcuts))
# ---- B-BB: heuristics and branching -------------------------------------------------------------
HEUR = [('heuristic_dive_fractional', 'HeuristicDiveFractional'), ('heuristic_dive_vectorLength', 'HeuristicDiveVectorLength'), ('heuristic_dive_MIP_fractional', 'HeuristicDiveMIPFractional'), ('heuristic_dive_MIP_vectorLength', 'HeuristicDiveMIPVectorLength'), ('heuristic_feasibility_pump', 'HeuristicFPump'), ('fix_and_solve_heuristic', 'FixAndSolveHeuristic'),
 ('dummy_pump_heuristic', 'DummyPump'), ('heuristic_RINS', 'HeuristicRINS'), ('heuristic_local_branching', 'HeuristicLocalBranching'), ('pump_for_minlp', 'PumpForMinlp'), ('MILP_rounding_heuristic', 'MilpRounding')]
def bbb(sel, general):
    """heuristics and branching of B-BB; the class of what is built is kept in memory cells so that paths can be merged"""
    def f(c):
        E = strings(c); o = options(c, E); b = setup_object(c, E, o); nops(c); ex = c.ex; A = ex.add_model; BS = 'Bonmin::BonminSetup'; b.cls = BS
        nlp = c.object(OSI, 'nlp', vectors=False); nlp.cls = OSI; c.set(b, 'nonlinearSolver_', P(nlp)); c.set(b, 'continuousSolver_', P(nlp)); c.set(b, 'branchingMethod_', NULL)
        cnt = Obj('counts', lazy=True); c.st.mem[cnt] = OS(cells={4 * i: (4, 0) for i in range(64)}, size=256); none = lambda e, st, a, ins, dem, ctx: None
        def bump(e, st, i): e.store(st, P(cnt, 4 * i), iadd(e.load(st, P(cnt, 4 * i), I32), 1), I32)
        kind = {}
        for i, (_, k) in enumerate(HEUR):
            def mk(e, st, a, ins, dem, ctx, i=i): kind[a[0].obj] = i
            A(r'Bonmin::%s::%s\(Bonmin::BonminSetup\*' % (k, k), mk)
        def push(e, st, a, ins, dem, ctx):
            e.oblige(st, e.ptreq(a[0], P(b, c.offset(BSB, 'heuristics_'))), 'pre', 'added to the heuristics of the search'); q = e.load(st, P(a[1].obj, iadd(a[1].off, c.offset(BSB + '::HeuristicMethod', 'heuristic'))), PT)
            bump(e, st, kind[q.obj] if q.obj in kind else 20)
        A(r'std::__cxx11::list<Bonmin::BabSetupBase::HeuristicMethod.*>::(push_back|emplace_back<.*>)\(', push)
        A(r'OsiBabSolver::', none); A(r'OsiAuxInfo::~', none); A(r'OsiSolverInterface::setAuxiliaryInfo\(', none); A(r'Bonmin::BabSetupBase::(setPriorities|addSos)\(', none)
        ex.vmodels['OsiSolverInterface::findIntegersAndSOS'] = ex.vmodels[OSI + '::findIntegersAndSOS'] = lambda e, st, a, ins, m, ctx: None; A(r'OsiSolverInterface::findIntegersAndSOS\(', none)
        gi = z3.BoolVal(general); ex.vmodels['Bonmin::TMINLP::hasGeneralInteger'] = lambda e, st, a, ins, m, ctx: gi; A(r'Bonmin::TMINLP::hasGeneralInteger\(', lambda e, st, a, ins, dem, ctx: gi)
        mdl = Obj('problem', lazy=True); c.st.mem[mdl] = OS(); mdl.cls = 'Bonmin::TMINLP'; A(r'Bonmin::OsiTMINLPInterface::model\(', lambda e, st, a, ins, dem, ctx: P(mdl)); A(r'Bonmin::OsiTMINLPInterface::SetStrongBrachingSolver\(', lambda e, st, a, ins, dem, ctx: e.store(st, P(cnt, 4 * 40), 1, I32))
        A(r'OsiSolverInterface::messageHandler\(', lambda e, st, a, ins, dem, ctx: NULL); A(r'Bonmin::BonChooseVariable::passInMessageHandler\(', none)
        made = {}
        def mkb(k):
            def h(e, st, a, ins, dem, ctx): made[a[0].obj] = k; a[0].obj.cls = None
            return h
        for k in ('OsiChooseVariable', 'OsiChooseStrong', 'BonRandomChoice', 'Bonmin::BonChooseVariable', 'Bonmin::QpBranchingSolver', 'Bonmin::LpBranchingSolver'): A(r'%s::%s\(' % (k, k.split('::')[-1]), mkb(k))
        def strong(e, st, a, ins, m, ctx): e.store(st, P(cnt, 4 * 41), 1, I32); e.store(st, P(cnt, 4 * 42), a[1], I32)
        for k in ('OsiChooseVariable', 'OsiChooseStrong', 'Bonmin::BonChooseVariable', 'BonRandomChoice'): ex.vmodels[k + '::setNumberStrong'] = strong
        A(r'OsiChooseVariable::setNumberStrong\(', strong)
        ex.merge = True
        vs = val('enum', 'variable_selection'); gvs = given('enum', 'variable_selection'); oi = c.offset(BSB, 'intParam_')
        if sel == 'default': c.assume(z3.Not(gvs))
        else: c.assume(gvs, vs == sel)
        for r in rets(c, c.call(BS + '::initializeBBB', [P(b)])):
            st = r.st; n = lambda i: zi(c.deref(st, P(cnt, 4 * i), 'int'))
            for i, (nm, k) in enumerate(HEUR):
                w = val('enum', nm) != 0
                if nm == 'heuristic_dive_MIP_fractional' or (nm == 'heuristic_feasibility_pump'): w = z3.Or(z3.Not(given('enum', nm)), w)
                if nm == 'heuristic_feasibility_pump' and general: continue
                c.require(st, n(i) == z3.If(w, 1, 0), 'option %s decides whether its heuristic is used' % nm)
            c.require(st, n(20) == 0, 'no other heuristic')
            for i, nm, d in ((5, 'number_strong_branch', 1000), (6, 'number_before_trust', 1)): c.require(st, zi(c.deref(st, P(b, oi + 4 * i), 'int')) == z3.If(given('int', nm), val('int', nm), d), 'option %s, by default %d in B-BB' % (nm, d))
            bm = c.get(st, b, 'branchingMethod_', 'ptr'); want = {'default': 'Bonmin::BonChooseVariable', 3: 'Bonmin::BonChooseVariable', 4: 'Bonmin::BonChooseVariable', 5: 'Bonmin::BonChooseVariable', 6: 'OsiChooseVariable', 7: 'OsiChooseStrong', 8: 'BonRandomChoice'}.get(sel)
            c.require(st, made.get(bm.obj) == want if isinstance(bm, P) and bm.obj is not None else want is None, 'variable selection as chosen')
            if want == 'Bonmin::BonChooseVariable':
                flag = lambda nm: c.deref(st, P(bm.obj, iadd(bm.off, c.offset('OsiChooseVariable', nm))), 'bool')
                c.require(st, z3.Not(zb(flag('trustStrongForSolution_'))), 'a solution found in strong branching is not taken as one of the problem')
                if sel == 3: c.require(st, z3.Not(zb(flag('trustStrongForBound_'))), 'the optimum of the QP approximation is not taken as a bound')
            if want: c.require(st, z3.And(n(41) == 1, n(42) == zi(c.deref(st, P(b, oi + 4 * 5), 'int'))), 'number of strong branching candidates given to the variable selection')
    return f
CASES = [('B-BB [variable selection %s%s]' % (s, ', general integers' if g else ''), bbb(s, g)) for s in ('default', 0, 1, 2, 3, 4, 5, 6, 7, 8) for g in ((False, True) if s == 'default' else (False,))] + CASES
