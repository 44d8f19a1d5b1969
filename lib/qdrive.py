"""Replays programs generated by the TLA+ state machine (spec/QGen.tla) with the
public API of the real QNET code, and records for every step what came out, as
plain JSON trees (qexport) for validation by spec/QTrace.tla.

  qdrive.py PROGRAMS.ndjson TRACE.ndjson [nproc]
"""
import os, sys, json, signal, traceback, operator
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
import sympy
import qnet
from qnet import *            # noqa: the public API is what is driven
import qnet.algebra.core.scalar_algebra as _sc
from qnet.algebra.core.abstract_algebra import Expression
from qexport import Exporter, Unsupported, strhash

assert os.path.realpath(qnet.__file__).startswith(os.path.realpath(REPO)), qnet.__file__

class Skip(Exception):
    """the call is not applicable to these operands"""

def numeric(v):
    v = getattr(v, 'val', None)
    if v is None or (isinstance(v, sympy.Basic) and not v.is_number):
        raise Skip()

class Timeout(Exception):
    pass

def on_alarm(sig, frm):
    raise Timeout()

# --- degrees of freedom (numbers as in SpaceTab of spec/QOps.tla) ------------
def make_spaces():
    return {
        1: LocalSpace('a', dimension=2),
        2: LocalSpace('b', dimension=2),
        3: LocalSpace('q', basis=('g', 'e')),
        4: LocalSpace(0),
        5: LocalSpace(1),
        6: SpinSpace('s', spin='1/2'),
        7: SpinSpace('z', spin=1),
        8: LocalSpace('c', dimension=3),
        9: LocalSpace('10', dimension=2),
        10: LocalSpace('w', dimension=2, order_index=1),
        11: LocalSpace('f', order_index=2),
        12: SpinSpace('u', spin='3/2'),
        13: LocalSpace('v', basis=('g', 'e', 'r')),
    }
SPACE_IDS = {'a': 1, 'b': 2, 'q': 3, '0': 4, '1': 5, 's': 6, 'z': 7, 'c': 8, '10': 9, 'w': 10,
             'f': 11, 'u': 12, 'v': 13}
SPACES = make_spaces()

def prod_space(ids):
    if not ids:
        return TrivialSpace
    if len(ids) == 1:
        return SPACES[ids[0]]
    return ProductSpace.create(*[SPACES[i] for i in ids])

# --- scalars -------------------------------------------------------------------
X, Y = sympy.symbols('x y')
R = sympy.symbols('r', real=True)
T_ = sympy.symbols('t', real=True)
PP = sympy.symbols('p', positive=True)
IDX = {n: IdxSym(n) for n in 'ijk'}
INDEXED = {n: sympy.IndexedBase(n) for n in ('A', 'B', 'K', 'L', 'al')}
SYMS = {'x': X, 'y': Y, 'r': R, 'p': PP, 't': T_}
PYNUM = {'2': 2, '-1': -1, '0': 0, '1': 1, '-3': -3, '0.5': 0.5, '1-2j': 1 - 2j, '3j': 3j}
def parse_scalar(s):
    if s in PYNUM:
        return PYNUM[s]
    return sympy.sympify(s, locals=dict(SYMS, **IDX, **INDEXED, KD=sympy.KroneckerDelta, conj=sympy.conjugate, I=sympy.I))

def kind_of(v):
    """observed kind of an object, as letters of the specification"""
    if isinstance(v, SuperOperator):
        return 'P'
    if isinstance(v, Bra):
        return 'B'
    if isinstance(v, (State,)):
        return 'B' if getattr(v, 'isbra', False) else 'K'
    if isinstance(v, Operator):
        return 'O'
    if isinstance(v, Scalar) or isinstance(v, (int, float, complex, sympy.Basic)) or type(v).__module__ == 'numpy':
        return 'S'
    return 'X'

PLUS = {'O': lambda: OperatorPlus, 'K': lambda: KetPlus, 'P': lambda: SuperOperatorPlus, 'S': lambda: _sc.ScalarPlus}
TIMES = {'O': lambda: OperatorTimes, 'K': lambda: TensorKet, 'P': lambda: SuperOperatorTimes, 'S': lambda: _sc.ScalarTimes}

def wrap(v):
    return v if isinstance(v, Expression) else ScalarValue.create(v)

def level(l, sp):
    if l['l'].startswith('@'):
        i = IDX[l['l'][1:]]
        if isinstance(sp, SpinSpace):
            return SpinIndex(i - sp.spin, sp)
        if sp._basis and sp._basis[0] != '0' and l['i'] == 1:
            return FockLabel(i, sp)
        return FockIndex(i)
    return l['l'] if l['l'] else l['i']

def sum_args(rg):
    if rg['k'] == 'list':
        return (list(rg['v']),)
    if rg['k'] == 'range':
        v = rg['v']
        return (v[0], v[1]) if v[2] == 1 else (v[0], v[1], v[2])
    return (SPACES[rg['v'][0]],)

def var_map(st, a):
    m = {}
    for e in st['m']:
        if e['k'] == 's':
            m[SYMS[e['a']] if e['a'] in SYMS else IDX[e['a']]] = sympy.sympify(parse_scalar(e['b']))
        elif e['k'] == 'e':
            m[a[2]] = a[1]
        else:
            m[SPACES[e['a']]] = SPACES[e['b']]
    return m

def leaf(st, ex):
    """(constructor call, meaning of the leaf as a tree built from the raw parameters)"""
    c, hs = st['cls'], st['hs']
    if c == 'plain':
        v = parse_scalar(st['lab'])
        return (lambda: v), ex.node(v)
    if c == 'ScalarValue':
        v = parse_scalar(st['lab'])
        return (lambda: ScalarValue.create(v)), ex.node(v)
    if c == 'BraKet':
        lab = st['lab']
        kn = [{'c': 'KetSymbol', 'l': {'s': x, 'h': strhash(x)}, 'a': [], 'hs': sorted(hs)} for x in lab]
        return ((lambda: KetSymbol(lab[0], hs=prod_space(hs)).dag() * KetSymbol(lab[1], hs=prod_space(hs))),
                {'c': 'BraKet', 'a': kn})
    ax = [parse_scalar(a) for a in st['ax']]
    axn = [ex.node(a) for a in ax]
    if c in ('OperatorSymbol', 'KetSymbol', 'SuperOperatorSymbol'):
        lab = st['lab']
        if '[' in lab:
            lbl = StrLabel(parse_scalar(lab))
            return ((lambda: getattr(qnet, c)(lbl, *ax, hs=prod_space(hs))),
                    {'c': c, 'l': ex.label(lbl), 'a': axn, 'hs': sorted(hs)})
        return ((lambda: getattr(qnet, c)(lab, *ax, hs=prod_space(hs))),
                {'c': c, 'l': {'s': lab, 'h': strhash(lab)}, 'a': axn, 'hs': sorted(hs)})
    if c in ('IdentityOperator', 'ZeroOperator', 'IdentitySuperOperator', 'ZeroSuperOperator', 'TrivialKet', 'ZeroKet'):
        return (lambda: getattr(qnet, c)), {'c': c, 'a': []}
    if c in ('LocalSigma', 'BasisKet', 'LocalProjector'):
        sp = SPACES[hs[0]]
        lv = [level(l, sp) for l in st['lv']]
        nd = {'c': c, 'a': [ex.node(IDX[l['l'][1:]]) if l['l'].startswith('@') else ex.intnode(l['i'])
                            for l in st['lv']], 'hs': hs}
        if c == 'BasisKet':
            return (lambda: BasisKet(lv[0], hs=sp)), nd
        if c == 'LocalProjector':
            return (lambda: LocalProjector(lv[0], hs=sp)), nd
        return (lambda: LocalSigma.create(*lv, hs=sp)), nd
    nd = {'c': c, 'a': axn, 'hs': hs}
    if c == 'Phase':
        nd['ex'] = ex.expnode(sympy.I * ax[0])
    return (lambda: getattr(qnet, c)(*ax, hs=SPACES[hs[0]])), nd

def run_step(st, a, ty):
    o = st['op']
    if o == 'mul':
        return a[0] * a[1]
    if o in ('add', 'sub'):
        try:
            return a[0] + a[1] if o == 'add' else a[0] - a[1]
        except NotImplementedError:         # + is not implemented for indexed sums
            return PLUS[ty]().create(wrap(a[0]), wrap(a[1] if o == 'add' else -a[1]))
    if o == 'div':
        return a[0] / a[1]
    if o == 'neg':
        return -a[0]
    if o == 'pow':
        return a[0] ** st['n']
    if o == 'dag':
        return a[0].dag() if len(st['r']) % 2 else a[0].adjoint()
    if o == 'conj':
        return a[0].conjugate()
    if o == 'sqrt':
        return qnet.sqrt(a[0])
    if o in ('re', 'im'):
        v = wrap(a[0])
        return v.real if o == 're' else v.imag
    if o == 'cplx':
        v = wrap(a[0])
        numeric(v)
        kinds = [complex]
        if not isinstance(v.val, complex) and not (isinstance(v.val, sympy.Basic) and not v.val.is_real):
            kinds.append(float)
            if v.val == int(v.val):
                kinds.append(int)
        vals = [k(v) for k in kinds]
        if any(type(x) is not k for x, k in zip(vals, kinds)):
            raise TypeError('conversion returns wrong type')
        return vals[st['k'] % len(vals)]
    if o in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        numeric(wrap(a[0])), numeric(wrap(a[1]))
        res = getattr(operator, o)(a[0], a[1])
        raw = [getattr(v, 'val', v) for v in a]
        if o == 'eq' and res and hash(raw[0]) == hash(raw[1]) and hash(a[0]) != hash(a[1]):
            raise ValueError('equal numbers with different hashes')
        if res not in (True, False):
            raise Skip()
        return int(bool(res))
    if o == 'commutator':
        return Commutator.create(a[0], a[1])
    if o == 'trace':
        return OperatorTrace.create(a[0], over_space=prod_space(st['over']))
    if o == 'spre':
        return SPre.create(a[0])
    if o == 'spost':
        return SPost.create(a[0])
    if o == 'scomm':
        return qnet.commutator(a[0])
    if o == 'santi':
        return qnet.anti_commutator(a[0])
    if o == 'lindblad':
        return qnet.lindblad(a[0])
    if o == 'liouv':
        return qnet.liouvillian(a[0], list(a[1:]))
    if o == 'nsum':
        return PLUS[ty]().create(*[wrap(x) for x in a])
    if o == 'nprod':
        return TIMES[ty]().create(*[wrap(x) for x in a])
    if o == 'pmccform':
        return OperatorPlusMinusCC.create(a[0], sign=st['n'])
    if o in ('expand', 'simp', 'rebuild', 'doit', 'doit1', 'simplify'):
        a = [wrap(a[0])]
    if o == 'expand':
        return a[0].expand()
    if o == 'simp':
        return a[0].simplify_scalar()
    if o == 'rebuild':
        return a[0].rebuild()
    if o == 'doit':
        return a[0].doit()
    if o == 'doit1':
        return a[0].doit(recursive=False)
    if o == 'simplify':
        return a[0].apply_rules([]) if isinstance(a[0], Expression) else a[0]
    if o == 'leibniz':
        return expand_commutators_leibniz(a[0], expand_expr=bool(st['n']))
    if o == 'pmcc':
        return rewrite_with_operator_pm_cc(a[0])
    if o == 'basis':
        return a[0].expand_in_basis(hermitian=bool(st['n']))
    if o == 'coeffs':
        cs = get_coeffs(a[0], expand=bool(st['n']))
        res = ZeroOperator
        for op, c in cs.items():
            res = res + c * op
        return res
    if o == 'isum':
        return Sum(IDX[st['s']], *sum_args(st['rg']))(wrap(a[0]))
    if o == 'doiti':
        return wrap(a[0]).doit(indices=[IDX[st['s']]])
    if o == 'subs':
        m = var_map(st, a)
        if st['n'] and isinstance(a[0], Expression):
            return a[0].substitute(m)
        return substitute(a[0], m)
    if o == 'diff':
        return wrap(a[0]).diff(SYMS[st['s']], n=st['n'])
    if o == 'series':
        return wrap(a[0]).series_expand(SYMS[st['s']], parse_scalar(st['ab']), st['n'])
    raise ValueError(o)

def rational(ex, v):
    v = getattr(v, 'val', v)
    if isinstance(v, (int, float, sympy.Rational)):
        return ex.node(v)
    return {'f': 'other', 'w': 'not rational', 'a': []}

def text(v):
    try:
        return repr(v)[:300]
    except Exception as e:
        return 'repr raises %s' % type(e).__name__

def obs_space(v):
    if not isinstance(v, Expression):
        return []
    return v.space

def replay(prog, limit):
    pv = bool(prog.get('pv', False))
    ex = Exporter(SPACE_IDS, syms=list(SYMS.values()) + (list(IDX.values()) if pv else []))
    regs = []
    out = []
    for k, st in enumerate(prog['steps']):
        rec = dict(st)
        rec['k'] = k + 1
        rec['isp'] = prog['sps'][k]
        val = None
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            if any(regs[i - 1] is None for i in st['r']):
                rec['exc'] = 'operand'
            elif st['op'] == 'leaf':
                ex.count = 0
                mk, rec['nd'] = leaf(st, ex)
                val = mk()
            else:
                val = run_step(rec, [regs[i - 1] for i in st['r']], st['ty'])
            if val is None and 'exc' not in rec:
                rec['exc'] = 'None'
                rec['msg'] = 'result is None'
        except Timeout:
            rec['exc'] = 'timeout'
        except Skip:
            rec['exc'] = 'operand'
        except RecursionError:
            rec['exc'] = 'RecursionError'
            rec['msg'] = 'RecursionError'
        except Exception as e:
            rec['exc'] = type(e).__name__
            rec['msg'] = '%s: %s @ %s' % (type(e).__name__, str(e)[:200],
                                          traceback.extract_tb(e.__traceback__)[-1].name)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if st['op'] in ('lt', 'le', 'gt', 'ge'):
            rec['ra'], rec['rb'] = [rational(ex, regs[i - 1]) for i in st['r']]
        if st['op'] in ('re', 'im') and 'exc' not in rec:
            ex.count = 0
            rec['ua'] = ex.node(regs[st['r'][0] - 1])
        if st['op'] == 'isum':
            rec['id'] = ex.syms[IDX[st['s']]]
        if st['op'] == 'subs':
            rec['mx'] = []
            for e in st['m']:
                ex.count = 0
                if e['k'] == 's':
                    rec['mx'].append({'k': 's', 'a': ex.syms[SYMS[e['a']] if e['a'] in SYMS else IDX[e['a']]], 'b': ex.node(parse_scalar(e['b']))})
                elif e['k'] == 'e':
                    key = regs[st['r'][2] - 1]
                    rec['mx'].append({'k': 'e', 'a': out[st['r'][2] - 1]['nd'], 'kt': ex.node(key) if key is not None else {'c': 'Undef'}})
                else:
                    rec['mx'].append({'k': 'h', 'a': e['a'], 'b': e['b']})
            if val is not None:
                try:
                    rec['same'] = bool(val == regs[st['r'][0] - 1])
                except Exception as e:
                    rec['same'] = False
        if st['op'] == 'series':
            ex.count = 0
            rec['abn'] = ex.node(parse_scalar(st['ab']))
        if val is not None:
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                if st['op'] == 'series':
                    ex.count = 0
                    rec['otys'] = [kind_of(v) for v in val]
                    rec['rs'] = [ex.node(v) for v in val]
                    rec['str'] = str([text(v) for v in val]) if os.environ.get('VERIF_STR') else ''
                    regs.append(None)
                    out.append(rec)
                    continue
                rec['oty'] = kind_of(val)
                rec['rsp'] = ex.space(obs_space(val)) if isinstance(val, Expression) else []
                ex.count = 0
                rec['res'] = ex.node(val)
                if pv and isinstance(val, Expression):
                    for nm, ss in (('fs', val.free_symbols), ('bs', val.bound_symbols)):
                        rec[nm] = sorted(ex.syms[y] for y in ss if y in ex.syms)
                rec['str'] = text(val) if os.environ.get('VERIF_STR') else ''
            except (Timeout, Unsupported) as e:
                rec.pop('res', None)
                rec['exc'] = 'timeout'
            except Exception as e:
                rec.pop('res', None)
                rec['exc'] = 'observe:' + type(e).__name__
                rec['msg'] = '%s: %s @ %s' % (type(e).__name__, str(e)[:200],
                                              traceback.extract_tb(e.__traceback__)[-1].name)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        if 'nd' not in rec and rec['op'] == 'leaf':
            rec['nd'] = {'c': 'Undef'}
        regs.append(val if 'exc' not in rec else None)
        out.append(rec)
    n = len(ex.symtab)
    tr = {'id': prog['id'], 'sp': prog['sp'], 'ld': prog['ld'], 'val': prog.get('val', 1), 'ord': prog.get('ord', 0),
          'pv': bool(prog.get('pv', False)),
          'pr': [ex.syms[SYMS[s]] if s else 0 for s in prog.get('pr', ['', ''])],
          'syms': ex.symtab if n else [{'h': 1, 'k': 'c', 'n': '_'}], 'steps': out}
    return tr

def main():
    src, dst = sys.argv[1], sys.argv[2]
    limit = float(os.environ.get('VERIF_STEP_LIMIT', '10'))
    signal.signal(signal.SIGALRM, on_alarm)
    sys.setrecursionlimit(3000)
    with open(src) as f, open(dst, 'w') as g:
        for line in f:
            prog = json.loads(line)
            g.write(json.dumps(replay(prog, limit)) + '\n')

if __name__ == '__main__':
    main()
