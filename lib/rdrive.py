"""replays programs of spec/RuleScope.tla with the real classes, each program in a process of its own"""
from mdrive import *
import io, contextlib
from qnet import *
from qnet.algebra.core.abstract_algebra import Expression
from qnet.algebra.core.exceptions import CannotSimplify
from qnet.algebra.core.operator_algebra import OperatorPlus, OperatorTimes, ScalarTimesOperator
from qnet.algebra.core.state_algebra import OperatorTimesKet
from qnet.algebra.toolbox.core import temporary_rules, no_instance_caching, temporary_instance_cache
from qnet.algebra.pattern_matching import wc, pattern, pattern_head

CL = {1: OperatorTimes, 2: ScalarTimesOperator, 3: OperatorTimesKet, 4: OperatorPlus}
HS = LocalSpace('h1')
OPS = {n: OperatorSymbol(n, hs=HS) for n in ('U', 'V', 'W', 'X1', 'X2', 'X3', 'Y1', 'Y2')}
KETS = {n: KetSymbol(n, hs=HS) for n in ('psi', 'phi1', 'phi2', 'phi3')}
U, V, psi = OPS['U'], OPS['V'], KETS['psi']
A, B, P = wc('A', head=OperatorSymbol), wc('B', head=OperatorSymbol), wc('P', head=KetSymbol)
x = wc('x')

def subclasses(c):
    r = []
    for s in type.__subclasses__(c):
        r += [s] + subclasses(s)
    return r

OTHERS = sorted({c for c in subclasses(Expression) if c not in CL.values()}, key=lambda c: c.__name__)

def snapshot():
    return [(c.__name__, list(c.rules()), list(c.simplifications)) for c in OTHERS]

def rule(c, k, v):
    """pattern and replacement"""
    res = KETS['phi%d' % (v or 3)] if c == 3 else (OPS['X%d' % v] if v else IdentityOperator)
    if k == 'cs':
        def no(A, B=None):
            raise CannotSimplify
        def noP(A, P):
            raise CannotSimplify
        def nox(x, A):
            raise CannotSimplify
        return {1: (pattern_head(A, B), no), 4: (pattern_head(A, B), no), 3: (pattern_head(A, P), noP), 2: (pattern_head(x, A), nox)}[c]
    if k == 'first':
        return (pattern_head(*{1: (U, V), 4: (U, V), 3: (U, psi), 2: (2, U)}[c]), lambda: res)
    if k == 'second':
        if c == 2:
            return (pattern_head(3, A), lambda A: res)
        return (pattern_head(U, P), lambda P: res) if c == 3 else (pattern_head(V, B), lambda B: res)
    if k == 'any':
        if c == 2:
            return (pattern_head(x, A), lambda x, A: res)
        return (pattern_head(A, P), lambda A, P: res) if c == 3 else (pattern_head(A, B), lambda A, B: res)
    if c in (2, 3):
        return (pattern_head(U, U), lambda: res)
    return (pattern_head(A, A), lambda A: res)

def bad(c, w):
    cls = CL[c]
    if w == 'pattern':
        cls.add_rule('bad', 'A', lambda A: A)
    if w == 'name':
        cls.add_rule(3, pattern_head(A, B), lambda A, B: A)
    if w == 'norules':
        Adjoint.add_rule('bad', pattern_head(A, B), lambda A, B: A)
    if w == 'args':
        cls.add_rule('bad', pattern_head(A, B), lambda A: A)
    if w == 'head':
        cls.add_rule('bad', pattern(OperatorTimes, A, B), lambda A, B: A)
    if w == 'attr':
        cls.add_rule('bad', pattern_head(A, B), lambda A, B: A, attr='_nope')
    if w == 'delattr':
        cls.del_rules(attr='_nope')
    if w == 'del':
        cls.del_rules('nope')
    if w == 'enter':
        temporary_rules(cls, 5).__enter__()

def simp(c, y):
    def f(cls, ops, kwargs):
        if ops[1 if c == 2 else 0] == U:
            return KETS['phi3'] if c == 3 else OPS['Y%d' % y]
        return ops, kwargs
    return f

class Stop(Exception):
    pass

def step(st, stack):
    o = st['op']
    if o == 'add':
        CL[st['c']].add_rule(st['n'], *rule(st['c'], st['k'], st['v']))
    elif o == 'bad':
        bad(st['c'], st['w'])
    elif o == 'del':
        CL[st['c']].del_rules(*st['ns'])
    elif o in ('rules', 'nocache', 'cache'):
        cm = (temporary_rules(*[CL[c] for c in st['cs']], clear=st['clear']) if o == 'rules'
              else no_instance_caching() if o == 'nocache' else temporary_instance_cache(*[CL[c] for c in st['cs']]))
        cm.__enter__()
        stack.append(cm)
        for c in st.get('si', []):
            CL[c].simplifications.insert(0, simp(c, st['y']))
    else:
        for _ in range(st['k']):
            cm = stack.pop()
            if o == 'exit':
                cm.__exit__(None, None, None)
            else:
                try:
                    raise Stop()
                except Stop as e:
                    if cm.__exit__(Stop, e, e.__traceback__):
                        return '!swallowed'
    return 'ok'

def build(t):
    f, a = t['f'], t['a']
    if f in OPS: return OPS[f]
    if f in KETS: return KETS[f]
    if f == 'Id': return IdentityOperator
    if f == 'S': return ScalarTimesOperator(int(a[0]['f']), build(a[1]))
    if f == 'K': return OperatorTimesKet(build(a[0]), build(a[1]))
    return int(f)

def term(e):
    T = lambda f, *a: {'f': f, 'a': list(a)}
    if e is IdentityOperator: return T('Id')
    if isinstance(e, OperatorSymbol): return T(str(e.label))
    if isinstance(e, KetSymbol): return T(str(e.label))
    n = {OperatorTimes: 'T', ScalarTimesOperator: 'S', OperatorTimesKet: 'K', OperatorPlus: 'P'}.get(type(e))
    if n == 'S': return T('S', T(str(e.coeff)), term(e.term))
    if n: return T(n, *[term(o) for o in e.args])
    return T('?' + str(e))

def made(c, o):
    try:
        return term(CL[c].create(*[build(t) for t in o]))
    except Exception as e:
        return {'f': err(e), 'a': []}

def shown(cls):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            cls.show_rules()
        except Exception as e:
            print(err(e))
    return [x for x in out.getvalue().split('\n') if x and not x.startswith(' ')]

def run(p):
    nsimp = [len(CL[c].simplifications) for c in sorted(CL)]
    init = [list(CL[c].rules()) for c in sorted(CL)]
    snap = snapshot()
    def obs():
        rules = [list(CL[c].rules()) for c in sorted(CL)]
        # showing the many rules takes long: only some classes
        sh = [shown(CL[c]) if c in (2, 4) else rules[c - 1] for c in sorted(CL)]
        return dict(rules=rules, shown=sh, simp=[len(CL[c].simplifications) for c in sorted(CL)],
                    caching=Expression.instance_caching, others=snapshot() == snap,
                    made=[made(c, o) for c, o in p['probes']])
    stack, res, ob = [], [], [obs()]
    for st in p['steps']:
        try:
            res.append(step(st, stack))
        except Exception as e:
            res.append(err(e))
        ob.append(obs())
    return dict(steps=p['steps'], init=init, nsimp=nsimp, res=res, obs=ob)

if __name__ == '__main__':
    main(run, fork=True)
