"""executes programs of spec/EqHist.tla: equations and their histories"""
from mdrive import *
from qnet import *
from qnet.algebra.core.abstract_algebra import substitute
from qnet.algebra.core.operator_algebra import OperatorPlus, OperatorTimes, ScalarTimesOperator, IdentityOperator, ZeroOperator
from qnet.algebra.toolbox.equation import Eq
L = {k: OperatorSymbol(s, hs='q') for k, s in zip((1, 2, 3, 4), ('A', 'Beta', 'C_1', 'H'))}
L.update({-k: x.adjoint() for k, x in list(L.items())})
IDS = {x: k for k, x in L.items()}

def expr(q):
    e = ZeroOperator
    for w, c in q:
        t = IdentityOperator
        for x in w:
            t = t * L[x]
        e = e + c * t
    return e

def poly(e):
    """the polynomial of an expanded expression"""
    e = e.expand()
    r = []
    for t in (e.operands if isinstance(e, OperatorPlus) else [e]):
        c = 1
        if isinstance(t, ScalarTimesOperator):
            c, t = int(t.coeff), t.term
        if t is ZeroOperator: continue
        r.append([[] if t is IdentityOperator else [IDS[x] for x in (t.operands if isinstance(t, OperatorTimes) else [t])], c])
    return r

def fun(f):
    k = f['f']
    q = expr(f['q']) if 'q' in f else None
    return {'plus': lambda e: e + q, 'minus': lambda e: e - q, 'times': lambda e: f['c'] * e, 'right': lambda e: e * q,
            'left': lambda e: q * e, 'square': lambda e: e ** 2, 'subst': lambda e: e.substitute({L[f['x']]: q}),
            'adjoint': lambda e: e.adjoint(), 'expand': lambda e: e.expand(), 'id': lambda e: e,
            'simplify_scalar': lambda e: e.simplify_scalar()}[k]

def method(f):
    return ('substitute', [{L[f['x']]: expr(f['q'])}]) if f['f'] == 'subst' else (f['f'], [])

def make(st, E):
    o = st['op']
    a = E[st['a'] - 1] if 'a' in st else None
    b = E[st['b'] - 1] if 'b' in st else None
    tag = st['tag'] or None if 'tag' in st else None
    if o == 'new': return Eq(expr(st['l']), expr(st['q']), tag=tag)
    if o == 'settag': return a.set_tag(tag)
    if o == 'copy': return a.copy()
    if o == 'add': return a + b
    if o == 'sub': return a - b
    kw = dict(cont=st['cont'], tag=tag)
    f = st['f']
    if o == 'ap':
        m = {'b': a.apply, 'l': a.apply_to_lhs, 'r': a.apply_to_rhs}[st['side']]
        if f['f'] in ('plus', 'right'):     # with further arguments
            return m(lambda e, q, op=None: e + q if op == '+' else e * q, expr(f['q']), op='+' if f['f'] == 'plus' else '*', **kw)
        return m(fun(f), **kw)
    if o == 'mtd':
        m = {'b': a.apply_mtd, 'l': a.apply_mtd_to_lhs, 'r': a.apply_mtd_to_rhs}[st['side']]
        name, args = method(f)
        return m(name, *args, **kw)
    if o == 'substitute': return a.substitute({L[f['x']]: expr(f['q'])}, **kw)
    if o == 'arith':
        if f['f'] == 'plus' and f['q'] and all(w == [] for w, c in f['q']):
            return f['q'][0][1] + a if st['cont'] else a + f['q'][0][1]
        q = expr(f['q']) if 'q' in f else None
        return {'plus': lambda: a + q, 'minus': lambda: a - q, 'times': lambda: f['c'] * a if st['cont'] else a * f['c'],
                'right': lambda: a * q, 'left': lambda: q * a}[f['f']]()
    raise ValueError(o)

def direct(st, S):
    """the step applied to the sides themselves"""
    o = st['op']
    a = S[st['a'] - 1] if 'a' in st else None
    b = S[st['b'] - 1] if 'b' in st else None
    if o == 'new': return expr(st['l']), expr(st['q'])
    if o in ('settag', 'copy'): return a
    if o == 'add': return a[0] + b[0], a[1] + b[1]
    if o == 'sub': return a[0] - b[0], a[1] - b[1]
    f = st['f']
    h = fun(f)
    if o == 'arith' and f['f'] == 'times' and not st['cont']: h = lambda e: e * f['c']
    return a[0] if st['side'] == 'r' else h(a[0]), a[1] if st['side'] == 'l' else h(a[1])

def run(p):
    E, S, num = [], [], {}
    n = lambda e: num.setdefault(e, len(num) + 1)
    errs = []
    for st in p['steps']:
        S.append(direct(st, S))
        try:
            E.append(make(st, E))
            errs.append('')
        except Exception as x:
            E.append(Eq(*S[-1]))
            errs.append(err(x))
    obs = []
    for e, s, x in zip(E, S, errs):
        lines = ascii(e).split('\n')
        d = list(e.as_dict.items())
        o = dict(err=x, l=n(e.lhs), r=n(e.rhs), fl=n(s[0]), fr=n(s[1]), tag='' if e.tag is None else str(e.tag), lines=lines,
                 dict=[n(d[0][0]), n(d[0][1])] if len(d) == 1 else [], zero=bool(e.verify().is_zero),
                 vf=bool(e.verify(lambda r, k: 2 * r * k, 3).is_zero))
        e.free_symbols, e.bound_symbols, e.all_symbols, str(e), repr(e), latex(e), unicode(e)
        o['again'] = ascii(e).split('\n')
        obs.append(o)
    es = sorted(num, key=num.get)
    return dict(steps=p['steps'], obs=obs, eq=[[bool(a == b) for b in E] for a in E], poly=[poly(e) for e in es], text=[ascii(e) for e in es])

if __name__ == '__main__':
    main(run)
