"""executes programs of spec/OpMat.tla"""
import numpy as np
from slhbase import *

def scal(e): return sum((COEF[t['c']] for t in e), sympify(0))

def step(st, a):
    o = st['op']
    if o == 'new': return Matrix([[scal(e) if st['sc'] else opn(e) for e in row] for row in st['m']])
    if o == 'ident': return identity_matrix(st['n'])
    if o == 'zeros': return zerosm((st['n'], st['n']), dtype=int)
    if o == 'perm': return permutation_matrix(tuple(st['p']))
    if o == 'diag': return diagm([opn(e) for e in st['v']], st['q'])
    if o == 'add': return a[0] + a[1]
    if o == 'sub': return a[0] - a[1]
    if o == 'mul': return a[0] * a[1]
    if o == 'neg': return -a[0]
    if o == 'smul': return COEF[st['c']] * a[0]
    if o == 'smulr': return a[0] * COEF[st['c']]
    if o == 'div': return a[0] / COEF[st['c']]
    if o in ('omul', 'omulr'):
        w = OPS[st['w'][0]] if st['w'][0] > 0 else OPS[-st['w'][0]].dag()
        return w * a[0] if o == 'omul' else a[0] * w
    if o == 'T': return a[0].T
    if o == 'H': return a[0].H
    if o == 'dag': return a[0].dag()
    if o == 'adjoint': return a[0].adjoint()
    if o == 'conj': return a[0].conjugate()
    if o == 're': return a[0].real
    if o == 'im': return a[0].imag
    if o == 'trace': return Matrix([[a[0].trace()]])
    if o == 'hstack': return hstackm(a)
    if o == 'vstack': return vstackm(a)
    if o == 'block': return block_matrix(*a)
    if o == 'get': return Matrix([[a[0][st['i'], st['j']]]])
    if o == 'slice': return a[0][st['i']:st['i2'], st['j']:st['j2']]
    if o == 'each': return a[0].element_wise({'dag': adjoint, 'double': lambda v: 2 * v, 'square': lambda v: v * v}[st['f']])
    if o == 'expand': return a[0].expand()
    if o == 'simp': return a[0].simplify_scalar()
    if o == 'subst': return a[0].substitute({SYM[st['a']]: COEF[st['b']]})
    if o == 'substop': return a[0].substitute({OPS[st['a']]: OPS[st['b']]})
    if o == 'series': return a[0].series_expand(SYM[st['s']], 0, st['n'])
    raise ValueError(o)

def run(p):
    ex = Exporter({'a': 1, 'b': 2}, [x, r, k])
    def node(m):
        ex.count = 0
        return dict(m=[[ex.node(e) for e in row] for row in m.matrix.tolist()], sh=[int(v) for v in m.shape])
    regs, res = [], []
    for st in p['steps']:
        o, c = dict(err='', same=True, m=dict(m=[], sh=[0, 0]), ms=[], bs=[]), None
        try:
            args = [regs[j - 1] for j in st['r']]
            if any(v is None for v in args): raise RuntimeError('dead')
            if st['op'] == 'blocks':
                o['bs'] = list(args[0].block_structure)
                o['ms'] = [node(b) for b in args[0]._get_blocks(args[0].block_structure)]
            elif st['op'] == 'series':
                o['ms'] = [node(b) for b in step(st, args)]
            else:
                c = step(st, args)
                o['m'] = node(c)
                d = Matrix(c.matrix.tolist())
                o['same'] = d == c and c == d and hash(d) == hash(c) and d.shape == c.shape
        except Hang:
            raise
        except Exception as e:
            if os.environ.get('VERIF_DEBUG') == '2': raise
            o['err'], c = err(e), None
        regs.append(c)
        res.append(o)
    live = [j for j, v in enumerate(regs) if v is not None]
    eq = [[i + 1, j + 1, bool(regs[i] == regs[j]), hash(regs[i]) == hash(regs[j])] for i in live for j in live if i < j]
    return dict(steps=p['steps'], res=res, eq=eq, syms=ex.symtab)

main(run)
