"""executes programs of spec/Circ.tla"""
from mdrive import *
from qnet import *
from qnet.algebra.core.circuit_algebra import (SeriesProduct, Concatenation, Feedback, SeriesInverse, CPermutation, CIdentity, CircuitZero,
                                               CircuitSymbol, circuit_identity, pad_with_identity, FB)
from qnet.algebra.library.circuit_components import CoherentDriveCC, Beamsplitter, PhaseCC

def tree(e):
    if e is CIdentity: return dict(c='id')
    if e is CircuitZero: return dict(c='zero')
    if isinstance(e, CoherentDriveCC): return dict(c='drive', l=int(e.displacement))
    if isinstance(e, Beamsplitter): return dict(c='bs', l=int(e.label[2:]), n=2)
    if isinstance(e, PhaseCC): return dict(c='ph', l=int(e.label[1:]), n=1)
    if isinstance(e, CPermutation): return dict(c='perm', p=list(e.permutation))
    if isinstance(e, CircuitSymbol): return dict(c='sym', l=int(e.label[1:]), n=e.cdim)
    if isinstance(e, SeriesProduct): return dict(c='ser', a=[tree(x) for x in e.operands])
    if isinstance(e, Concatenation): return dict(c='cat', a=[tree(x) for x in e.operands])
    if isinstance(e, Feedback): return dict(c='fb', a=[tree(e.operand)], o=e.out_port, i=e.in_port)
    if isinstance(e, SeriesInverse): return dict(c='inv', a=[tree(e.operand)])
    raise ValueError(type(e).__name__)

def step(st, r):
    o = st['op']
    if o == 'sym': return CircuitSymbol('C%d' % st['l'], cdim=st['n'])
    if o == 'id': return circuit_identity(st['n'])
    if o == 'zero': return CircuitZero
    if o == 'perm': return CPermutation.create(tuple(st['p']))
    if o == 'ser': return SeriesProduct.create(*r) if st['c'] else r[0] << r[1]
    if o == 'cat': return Concatenation.create(*r) if st['c'] else r[0] + r[1]
    if o == 'inv': return r[0].series_inverse()
    if o == 'red': return r[0].creduce()
    if o == 'fb':
        n = r[0].cdim
        if st['via'] == 'x': return Feedback.create(r[0], out_port=st['o'], in_port=st['i'])
        kw = {k: v for k, v in dict(out_port=st['o'], in_port=st['i']).items() if v != n - 1}
        return r[0].feedback(**kw) if st['via'] == 'm' else FB(r[0], **kw)
    if o == 'pad': return pad_with_identity(r[0], st['k'], st['n'])
    if o == 'drive': return r[0].coherent_input(*st['a'])
    raise ValueError(o)

def view(e):
    o = dict(t=tree(e), err='', n=0, bs=[], blocks=[], coarse=[], iib=[])
    o.update(red=o['t'], inv=o['t'], back=o['t'], unit=o['t'])
    what = ''
    try:
        what = 'structure'
        o['n'] = e.cdim
        o['bs'] = list(e.block_structure)
        o['iib'] = [list(e.index_in_block(k)) for k in range(e.cdim)]
        what = 'blocks'
        o['blocks'] = [tree(x) for x in e.get_blocks()]
        bs = o['bs']
        what = 'coarse-blocks'
        o['coarse'] = [[tree(x) for x in e.get_blocks(tuple(q))] for q in
                       ([] if len(bs) < 2 else [[sum(bs)], [sum(bs[:2])] + bs[2:], bs[:1] + [sum(bs[1:])]])]
        what = 'creduce'
        o['red'] = tree(e.creduce())
        what = 'inverse'
        i = e.series_inverse()
        o['inv'] = tree(i)
        o['back'] = tree(i.series_inverse())
        o['unit'] = tree(e << i)
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): raise
        o['err'] = what + ' ' + err(x)
    return o

def comp(c):
    k, l, n = c['k'], c['l'], c['n']
    sym = lambda l, n: CircuitSymbol('C%d' % l, cdim=n)
    if k == 'sym': return sym(l, n)
    if k == 'id': return circuit_identity(n)
    if k == 'bs': return Beamsplitter(label='BS%d' % l)
    if k == 'ph': return PhaseCC(label='P%d' % l)
    if k == 'dr': return CoherentDriveCC(displacement=l)
    if k == 'perm': return CPermutation.create(tuple(c['p']))
    if k == 'two': return sym(l, n) + sym(l, 1)
    if k == 'up': return sym(l, n) << sym(l + 1, n)
    raise ValueError(k)

def net(st):
    from qnet.algebra.toolbox.circuit_manipulation import connect
    cs = [comp(c) for c in st['comps']]
    def ref(f):
        ix = f['c'] - 1
        if f['by'] == 'ob':
            c = comp(st['comps'][ix]) if 0 <= ix < len(cs) else CircuitSymbol('Stranger', cdim=2)
        else:
            c = ix
        return (c, f['pn'] or f['p'])
    try:
        e = connect(cs, [(ref(x['o']), ref(x['i'])) for x in st['conns']])
        return dict(t=tree(e), n=e.cdim)
    except Exception as x:
        if os.environ.get('VERIF_DEBUG'): raise
        return dict(t=dict(c='err', l=err(x)))

def run(p):
    if p['steps'] and 'comps' in p['steps'][0]:
        return dict(steps=p['steps'], res=[net(st) for st in p['steps']])
    regs, res = [], []
    for st in p['steps']:
        r = [regs[k - 1] for k in st['r']]
        if any(isinstance(x, Exception) for x in r):
            regs.append(Exception())
            res.append(dict(t=dict(c='err', l='dead')))
            continue
        try:
            e = step(st, r)
            regs.append(e)
            res.append(view(e))
        except Exception as x:
            if os.environ.get('VERIF_DEBUG') == '2': raise
            regs.append(x)
            res.append(dict(t=dict(c='err', l=err(x))))
    return dict(steps=p['steps'], res=res)

if __name__ == '__main__':
    main(run)
