"""executes programs of spec/Words.tla: products of factors in all spellings"""
from mdrive import *
import sympy
from qnet import *
from qnet.algebra.core.operator_algebra import OperatorTimes, ScalarTimesOperator, IdentityOperator, Commutator
from qnet.algebra.core.super_operator_algebra import (SuperOperatorTimes, ScalarTimesSuperOperator, IdentitySuperOperator,
                                                      SuperOperatorSymbol, SPre, SPost)
from qnet.algebra.core.state_algebra import TensorKet, ScalarTimesKet, TrivialKet
SPACES = {1: LocalSpace(1), 2: LocalSpace(10), 3: LocalSpace(2), 4: LocalSpace('a'), 5: LocalSpace('tls', basis=('g', 'e')),
          6: SpinSpace('s', spin=1), 7: LocalSpace('f', dimension=3), 8: LocalSpace('B', dimension=2, order_index=-1)}
NAMES = 'CABXaZ'

def space(sp):
    if len(sp) == 9:
        return FullSpace
    return ProductSpace.create(*[SPACES[i] for i in sp])

def letter(x):
    hs, n = space(x['sp']), NAMES[x['n'] % 6] + ('' if x['n'] < 6 else '_1')
    k = x['k']
    op = lambda s: OperatorSymbol(s, hs=hs)
    if k == 'sym': return op(n)
    if k == 'sum': return op(n) + 2 * op(n + 'p')
    if k == 'hsum': return op(n) + op(n).adjoint()
    if k == 'comm': return Commutator.create(op(n), op(n + 'p'))
    if k in ('create', 'ad'): return Create(hs=hs)
    if k == 'a': return Destroy(hs=hs)
    if k == 'n1': return LocalProjector(1, hs=hs)
    if k == 'num': return OperatorSymbol(n, x['n'], sympy.symbols('y', real=True), hs=hs)
    if k == 's01': return LocalSigma(0, 1, hs=hs)
    if k == 's11': return LocalSigma(1, 1, hs=hs)
    if k == 'S': return SuperOperatorSymbol(n, hs=hs)
    if k == 'Ssum': return SuperOperatorSymbol(n, hs=hs) + 3 * SuperOperatorSymbol(n + 'p', hs=hs)
    if k == 'pre': return SPre(op(n))
    if k == 'post': return SPost(op(n))
    if k == 'ket': return KetSymbol(n, hs=hs)
    if k == 'ketsum': return KetSymbol(n, hs=hs) + 2 * KetSymbol(n + 'p', hs=hs)
    if k == 'basis': return BasisKet(x['n'], hs=hs)
    if k == 'coh': return CoherentStateKet(x['n'], hs=hs)
    raise ValueError(k)

def product(ty):
    return dict(op=OperatorTimes, rw=OperatorTimes, sup=SuperOperatorTimes, spp=SuperOperatorTimes, ket=TensorKet)[ty].create

def spell(fs, b):
    """multiply the factors in the order given by b"""
    fs = list(fs)
    for x in b:
        if len(fs) > 1:
            k = x % (len(fs) - 1)
            fs[k:k + 2] = [fs[k] * fs[k + 1]]
    return fs[0]

def run(p):
    ty = p['ty']
    L = [None] + [letter(x) for x in p['L']]
    get = lambda x: L[x] if x > 0 else L[-x].adjoint()
    ones = (IdentityOperator, IdentitySuperOperator, TrivialKet)
    ids = {}
    for k in range(1, len(L)):
        ids.setdefault(L[k], k)
        if ty == 'op':
            ids.setdefault(L[k].adjoint(), -k)

    def factors(e):
        if e in ids: return [ids[e]]
        if e in ones: return []
        if isinstance(e, (OperatorTimes, SuperOperatorTimes, TensorKet)):
            return [w for o in e.operands for w in factors(o)]
        if isinstance(e, SPre):
            return [ids[SPre(o)] for o in (e.operands[0].operands if isinstance(e.operands[0], OperatorTimes) else e.operands)]
        if isinstance(e, SPost):
            return [ids[SPost(o)] for o in (reversed(e.operands[0].operands) if isinstance(e.operands[0], OperatorTimes) else e.operands)]
        return [-98]

    def view(e):
        if isinstance(e, Exception): return dict(c=0, w=[])
        if ty == 'rw': return dict(c=1, w=[])
        c = 1
        if isinstance(e, (ScalarTimesOperator, ScalarTimesSuperOperator, ScalarTimesKet)):
            c, e = int(e.coeff), e.term
        w = factors(e)
        return dict(c=-1, w=[]) if -98 in w else dict(c=c, w=w)

    regs, eqs, texts = [], [], {}
    for st in p['steps']:
        r = [regs[i - 1] for i in st['r']]
        o = st['op']
        try:
            if o == 'word': e = spell([get(x) for x in st['w']], st['b'])
            elif o == 'mul': e = r[0] * r[1]
            elif o == 'prod': e = product(ty)(*r)
            elif o == 'pow': e = r[0] ** st['n'] if st['n'] or ty not in ('sup',) else IdentitySuperOperator
            elif o == 'adj': e = r[0].adjoint()
            elif o == 'scal': e = st['c'] * r[0]
        except Exception as x:
            e = x
        regs.append(e)
    # classes of equal expressions: the number of the first one
    eq = [next(j for j in range(len(regs)) if regs[j] is e or (not isinstance(e, Exception) and regs[j] == e and not regs[j] != e)) + 1 for e in regs]
    text = lambda e: err(e) if isinstance(e, Exception) else '|'.join((ascii(e), unicode(e), latex(e), srepr(e), str(e)))
    num = lambda x: texts.setdefault(x, len(texts) + 1)
    return dict(p, res=[view(e) for e in regs], eq=eq, print=[num(text(e)) for e in regs], hash=[num(hash(e)) for e in regs])

if __name__ == '__main__':
    main(run)
