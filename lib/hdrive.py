"""replays programs of spec/HSpace.tla with the real Hilbert space classes"""
from mdrive import *
from qnet import *

MK = {1: lambda: LocalSpace('a', dimension=2), 2: lambda: LocalSpace('b', basis=('g', 'e', 'r')), 3: lambda: LocalSpace(0),
      4: lambda: LocalSpace('c', dimension=3, order_index=1), 5: lambda: SpinSpace('s', spin='1/2'),
      6: lambda: LocalSpace('10', dimension=2), 7: lambda: LocalSpace('a'), 8: lambda: LocalSpace('q', dimension=2, order_index=0),
      9: lambda: SpinSpace('s', spin='1/2', basis=('-', '+')), 10: lambda: LocalSpace('2', dimension=1),
      11: lambda: LocalSpace('b', basis=('e', 'g'), order_index=1)}
KEY = {}
for k, f in MK.items():
    h = f()
    KEY[(h._label, h._basis, h._order_index, type(h).__name__)] = k

def lid(h):
    return KEY[(h.label, h.basis_labels if h.has_basis else None, h._order_index, type(h).__name__)]

def factors(h):
    """space -> list of factor numbers; the full space is [0]"""
    if h is FullSpace:
        return [0]
    if h is TrivialSpace:
        return []
    if type(h) in (LocalSpace, SpinSpace):
        return [lid(h)]
    return [lid(x) for x in h.args]

def val(f):
    try:
        return factors(f())
    except Exception as e:
        return [-1]

def lst(f):
    try:
        return list(f())
    except Exception as e:
        return [err(e)]

def one(f):
    try:
        return f()
    except Exception as e:
        return err(e)

def kets(s):
    if s is TrivialKet:
        return []
    ops = [s] if isinstance(s, BasisKet) else s.args
    return [[lid(o.space), o.index] for o in ops]

def run(p):
    reg, res = [], []
    for st in p['steps']:
        a = [reg[k - 1] for k in st['r']]
        o = st['op']
        h = (MK[st['id']]() if o == 'local' else TrivialSpace if o == 'trivial' else FullSpace if o == 'full'
             else ProductSpace.create(*a) if o == 'create' else a[0].tensor(*a[1:]) if o == 'tensor'
             else a[0] * a[1] if o == 'mul' else a[0] & a[1] if o == 'and' else a[0].intersect(a[1]) if o == 'intersect'
             else a[0] / a[1] if o == 'div' else a[0].remove(a[1]))
        reg.append(h)
        res.append(factors(h))
    un, pair = [], []
    for h in reg:
        u = dict(factors=lst(lambda: [lid(x) for x in h.local_factors]), len=one(lambda: len(h)), has=h.has_basis,
                 dim=one(lambda: h.dimension), labels=lst(lambda: h.basis_labels), states=lst(lambda: [kets(s) for s in h.basis_states]))
        n = u['dim'] if isinstance(u['dim'], int) else 2
        u['idx'] = [-1, 0, n // 2, n - 1, n, n + 3]
        u['byidx'] = [lst(lambda: kets(h.basis_state(i))) for i in u['idx']]
        u['bylab'] = [lst(lambda: kets(h.basis_state(b))) for b in u['labels']] if u['has'] else []
        u['badlab'] = lst(lambda: kets(h.basis_state('zz,zz,zz')))
        u['next'] = []
        if type(h) in (LocalSpace, SpinSpace) and h.has_basis:
            for k in range(n):
                for d in (-2, -1, 0, 1, 2):
                    u['next'].append(dict(k=k, n=d, lab=one(lambda: h.next_basis_label_or_index(h.basis_labels[k], d)),
                                          idx=one(lambda: str(h.next_basis_label_or_index(k, d)))))
            u['next'].append(dict(k=0, n=1, lab=one(lambda: h.next_basis_label_or_index(h.basis_labels[0])),
                                  idx=one(lambda: str(h.next_basis_label_or_index(0)))))
        un.append(u)
    for i, a in enumerate(reg):
        for j, b in enumerate(reg):
            pair.append(dict(i=i + 1, j=j + 1, eq=a == b, ne=a != b, hash=hash(a) == hash(b), le=one(lambda: a <= b), lt=one(lambda: a < b),
                             ge=one(lambda: a >= b), gt=one(lambda: a > b), itf=one(lambda: a.is_tensor_factor_of(b)),
                             istf=one(lambda: a.is_strict_tensor_factor_of(b)), issf=one(lambda: a.is_strict_subfactor_of(b)),
                             dis=one(lambda: a.isdisjoint(b)), mul=val(lambda: a * b), meet=val(lambda: a & b), rem=val(lambda: a / b)))
    return dict(steps=p['steps'], res=res, un=un, pair=pair)

if __name__ == '__main__':
    main(run)
