"""replays programs of spec/Perm.tla with the real permutation functions and circuits"""
from mdrive import *
from qnet import *
import qnet.utils.permutations as up
from qnet.algebra.core.circuit_algebra import CIdentity, CircuitZero, pad_with_identity, map_channels, extract_channel, circuit_identity
from qnet.utils.permutations import BadPermutationError

def cp(v):
    return CPermutation.create(tuple(v)) if v else CircuitZero

def perm_of(c):
    """image list of a circuit of wires"""
    if c is CIdentity:
        return [0]
    if c is CircuitZero:
        return []
    if isinstance(c, CPermutation):
        return list(c.permutation)
    if isinstance(c, Concatenation):
        res = []
        for o in c.operands:
            res += [x + len(res) for x in perm_of(o)]
        return res
    if isinstance(c, SeriesProduct):
        res = perm_of(c.operands[-1])
        for o in reversed(c.operands[:-1]):
            q = perm_of(o)
            res = [q[x] for x in res]
        return res
    raise TypeError(type(c))

def tr(f, bad=(-1,)):
    try:
        return f()
    except Exception:
        return list(bad)

def run(p):
    reg, res = [], []
    for st in p['steps']:
        a = [reg[k - 1] for k in st['r']]
        o = st['op']
        def call():
            if o == 'perm':
                return cp(st['p'])
            if o == 'series':
                return a[0] << a[1]
            if o == 'serperm':
                if isinstance(a[0], CPermutation) and isinstance(a[1], CPermutation):
                    return a[0].series_with_permutation(a[1])
                return a[0] << a[1]
            if o == 'compose':
                return cp(up.compose_permutations(tuple(perm_of(a[0])), tuple(perm_of(a[1]))))
            if o == 'plus':
                return a[0] + a[1]
            if o == 'concat':
                return cp(up.concatenate_permutations(tuple(perm_of(a[0])), tuple(perm_of(a[1]))))
            if o == 'inv':
                return a[0].series_inverse()
            if o == 'invert':
                return cp(up.invert_permutation(tuple(perm_of(a[0]))))
            if o == 'fb':
                return a[0].feedback(out_port=st['o'], in_port=st['i'])
            if o == 'map':
                return map_channels({x: y for x, y in st['m']}, st['n'])
            if o == 'extract':
                return extract_channel(st['k'], st['n'])
            if o == 'pad':
                return pad_with_identity(a[0], st['k'], st['n'])
            if o == 'ident':
                return circuit_identity(st['n'])
        c = None
        try:
            c = call()
            v = perm_of(c)
        except Exception:
            v = [-1]
        if v == [-1]:
            # keep going with what the specification says
            c = None
        res.append(v)
        if c is None:
            if o == 'fb':
                q = perm_of(a[0])
                v2 = []
                for k in range(len(q)):
                    if k != st['i']:
                        t = q[st['i']] if q[k] == st['o'] else q[k]
                        v2.append(t - (t > st['o']))
                c = cp(v2)
            else:
                c = cp([0])
        reg.append(c)
    un = []
    for k, c in enumerate(reg):
        v = perm_of(c)
        if not v:
            un.append({})
            continue
        t, s, sc = tuple(v), tuple(p['ask']['blocks'][k]), tuple(p['ask']['coarse'][k])
        bp = tr(lambda: up.block_perm_and_perms_within_blocks(t, s), ([], []))
        un.append(dict(cdim=c.cdim, blocks=tr(lambda: [perm_of(b) for b in c.get_blocks()]), struct=list(c.block_structure),
                       like=tr(lambda: [perm_of(b) for b in c.get_blocks(s)], [[-1]]), likec=tr(lambda: [perm_of(b) for b in c.get_blocks(sc)], [[-1]]),
                       ublocks=tr(lambda: [list(b) for b in up.permutation_to_block_permutations(t)]),
                       cycles=tr(lambda: [list(b) for b in up.permutation_to_disjoint_cycles(t)]),
                       uncyc=tr(lambda: list(up.permutation_from_disjoint_cycles(up.permutation_to_disjoint_cycles(t)))),
                       perm=tr(lambda: up.permute([100 + x for x in range(len(t))], t)),
                       permt=tr(lambda: list(up.permute(tuple(100 + x for x in range(len(t))), t))),
                       perms=tr(lambda: ['abcdefghijkl'.index(x) for x in up.permute('abcdefghijkl'[:len(t)], t)]),
                       bp=list(bp[0]), within=[list(b) for b in bp[1]],
                       frhs=[tr(lambda: [[c._factor_rhs(j)[0]], perm_of(c._factor_rhs(j)[1])], [[-1]]) if hasattr(c, '_factor_rhs') else [[-9]] for j in range(len(t))],
                       flhs=[tr(lambda: [[c._factor_lhs(j)[0]], perm_of(c._factor_lhs(j)[1])], [[-1]]) if hasattr(c, '_factor_lhs') else [[-9]] for j in range(len(t))]))
    tuples = []
    for t in p['ask']['tuples']:
        try:
            new = perm_of(CPermutation.create(tuple(t)))
        except BadPermutationError:
            new = [-2]
        except Exception:
            new = [-3]
        tuples.append(dict(ok=up.check_permutation(tuple(t)), new=new))
    bad = [tr(lambda: perm_of(map_channels({x: y for x, y in b['m']}, b['n']))) for b in p['ask']['bad']]
    bperm = [tr(lambda: list(up.full_block_perm(tuple(b['p']), tuple(b['s'])))) for b in p['ask']['bperm']]
    return dict(steps=p['steps'], ask=p['ask'], res=res, un=un, tuples=tuples, bad=bad, bperm=bperm)

if __name__ == '__main__':
    main(run)
