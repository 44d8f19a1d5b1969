"""executes programs of spec/SLHNet.tla"""
from slhbase import *

def step(st, a):
    o = st['op']
    if o == 'slh': return SLH(mat(st['S']), mat(st['L']), opn(st['H'][0][0]))
    if o == 'phase': return PhaseCC(phase=pi / 2 if st['c'] == 1 else r)
    if o == 'bs': return Beamsplitter() if st['c'] == 1 else Beamsplitter(mixing_angle=pi / 2 if st['c'] == 2 else r)
    if o == 'cdrive': return CoherentDriveCC(displacement=COEF[st['c']])
    if o == 'perm': return CPermutation.create(tuple(st['p']))
    if o == 'ser': return a[0] << a[1]
    if o == 'cat': return a[0] + a[1]
    if o == 'fb': return a[0].feedback(out_port=st['o'], in_port=st['i'])
    if o == 'inv': return a[0].series_inverse()
    if o == 'toslh': return a[0].toSLH()
    if o == 'expand': return a[0].toSLH().expand()
    if o == 'input': return a[0].coherent_input(*[COEF[j] for j in st['a']])
    if o == 'mvd': return move_drive_to_H(a[0].toSLH(), st['wh'] or None)
    if o == 'net':
        u, v = a
        f = lambda p, n: (0, p) if p < n else (1, p - n)
        # the two parts are told apart even when they are equal
        return connect([u, v] if u != v else [u.toSLH(), v.toSLH().expand()],
                       [(f(st['o'], u.cdim), f(st['i'], u.cdim))], force_SLH=True)
    raise ValueError(o)

def linear(st):
    m, n = st['m'], st['n']
    a = [Destroy(hs=LocalSpace(j)) for j in range(m)]
    H = sum((COEF[st['om'][j][i]] * a[j].dag() * a[i] + (COEF[st['om'][j][i]] * a[j].dag() * a[i]).dag()
             + Rational(1, 2) * (COEF[st['xi'][j][i]] * a[j].dag() * a[i].dag() + conjugate(COEF[st['xi'][j][i]]) * a[i] * a[j])
             for j in range(m) for i in range(m)), ZeroOperator)
    H = H + sum(COEF[st['f'][j][0]] * a[j].dag() + conjugate(COEF[st['f'][j][0]]) * a[j] for j in range(m))
    L = [[sum((COEF[st['Cm'][k][j]] * a[j] + COEF[st['Cp'][k][j]] * a[j].dag() for j in range(m)), ZeroOperator) + COEF[st['cc'][k][0]]] for k in range(n)]
    # every mode takes part in the model
    for j in range(m):
        if COEF[st['om'][j][j]].as_real_imag()[0] == 0: H = H + 1 * a[j].dag() * a[j]; st['om'][j][j] = 6
    s = SLH(Matrix([[COEF[c] for c in row] for row in st['S']]), Matrix(L), H)
    return s, {a[j]: COEF[c] for j, c in enumerate(st['a0']) if c != 11}, [0, 1, 2][:m]

def reduced(st, ex):
    node = lambda e: (setattr(ex, 'count', 0), ex.node(e))[1]
    mx = lambda q: [[node(e) for e in row] for row in q.tolist()]
    if st['op'] == 'abcd':
        s, a0, _ = linear(st)
        got = getABCD(s, a0=a0 or None, doubled_up=st['du'])
        return {k: mx(v) for k, v in zip(['A', 'B', 'C', 'D', 'a', 'c'], got)}
    h = [opn(e) for e in st['H']]
    if st['op'] == 'fast': h = [e + e.dag() for e in h]
    s = SLH(mat(st['S']), mat(st['F']) * k + mat(st['G']), h[0] + k * h[1] + k**2 * h[2])
    if st['op'] == 'fast':
        return dict(zip('SLH', [f(v) for f, v in zip((lambda q: mx(q.matrix), lambda q: mx(q.matrix), node), try_adiabatic_elimination(s, k))]))
    Y, A, B, F, G, N = prepare_adiabatic_limit(s, k)
    lim = eval_adiabatic_limit((Y, A, B, F, G, N), opn(st['Y']), opn(st['P']))
    return dict(Y=node(Y), A=node(A), B=node(B), F=mx(F.matrix), G=mx(G.matrix), N=mx(N.matrix), S=mx(lim.S.matrix), L=mx(lim.L.matrix), H=node(lim.H))

def hasid(e):
    e = e.expand()
    for t in (e.operands if isinstance(e, OperatorPlus) else [e]):
        if t is IdentityOperator or (isinstance(t, ScalarTimesOperator) and t.term is IdentityOperator): return True
    return False

def run(p):
    ex = Exporter({'a': 1, 'b': 2}, [x, r, k])
    regs, res = [], []
    for st in p['steps']:
        if st['op'] in ('abcd', 'adia', 'fast'):
            try:
                res.append(dict(reduced(st, ex), err=''))
            except Hang:
                raise
            except Exception as e:
                if os.environ.get('VERIF_DEBUG') == '2': raise
                res.append(dict(err=err(e)))
            continue
        o, c = dict(err='', n=0, S=[], L=[], H={'z': 'None'}, hasid=[]), None
        try:
            if any(regs[j - 1] is None for j in st['r']): raise RuntimeError('dead')
            c = step(st, [regs[j - 1] for j in st['r']])
            s = c.toSLH()
            ex.count = 0
            o['n'] = c.cdim
            o['S'] = [[ex.node(e) for e in row] for row in s.S.matrix.tolist()] if s.cdim else []
            o['L'] = [[ex.node(e) for e in row] for row in s.L.matrix.tolist()] if s.cdim else []
            o['H'] = ex.node(s.H)
            o['hasid'] = [hasid(e) for e in s.Ls] if s.cdim else []
            if s.cdim and 'dyn' in st:
                try:
                    ex.count = 0
                    d = dict(me=ex.node(s.symbolic_master_equation(rho=X)), li=ex.node(s.symbolic_liouvillian() * X),
                             he=ex.node(s.symbolic_heisenberg_eom(X, expand_simplify=False)))
                    bs = st['dyn'] and [COEF[j] for j in st['dyn'][:s.cdim]]
                    if bs: d.update(la=ex.node(s.symbolic_heisenberg_eom(X, noises=Matrix([[b] for b in bs]))), bs=[ex.node(b) for b in bs])
                    o.update(d)
                except Unsupported:
                    pass
        except Unsupported:
            o = dict(o, n=-9)
        except Hang:
            raise
        except Exception as e:
            if os.environ.get('VERIF_DEBUG') == '2': raise
            o['err'], c = err(e), None
        regs.append(c)
        res.append(o)
    return dict(steps=p['steps'], res=res, syms=ex.symtab)

main(run)
