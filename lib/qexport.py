"""Serialise real QNET objects (public class name, args, kwargs) into the plain
JSON trees that the TLA+ specification evaluates (spec/QEval.tla).  Nothing is
interpreted here: a node is a class name with its arguments."""
import numbers
import sympy
import numpy as np

P = 31391

def mix(h, x):
    return (((h * 31 + x) % P) * (((h + 17 * x) % P) + 1) + 7) % P

def strhash(s, seed=17):
    h = seed
    for ch in str(s):
        h = mix(h, ord(ch) % 30000)
    return h

class Unsupported(Exception):
    pass

class Exporter:
    """One exporter per program; `spaces` maps a space label to the number of the
    degree of freedom in the program, `syms` is the table of scalar symbols."""
    def __init__(self, spaces, syms=None):
        self.spaces = dict(spaces)          # label -> id
        self.syms = {}                      # sympy symbol -> id
        self.symtab = []
        self.maxnodes = 4000
        self.count = 0
        for s in (syms or []):
            self.sym(s)

    # --- scalar symbols ----------------------------------------------------
    def sym(self, s):
        if s not in self.syms:
            from qnet.utils.indices import IdxSym
            kind = 'c'
            if isinstance(s, IdxSym):
                kind = 'x'
            elif s.is_positive:
                kind = 'p'
            elif s.is_real:
                kind = 'r'
            elif s.is_imaginary:
                kind = 'i'
            nm = s.name + "'" * (s.primed if kind == 'x' else 0)
            self.symtab.append({'h': strhash(nm, 23), 'k': kind, 'n': nm})
            self.syms[s] = len(self.symtab)
        return self.syms[s]

    def intnode(self, n):
        n = int(n)
        if abs(n) < 2 ** 30:
            return {'f': 'i', 'n': n}
        limbs, m = [], abs(n)
        while m:
            limbs.append(m % 10000)
            m //= 10000
        return {'f': 'big', 'g': -1 if n < 0 else 1, 'l': limbs[::-1]}

    def rat(self, p, q):
        if q == 1:
            return self.intnode(p)
        return {'f': 'rat', 'p': self.intnode(p), 'q': self.intnode(q)}

    def flt(self, x):
        if not np.isfinite(float(x)):
            return {'f': 'nan', 'w': repr(float(x))}
        p, q = float(x).as_integer_ratio()
        if q > 2 ** 24:            # not a dyadic number of the generator
            return {'f': 'flt', 'w': 'inexact', 's': repr(float(x))}
        return self.rat(p, q)

    def cplx(self, x):
        return {'f': 'Add', 'a': [self.flt(x.real),
                {'f': 'Mul', 'a': [self.flt(x.imag), {'f': 'I'}]}]}

    def sympy(self, e):
        self.count += 1
        if self.count > self.maxnodes:
            raise Unsupported('size')
        if e.is_Integer:
            return self.intnode(e)
        if e.is_Rational:
            return self.rat(int(e.p), int(e.q))
        if e is sympy.I:
            return {'f': 'I'}
        if e.is_Float:
            return self.flt(e)
        if isinstance(e, sympy.Indexed):
            return {'f': 'ixd', 'h': strhash(str(e.base)), 'a': [self.sympy(a) for a in e.args[1:]]}
        if e.is_Symbol:
            return {'f': 'sym', 'id': self.sym(e)}
        if e.is_Add or e.is_Mul:
            return {'f': 'Add' if e.is_Add else 'Mul', 'a': [self.sympy(a) for a in e.args]}
        if isinstance(e, sympy.exp):
            return self.expnode(e.args[0])
        if e.is_Pow:
            if e.base is sympy.E:
                return self.expnode(e.exp)
            return {'f': 'Pow', 'a': [self.sympy(e.base), self.sympy(e.exp)]}
        if isinstance(e, sympy.conjugate):
            return {'f': 'conj', 'a': [self.sympy(e.args[0])]}
        if isinstance(e, (sympy.cos, sympy.sin)):
            x = e.args[0]
            p, m = self.expnode(sympy.I * x), self.expnode(-sympy.I * x)
            two = self.intnode(2)
            if isinstance(e, sympy.cos):
                return {'f': 'Mul', 'a': [{'f': 'Add', 'a': [p, m]}, self.rat(1, 2)]}
            neg = {'f': 'Mul', 'a': [self.intnode(-1), m]}
            return {'f': 'Mul', 'a': [{'f': 'Add', 'a': [p, neg]}, self.rat(-1, 2), {'f': 'I'}]}
        if isinstance(e, (sympy.cosh, sympy.sinh)):
            x = e.args[0]
            p, m = self.expnode(x), self.expnode(-x)
            if isinstance(e, sympy.sinh):
                m = {'f': 'Mul', 'a': [self.intnode(-1), m]}
            return {'f': 'Mul', 'a': [{'f': 'Add', 'a': [p, m]}, self.rat(1, 2)]}
        if isinstance(e, sympy.Abs):
            return {'f': 'Abs', 'a': [self.sympy(e.args[0])]}
        if isinstance(e, (sympy.re, sympy.im)):
            return {'f': 're' if isinstance(e, sympy.re) else 'im', 'a': [self.sympy(e.args[0])]}
        if isinstance(e, sympy.KroneckerDelta):
            return {'f': 'KD', 'a': [self.sympy(a) for a in e.args]}
        if isinstance(e, sympy.factorial):
            return {'f': 'fact', 'a': [self.sympy(e.args[0])]}
        if isinstance(e, sympy.Indexed):
            return {'f': 'ixd', 'h': strhash(str(e.base)), 'a': [self.sympy(a) for a in e.args[1:]]}
        if isinstance(e, sympy.Piecewise):
            return {'f': 'pw', 'a': [[self.sympy(x), self.cond(c)] for x, c in e.args]}
        if e is sympy.pi:
            return {'f': 'pi'}
        if e in (sympy.oo, -sympy.oo, sympy.nan, sympy.zoo):
            return {'f': 'nan', 'w': str(e)}
        return self.unknown(e, type(e).__name__)

    def unknown(self, e, name):
        # a function that the specification does not interpret: only its free symbols matter
        syms = sorted((s for s in e.free_symbols if s.is_Symbol), key=str)
        return {'f': 'other', 'w': name, 'a': [self.sympy(s) for s in syms]}

    def cond(self, c):
        if c == True:
            return {'b': 'T'}
        if c == False:
            return {'b': 'F'}
        nm = type(c).__name__
        if nm in ('And', 'Or', 'Not'):
            return {'b': nm, 'a': [self.cond(x) for x in c.args]}
        if nm == 'Contains':
            x, s = c.args
            if isinstance(s, sympy.FiniteSet):
                return {'b': 'In', 'x': self.sympy(x), 's': [self.sympy(v) for v in s.args]}
        if nm in ('Equality', 'Unequality', 'LessThan', 'StrictLessThan', 'GreaterThan', 'StrictGreaterThan'):
            return {'b': nm, 'l': self.sympy(c.lhs), 'r': self.sympy(c.rhs)}
        return {'b': 'other', 'w': nm}

    def expnode(self, z):
        """exp(z): the exponent, and its expansion into monomials c * I^e * atoms"""
        terms = []
        try:
            zz = sympy.expand(z, complex=False)
            for term in sympy.Add.make_args(zz):
                c, e, atoms = sympy.Integer(1), 0, {}
                for fac in sympy.Mul.make_args(term):
                    if fac.is_Float:
                        p, q = float(fac).as_integer_ratio()
                        c *= sympy.Rational(p, q)
                    elif fac.is_Rational:
                        c *= fac
                    elif fac is sympy.I:
                        e += 1
                    else:
                        b, n = fac.as_base_exp()
                        if fac.is_Pow and not n.is_Integer:
                            b, n = fac, sympy.Integer(1)
                        if not n.is_Integer:
                            raise Unsupported('exp')
                        if b.is_Symbol:
                            key = (self.sym(b), 0)
                        elif isinstance(b, sympy.conjugate) and b.args[0].is_Symbol:
                            key = (self.sym(b.args[0]), 1)
                        elif isinstance(b, sympy.Abs) and b.args[0].is_Symbol and int(n) % 2 == 0:
                            k = self.sym(b.args[0])
                            for key in ((k, 0), (k, 1)):
                                atoms[key] = atoms.get(key, 0) + int(n) // 2
                            continue
                        elif b is sympy.pi:
                            key = (0, 0)
                        else:
                            raise Unsupported('exp')
                        atoms[key] = atoms.get(key, 0) + int(n)
                terms.append({'p': int(c.p), 'q': int(c.q), 'e': e,
                              'at': [[k[0], k[1], n] for k, n in sorted(atoms.items()) if n]})
            if any(abs(t['p']) > 10 ** 6 or t['q'] > 10 ** 6 for t in terms):
                raise Unsupported('exp')
        except Unsupported:
            return self.unknown(sympy.exp(z), 'exp')
        return {'f': 'exp', 'a': [self.sympy(z)], 't': terms}

    # --- spaces -------------------------------------------------------------
    def space(self, hs):
        from qnet.algebra.core.hilbert_space_algebra import (
            FullSpace, TrivialSpace, LocalSpace, ProductSpace)
        if hs is TrivialSpace or hs == TrivialSpace:
            return []
        if hs is FullSpace or hs == FullSpace:
            return [-1]
        res = []
        for ls in hs.local_factors:
            res.append(self.spaceid(ls))
        return sorted(res)

    def spaceid(self, ls):
        lbl = ls.label
        if not isinstance(lbl, str):
            lbl = str(lbl)
        if lbl not in self.spaces:
            self.spaces[lbl] = max([0] + list(self.spaces.values())) + 1
        return self.spaces[lbl]

    def label(self, lb):
        from qnet.utils.indices import SymbolicLabelBase
        nm = type(lb).__name__
        d = {'lb': nm, 'e': self.sympy(lb.expr)}
        if hasattr(lb, 'hs'):
            d['hs'] = self.space(lb.hs)
        if nm == 'StrLabel':
            e = lb.expr
            if isinstance(e, sympy.Indexed):
                d['base'] = [ord(ch) for ch in str(e.base)]
                d['ix'] = [self.sympy(a) for a in e.args[1:]]
            else:
                d['w'] = 'strlabel'
        return d

    # --- everything ----------------------------------------------------------
    def node(self, x):
        self.count += 1
        if self.count > self.maxnodes:
            raise Unsupported('size')
        from qnet.algebra.core.abstract_algebra import Expression
        from qnet.algebra.core.hilbert_space_algebra import HilbertSpace
        from qnet.algebra.core.matrix_algebra import Matrix
        from qnet.utils.indices import SymbolicLabelBase, IndexRangeBase
        if x is None:
            return {'z': 'None'}
        if isinstance(x, HilbertSpace):
            return {'hs': self.space(x)}
        if isinstance(x, bool):
            return {'z': str(x)}
        if isinstance(x, numbers.Integral):
            return self.intnode(x)
        if isinstance(x, numbers.Real) and not isinstance(x, sympy.Basic):
            return self.flt(x)
        if isinstance(x, numbers.Complex) and not isinstance(x, sympy.Basic):
            return self.cplx(complex(x))
        if isinstance(x, sympy.Basic):
            return self.sympy(x)
        if isinstance(x, str):
            return {'s': x, 'h': strhash(x)}
        if isinstance(x, SymbolicLabelBase):
            return self.label(x)
        if isinstance(x, IndexRangeBase):
            return self.range(x)
        if isinstance(x, (tuple, list)):
            return {'t': [self.node(y) for y in x]}
        if isinstance(x, Matrix):
            return {'c': 'Matrix', 'm': [[self.node(y) for y in row] for row in x.matrix.tolist()],
                    'sh': [int(v) for v in x.matrix.shape]}
        if isinstance(x, np.ndarray):
            return {'t': [self.node(y) for y in x.tolist()]}
        if isinstance(x, dict):
            return {'d': [[self.node(k), self.node(v)] for k, v in x.items()]}
        if isinstance(x, Expression) or hasattr(x, 'args'):
            return self.expr(x)
        return {'o': type(x).__name__}

    def range(self, r):
        nm = type(r).__name__
        d = {'r': nm, 'id': self.sym(r.index_symbol)}
        if nm == 'IndexOverList':
            d['v'] = [self.node(v) for v in r.values]
        elif nm == 'IndexOverRange':
            d.update(p=r.start_from, q=r.to, st=r.step)
        elif nm == 'IndexOverFockSpace':
            d['hs'] = self.space(r.hs)
            d['inf'] = not r.hs.has_basis
        return d

    def expr(self, x):
        nm = type(x).__name__
        d = {'c': nm}
        if nm in ('OperatorSymbol', 'KetSymbol', 'SuperOperatorSymbol'):
            d['l'] = self.node(x.args[0])
            d['a'] = [self.node(a) for a in x.args[1:]]
            d['hs'] = self.space(x.kwargs['hs'])
            return d
        d['a'] = [self.node(a) for a in x.args]
        for k, v in x.kwargs.items():
            d['k_' + k] = self.node(v)
        if 'hs' in x.kwargs:
            d['hs'] = self.space(x.kwargs['hs'])
        if nm == 'Phase':
            phi = getattr(x.args[0], 'val', x.args[0])
            try:
                d['ex'] = self.expnode(sympy.sympify(phi) * sympy.I)
            except Exception:
                pass
        return d
