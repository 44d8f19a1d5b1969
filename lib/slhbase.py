"""the symbols and operators of spec/SLHNet.tla"""
from mdrive import *
import sympy
from sympy import Symbol, Rational, I, sqrt, exp, conjugate, pi, sympify
from qnet import *
from qnet.algebra.core.circuit_algebra import SLH, CPermutation, move_drive_to_H, getABCD, prepare_adiabatic_limit, eval_adiabatic_limit, try_adiabatic_elimination, FB, CircuitSymbol
from qnet.algebra.toolbox.circuit_manipulation import connect
from qnet.algebra.core.matrix_algebra import Matrix
from qnet.algebra.core.operator_algebra import OperatorSymbol, LocalSigma, IdentityOperator, Operator, OperatorPlus, ScalarTimesOperator
from qnet.algebra.core.operator_algebra import ZeroOperator
from qnet.algebra.library.fock_operators import Destroy
from qnet.algebra.library.circuit_components import CoherentDriveCC, Beamsplitter, PhaseCC
from qexport import Exporter, Unsupported

from qnet.algebra.core.matrix_algebra import hstackm, vstackm, diagm, block_matrix, identity_matrix, zerosm, permutation_matrix
from qnet.algebra.core.operator_algebra import adjoint

SP = {1: LocalSpace('a', dimension=2), 2: LocalSpace('b', dimension=2)}
x, r, k = Symbol('x'), Symbol('r', real=True), Symbol('k', positive=True)
SYM = [None, x, r, k]
COEF = [None, sympify(1), sympify(-1), I, x, r, Rational(1, 2), sqrt(k), exp(I * r), sympify(2), conjugate(x), sympify(0), Rational(3, 5), Rational(4, 5), Rational(-4, 5)]
OPS = [None, OperatorSymbol('A', hs=SP[1]), OperatorSymbol('B', hs=SP[1]), OperatorSymbol('C', hs=SP[2]), LocalSigma(0, 1, hs=SP[1]),
       LocalSigma(1, 1, hs=SP[2]), OperatorSymbol('D', hs=SP[1] * SP[2])]
X = OperatorSymbol('X', hs=SP[1] * SP[2])

def opn(e):
    s = 0
    for t in e:
        w = IdentityOperator
        for j in t['w']: w = w * (OPS[j] if j > 0 else OPS[-j].dag())
        s = s + COEF[t['c']] * w
    return s * IdentityOperator if not isinstance(s, Operator) else s

def mat(m): return Matrix([[opn(e) for e in row] for row in m])
