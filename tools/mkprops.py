#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
A = "src/qnet/algebra/core/"
L = "src/qnet/algebra/library/"
T = "src/qnet/algebra/toolbox/"
PR = "src/qnet/printing/"
def P(id, title, st, over, q, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=st,
             quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    return d
props = [
P("C01", "Operator arithmetic never changes the operator that is denoted",
  "Whatever automatic simplification happens when operators are added, subtracted, scaled, divided by a scalar, multiplied, raised to integer powers, adjoined or commuted, the resulting expression denotes exactly the operator that the written formula denotes, in every representation that interprets symbols as operators on their Hilbert spaces. The Hilbert space reported for the result contains every degree of freedom it acts on and none that the operands do not have. Well-formed formulas never raise an error.",
  ["programs", "inputs"],
  "all finite formulas over symbols, local level operators, projectors, spin and bosonic operators, scalar coefficients and sums/products/adjoints/commutators thereof on any number of degrees of freedom",
  "The tests compare a few hundred hand-written formulas structurally with an expected simplified form; the space of formulas is infinite, the rules interact, and a wrong expected form is not noticed because nothing evaluates the denotation.",
  [A+"operator_algebra.py", A+"abstract_quantum_algebra.py", A+"algebraic_properties.py", "src/qnet/algebra/_rules.py"],
  [("simplification pipeline", A+"abstract_algebra.py:Expression.create"), ("operator rules", "src/qnet/algebra/_rules.py:_algebraic_rules_operator"), ("adjoint/commutator construction", A+"operator_algebra.py")],
  ["result of every arithmetic operation, exported as a tree via args/kwargs", "the space attribute"]),
P("C02", "Products keep non-commuting factors in order and have one canonical form",
  "In a product of operators, super-operators or kets, two factors that share a degree of freedom always keep the relative order in which they were written (unless a stated algebraic rule rewrites them), while factors on disjoint Hilbert spaces may be interchanged freely. Two products that differ only by interchanging such disjoint factors compare equal and print identically, however the product was bracketed.",
  ["inputs"],
  "all words of factors over any assignment of Hilbert spaces (local and product spaces), all bracketings, all commutation-equivalent re-orderings",
  "Tests sort a handful of words; the ordering relation is only partial, so correctness depends on every combination of overlapping/disjoint spaces and on the labels.",
  ["src/qnet/utils/ordering.py", A+"algebraic_properties.py", A+"operator_algebra.py", A+"state_algebra.py", A+"super_operator_algebra.py"],
  [("ordering by Hilbert space", "src/qnet/utils/ordering.py:DisjunctCommutativeHSOrder"), ("re-ordering of factors", A+"algebraic_properties.py:orderby")],
  ["operands of the product expression", "equality/printing of two spellings"]),
P("C03", "Kets, bras, inner and outer products denote the right vectors",
  "Sums, scalar multiples, tensor products, adjoints, operator applications, inner products and outer products of states denote the vector, number or operator given by the written formula, for symbolic kets, basis states, coherent states (by their defining eigenvalue equation) and entangled states, with every degree of freedom matched by its label and not by its position. Ill-typed combinations (adding states of different spaces, a tensor product of overlapping spaces, applying an operator that acts outside the state's space) are rejected rather than silently evaluated.",
  ["programs", "inputs"],
  "all finite formulas over kets/bras/operators on up to several degrees of freedom, including mixed orders of tensor factors and partially acting operators",
  "Tests check selected formulas on one or two spaces; ordering, partial overlap, and simplification interplay are unbounded.",
  [A+"state_algebra.py", "src/qnet/algebra/_rules.py"],
  [("state rules", "src/qnet/algebra/_rules.py:_algebraic_rules_state"), ("state operations", A+"state_algebra.py")],
  ["result tree of each state operation", "exceptions of ill-typed operations"]),
P("C04", "Symbolic scalars obey ordinary complex arithmetic",
  "Sums, differences, products, quotients, integer powers, square roots, conjugation and negation of scalars - wrapped numbers, zero, one, symbolic expressions, inner products and mixtures with plain numbers on either side - evaluate to the value that ordinary complex arithmetic gives the formula. Comparisons and conversions of numerical scalars agree with those of the wrapped number.",
  ["programs", "inputs"],
  "all finite scalar formulas with operands in either position (reflected operators) and of every representation",
  "Tests pick individual operand pairs; each operator has several type-dependent branches on each side, and combinations through nested sums/products are unbounded.",
  [A+"scalar_algebra.py", "src/qnet/algebra/_rules.py"],
  [("scalar classes", A+"scalar_algebra.py"), ("scalar rules", "src/qnet/algebra/_rules.py:_algebraic_rules_scalar")],
  ["value of the result tree", "int/float/complex conversion and ordering"]),
P("C05", "Super-operators act on operators as the written formula says",
  "Left/right multiplication, commutator and anti-commutator super-operators, sums, products, scalar multiples, super-adjoints, Lindblad and Liouvillian generators, and application of all of these to an operator denote the linear map given by the formula. Reducing a Liouvillian to a Hamiltonian and a list of collapse operators yields a system that generates the very same map.",
  ["programs", "inputs"],
  "all finite super-operator formulas over operators on several degrees of freedom and all Liouvillians built from Hamiltonians and jump operators",
  "Tests cover a few products and two Liouvillians; soundness must hold for every nesting.",
  [A+"super_operator_algebra.py", "src/qnet/algebra/_rules.py"],
  [("super-operator rules", "src/qnet/algebra/_rules.py:_algebraic_rules_superop"), ("liouvillian and its normal form", A+"super_operator_algebra.py")],
  ["result trees of super-operator operations", "liouvillian_normal_form output"]),
P("C06", "Expanding, writing out and simplifying never change the value",
  "Distributive expansion, writing out commutators and other unevaluated operations, commutator expansion by the Leibniz rule, rewriting into sums with their conjugate, scalar simplification, rebuilding an expression, expansion in a complete basis and extracting coefficients all return an expression with the same value as the original. After full expansion no product has a sum as a factor.",
  ["programs", "inputs"],
  "all expressions of the scalar, operator, state, and super-operator algebras and all of these transformations applied to them",
  "Each transformation is tested on a few expressions; it is recursive over arbitrary trees with many node types.",
  [A+"abstract_algebra.py", A+"abstract_quantum_algebra.py", A+"operator_algebra.py", T+"commutator_manipulation.py"],
  [("expand/doit/rebuild", A+"abstract_algebra.py"), ("expand per node type", A+"abstract_quantum_algebra.py"), ("Leibniz expansion", T+"commutator_manipulation.py")],
  ["value of the transformed expression"]),
P("C07", "Differentiation and series expansion are exact calculus",
  "The derivative of any expression with respect to a parameter denotes the derivative of the function that the expression denotes (linearity, product and chain rules, order of non-commuting factors, higher orders), for scalars, operators, states and super-operators. A truncated series expansion about a point returns exactly order+1 coefficients, and these are the Taylor coefficients of the denoted function; symbols that depend on the parameter contribute their own symbolic derivatives.",
  ["programs", "inputs"],
  "all expressions with parameter-dependent scalars and symbols, all expansion points and orders",
  "Tests differentiate/expand a small number of formulas and mostly low orders.",
  [A+"abstract_quantum_algebra.py", A+"operator_algebra.py", A+"state_algebra.py", A+"scalar_algebra.py", A+"super_operator_algebra.py"],
  [("diff/series_expand", A+"abstract_quantum_algebra.py"), ("derivative expression", A+"abstract_quantum_algebra.py:QuantumDerivative")],
  ["value of derivative trees", "length and values of coefficient tuples"]),
P("C08", "Substitution replaces free occurrences everywhere and commutes with meaning",
  "Substituting scalars, symbols, operators or Hilbert spaces in an expression denotes the original formula evaluated with the replaced ingredients, wherever in the expression they occur. Free and bound symbols reported for an expression are exactly the parameters its value depends on and the summation indices, respectively; substitution of anything that is not present returns an equal expression.",
  ["programs", "inputs"],
  "all expressions and all substitution maps, including simultaneous and chained maps, maps onto numbers, and maps that trigger re-simplification",
  "Tests substitute into few fixed trees; the interplay with re-simplification and indexed sums is unbounded.",
  [A+"abstract_algebra.py", A+"indexed_operations.py", A+"abstract_quantum_algebra.py"],
  [("substitute", A+"abstract_algebra.py:Expression.substitute"), ("free/bound symbols", A+"abstract_algebra.py")],
  ["value of the substituted expression", "free_symbols/bound_symbols"]),
P("C09", "Indexed sums mean the explicit sum over their index ranges",
  "An indexed sum of scalars, operators or kets, after whatever automatic simplification applies (constant terms, pulled-out prefactors, Kronecker deltas within the range, merging of nested sums), denotes the sum of its term over all values of its index ranges, and writing it out yields exactly that. Adding, scaling and multiplying indexed sums never lets an index of one factor capture an index of another, also in repeated products and powers, and independent index names give equal sums when renamed.",
  ["programs", "inputs"],
  "all indexed sums over lists, integer ranges and finite Fock-space ranges, with any number of indices, nested and multiplied in any order",
  "Tests write out a few sums with particular index names; capture depends on the combination of names across factors.",
  [A+"indexed_operations.py", A+"abstract_quantum_algebra.py", A+"scalar_algebra.py", A+"algebraic_properties.py", "src/qnet/utils/indices.py"],
  [("index disambiguation", A+"indexed_operations.py:make_disjunct_indices"), ("Kronecker summation", A+"algebraic_properties.py:indexed_sum_over_kronecker"), ("index ranges", "src/qnet/utils/indices.py")],
  ["value of indexed sum trees and their written-out forms"]),
P("C10", "Hilbert spaces form the expected lattice of degrees of freedom",
  "Tensor products of Hilbert spaces are associative, commutative and idempotent with the trivial space as neutral element, so a space is determined by its set of local factors. Membership as a factor, strict and non-strict comparison, disjointness, intersection, removal of factors and dimension agree with the corresponding set operations on those factors, and the full space absorbs everything; basis labels, basis indices and basis states of a space convert into each other consistently.",
  ["inputs"],
  "all pairs and triples of trivial, full, local, spin and product spaces; all basis labels and increments",
  "Tests check a few pairs; the operations are dispatched on both operand types.",
  [A+"hilbert_space_algebra.py", L+"spin_algebra.py"],
  [("space classes", A+"hilbert_space_algebra.py")],
  ["results of *, <=, <, isdisjoint, intersect, remove, dimension, basis methods"]),
P("C11", "Circuit expressions keep their input-output behaviour under simplification",
  "Series products, concatenations, channel permutations, identities, feedback loops and series inverses, in any nesting, denote the same input-output map after automatic simplification as the network that was written down, and have the number of channels of that network. Block structures and decompositions reported for a circuit reassemble to the same circuit; mismatched channel numbers are rejected.",
  ["programs", "inputs"],
  "all circuit expressions over abstract multi-port components, permutations of any size, feedback between any pair of ports, and inverses",
  "Tests enumerate selected rule applications; the rules are recursive and depend on block structures and permutations (factorially many).",
  [A+"circuit_algebra.py", "src/qnet/algebra/_rules.py", "src/qnet/utils/permutations.py"],
  [("circuit rules", "src/qnet/algebra/_rules.py:_algebraic_rules_circuit"), ("circuit classes", A+"circuit_algebra.py")],
  ["result tree of circuit operations", "cdim, block_structure, get_blocks"]),
P("C12", "Permutations and channel routing obey the algebra of permutations",
  "Composition, inversion, concatenation, block decomposition and factorisation of channel permutations, and the construction of permutations from partial port mappings or from extracted channels, agree with the functions on ports they stand for, for every permutation and block structure. Invalid image tuples and conflicting port mappings are rejected.",
  ["inputs"],
  "all permutations (exhaustively up to 5-6 ports, randomly beyond), all block structures, all partial injective port mappings",
  "Tests sample a few permutations.",
  ["src/qnet/utils/permutations.py", A+"circuit_algebra.py"],
  [("permutation functions", "src/qnet/utils/permutations.py"), ("channel permutation expression and routing helpers", A+"circuit_algebra.py")],
  ["returned image tuples"]),
P("C13", "SLH models compose by the cascading, concatenation and feedback rules",
  "Converting any circuit to its scattering matrix, coupling vector and Hamiltonian is a homomorphism: series products, concatenations, permutations, feedback loops and circuit components yield the model that the quantum-network composition rules prescribe, whichever order of conversion and composition is used. Moving coherent drives into the Hamiltonian, adiabatic elimination, state-space (ABCD) matrices and the master equation or quantum Langevin equation derived from a model agree with the model they came from.",
  ["programs", "inputs"],
  "all networks of components with operator-valued couplings and Hamiltonians on shared or separate degrees of freedom, with symbolic or numeric scattering",
  "Tests compare a few composed models structurally.",
  [A+"circuit_algebra.py", L+"circuit_components.py", A+"matrix_algebra.py"],
  [("SLH composition", A+"circuit_algebra.py:SLH"), ("drive/adiabatic/ABCD routines", A+"circuit_algebra.py")],
  ["S, L, H of toSLH results", "symbolic_liouvillian / symbolic_heisenberg_eom"]),
P("C14", "Results never depend on what was computed before",
  "Creating the same expression always gives an equal result, no matter which other expressions were created, simplified, printed or cached before, in which order, or whether instance caching is enabled. Creating and simplifying expressions never alters an existing expression, the arguments passed in, or any global setting.",
  ["histories"],
  "all interleavings of expression creation, cache scopes, rule scopes and algebra settings",
  "Unit tests run each scenario once from a fixed history; the cache makes every earlier call a potential influence.",
  [A+"abstract_algebra.py", T+"core.py", "src/qnet/utils/singleton.py"],
  [("instance cache", A+"abstract_algebra.py:Expression.create"), ("cache scopes", T+"core.py")],
  ["equality of results across histories", "expressions held across later operations"],
  [("instance cache", "maps class and arguments to simplified instances", A+"abstract_algebra.py")]),
P("C15", "Rule and setting changes are exactly scoped",
  "Adding, deleting, listing and temporarily modifying simplification rules affects exactly the named class and only inside the scope in which it was done; when a scope ends, normally or by an exception, in any nesting, the rules, their order, simplification steps and default settings are what they were before. Inside a scope the currently visible rules, in the order shown, are the ones that are applied.",
  ["histories", "fault_sequences"],
  "all nested sequences of add/delete/scope-enter/scope-exit/exception operations over several classes",
  "Tests check single scopes; nesting, exceptions and interactions are histories.",
  [T+"core.py", A+"abstract_algebra.py", "src/qnet/utils/check_rules.py"],
  [("temporary rules", T+"core.py:temporary_rules"), ("rule management", A+"abstract_algebra.py:Expression.add_rule")],
  ["rules() listings and the effect of create() inside and after scopes"],
  [("rule tables", "ordered rules per class", A+"abstract_algebra.py")]),
P("C16", "Expressions are immutable values identified by class and arguments",
  "Equality is an equivalence relation consistent with hashing and with printing; an expression is equal to the one re-instantiated from its own class, positional and keyword arguments, re-creating a simplified expression from them leaves it unchanged, and its full and minimal arguments agree. Expressions that denote the same written form are equal and those with different arguments are not; attributes of an expression cannot be changed by using it.",
  ["inputs", "programs"],
  "all expressions of every class (scalars, spaces, operators, states, super-operators, circuits, matrices) and all pairs of them",
  "Tests check a fixed list of expressions per class.",
  [A+"abstract_algebra.py", A+"circuit_algebra.py", A+"hilbert_space_algebra.py", A+"scalar_algebra.py"],
  [("args/kwargs/instance keys", A+"abstract_algebra.py:Expression"), ("__eq__/__hash__ overrides", A)],
  ["==, hash, args, kwargs, minimal_kwargs"]),
P("C17", "Pattern matching finds a match exactly when one exists",
  "A pattern matches an expression if and only if the declarative definition of the pattern language admits a match: class, conditions, arguments and keyword arguments recursively, single and repeated wildcards, and equal expressions for repeated names; the returned bindings are precisely those of the match. Finding all matching sub-expressions visits every sub-expression once, and applying rules rewrites exactly where a pattern matches.",
  ["inputs"],
  "all patterns of the language (nested, named, multi-argument wildcards on either side, keyword patterns, conditions) against all expression trees",
  "Tests use some thirty pattern/expression pairs.",
  ["src/qnet/algebra/pattern_matching/__init__.py", A+"abstract_algebra.py"],
  [("matcher", "src/qnet/algebra/pattern_matching/__init__.py:Pattern.match"), ("rule application", A+"abstract_algebra.py:apply_rules")],
  ["match success and bindings", "findall/finditer results"]),
P("C18", "Structural printing round-trips and all printers are deterministic",
  "Evaluating the structural representation (plain or indented, with or without a substitution cache for sub-expressions) of any expression yields an equal expression. Printing in any format is a pure function of the expression, the given settings and the active configuration: it does not depend on what was printed before, does not modify expressions, and distinct expressions have distinct structural representations.",
  ["inputs", "histories"],
  "all expressions, all print formats and settings, all histories of earlier print calls",
  "Tests print fixed examples once.",
  [PR+"sreprprinter.py", PR+"base.py", PR+"__init__.py", PR+"_render_head_repr.py"],
  [("structural printer", PR+"sreprprinter.py"), ("printer caching", PR+"base.py")],
  ["eval(srepr(x))", "strings of repeated prints"]),
P("C19", "Printing configuration is exactly scoped",
  "Settings made by initialising the printing system accumulate until reset, settings given to a single print call affect only that call, and temporary configurations affect exactly the dynamic extent of their scope. When a scope ends, normally or by an exception, in any nesting, every printer prints as it did before.",
  ["histories", "fault_sequences"],
  "all nested sequences of initialisation, reset, scoped configuration, per-call settings, invalid settings and exceptions",
  "Tests use one scope at a time.",
  [PR+"__init__.py", PR+"base.py"],
  [("configure_printing/init_printing", PR+"__init__.py")],
  ["strings printed after each step"],
  [("global print settings", "accumulated settings, str/repr format, caching flag", PR+"__init__.py")]),
P("C20", "Numerical and matrix conversions represent the same objects",
  "Converting an operator, state or super-operator over finite-dimensional spaces to a numerical object or to a symbolic matrix gives the matrix of the denoted object in the tensor-product basis ordered like the target space, also when embedded into a larger space. Products, sums, adjoints and actions on states computed after conversion equal the conversion of the symbolic result; expressions that cannot be represented are rejected.",
  ["programs", "inputs"],
  "all convertible expressions over level, spin and truncated bosonic spaces and all embeddings",
  "Tests convert selected operators.",
  ["src/qnet/convert/to_qutip.py", "src/qnet/convert/to_sympy_matrix.py"],
  [("qutip conversion", "src/qnet/convert/to_qutip.py"), ("sympy conversion", "src/qnet/convert/to_sympy_matrix.py")],
  ["matrix entries of converted objects"]),
P("C21", "Partial traces are partial traces",
  "The trace of an operator over any local or product space, after all automatic simplification and pulling-out of factors, denotes the partial trace of the operator, for products with factors inside, outside and across the traced space. Traces over several spaces do not depend on the order, and a trace over a space the operator does not act on multiplies by that space's dimension.",
  ["programs", "inputs"],
  "all operator expressions and all traced spaces with defined dimension",
  "Tests trace a few products.",
  [A+"operator_algebra.py", "src/qnet/algebra/_rules.py"],
  [("factorisation for traces", A+"operator_algebra.py:factor_for_trace"), ("trace rules", "src/qnet/algebra/_rules.py")],
  ["value of the traced expression"]),
P("C22", "Matrices of operators follow matrix algebra",
  "Sums, products, scalar and operator multiples, transposes, adjoints, conjugates, real and imaginary parts, traces, stacking, block composition and decomposition, indexing, element-wise maps, expansion, substitution and series expansion of matrices of symbolic entries agree with the matrix of denoted values. Matrices are compared and hashed by shape and entries.",
  ["programs", "inputs"],
  "all matrices of scalars and operators of any shape and all of these operations",
  "Tests build a few small matrices.",
  [A+"matrix_algebra.py"],
  [("matrix class and constructors", A+"matrix_algebra.py")],
  ["entries and shapes of results"]),
P("C23", "Library operators satisfy their defining relations",
  "Bosonic ladder, phase, displacement and squeeze operators, angular-momentum operators of any spin, and Pauli operators act on basis states, coherent states and each other according to their textbook definitions: commutation relations, ladder coefficients, group laws, unitarity, and index ranges (nothing outside the space's levels).",
  ["programs", "inputs"],
  "all products of library operators and basis states, every spin quantum number and level, symbolic or numeric parameters",
  "Tests check particular relations for a few dimensions.",
  [L+"fock_operators.py", L+"spin_algebra.py", L+"pauli_matrices.py", "src/qnet/algebra/_rules.py"],
  [("library classes", L), ("rules for library operators", "src/qnet/algebra/_rules.py")],
  ["value of products and actions"]),
P("C24", "Connecting components builds the network of the connection list",
  "For any list of components and any list of connections from output ports to input ports, given by index, component or port name, the connected circuit denotes the network in which exactly these ports are joined, with the remaining external ports in their documented order, whether or not it is converted to a concrete model. Invalid, duplicate or ambiguous references are rejected.",
  ["inputs", "configurations"],
  "all component lists (including repeated components), all valid partial matchings of output to input ports, in any order",
  "Tests connect a few components.",
  [T+"circuit_manipulation.py", A+"circuit_algebra.py"],
  [("connect", T+"circuit_manipulation.py:connect"), ("padding and channel mapping", A+"circuit_algebra.py")],
  ["input-output map of the connected circuit"]),
P("C25", "Equations track both sides through any chain of manipulations",
  "An equation keeps its two sides, tag and history of continued steps: applying functions or methods to one or both sides, arithmetic with equations or scalars, substitution, tagging and copying return a new equation with exactly the transformed sides and leave the original (and every earlier one sharing its history) unchanged. A valid equation remains valid under transformations applied to both sides, and verification returns zero exactly for sides with equal expansions.",
  ["histories", "programs"],
  "all chains of equation manipulations, continued or not, branching from shared ancestors",
  "Tests follow single chains.",
  [T+"equation.py"],
  [("equation class", T+"equation.py:Eq")],
  ["lhs, rhs, tag and printed history"],
  [("history lists", "earlier left and right hand sides and tags", T+"equation.py")]),
P("C26", "Printed formulas read back as the expression that was printed",
  "Reading the plain-text, unicode or LaTeX rendering of an operator, state, super-operator, scalar or circuit expression with the usual conventions for precedence, parentheses, superscript daggers and signs yields a formula with the value of the printed expression. In particular parentheses are never omitted where the meaning would change, adjoint and complex-conjugate marks are never lost or duplicated, and signs are correct.",
  ["programs", "inputs"],
  "all expressions built from sums, products, scalar multiples, adjoints, commutators, traces, kets, bras and circuit operations",
  "Tests compare a few strings per printer.",
  [PR+"asciiprinter.py", PR+"unicodeprinter.py", PR+"latexprinter.py", PR+"_precedence.py"],
  [("printers", PR), ("precedence", PR+"_precedence.py")],
  ["printed strings"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
print(len(props))
