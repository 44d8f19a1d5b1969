------------------------------- MODULE QEval -------------------------------
(* Meaning of expression trees: what an exported QNET expression denotes.      *)
(* A tree node is a record with c = class name, a = positional arguments,      *)
(* k_* = keyword arguments; scalar formulas are nodes with f = function.       *)
(* The environment E fixes an interpretation of all symbols:                   *)
(*   D, B, C   per degree of freedom: dimension; symbols act on levels < B;    *)
(*             results are compared on levels < C  (B, C < D only for the      *)
(*             infinite Fock spaces, which are cut off far enough above)       *)
(*   lb, sp    basis labels (strings), twice the spin (0: no spin space)       *)
(*   sy        scalar symbols [h, k]: k = c(omplex) r(eal) p(ositive) i x(idx) *)
(*   val       number of the valuation     ord   order of the power series     *)
(*   pr        the (at most two) symbols that are series parameters            *)
(*   sub       replaced symbols <<id, node, ix, sub>>    base  expansion points         *)
(*   ix        bound summation indices <<id, integer>>                         *)
EXTENDS QTensor

HasF(n, f) == f \in DOMAIN n
\* position of key in an association list, 0 if absent
RECURSIVE FindK(_, _, _)
FindK(al, id, k) == IF k > Len(al) THEN 0 ELSE IF al[k][1] = id THEN k ELSE FindK(al, id, k + 1)

(*--- small exact rationals for labels and indices; <<>> when not numeric ------*)
RECURSIVE ZGcd(_, _)
ZGcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE ZGcd(b, a % b)
Abs_(x) == IF x < 0 THEN -x ELSE x
RNorm(p, q) == LET g == ZGcd(Abs_(p), Abs_(q))  s == IF q < 0 THEN -1 ELSE 1
               IN <<s * (p \div g), s * (q \div g)>>
IdxDefault(h, val) == (h + val) % 2
\* the environment of a substituted value is the one in which the substitution was made
SubEnv(E, s) == [E EXCEPT !.sub = E.sub[s][4], !.ix = E.sub[s][3]]
RECURSIVE IEval(_, _), ISum(_, _, _), IProd(_, _, _)
ISum(a, E, k) == IF k = 0 THEN <<0, 1>> ELSE
   LET x == ISum(a, E, k - 1)  y == IEval(a[k], E) IN
   IF x = <<>> \/ y = <<>> THEN <<>> ELSE RNorm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
IProd(a, E, k) == IF k = 0 THEN <<1, 1>> ELSE
   LET x == IProd(a, E, k - 1)  y == IEval(a[k], E) IN
   IF x = <<>> \/ y = <<>> THEN <<>> ELSE RNorm(x[1] * y[1], x[2] * y[2])
IEval(n, E) ==
  CASE n.f = "i" -> <<n.n, 1>>
    [] n.f = "rat" -> IF n.p.f = "i" /\ n.q.f = "i" THEN RNorm(n.p.n, n.q.n) ELSE <<>>
    [] n.f = "sym" ->
         LET k == FindK(E.ix, n.id, 1)  s == FindK(E.sub, n.id, 1) IN
         IF k > 0 THEN <<E.ix[k][2], 1>>
         ELSE IF s > 0 THEN (IF HasF(E.sub[s][2], "f") THEN IEval(E.sub[s][2], SubEnv(E, s)) ELSE <<>>)
         ELSE IF E.sy[n.id].k = "x" THEN <<IdxDefault(E.sy[n.id].h, E.val), 1>> ELSE <<>>
    [] n.f = "Add" -> ISum(n.a, E, Len(n.a))
    [] n.f = "Mul" -> IProd(n.a, E, Len(n.a))
    [] n.f = "Pow" -> LET b == IEval(n.a[1], E)  e == IEval(n.a[2], E) IN
                      IF b = <<>> \/ e = <<>> THEN <<>> ELSE
                      IF e[2] # 1 \/ e[1] < 0 \/ e[1] > 4 THEN <<>> ELSE
                      RNorm(b[1] ^ e[1], b[2] ^ e[1])
    [] OTHER -> <<>>
RCmp(a, b) == a[1] * b[2] - b[1] * a[2]

(*--- exponentials ---------------------------------------------------------------*)
(* exp is an opaque homomorphism from exponents (linear combinations of        *)
(* monomials) to units, compatible with conjugation: exp(m/12) is a generator  *)
(* for each monomial m.                                                        *)
AtomHash(at, E) == \* at = <<symbol, conjugated, power>>
   LET sy == IF at[1] = 0 THEN [h |-> 3, k |-> "p"] ELSE E.sy[at[1]]
       cj == IF sy.k \in {"r", "p", "x"} THEN 0 ELSE at[2]
   IN <<Mix(Mix(Mix(Mix(E.val, 41), sy.h), at[3] % P), cj), Mix(Mix(Mix(Mix(E.val, 41), sy.h), at[3] % P), IF sy.k \in {"r", "p", "x"} THEN 0 ELSE 1 - cj)>>
RECURSIVE AtomsHash(_, _, _, _)
AtomsHash(ats, E, k, which) == IF k = 0 THEN 5 ELSE
   (AtomsHash(ats, E, k - 1, which) + AtomHash(ats[k], E)[which]) % P
\* <<num, den, remaining atoms>> after replacing atoms that have numeric values; <<>> = undefined
RECURSIVE AtomRed(_, _, _, _)
AtomNum(id, E) == \* numeric value of a symbol by index binding / substitution, <<>> if none
   LET k == FindK(E.ix, id, 1) IN
   IF k > 0 THEN <<E.ix[k][2], 1>>
   ELSE IF E.sy[id].k = "x" THEN IEval([f |-> "sym", id |-> id], E)
   ELSE LET s == FindK(E.sub, id, 1) IN
        IF s > 0 THEN (IF HasF(E.sub[s][2], "f") THEN IEval(E.sub[s][2], SubEnv(E, s)) ELSE <<>>)
        ELSE LET b == FindK(E.base, id, 1) IN
             IF b > 0 THEN IEval(E.base[b][2], [E EXCEPT !.sub = <<>>, !.base = <<>>, !.ix = <<>>])
             ELSE <<>>
RECURSIVE AtomSym(_, _)
AtomSym(id, E) == \* the symbol that replaces id, or -1 when it is replaced by something else
   LET s == FindK(E.sub, id, 1)  b == FindK(E.base, id, 1)
       r == IF s > 0 THEN E.sub[s][2] ELSE IF b > 0 THEN E.base[b][2] ELSE [f |-> "sym", id |-> id]
   IN IF HasF(r, "f") THEN (IF r.f = "sym" THEN (IF s > 0 THEN AtomSym(r.id, SubEnv(E, s)) ELSE r.id) ELSE -1) ELSE -1
AtomRed(ats, E, k, acc) ==
   IF acc = <<>> \/ k > Len(ats) THEN acc
   ELSE IF ats[k][1] = 0 THEN AtomRed(ats, E, k + 1, <<acc[1], acc[2], Append(acc[3], ats[k])>>)
   ELSE LET v == AtomNum(ats[k][1], E) IN
        IF v # <<>> THEN
           IF ats[k][3] < 0 \/ ats[k][3] > 6 THEN <<>> ELSE
           LET r == RNorm(acc[1] * v[1] ^ ats[k][3], acc[2] * v[2] ^ ats[k][3]) IN
           AtomRed(ats, E, k + 1, <<r[1], r[2], acc[3]>>)
        ELSE LET id == AtomSym(ats[k][1], E) IN
             IF id < 0 THEN <<>>
             ELSE IF id # ats[k][1] /\ E.sy[id].k # E.sy[ats[k][1]].k THEN <<>>
             ELSE AtomRed(ats, E, k + 1, <<acc[1], acc[2], Append(acc[3], <<id, ats[k][2], ats[k][3]>>)>>)
\* equal atoms are collected, in order (two symbols may have become equal)
RECURSIVE MergeAtoms(_, _)
MergeAtoms(ats, acc) ==
   IF ats = <<>> THEN acc ELSE
   LET x == Head(ats)
       same == {k \in 1..Len(acc) : acc[k][1] = x[1] /\ acc[k][2] = x[2]}
       less == {k \in 1..Len(acc) : acc[k][1] < x[1] \/ (acc[k][1] = x[1] /\ acc[k][2] < x[2])}
       n == Cardinality(less)
   IN MergeAtoms(Tail(ats), IF same # {} THEN [k \in 1..Len(acc) |-> IF k \in same THEN <<x[1], x[2], acc[k][3] + x[3]>> ELSE acc[k]]
                            ELSE SubSeq(acc, 1, n) \o <<x>> \o SubSeq(acc, n + 1, Len(acc)))
ExpTerm(t, E) == \* field element or <<>>
   LET r == AtomRed(t.at, E, 1, <<t.p, t.q, <<>>>>) IN
   IF r = <<>> THEN <<>> ELSE
   IF (12 * r[1]) % r[2] # 0 THEN <<>> ELSE
   LET k0 == ((12 * r[1]) \div r[2]) * (IF t.e % 4 >= 2 THEN -1 ELSE 1)
       ats == MergeAtoms(r[3], <<>>)
       key == AtomsHash(ats, E, Len(ats), 1)
       cky == AtomsHash(ats, E, Len(ats), 2)
       real == key = cky
       imag == t.e % 2 = 1
       piu == ats = << <<0, 0, 1>> >> /\ imag
       g == IF piu THEN LET q == ZInv(4) IN
                 << (((ZSqrt(6) + ZSqrt(2)) % P) * q) % P, (((ZSqrt(6) - ZSqrt(2)) % P) * q) % P >>
            ELSE IF ~imag THEN
                 IF real THEN LET x == HashPair(key)[1] IN <<(x * x) % P, 0>>
                 ELSE IF key < cky THEN HashPair(key) ELSE FConj(HashPair(cky))
            ELSE IF real THEN LET z == HashPair(Mix(key, 9)) IN FMul(z, FInvP(FConj(z)))
                 ELSE IF key < cky THEN HashPair(Mix(key, 2))
                      ELSE FInvP(FConj(HashPair(Mix(cky, 2))))
   IN IF k0 = 0 THEN F1 ELSE IF g[1] = 0 /\ g[2] = 0 THEN <<>> ELSE FPowP(g, k0)
RECURSIVE ExpProd(_, _, _)
ExpProd(ts, E, k) == IF k = 0 THEN F1 ELSE
   LET x == ExpProd(ts, E, k - 1) IN IF x = <<>> THEN <<>> ELSE
   LET y == ExpTerm(ts[k], E) IN IF y = <<>> THEN <<>> ELSE FMul(x, y)

(*--- scalar formulas ---------------------------------------------------------------*)
SymValue(h, k, val) ==
   LET z == HashPair(Mix(Mix(val, 3), h)) IN
   CASE k = "r" -> <<z[1], 0>>
     [] k = "p" -> <<(z[1] * z[1]) % P, 0>>
     [] k = "i" -> <<0, z[1]>>
     [] k = "x" -> FInt(IdxDefault(h, val))
     [] OTHER -> FMul(z, z)             \* a square, so that sqrt is defined
RECURSIVE LimbsVal(_, _)
LimbsVal(l, k) == IF k = 0 THEN 0 ELSE (LimbsVal(l, k - 1) * 10000 + l[k]) % P
RECURSIVE FactVal(_)
FactVal(n) == IF n <= 1 THEN 1 ELSE (n * FactVal(n - 1)) % P
EpsAt(E, id) == IF E.ord = 0 THEN 0 ELSE IF E.pr[1] = id THEN 2 ELSE IF E.pr[2] = id THEN 3 ELSE 0
WithEps(f, E, id) == LET e == EpsAt(E, id) IN
   [k \in 1..NM(E.ord) |-> IF k = 1 THEN f ELSE IF k = e THEN F1 ELSE F0]
RECURSIVE SEval(_, _), SSum(_, _, _), SProd(_, _, _), CondEval(_, _), PwEval(_, _, _)
SSum(a, E, k) == IF k = 1 THEN SEval(a[1], E) ELSE SAdd(SSum(a, E, k - 1), SEval(a[k], E))
SProd(a, E, k) == IF k = 1 THEN SEval(a[1], E) ELSE SMul(SProd(a, E, k - 1), SEval(a[k], E))
\* 1 true, 0 false, -1 unknown
CondEval(c, E) ==
  CASE c.b = "T" -> 1
    [] c.b = "F" -> 0
    [] c.b = "And" -> LET s == {CondEval(c.a[k], E) : k \in 1..Len(c.a)} IN IF -1 \in s THEN -1 ELSE IF 0 \in s THEN 0 ELSE 1
    [] c.b = "Or" -> LET s == {CondEval(c.a[k], E) : k \in 1..Len(c.a)} IN IF -1 \in s THEN -1 ELSE IF 1 \in s THEN 1 ELSE 0
    [] c.b = "Not" -> LET s == CondEval(c.a[1], E) IN IF s = -1 THEN -1 ELSE 1 - s
    [] c.b = "In" -> LET x == IEval(c.x, E)  s == {IEval(c.s[k], E) : k \in 1..Len(c.s)} IN
                     IF x = <<>> \/ <<>> \in s THEN -1 ELSE IF x \in s THEN 1 ELSE 0
    [] c.b \in {"Equality", "Unequality", "LessThan", "StrictLessThan", "GreaterThan", "StrictGreaterThan"} ->
         IF c.r.f = "nan" THEN (IF c.b \in {"LessThan", "StrictLessThan"} THEN 1 ELSE -1)
         ELSE LET x == IEval(c.l, E)  y == IEval(c.r, E) IN
              IF x = <<>> \/ y = <<>> THEN -1
              ELSE LET d == RCmp(x, y)
                       t == CASE c.b = "Equality" -> d = 0 [] c.b = "Unequality" -> d # 0
                              [] c.b = "LessThan" -> d <= 0 [] c.b = "StrictLessThan" -> d < 0
                              [] c.b = "GreaterThan" -> d >= 0 [] OTHER -> d > 0
                   IN IF t THEN 1 ELSE 0
    [] OTHER -> -1
PwEval(a, E, k) == IF k > Len(a) THEN SUndef ELSE
   LET t == CondEval(a[k][2], E) IN
   IF t = -1 THEN SUndef ELSE IF t = 1 THEN SEval(a[k][1], E) ELSE PwEval(a, E, k + 1)
SPowRat(b, p, q) == \* q = 1, 2 or 4
   CASE q = 1 -> SPow(b, p)
     [] q = 2 -> SPow(SSqrt(b), p)
     [] q = 4 -> SPow(SSqrt(SSqrt(b)), p)
     [] OTHER -> SUndef
SEval(n, E) ==
  CASE n.f = "i" -> SInt(n.n, E.ord)
    [] n.f = "rat" -> SMul(SEval(n.p, E), SInv(SEval(n.q, E)))
    [] n.f = "big" -> SInt(n.g * LimbsVal(n.l, Len(n.l)), E.ord)
    [] n.f = "I" -> SConst(FIm, E.ord)
    [] n.f = "pi" -> SConst(SymValue(3, "p", E.val), E.ord)
    [] n.f = "sym" ->
         LET k == FindK(E.ix, n.id, 1)  s == FindK(E.sub, n.id, 1) b == FindK(E.base, n.id, 1) IN
         IF k > 0 THEN SInt(E.ix[k][2], E.ord)
         ELSE IF s > 0 THEN (IF HasF(E.sub[s][2], "f") THEN SEval(E.sub[s][2], SubEnv(E, s)) ELSE SUndef)
         ELSE IF b > 0 THEN
              LET v == SEval(E.base[b][2], [E EXCEPT !.base = <<>>, !.sub = <<>>, !.ix = <<>>, !.ord = 0]) IN
              IF v = <<>> THEN v ELSE WithEps(v[1], E, n.id)
         ELSE WithEps(SymValue(E.sy[n.id].h, E.sy[n.id].k, E.val), E, n.id)
    [] n.f = "Add" -> SSum(n.a, E, Len(n.a))
    [] n.f = "Mul" -> SProd(n.a, E, Len(n.a))
    [] n.f = "Pow" ->
         LET e == IEval(n.a[2], E)
             b == SEval(n.a[1], E)
         IN IF b = <<>> \/ e = <<>> THEN SUndef
            \* a root of a sum: the field has no notion of its sign, so no branch can be chosen
            ELSE IF e[2] # 1 /\ n.a[1].f = "Add" /\ IEval(n.a[1], E) = <<>> THEN SUndef
            ELSE IF Abs_(e[1]) > 1000 THEN SUndef ELSE SPowRat(b, e[1], e[2])
    [] n.f = "exp" ->
         LET e0 == ExpProd(n.t, E, Len(n.t)) IN
         IF e0 = <<>> THEN SUndef
         ELSE IF E.ord = 0 THEN <<e0>>
         ELSE SExpWith(e0, SEval(n.a[1], E))
    [] n.f = "conj" -> SConj(SEval(n.a[1], E))
    [] n.f = "re" -> LET z == SEval(n.a[1], E) IN SScale(<<ZInv(2), 0>>, SAdd(z, SConj(z)))
    [] n.f = "im" -> LET z == SEval(n.a[1], E) IN SScale(FMul(<<ZInv(2), 0>>, FNeg(FIm)), SAdd(z, SNeg(SConj(z))))
    [] n.f = "Abs" -> LET z == SEval(n.a[1], E) IN
                      IF z = <<>> THEN SUndef
                      ELSE LET m == SMul(z, SConj(z)) IN
                           IF SIsZero(m) THEN m ELSE IF ~IsQR(m[1][1]) THEN SUndef ELSE SSqrt(m)
    [] n.f = "KD" -> LET x == IEval(n.a[1], E)  y == IEval(n.a[2], E) IN
                     IF x # <<>> /\ y # <<>> THEN SInt(IF x = y THEN 1 ELSE 0, E.ord)
                     ELSE LET u == SEval(n.a[1], [E EXCEPT !.ord = 0])  v == SEval(n.a[2], [E EXCEPT !.ord = 0]) IN
                          IF u = <<>> \/ v = <<>> THEN SUndef ELSE SInt(IF u = v THEN 1 ELSE 0, E.ord)
    [] n.f = "fact" -> LET x == IEval(n.a[1], E) IN
                       IF x = <<>> THEN SUndef ELSE
                       IF x[2] # 1 \/ x[1] < 0 \/ x[1] > 50 THEN SUndef ELSE SInt(FactVal(x[1]), E.ord)
    [] n.f = "ixd" -> LET x == IEval(n.a[1], E) IN
                      IF x = <<>> \/ Len(n.a) # 1 THEN SUndef
                      ELSE SConst(SymValue(Mix(Mix(n.h, x[1] % P), 77), "c", E.val), E.ord)
    [] n.f = "pw" -> PwEval(n.a, E, 1)
    [] OTHER -> SUndef                      \* nan, inexact floats, functions not modelled

(*--- symbols ---------------------------------------------------------------------*)
Digit(d) == 48 + d
RECURSIVE IntCodes(_)
IntCodes(n) == IF n < 0 THEN <<45>> \o IntCodes(-n) ELSE IF n < 10 THEN <<Digit(n)>>
               ELSE Append(IntCodes(n \div 10), Digit(n % 10))
LabelCodes(ixs, E) ==
   LET vs == [k \in 1..Len(ixs) |-> IEval(ixs[k], E)]
       one(k) == IF vs[k] = <<>> THEN <<-1>> ELSE IF vs[k][2] # 1 THEN <<-1>> ELSE IntCodes(vs[k][1])
       cs == TLCEval([k \in 1..Len(ixs) |-> one(k)])
       \* indices are separated by commas unless all are single characters
       wide == \E k \in 1..Len(ixs) : Len(cs[k]) > 1
   IN <<95>> \o FoldLeft(LAMBDA acc, c : IF acc = <<>> \/ ~wide THEN acc \o c ELSE acc \o <<44>> \o c, <<>>, cs)
LabelHash(l, E) == IF HasF(l, "s") THEN l.h
   ELSE IF HasF(l, "base") THEN
        LET cs == LabelCodes(l.ix, E) IN
        IF \E k \in 1..Len(cs) : cs[k] < 0 THEN -1 ELSE MixS(17, l.base \o cs)
   ELSE -1
RECURSIVE FlatVals(_, _)
FlatVals(xs, k) == IF k > Len(xs) THEN <<>> ELSE <<xs[k][1][1], xs[k][1][2]>> \o FlatVals(xs, k + 1)

\* level number of a basis label argument in space s; -1 unknown, -2 outside
LevelOf(x, s, E) ==
   IF HasF(x, "s") THEN
      LET ps == {k \in 1..Len(E.lb[s]) : E.lb[s][k] = x.s} IN
      IF ps = {} THEN -2 ELSE (CHOOSE k \in ps : TRUE) - 1
   ELSE LET v == IF HasF(x, "lb") THEN IEval(x.e, E) ELSE IF HasF(x, "f") THEN IEval(x, E) ELSE <<>>
            w == IF v = <<>> THEN <<>>
                 ELSE IF HasF(x, "lb") /\ x.lb = "SpinIndex" THEN RNorm(2 * v[1] + E.sp[s] * v[2], 2 * v[2]) ELSE v
        IN IF w = <<>> THEN -1 ELSE IF w[2] # 1 THEN -1 ELSE
           IF w[1] < 0 THEN -2
           ELSE IF w[1] >= E.D[s] THEN (IF E.B[s] < E.D[s] THEN -1 ELSE -2) ELSE w[1]

OneHot(d, k) == TLCEval([r \in 1..d |-> << IF r = k + 1 THEN F1 ELSE F0 >>])
Unit2(d, j, k) == TLCEval([r \in 1..d |-> TLCEval([c \in 1..d |-> IF r = j + 1 /\ c = k + 1 THEN F1 ELSE F0])])
\* Fock ladder and spin operators as sums over the levels
LadderM(d) == TLCEval([r \in 1..d |-> TLCEval([c \in 1..d |-> IF c = r + 1 THEN FSqrtReal(r) ELSE F0])])
JzM(d, tj) == TLCEval([r \in 1..d |-> TLCEval([c \in 1..d |->
     IF r = c THEN FMul(<<ZInv(2), 0>>, FInt(2 * (r - 1) - tj)) ELSE F0])])
\* <m+1| J+ |m> = sqrt(j(j+1) - m(m+1)), with 2j = tj and 2m = 2k - tj
JplusM(d, tj) == TLCEval([r \in 1..d |-> TLCEval([c \in 1..d |->
     IF r = c + 1 THEN LET tm == 2 * (c - 1) - tj IN FSqrtReal(((tj * (tj + 2) - tm * (tm + 2)) \div 4) % P) ELSE F0])])

EvClasses == {"OperatorSymbol", "KetSymbol", "SuperOperatorSymbol"}
\* x_i = arguments as scalar jets; tensor whose Taylor coefficients in the arguments are hashed
SymTensor(h, o, i, xs, E) ==
   LET od == WDims(E.D, o)  id == WDims(E.D, i)
       ob == WDims(E.B, o)  ib == WDims(E.B, i)
       mk(hh) == LET m == HashMat(hh, Size(ob), Size(ib)) IN
                 IF od = ob /\ id = ib THEN m ELSE PlaceM(m, od, id, ob, ib)
       h0 == MixS(h, FlatVals(xs, 1))
   IN IF E.ord = 0 \/ xs = <<>> THEN TConst(o, i, mk(h0), E.ord)
      ELSE IF Len(xs) > 2 THEN Undef
      ELSE \* sum over the derivatives (n1, n2) of D^(n1,n2) A / (n1! n2!) d1^n1 d2^n2
         LET d1 == SNil(xs[1])
             d2 == IF Len(xs) = 2 THEN SNil(xs[2]) ELSE SInt(0, E.ord)
             one == SInt(1, E.ord)
             ns == {p \in (0..E.ord) \X (0..E.ord) : p[1] + p[2] <= E.ord /\ (Len(xs) = 2 \/ p[2] = 0)}
             nseq == SetToSeq(ns)
             coef(p) == SScale(<<ZInv((ZFact(p[1]) * ZFact(p[2])) % P), 0>>,
                               SMul(IF p[1] = 0 THEN one ELSE SPow(d1, p[1]), IF p[2] = 0 THEN one ELSE SPow(d2, p[2])))
             cs == TLCEval([k \in 1..Len(nseq) |-> coef(nseq[k])])
             ms == TLCEval([k \in 1..Len(nseq) |-> mk(IF nseq[k] = <<0, 0>> THEN h0 ELSE MixS(h0, <<7777, nseq[k][1], nseq[k][2]>>))])
         IN Ten(o, i, JComb(cs, ms))

\* ket symbols are normalised: divide by the square root of the squared norm.
\* (the first member of the family of interpretations whose norm is "positive")
TNormalize(v, E) ==
   IF IsU(v) THEN v ELSE
   LET n == TScalVal(TMul(E.D, TDag(v), v))
       r == SInv(SSqrt(n))
   IN IF r = <<>> THEN Undef ELSE IF n[1][2] # 0 \/ ~IsQR(n[1][1]) THEN Undef ELSE TMul(E.D, TScal(r), v)
RECURSIVE KetTensor(_, _, _, _, _)
KetTensor(h, o, xs, E, tries) ==
   LET t == TNormalize(SymTensor(h, o, <<>>, xs, E), E) IN
   IF ~IsU(t) \/ tries = 0 THEN t ELSE KetTensor(Mix(h, 4711 + tries), o, xs, E, tries - 1)

(*--- index ranges ------------------------------------------------------------------*)
\* sequence of integers, or <<-99999>> / <<-88888>>
RangeVals(r, E) ==
  CASE r.r = "IndexOverList" ->
         IF \A k \in 1..Len(r.v) : HasF(r.v[k], "f") /\ IEval(r.v[k], E) # <<>>
         THEN [k \in 1..Len(r.v) |-> IEval(r.v[k], E)[1]] ELSE <<-88888>>
    [] r.r = "IndexOverRange" ->
         LET n == IF r.st > 0 THEN IF r.q >= r.p THEN (r.q - r.p) \div r.st + 1 ELSE 0
                  ELSE IF r.p >= r.q THEN (r.p - r.q) \div (-r.st) + 1 ELSE 0
         IN [k \in 1..n |-> r.p + (k - 1) * r.st]
    [] r.r = "IndexOverFockSpace" ->
         IF r.inf THEN <<-99999>> ELSE [k \in 1..E.D[r.hs[1]] |-> k - 1]
    [] OTHER -> <<-88888>>

(*--- expressions -------------------------------------------------------------------*)
WiresOf(hs) == TLCEval([k \in 1..Len(hs) |-> 2 * hs[k]])
WiresOf2(hs) == WSort({2 * hs[k] : k \in 1..Len(hs)} \cup {2 * hs[k] + 1 : k \in 1..Len(hs)})
OneT(E) == TScal(SInt(1, E.ord))
TraceOverAny(hs) == \E k \in 1..Len(hs) : hs[k] = -1

RECURSIVE Eval(_, _), EvalSeq(_, _), IdxSum(_, _, _, _), DerivEval(_, _)
EvalSeq(a, E) == TLCEval([k \in 1..Len(a) |-> Eval(a[k], E)])
ScalArgs(a, E) == TLCEval([k \in 1..Len(a) |-> TScalVal(Eval(a[k], E))])
\* sum of the term over the ranges r[k..]
IdxSum(term, rs, k, E) ==
  IF k > Len(rs) THEN Eval(term, E)
  ELSE LET vs == RangeVals(rs[k], E) IN
       IF vs = <<-99999>> \/ vs = <<-88888>> THEN Undef
       ELSE IF vs = <<>> THEN TZero(E.ord)
       ELSE LET ts == TLCEval([m \in 1..Len(vs) |->
                        IdxSum(term, rs, k + 1, [E EXCEPT !.ix = << <<rs[k].id, vs[m]>> >> \o E.ix])])
            IN TSumSeq(E.D, ts, Len(ts))
\* partial derivatives, possibly evaluated at a point
DerivEval(n, E) ==
  LET ds == n.k_derivs.t
      vs == IF HasF(n.k_vals, "t") THEN n.k_vals.t ELSE <<>>
      nds == {ds[k].t[1].id : k \in 1..Len(ds)}
      plain == \A k \in 1..Len(ds) : ds[k].t[1].f = "sym" /\ ds[k].t[2].f = "i"
      tot == IF plain THEN FoldLeft(LAMBDA acc, d : acc + d.t[2].n, 0, ds) ELSE 0
      inpr == nds \subseteq {E.pr[1], E.pr[2]}
      pr1 == IF E.ord = 0 /\ ~inpr THEN (LET s == SetToSortSeq(nds, LAMBDA x, y : x < y) IN
                     IF Len(s) = 1 THEN <<s[1], 0>> ELSE <<s[1], s[2]>>) ELSE E.pr
      base1 == TLCEval([k \in 1..Len(vs) |-> <<vs[k].t[1].id, vs[k].t[2]>>]) \o E.base
      vsplain == \A k \in 1..Len(vs) : HasF(vs[k].t[2], "f")
      E1 == [E EXCEPT !.pr = pr1, !.ord = E.ord + tot, !.base = base1]
      RECURSIVE dd(_, _)
      dd(v, k) == IF k > Len(ds) THEN v
                  ELSE dd(TDiff(v, IF ds[k].t[1].id = pr1[1] THEN 1 ELSE 2, ds[k].t[2].n), k + 1)
      \* drop the dependence on the parameters that were fixed
      fixd == {vs[k].t[1].id : k \in 1..Len(vs)}
      keep(m) == /\ (m[1] = 0 \/ pr1[1] \notin fixd) /\ (m[2] = 0 \/ pr1[2] \notin fixd)
      drop(v) == IF IsU(v) THEN v ELSE
                 [v EXCEPT !.j = TLCEval([k \in 1..Len(v.j) |-> IF keep(MonoAll[k]) THEN v.j[k] ELSE MatScale(F0, v.j[k])])]
  IN IF ~plain \/ ~vsplain \/ Cardinality(nds) > 2 \/ (E.ord > 0 /\ ~inpr) \/ E.ord + tot > 5 THEN Undef
     ELSE drop(dd(Eval(n.a[1], E1), 1))

Eval(n, E) ==
  IF HasF(n, "f") THEN TScal(SEval(n, E))
  ELSE IF ~HasF(n, "c") THEN Undef
  ELSE
  CASE n.c = "ScalarValue" -> Eval(n.a[1], E)
    [] n.c \in {"OperatorSymbol", "SuperOperatorSymbol", "KetSymbol"} ->
         LET xs == ScalArgs(n.a, E)
             lh == LabelHash(n.l, E)
             cc == CASE n.c = "OperatorSymbol" -> 11 [] n.c = "KetSymbol" -> 12 [] OTHER -> 13
             h  == MixS(E.val, <<cc, lh>> \o n.hs)
         IN IF lh < 0 \/ (\E k \in 1..Len(xs) : xs[k] = <<>>) THEN Undef
            ELSE CASE n.c = "OperatorSymbol" -> SymTensor(h, WiresOf(n.hs), WiresOf(n.hs), xs, E)
                   [] n.c = "KetSymbol" -> KetTensor(h, WiresOf(n.hs), xs, E, 12)
                   [] OTHER -> SymTensor(h, WiresOf2(n.hs), WiresOf2(n.hs), xs, E)
    [] n.c \in {"One", "IdentityOperator", "TrivialKet", "IdentitySuperOperator"} -> OneT(E)
    [] n.c \in {"Zero", "ZeroOperator", "ZeroKet", "ZeroSuperOperator"} -> TZero(E.ord)
    [] n.c \in {"OperatorPlus", "KetPlus", "SuperOperatorPlus", "ScalarPlus"} ->
         TSumSeq(E.D, EvalSeq(n.a, E), Len(n.a))
    [] n.c \in {"OperatorTimes", "TensorKet", "SuperOperatorTimes", "ScalarTimes", "OperatorTimesKet",
                "ScalarTimesOperator", "ScalarTimesKet", "ScalarTimesSuperOperator"} ->
         TProdSeq(E.D, EvalSeq(n.a, E), Len(n.a))
    [] n.c \in {"Adjoint", "Bra"} -> TDag(Eval(n.a[1], E))
    [] n.c = "BraKet" -> TMul(E.D, TDag(Eval(n.a[1], E)), Eval(n.a[2], E))
    [] n.c = "KetBra" -> TMul(E.D, Eval(n.a[1], E), TDag(Eval(n.a[2], E)))
    [] n.c = "ScalarPower" ->
         LET b == TScalVal(Eval(n.a[1], E))
             e == IF HasF(n.a[2], "f") THEN IEval(n.a[2], E)
                  ELSE IF n.a[2].c = "ScalarValue" THEN (IF HasF(n.a[2].a[1], "f") THEN IEval(n.a[2].a[1], E) ELSE <<>>)
                  ELSE IF n.a[2].c = "One" THEN <<1, 1>> ELSE IF n.a[2].c = "Zero" THEN <<0, 1>> ELSE <<>>
         IN IF b = <<>> \/ e = <<>> THEN Undef ELSE TScal(SPowRat(b, e[1], e[2]))
    [] n.c = "Commutator" ->
         LET x == Eval(n.a[1], E)  y == Eval(n.a[2], E) IN
         TAdd(E.D, TMul(E.D, x, y), TNeg(TMul(E.D, y, x)))
    [] n.c = "OperatorPlusMinusCC" ->
         LET x == Eval(n.a[1], E) IN
         IF IsU(x) THEN x ELSE TAdd(E.D, x, IF n.k_sign.n > 0 THEN TDag(x) ELSE TNeg(TDag(x)))
    [] n.c = "OperatorTrace" ->
         IF TraceOverAny(n.k_over_space.hs) THEN Undef
         ELSE TTrace(E.D, Eval(n.a[1], E), {2 * n.k_over_space.hs[k] : k \in 1..Len(n.k_over_space.hs)})
    [] n.c = "PseudoInverse" ->
         LET x == Eval(n.a[1], E) IN
         IF IsU(x) \/ E.ord > 0 THEN Undef
         ELSE IF TIsZero(x) THEN x
         ELSE LET m == MatInv(x.j[1]) IN IF m = <<>> THEN Undef ELSE Ten(x.o, x.i, <<m>>)
    [] n.c = "NullSpaceProjector" ->
         LET x == Eval(n.a[1], E) IN
         IF IsU(x) \/ E.ord > 0 THEN Undef
         ELSE IF TIsZero(x) THEN OneT(E)
         ELSE IF MatInv(x.j[1]) = <<>> THEN Undef ELSE TZero(E.ord)
    [] n.c \in {"Destroy", "Create"} ->
         LET s == n.hs[1]  w == <<2 * s>>  m == LadderM(E.D[s]) IN
         TConst(w, w, IF n.c = "Destroy" THEN m ELSE MatTrans(m), E.ord)
    [] n.c \in {"Jz", "Jplus", "Jminus"} ->
         LET s == n.hs[1]  w == <<2 * s>> IN
         TConst(w, w, CASE n.c = "Jz" -> JzM(E.D[s], E.sp[s])
                        [] n.c = "Jplus" -> JplusM(E.D[s], E.sp[s])
                        [] OTHER -> MatTrans(JplusM(E.D[s], E.sp[s])), E.ord)
    [] n.c \in {"LocalSigma", "LocalProjector"} ->
         LET s == n.hs[1]  w == <<2 * s>>
             j == LevelOf(n.a[1], s, E)  k == LevelOf(n.a[Len(n.a)], s, E)
         IN IF j = -1 \/ k = -1 THEN Undef
            ELSE IF j = -2 \/ k = -2 THEN TZero(E.ord)
            ELSE TConst(w, w, Unit2(E.D[s], j, k), E.ord)
    [] n.c = "BasisKet" ->
         LET s == n.hs[1]  k == LevelOf(n.a[1], s, E) IN
         IF k = -1 THEN Undef ELSE IF k = -2 THEN TZero(E.ord)
         ELSE TConst(<<2 * s>>, <<>>, OneHot(E.D[s], k), E.ord)
    [] n.c = "Phase" ->
         LET s == n.hs[1]  w == <<2 * s>>
             g == IF HasF(n, "ex") THEN SEval(n.ex, E) ELSE <<>>
         IN IF g = <<>> THEN Undef
            ELSE LET ps == TLCEval([k \in 1..E.D[s] |-> SPow(g, k - 1)])
                     d == E.D[s]
                 IN Ten(w, w, TLCEval([q \in 1..NM(E.ord) |-> TLCEval([r \in 1..d |-> TLCEval([c \in 1..d |->
                        IF r = c THEN ps[r][q] ELSE F0])])]))
    [] n.c = "SPre" -> TSPre(Eval(n.a[1], E))
    [] n.c = "SPost" -> TSPost(Eval(n.a[1], E))
    [] n.c = "SuperAdjoint" -> TSuperAdj(E.D, Eval(n.a[1], E))
    [] n.c = "SuperOperatorTimesOperator" -> TApplySuper(E.D, Eval(n.a[1], E), Eval(n.a[2], E))
    [] n.c \in {"OperatorDerivative", "StateDerivative", "ScalarDerivative", "SuperOperatorDerivative"} -> DerivEval(n, E)
    [] n.c \in {"OperatorIndexedSum", "KetIndexedSum", "ScalarIndexedSum"} -> IdxSum(n.a[1], Tail(n.a), 1, E)
    [] OTHER -> Undef
=============================================================================
