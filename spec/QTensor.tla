------------------------------ MODULE QTensor ------------------------------
(* Denotations.  A value is a linear map between finite tensor products, whose *)
(* entries are truncated power series (jets) in the two parameters t and s:    *)
(*   [u |-> FALSE, o |-> output wires, i |-> input wires, j |-> coefficients]  *)
(* Wires are numbers, sorted: 2*s is degree of freedom s, and 2*s+1 its bra    *)
(* side (super-operators map operators to operators, i.e. act on both sides).  *)
(* scalars: no wires; kets: i = <<>>; bras: o = <<>>; operators: o = i.        *)
(* j[k] is the matrix of Taylor coefficients of the k-th monomial of MonoAll.  *)
(* u = TRUE: the value is undefined under this valuation (e.g. division by 0).*)
EXTENDS QMatPrim, SequencesExt, FiniteSetsExt

Undef == [u |-> TRUE]
IsU(a) == a.u

(*--- wires -------------------------------------------------------------------*)
WSort(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
WSet(w) == {w[k] : k \in 1..Len(w)}
WDims(D, w) == [k \in 1..Len(w) |-> D[w[k] \div 2]]
Pos(w, x) == CHOOSE k \in 1..Len(w) : w[k] = x
PosSeq(w, v) == TLCEval([k \in 1..Len(v) |-> Pos(w, v[k])])

Ten(o, i, j) == [u |-> FALSE, o |-> o, i |-> i, j |-> j]
TScal(s) == IF s = <<>> THEN Undef
            ELSE Ten(<<>>, <<>>, TLCEval([k \in 1..Len(s) |-> <<<<s[k]>>>>]))
TScalVal(a) == IF IsU(a) THEN <<>> ELSE TLCEval([k \in 1..Len(a.j) |-> a.j[k][1][1]])
TConst(o, i, m, d) ==
   Ten(o, i, IF d = 0 THEN <<m>> ELSE
             TLCEval([k \in 1..NM(d) |-> IF k = 1 THEN m ELSE MatScale(F0, m)]))
TZero(d) == TScal(SConst(F0, d))
TIsZero(a) == ~IsU(a) /\ \A k \in 1..Len(a.j) : IsZeroM(a.j[k])
TOrd(a) == OrdOf(Len(a.j))
TCut(a, d) == IF IsU(a) THEN a ELSE
              IF Len(a.j) <= NM(d) THEN a ELSE [a EXCEPT !.j = SubSeq(a.j, 1, NM(d))]

\* identity on the additional wires: o2, i2 must differ from a.o, a.i by the same wires
TPadTo(D, a, o2, i2) ==
  IF a.o = o2 /\ a.i = i2 THEN a
  ELSE LET nw == WSort(WSet(o2) \ WSet(a.o))
           od == WDims(D, o2)
           id == WDims(D, i2)
           os == PosSeq(o2, a.o)
           is == PosSeq(i2, a.i)
           on == PosSeq(o2, nw)
           in_ == PosSeq(i2, nw)
       IN Ten(o2, i2, TLCEval([k \in 1..Len(a.j) |-> EmbedM(a.j[k], od, id, os, is, on, in_)]))
\* can a be padded with identities to o2 / i2 ?
PadOk(a, O2, I2) == /\ WSet(a.o) \subseteq O2 /\ WSet(a.i) \subseteq I2
                    /\ O2 \ WSet(a.o) = I2 \ WSet(a.i)
TPadSp(D, a, S) == \* operators / super-operators: add wires S on both sides
  LET N == S \ (WSet(a.o) \cup WSet(a.i)) IN
  IF N = {} THEN a ELSE TPadTo(D, a, WSort(WSet(a.o) \cup N), WSort(WSet(a.i) \cup N))

\* what an ill-typed formula "denotes": a value that nothing else has
IllTyped(d) == TScal(SConst(<<12345, 6789>>, d))
\* is the composition a.b free of clashing wires (well-typed)?
MulOk(a, b) == /\ (WSet(b.o) \ WSet(a.i)) \cap WSet(a.o) = {}
               /\ (WSet(a.i) \ WSet(b.o)) \cap WSet(b.i) = {}
TMul(D, a, b) ==
  IF IsU(a) \/ IsU(b) THEN Undef ELSE
  IF ~MulOk(a, b) THEN (IF TIsZero(a) THEN TZero(TOrd(a)) ELSE IF TIsZero(b) THEN TZero(TOrd(b)) ELSE IllTyped(Min2(TOrd(a), TOrd(b)))) ELSE
  IF a.o = <<>> /\ a.i = <<>> /\ Len(a.j) = 1 /\ Len(b.j) = 1
  THEN Ten(b.o, b.i, <<MatScale(a.j[1][1][1], b.j[1])>>) ELSE
  IF b.o = <<>> /\ b.i = <<>> /\ Len(a.j) = 1 /\ Len(b.j) = 1
  THEN Ten(a.o, a.i, <<MatScale(b.j[1][1][1], a.j[1])>>) ELSE
  LET na == WSet(b.o) \ WSet(a.i)
      nb == WSet(a.i) \ WSet(b.o)
      a2 == TPadTo(D, a, WSort(WSet(a.o) \cup na), WSort(WSet(a.i) \cup na))
      b2 == TPadTo(D, b, WSort(WSet(b.o) \cup nb), WSort(WSet(b.i) \cup nb))
  IN Ten(a2.o, b2.i, JMul(a2.j, b2.j))
TScale(f, a) == IF IsU(a) THEN a ELSE
   [a EXCEPT !.j = TLCEval([k \in 1..Len(a.j) |-> MatScale(f, a.j[k])])]
TNeg(a) == TScale(FNeg(F1), a)
TAdd(D, a, b) ==
  IF IsU(a) \/ IsU(b) THEN Undef ELSE
  IF Len(a.j) = 1 /\ IsZeroM(a.j[1]) THEN TCut(b, 0) ELSE
  IF Len(b.j) = 1 /\ IsZeroM(b.j[1]) THEN TCut(a, 0) ELSE
  IF TIsZero(a) THEN TCut(b, TOrd(a)) ELSE IF TIsZero(b) THEN TCut(a, TOrd(b)) ELSE
  LET O2 == WSet(a.o) \cup WSet(b.o)
      I2 == WSet(a.i) \cup WSet(b.i)
  IN IF ~PadOk(a, O2, I2) \/ ~PadOk(b, O2, I2) THEN IllTyped(Min2(TOrd(a), TOrd(b)))
     ELSE LET o2 == WSort(O2)  i2 == WSort(I2)
              a2 == TPadTo(D, a, o2, i2)
              b2 == TPadTo(D, b, o2, i2)
          IN Ten(o2, i2, TLCEval([k \in 1..Min2(Len(a2.j), Len(b2.j)) |-> MatAdd(a2.j[k], b2.j[k])]))
RECURSIVE TSumSeq(_, _, _)
TSumSeq(D, s, n) == IF n = 1 THEN s[1] ELSE TAdd(D, TSumSeq(D, s, n - 1), s[n])
RECURSIVE TProdSeq(_, _, _)
TProdSeq(D, s, n) == IF n = 1 THEN s[1] ELSE TMul(D, TProdSeq(D, s, n - 1), s[n])
TDag(a) == IF IsU(a) THEN a ELSE
   Ten(a.i, a.o, TLCEval([k \in 1..Len(a.j) |-> MatTrans(MatConj(a.j[k]))]))
TTrans(a) == IF IsU(a) THEN a ELSE
   Ten(a.i, a.o, TLCEval([k \in 1..Len(a.j) |-> MatTrans(a.j[k])]))
TConjE(a) == IF IsU(a) THEN a ELSE [a EXCEPT !.j = TLCEval([k \in 1..Len(a.j) |-> MatConj(a.j[k])])]
TDiff(a, p, n) == IF IsU(a) THEN a ELSE
   [a EXCEPT !.j = TLCEval([k \in 1..NM(OrdOf(Len(a.j)) - n) |->
      LET c == SDiffCoef(k, p, n) IN MatScale(c[2], a.j[c[1]])])]
RECURSIVE TPowN(_, _, _, _)
TPowN(D, a, n, one) == IF n = 0 THEN one ELSE TMul(D, a, TPowN(D, a, n - 1, one))

\* partial trace over the wires W (W must be wires of the operator)
TTraceIn(D, a, W) ==
  LET ko == WSort(WSet(a.o) \ W)   ki == WSort(WSet(a.i) \ W)   w == WSort(W)
      od == WDims(D, a.o)          id == WDims(D, a.i)
  IN Ten(ko, ki, TLCEval([k \in 1..Len(a.j) |->
       PTraceM(a.j[k], od, id, PosSeq(a.o, ko), PosSeq(a.i, ki), PosSeq(a.o, w), PosSeq(a.i, w))]))
TTrace(D, a, W) == IF IsU(a) THEN a ELSE TTraceIn(D, TPadSp(D, a, W), W)

\* operators as vectors: rows <<2s.., 2s+1..>> ; wires of the vector are doubled.
TVec(D, a) ==
  LET wo == a.o                         \* = a.i, even wires
      o2 == WSort(WSet(wo) \cup {w + 1 : w \in WSet(wo)})
      od == WDims(D, o2)
      rs == PosSeq(o2, wo)
      cs == PosSeq(o2, TLCEval([k \in 1..Len(wo) |-> wo[k] + 1]))
  IN Ten(o2, <<>>, TLCEval([k \in 1..Len(a.j) |-> PermuteM(a.j[k], od, <<>>, rs, cs)]))
TUnvec(D, v) ==
  LET ke == WSort({w \in WSet(v.o) : w % 2 = 0})
      d  == WDims(D, ke)
      n  == Len(ke)
      \* row source k of v: wire v.o[k]; row digit position of even wires is 1..n,
      \* column digits n+1..2n
      rs == TLCEval([k \in 1..Len(v.o) |-> IF v.o[k] % 2 = 0 THEN Pos(ke, v.o[k]) ELSE n + Pos(ke, v.o[k] - 1)])
  IN Ten(ke, ke, TLCEval([k \in 1..Len(v.j) |-> PermuteM(v.j[k], d, d, rs, <<>>)]))
TApplySuper(D, p, a) ==
  IF IsU(p) \/ IsU(a) THEN Undef ELSE
  LET spw == {2 * (w \div 2) : w \in WSet(p.o)} IN
  IF WSet(a.o) # WSet(a.i) THEN IllTyped(TOrd(a)) ELSE
  TUnvec(D, TMul(D, p, TVec(D, TPadSp(D, a, spw))))
TSPre(a) == a                            \* left multiplication: acts on the ket wires
TSPost(a) == IF IsU(a) THEN a ELSE       \* right multiplication: transpose on the bra wires
   [TTrans(a) EXCEPT !.o = TLCEval([k \in 1..Len(a.o) |-> a.o[k] + 1]),
                     !.i = TLCEval([k \in 1..Len(a.o) |-> a.o[k] + 1])]
\* the transposed super-operator (dual under tr(A L(B))): exchanges ket and bra wires
SwapW(w) == IF w % 2 = 0 THEN w + 1 ELSE w - 1
TSuperAdj(D, p) ==
  IF IsU(p) THEN p ELSE
  LET S == {w \div 2 : w \in WSet(p.o)}
      W == WSort({2 * s : s \in S} \cup {2 * s + 1 : s \in S})
      q == TPadTo(D, p, W, W)
      d == WDims(D, W)
      n == Len(W)
      \* result row digit of wire w is q's column digit of wire SwapW(w)
      rs == TLCEval([k \in 1..n |-> n + Pos(W, SwapW(W[k]))])
      cs == TLCEval([k \in 1..n |-> Pos(W, SwapW(W[k]))])
  IN Ten(W, W, TLCEval([k \in 1..Len(q.j) |-> PermuteM(q.j[k], d, d, rs, cs)]))

(*--- comparison -------------------------------------------------------------*)
\* C: number of levels that are compared, per degree of freedom
TEq(D, C, a, b) ==
  IF TIsZero(a) /\ TIsZero(b) THEN TRUE ELSE
  LET O2 == WSet(a.o) \cup WSet(b.o)
      I2 == WSet(a.i) \cup WSet(b.i)
  IN /\ PadOk(a, O2, I2) /\ PadOk(b, O2, I2)
     /\ LET o2 == WSort(O2)  i2 == WSort(I2)
            a2 == TPadTo(D, a, o2, i2)  b2 == TPadTo(D, b, o2, i2)
            od == WDims(D, o2)  id == WDims(D, i2)
            ob == WDims(C, o2)  ib == WDims(C, i2)
        IN \A k \in 1..Min2(Len(a2.j), Len(b2.j)) : EqBelow(a2.j[k], b2.j[k], od, id, ob, ib)
\* zero below the bounds
TEqZero(D, C, a) == TEq(D, C, a, TScale(F0, a))
\* does the operator act non-trivially on wire w (i.e. is not <0|X|0> (x) 1_w)?
TActsOn(D, C, a, w) ==
  IF w \notin WSet(a.o) THEN FALSE
  ELSE LET d == D[w \div 2]
           k0 == TConst(<<w>>, <<>>, TLCEval([r \in 1..d |-> << IF r = 1 THEN F1 ELSE F0 >>]), TOrd(a))
           red == TMul(D, TDag(k0), TMul(D, a, k0))
       IN ~TEq(D, C, a, TPadSp(D, red, {w}))
=============================================================================
