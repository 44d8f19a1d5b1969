------------------------------ MODULE PrimTest ------------------------------
(* The override of QMatPrim computes what the TLA+ definitions say.  QMatPure  *)
(* is a copy of QMatPrim.tla under a name that has no override (made by setup).*)
EXTENDS QMatPrim
U == INSTANCE QMatPure
VARIABLE n
Od == <<2, 3, 2>>  Id == <<3, 2>>
A == HashMat(100 + n, 4, 6)   B == HashMat(200 + n, 6, 3)   C == HashMat(300 + n, 4, 6)
M == HashMat(400 + n, 12, 6)  Q == HashMat(n, 5, 5)
S == [Q EXCEPT ![2] = Q[1]]
E1 == HashMat(500 + n, 6, 3)
Z == MatScale(F0, A)
Half == [A EXCEPT ![4] = C[4]]
Same(x, y) == x = y
Ok ==
  /\ Same(HashMat(n, 3, 4), U!HashMat(n, 3, 4))
  /\ Same(Mix(n * 77 % P, 31390), U!Mix(n * 77 % P, 31390)) /\ Same(MixS(n, <<1, 2, n>>), U!MixS(n, <<1, 2, n>>))
  /\ Same(MatMul(A, B), U!MatMul(A, B)) /\ Same(MatMul(Z, B), U!MatMul(Z, B))
  /\ Same(MatAdd(A, C), U!MatAdd(A, C)) /\ Same(MatScale(<<n, 7>>, A), U!MatScale(<<n, 7>>, A))
  /\ Same(MatConj(A), U!MatConj(A)) /\ Same(MatTrans(A), U!MatTrans(A))
  \* E1 has wires (2 3) x (3); embed into rows (2 3 2), columns (3 2)
  /\ Same(EmbedM(E1, Od, Id, <<1, 2>>, <<1>>, <<3>>, <<2>>), U!EmbedM(E1, Od, Id, <<1, 2>>, <<1>>, <<3>>, <<2>>))
  /\ Same(PTraceM(M, Od, Id, <<1, 3>>, <<2>>, <<2>>, <<1>>), U!PTraceM(M, Od, Id, <<1, 3>>, <<2>>, <<2>>, <<1>>))
  /\ Same(PTraceM(M, Od, Id, <<1>>, <<>>, <<2, 3>>, <<1, 2>>), U!PTraceM(M, Od, Id, <<1>>, <<>>, <<2, 3>>, <<1, 2>>))
  \* m is M (rows 2 3 2, columns 3 2); result has rows (3 2 2), columns (2 3)
  /\ Same(PermuteM(M, <<3, 2, 2>>, <<2, 3>>, <<3, 1, 2>>, <<5, 4>>), U!PermuteM(M, <<3, 2, 2>>, <<2, 3>>, <<3, 1, 2>>, <<5, 4>>))
  /\ Same(PlaceM(A, <<3, 2>>, <<3, 4>>, <<2, 2>>, <<2, 3>>), U!PlaceM(A, <<3, 2>>, <<3, 4>>, <<2, 2>>, <<2, 3>>))
  /\ Same(IsZeroM(Z), U!IsZeroM(Z)) /\ Same(IsZeroM(A), U!IsZeroM(A))
  /\ \A k \in 0..2 : Same(EqBelow(A, Half, <<2, 2>>, <<3, 2>>, <<2, k>>, <<3, 2>>), U!EqBelow(A, Half, <<2, 2>>, <<3, 2>>, <<2, k>>, <<3, 2>>))
  /\ Same(MatInv(Q), U!MatInv(Q)) /\ Same(MatInv(S), U!MatInv(S)) /\ MatInv(S) = <<>> /\ MatInv(Q) # <<>>
  /\ Same(FInvP(<<n, 17>>), U!FInvP(<<n, 17>>)) /\ \A k \in -3..5 : Same(FPowP(<<n, 17>>, k), U!FPowP(<<n, 17>>, k))
  /\ FMul(FInvP(<<n, 17>>), <<n, 17>>) = F1
JA == HashMat(600 + n, 1, 6)[1]  JB == HashMat(700 + n, 1, 10)[1]  JC == [k \in 1..6 |-> IF k = 1 THEN FMul(JA[1], JA[1]) ELSE JA[k]]
JR == [k \in 1..15 |-> <<(n * n * 7 + k * k) % P, 0>>]
MA == [k \in 1..6 |-> HashMat(800 + 10 * n + k, 2, 3)]  MB == [k \in 1..10 |-> HashMat(900 + 20 * n + k, 3, 2)]
OkJ ==
  /\ Same(SMul(JA, JB), U!SMul(JA, JB)) /\ Same(SMul(JB, JB), U!SMul(JB, JB)) /\ Same(SMul(JR, JR), U!SMul(JR, JR))
  /\ Same(SMul(JA, <<F1>>), U!SMul(JA, <<F1>>)) /\ Same(SMul(<<>>, JA), <<>>) /\ Same(SMul(JA, <<>>), <<>>)
  /\ Same(SInv(JA), U!SInv(JA)) /\ Same(SInv(JB), U!SInv(JB)) /\ Same(SInv(JR), U!SInv(JR)) /\ Same(SInv(<<>>), <<>>) /\ Same(SInv(SNil(JA)), <<>>)
  /\ Same(SMul(SInv(JA), JA), SInt(1, 2))
  /\ \A z \in {JA, JB, JC, JR, SNil(JA), [JC EXCEPT ![1] = <<5, 0>>], [JC EXCEPT ![1] = <<P - 5, 0>>], <<>>, <<F0>>, SubSeq(JC, 1, 1)} : Same(SSqrt(z), U!SSqrt(z))
  /\ Same(SMul(SSqrt(JC), SSqrt(JC)), JC)
  /\ \A z \in {JA, JB, SNil(JB), <<>>, <<F1>>, <<F0>>, SubSeq(JA, 1, 1)} : \A k \in -3..5 : Same(SPow(z, k), U!SPow(z, k))
  /\ Same(JMul(MA, MB), U!JMul(MA, MB)) /\ Same(JMul(MB, MA), U!JMul(MB, MA)) /\ Same(JMul(<<MA[1]>>, MB), U!JMul(<<MA[1]>>, MB))
  /\ Same(JComb(<<JA, JC>>, <<MA[1], MA[2]>>), U!JComb(<<JA, JC>>, <<MA[1], MA[2]>>))
  /\ \A k \in 1..6 : Same(FSqrt(JB[k]), U!FSqrt(JB[k])) /\ Same(FSqrtDef(JB[k]), U!FSqrtDef(JB[k])) /\ FSqrtDef(FMul(JA[k], JA[k]))
Init == n \in 1..12
Next == UNCHANGED n
Inv == Ok /\ OkJ
=============================================================================
