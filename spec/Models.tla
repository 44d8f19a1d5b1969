--------------------------------- MODULE Models ------------------------------
(* Reduced descriptions of a model (S, L, H): the state-space matrices of a      *)
(* linear model, and the limit of fast degrees of freedom.                       *)
EXTENDS SLHNet
(*--- generator: one model per behaviour ------------------------------------------------*)
Cf(z) == RE(IF z < 0 THEN {} ELSE {1, 2, 3, 4, 5, 6, 9, 10})
Mx(r, c) == [j \in 1..r |-> [k \in 1..c |-> IF RE(1..2) = 1 THEN Cf(j) ELSE 11]]
Sparse(r, c) == [j \in 1..r |-> [k \in 1..c |-> IF RE(1..4) = 1 THEN Cf(j) ELSE 11]]
PhasedPerm(n) == LET p == RandPerm(1..n) IN [i \in 1..n |-> [j \in 1..n |-> IF p[j] = i THEN RE({1, 1, 2, 3, 8}) ELSE 11]]
Linear(m, n) == [op |-> "abcd", m |-> m, n |-> n, S |-> PhasedPerm(n), om |-> Mx(m, m), xi |-> Sparse(m, m), f |-> Sparse(m, 1),
                 Cm |-> Mx(n, m), Cp |-> Sparse(n, m), cc |-> Sparse(n, 1), du |-> RE(BOOLEAN),
                 a0 |-> IF RE(1..3) = 1 THEN [j \in 1..m |-> RE({1, 3, 4, 5, 11})] ELSE [j \in 1..m |-> 11]]
\* no symbol k in the parts: it is the scale that goes to infinity
KTerm(z) == [c |-> RE({1, 2, 3, 4, 5, 6, 8, 10}), w |-> RWord(z)]
KEnt(z) == LET k == RE({0, 1, 1}) IN IF k = 0 THEN <<>> ELSE <<KTerm(z)>>
Adia(n) == [op |-> "adia", n |-> n, S |-> RS(n), F |-> [i \in 1..n |-> <<KEnt(n)>>], G |-> [i \in 1..n |-> <<KEnt(n)>>],
            H |-> [i \in 1..3 |-> KEnt(n)], P |-> <<KTerm(n)>>, Y |-> <<KTerm(n)>>]
\* a two-level system whose excited state decays fast
BWord(z) == RE(IF z < 0 THEN {} ELSE {<<>>, <<3>>, <<-3>>, <<5>>, <<3, -3>>})
BEnt(z) == LET k == RE({0, 1, 1}) IN IF k = 0 THEN <<>> ELSE <<[c |-> RE({1, 2, 3, 4, 5, 6, 8, 10}), w |-> BWord(z)]>>
Fast(n) == LET v == RE({1, 3, 4, 9})  d == RE({11, 1, 9}) IN
   [op |-> "fast", n |-> n, S |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN Sc(RE({1, 2, 3, 8})) ELSE <<>>]],
    F |-> [i \in 1..n |-> <<IF i = 1 THEN <<[c |-> v, w |-> <<4>>]>> ELSE <<>>>>],
    G |-> [i \in 1..n |-> <<BEnt(n)>>], v |-> v, d |-> d,
    H |-> << BEnt(n), LET c == RE({4, 5, 10})  w == BWord(n) IN <<[c |-> c, w |-> <<4>> \o w]>>, IF d = 11 THEN <<>> ELSE <<[c |-> d, w |-> <<-4, 4>>]>> >>]
MInit == g = [prog |-> <<>>, reg |-> <<>>, fin |-> FALSE] /\ Idle
MNext == /\ \/ N < 1 /\ \E k \in {RE(IF N < 0 THEN {} ELSE 1..8)} :
                 \E s \in {CASE k <= 4 -> Linear(RE({1, 1, 2, 2, 2, 3}), RE({1, 1, 2})) [] k <= 6 -> Adia(RE(1..3)) [] OTHER -> Fast(RE(1..2))} :
                 g' = [g EXCEPT !.prog = Append(@, s), !.reg = Append(@, s.n)]
            \/ N = 1 /\ ~g.fin /\ Emit([steps |-> g.prog]) /\ g' = [g EXCEPT !.fin = TRUE]
         /\ UNCHANGED <<l, cnt>>
MSpec == MInit /\ [][MNext]_<<g, l, cnt>>
(*--- state-space matrices of a linear model -------------------------------------------------*)
V(E, c) == SEval(Coef[c], E)[1]
VM(E, m) == TLCEval([j \in 1..Len(m) |-> TLCEval([k \in 1..Len(m[1]) |-> V(E, m[j][k])])])
FH == FInvP(FInt(2))
NI == FNeg(FIm)
\* Hamiltonian:  sum om_jk a_j^+ a_k (hermitian part only)  + 1/2 sum (xi_jk a_j^+ a_k^+ + h.c.) + sum (f_j a_j^+ + h.c.)
LinA(st, E) ==
  LET om == VM(E, st.om)  w == MatAdd(om, MatDag(om))
      x == VM(E, st.xi)  xs == Half(MatAdd(x, MatTrans(x)))
      Cm == VM(E, st.Cm)  Cp == VM(E, st.Cp)  cv == VM(E, st.cc)  fv == VM(E, st.f)
      S == VM(E, st.S)
      Am == MatAdd(MatScale(NI, w), Half(MatSub(MatMul(MatTrans(Cp), MatConj(Cp)), MatMul(MatDag(Cm), Cm))))
      Ap == MatAdd(MatScale(NI, xs), Half(MatSub(MatMul(MatTrans(Cp), MatConj(Cm)), MatMul(MatDag(Cm), Cp))))
      a1 == MatAdd(MatScale(NI, fv), Half(MatSub(MatMul(MatTrans(Cp), MatConj(cv)), MatMul(MatDag(Cm), cv))))
      al == VM(E, [j \in 1..st.m |-> <<st.a0[j]>>])
      sh == MatAdd(MatMul(Am, al), MatMul(Ap, MatConj(al)))
  IN [A |-> Am, Ap |-> Ap, B |-> MatScale(FNeg(F1), MatMul(MatDag(Cm), S)), Bp |-> MatMul(MatTrans(Cp), MatConj(S)), C |-> Cm, Cp |-> Cp, D |-> S,
      a |-> MatAdd(a1, sh), c |-> MatAdd(cv, MatAdd(MatMul(Cm, al), MatMul(Cp, MatConj(al))))]
Dbl(x, y) == [j \in 1..2 * Len(x) |-> IF j <= Len(x) THEN x[j] \o y[j] ELSE MatConj(y)[j - Len(x)] \o MatConj(x)[j - Len(x)]]
ZLike(x) == ZeroM(Len(x), Len(x[1]))
Expect(st, E) == LET q == LinA(st, E) IN
  IF st.du THEN [A |-> Dbl(q.A, q.Ap), B |-> Dbl(q.B, q.Bp), C |-> Dbl(q.C, q.Cp), D |-> Dbl(q.D, ZLike(q.D)), a |-> q.a \o MatConj(q.a), c |-> q.c \o MatConj(q.c)]
  ELSE [A |-> q.A, B |-> q.B, C |-> q.C, D |-> q.D, a |-> q.a, c |-> q.c]
Got(m, E) == [j \in 1..Len(m) |-> [k \in 1..Len(m[j]) |-> SEval(m[j][k], E)]]
NumOk(m, w) == Len(m) = Len(w) /\ \A j \in 1..Len(m) : Len(m[j]) = Len(w[j]) /\ \A k \in 1..Len(m[j]) : m[j][k] = <<>> \/ m[j][k][1] = w[j][k]
JudgeLin(st, o, E) == LET w == Expect(st, E)
                          bad == {x \in {"A", "B", "C", "D", "a", "c"} : ~NumOk(Got(o[x], E), w[x])} IN
  IF o.err # "" THEN "raises " \o o.err ELSE IF bad = {} THEN "ok" ELSE "matrix " \o (CHOOSE x \in bad : TRUE)
(*--- fast degrees of freedom ---------------------------------------------------------------------*)
TM(E, m) == LET q == [j \in 1..Len(m) |-> TLCEval([k \in 1..Len(m[j]) |-> Tree(E, m[j][k])])] IN
            IF \E j \in 1..Len(q) : \E k \in 1..Len(q[j]) : q[j][k] = <<>> THEN <<>> ELSE Blocks(q)
Diff(x, w) == x # <<>> /\ x # w
Lim(st, E, P0, Yt) ==
  LET F == MatDag(EMat(E, st.F))  G == MatDag(EMat(E, st.G))  S == EMat(E, st.S)  n == st.n   \* F, G: one row of blocks
      L1 == MatDag(F)  L0 == MatDag(G)
      h(k) == EntMat(E, st.H[k])
      sy(m) == MatScale(FIm, IF st.op = "adia" THEN m ELSE MatAdd(m, MatDag(m)))
      Y == MatSub(sy(h(3)), Half(MatMul(F, L1)))
      A == MatSub(sy(h(2)), Half(MatAdd(MatMul(F, L0), MatMul(G, L1))))
      B == MatSub(sy(h(1)), Half(MatMul(G, L0)))
      N0 == MatDag(S)  PP == Kron(n, P0)
      AY == MatMul(A, Yt)
      K == MatMul(P0, MatMul(MatSub(B, MatMul(AY, A)), P0))
      Ld == MatMul(P0, MatMul(MatSub(G, MatMul(AY, F)), PP))
      Nl == MatMul(PP, MatMul(MatMul(N0, MatAdd(OneM(4 * n), MatMul(L1, MatMul(Yt, F)))), PP))
  IN [Y |-> Y, A |-> A, B |-> B, F |-> F, G |-> G, N |-> N0, S |-> MatDag(Nl), L |-> MatDag(Ld), H |-> ImPart(K)]
JudgeAdia(st, o, E) ==
  IF o.err # "" THEN "raises " \o o.err ELSE
  LET w == Lim(st, E, EntMat(E, st.P), EntMat(E, st.Y))
      bad == {x \in {"Y", "A", "B", "F", "G", "N", "S", "L", "H"} : Diff(IF x \in {"F", "G", "N", "S", "L"} THEN TM(E, o[x]) ELSE Tree(E, o[x]), w[x])}
  IN IF bad = {} THEN "ok" ELSE "limit " \o (CHOOSE x \in bad : TRUE)
JudgeFast(st, o, E) ==
  IF o.err # "" THEN "raises " \o o.err ELSE
  LET P1 == WordMat(E, <<-4, 4>>)  P0 == MatSub(OneM(4), P1)
      vv == V(E, st.v)  y == FAdd(FNeg(FMul(FH, FMul(vv, FConj(vv)))), FMul(FIm, FMul(FInt(2), V(E, st.d))))
      w == Lim(st, E, P0, MatScale(FInvP(y), P1))
      PP == Kron(st.n, P0)
      s == TM(E, o.S)  lv == TM(E, o.L)  h == Tree(E, o.H)
  IN IF s # <<>> /\ MatMul(PP, s) # w.S THEN "limit S" ELSE IF lv # <<>> /\ MatMul(PP, lv) # w.L THEN "limit L"
     ELSE IF h # <<>> /\ MatMul(P0, h) # w.H THEN "limit H" ELSE "ok"
MBads(p) == LET st == p.steps[1]  o == p.res[1]  E == EnvOfP(p, Mix(p.id, 5))
                c == IF st.op = "abcd" THEN JudgeLin(st, o, E) ELSE IF st.op = "adia" THEN JudgeAdia(st, o, E) ELSE JudgeFast(st, o, E) IN
            IF c = "ok" THEN {} ELSE {[k |-> 1, c |-> c]}
MObs(p) == 1
=============================================================================
