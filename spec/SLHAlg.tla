-------------------------------- MODULE SLHAlg -------------------------------
(* Models of quantum networks: scattering matrix, coupling vector, Hamiltonian. *)
(* Entries are operators on a d-dimensional space, so that S is an (nd x nd)    *)
(* matrix over GF(p^2), L is (nd x d) and H is (d x d).                          *)
EXTENDS QMatPrim
NoM == [n |-> -1]
IsNoM(v) == v.n = -1
ZeroM(r, c) == [i \in 1..r |-> [j \in 1..c |-> F0]]
OneM(r) == [i \in 1..r |-> [j \in 1..r |-> IF i = j THEN F1 ELSE F0]]
MatDag(A) == MatConj(MatTrans(A))
MatSub(A, B) == MatAdd(A, MatScale(FNeg(F1), B))
\* (X - X^dagger) / (2 i)
ImPart(X) == MatScale(FInvP(<<0, 2>>), MatSub(X, MatDag(X)))
\* rows and columns of a block matrix; ks: sequence of channels (from 1)
RECURSIVE Idx(_, _)
Idx(ks, d) == IF ks = <<>> THEN <<>> ELSE [a \in 1..d |-> (ks[1] - 1) * d + a] \o Idx(Tail(ks), d)
SubM(A, rs, cs) == LET s == rs  t == cs IN [i \in 1..Len(s) |-> [j \in 1..Len(t) |-> A[s[i]][t[j]]]]
All(d) == [a \in 1..d |-> a]
Chan(n) == [k \in 1..n |-> k]
Except(n, k) == [j \in 1..n - 1 |-> IF j < k THEN j ELSE j + 1]
CZero(d) == [n |-> 0, S |-> <<>>, L |-> <<>>, H |-> ZeroM(d, d)]
CPass(n, d) == IF n = 0 THEN CZero(d) ELSE [n |-> n, S |-> OneM(n * d), L |-> ZeroM(n * d, d), H |-> ZeroM(d, d)]
\* input channel j is scattered to output channel p[j]  (p: images from 0)
CPerm(p, d) == LET n == Len(p) IN
   [n |-> n, S |-> [r \in 1..n * d |-> [c \in 1..n * d |-> IF p[(c - 1) \div d + 1] = (r - 1) \div d /\ (r - 1) % d = (c - 1) % d THEN F1 ELSE F0]],
    L |-> ZeroM(n * d, d), H |-> ZeroM(d, d)]
\* a after b
Series(a, b) == IF IsNoM(a) \/ IsNoM(b) THEN NoM
  ELSE IF a.n = 0 THEN [a EXCEPT !.H = MatAdd(a.H, b.H)]
  ELSE LET SL == MatMul(a.S, b.L) IN
       [n |-> a.n, S |-> MatMul(a.S, b.S), L |-> MatAdd(a.L, SL), H |-> MatAdd(MatAdd(a.H, b.H), ImPart(MatMul(MatDag(a.L), SL)))]
Concat(a, b) == IF IsNoM(a) \/ IsNoM(b) THEN NoM
  ELSE LET x == Len(a.S)  y == Len(b.S) IN
       [n |-> a.n + b.n,
        S |-> TLCEval([r \in 1..x + y |-> [c \in 1..x + y |-> IF r <= x /\ c <= x THEN a.S[r][c] ELSE IF r > x /\ c > x THEN b.S[r - x][c - x] ELSE F0]]),
        L |-> a.L \o b.L, H |-> MatAdd(a.H, b.H)]
InvOf(a) == IF IsNoM(a) \/ a.n = 0 THEN (IF IsNoM(a) THEN a ELSE [a EXCEPT !.H = MatScale(FNeg(F1), @)])
  ELSE LET D == MatDag(a.S) IN [n |-> a.n, S |-> D, L |-> MatScale(FNeg(F1), MatMul(D, a.L)), H |-> MatScale(FNeg(F1), a.H)]
\* output o is connected to input i (from 0)
Feed(a, o, i) == IF IsNoM(a) THEN NoM
  ELSE LET d == Len(a.H)  n == a.n
           co == Idx(<<o + 1>>, d)  ci == Idx(<<i + 1>>, d)  ro == Idx(Except(n, o + 1), d)  ri == Idx(Except(n, i + 1), d)  al == Idx(Chan(n), d)
           W == MatInv(MatSub(OneM(d), SubM(a.S, co, ci)))
       IN IF W = <<>> THEN NoM
          ELSE LET Lo == MatMul(W, SubM(a.L, co, All(d)))
                   H == MatAdd(a.H, ImPart(MatMul(MatDag(a.L), MatMul(SubM(a.S, al, ci), Lo))))
               IN IF n = 1 THEN [n |-> 0, S |-> <<>>, L |-> <<>>, H |-> H]
                  ELSE [n |-> n - 1,
                        S |-> MatAdd(SubM(a.S, ro, ri), MatMul(MatMul(SubM(a.S, ro, ci), W), SubM(a.S, co, ri))),
                        L |-> MatAdd(SubM(a.L, ro, All(d)), MatMul(SubM(a.S, ro, ci), Lo)), H |-> H]
\* an arbitrary model: S is unitary (Cayley transform of a hermitian matrix)
Herm(h, n) == LET M == HashMat(h, n, n) IN MatAdd(M, MatDag(M))
Model(h, n, d) ==
  LET K == MatScale(FIm, Herm(Mix(h, 11), n * d))
      W == MatInv(MatAdd(OneM(n * d), K))
  IN [n |-> n, S |-> IF W = <<>> THEN OneM(n * d) ELSE MatMul(W, MatSub(OneM(n * d), K)), L |-> HashMat(Mix(h, 12), n * d, d), H |-> Herm(Mix(h, 13), d)]
Unitary(a) == a.n = 0 \/ MatMul(a.S, MatDag(a.S)) = OneM(Len(a.S))
RECURSIVE SeriesAll(_)
SeriesAll(s) == IF Len(s) = 1 THEN s[1] ELSE Series(s[1], SeriesAll(Tail(s)))
RECURSIVE ConcatAll(_, _)
ConcatAll(s, d) == IF s = <<>> THEN CZero(d) ELSE IF Len(s) = 1 THEN s[1] ELSE Concat(s[1], ConcatAll(Tail(s), d))
Same(a, b) == IF IsNoM(a) \/ IsNoM(b) THEN TRUE ELSE a = b
=============================================================================
