------------------------------ MODULE QMatPrim ------------------------------
(* Dense matrices over GF(p^2): sequences of rows of pairs <<re, im>>.         *)
(* These definitions are the meaning.  java/tlc2/module/QMatPrim.java is an    *)
(* optional TLC module override computing the same functions faster; the       *)
(* spec PrimTest checks at setup that both agree.                              *)
EXTENDS QField, SequencesExt
LOCAL Force2(m) == TLCEval([i \in DOMAIN m |-> TLCEval(m[i])])

RECURSIVE PDot(_, _, _, _, _)
PDot(A, B, i, j, k) ==
  IF k = 0 THEN F0
  ELSE FAdd(PDot(A, B, i, j, k - 1), FMul(A[i][k], B[k][j]))
MatMul(A, B) ==
  Force2([i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |-> PDot(A, B, i, j, Len(B))]])
MatAdd(A, B) ==
  Force2([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> FAdd(A[i][j], B[i][j])]])
MatScale(c, A) ==
  Force2([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> FMul(c, A[i][j])]])
MatConj(A) ==
  Force2([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> FConj(A[i][j])]])
MatTrans(A) ==
  Force2([j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])

(* mixed radix: dims is a sequence, the first digit is the most significant.   *)
RECURSIVE Prod(_, _)
Prod(s, k) == IF k = 0 THEN 1 ELSE s[k] * Prod(s, k - 1)
Size(dims) == Prod(dims, Len(dims))
RECURSIVE DigitsAux(_, _, _)
DigitsAux(n, dims, k) ==
  IF k = 0 THEN <<>>
  ELSE Append(DigitsAux(n \div dims[k], dims, k - 1), n % dims[k])
Digits(n, dims) == DigitsAux(n, dims, Len(dims))      \* n from 0
RECURSIVE NumAux(_, _, _)
NumAux(ds, dims, k) == IF k = 0 THEN 0 ELSE NumAux(ds, dims, k - 1) * dims[k] + ds[k]
Num(ds, dims) == NumAux(ds, dims, Len(dims))
Sel(s, pos) == [k \in 1..Len(pos) |-> s[pos[k]]]

(* Tensor m with the identity on new wires.  od, id: dimensions of all output  *)
(* and input wires of the result; os, is: the positions therein of the wires   *)
(* of m, in m's order; on, in_: positions of the new wires (matching order).   *)
EmbedM(m, od, id, os, is, on, in_) ==
  Force2([r \in 1..Size(od) |-> [c \in 1..Size(id) |->
     LET rd == Digits(r - 1, od)
         cd == Digits(c - 1, id)
     IN IF Sel(rd, on) # Sel(cd, in_) THEN F0
        ELSE m[Num(Sel(rd, os), Sel(od, os)) + 1][Num(Sel(cd, is), Sel(id, is)) + 1]]])

(* Sum of the entries whose digits at positions ow (rows) and iw (columns)     *)
(* agree, keeping the digits at positions ok and ik.                           *)
RECURSIVE TSum(_, _, _, _, _, _, _, _, _, _)
TSum(m, od, id, ok, ik, ow, iw, r, c, x) ==
  IF x < 0 THEN F0
  ELSE LET full(dims, kp, wp, kd, wd) ==
             Num([k \in 1..Len(dims) |->
                  IF \E a \in 1..Len(kp) : kp[a] = k
                  THEN kd[CHOOSE a \in 1..Len(kp) : kp[a] = k]
                  ELSE wd[CHOOSE a \in 1..Len(wp) : wp[a] = k]], dims)
           wdig == Digits(x, Sel(od, ow))
       IN FAdd(TSum(m, od, id, ok, ik, ow, iw, r, c, x - 1),
               m[full(od, ok, ow, Digits(r, Sel(od, ok)), wdig) + 1]
                [full(id, ik, iw, Digits(c, Sel(id, ik)), wdig) + 1])
PTraceM(m, od, id, ok, ik, ow, iw) ==
  Force2([r \in 1..Size(Sel(od, ok)) |-> [c \in 1..Size(Sel(id, ik)) |->
     TSum(m, od, id, ok, ik, ow, iw, r - 1, c - 1, Size(Sel(od, ow)) - 1)]])

(* Rearrange the digits: entry of the result at row digits r and column digits *)
(* c (dims od and id) is the entry of m at the digits given by src, where the  *)
(* digit sources are numbered: k <= Len(od) is row digit k, Len(od)+k is       *)
(* column digit k; rs, cs: sources of m's row and column digits.               *)
PermuteM(m, od, id, rs, cs) ==
  Force2([r \in 1..Size(od) |-> [c \in 1..Size(id) |->
     LET all == Digits(r - 1, od) \o Digits(c - 1, id)
         ad  == od \o id
     IN m[Num(Sel(all, rs), Sel(ad, rs)) + 1][Num(Sel(all, cs), Sel(ad, cs)) + 1]]])

(* m has digits below ob, ib; extend it by zeros to dimensions od, id.          *)
PlaceM(m, od, id, ob, ib) ==
  Force2([r \in 1..Size(od) |-> [c \in 1..Size(id) |->
     LET rd == Digits(r - 1, od)
         cd == Digits(c - 1, id)
     IN IF (\E k \in 1..Len(od) : rd[k] >= ob[k]) \/ (\E k \in 1..Len(id) : cd[k] >= ib[k])
        THEN F0 ELSE m[Num(rd, ob) + 1][Num(cd, ib) + 1]]])

(* Equality on the entries whose digits are below the given bounds.            *)
EqBelow(A, B, od, id, ob, ib) ==
  \A r \in 1..Len(A) : \A c \in 1..Len(A[1]) :
     \/ A[r][c] = B[r][c]
     \/ \E k \in 1..Len(od) : Digits(r - 1, od)[k] >= ob[k]
     \/ \E k \in 1..Len(id) : Digits(c - 1, id)[k] >= ib[k]
IsZeroM(A) == \A r \in 1..Len(A) : \A c \in 1..Len(A[1]) : A[r][c] = F0

(* Inverse by Gauss-Jordan elimination; <<>> when singular.                    *)
RECURSIVE GJ(_, _)
GJ(M, k) ==
  IF k > Len(M) THEN M
  ELSE LET n == Len(M)
           piv == {r \in k..n : M[r][k] # F0}
       IN IF piv = {} THEN <<>>
          ELSE LET r0 == CHOOSE r \in piv : \A q \in piv : r <= q
                   S  == [M EXCEPT ![k] = M[r0], ![r0] = M[k]]
                   pi == FInv(S[k][k])
                   N  == [S EXCEPT ![k] = [j \in DOMAIN S[k] |-> FMul(pi, S[k][j])]]
                   R  == Force2([r \in 1..n |->
                          IF r = k THEN N[k]
                          ELSE [j \in DOMAIN N[r] |->
                                 FSub(N[r][j], FMul(N[r][k], N[k][j]))]])
               IN GJ(R, k + 1)
MatInv(A) ==
  LET n == Len(A)
      W == Force2([r \in 1..n |-> [c \in 1..2 * n |->
             IF c <= n THEN A[r][c] ELSE IF c - n = r THEN F1 ELSE F0]])
      R == GJ(W, 1)
  IN IF R = <<>> THEN <<>>
     ELSE Force2([r \in 1..n |-> [c \in 1..n |-> R[r][n + c]]])
(* Field operations that are recursive and therefore overridden as well.       *)
FInvP(a) == FInv(a)
FPowP(a, n) == FPow(a, n)
(* The pseudo-random number that stands for entry (a, b) of the symbol h.      *)
Mix(h, x) == ((((h * 31 + x) % P) * (((h + 17 * x) % P) + 1)) + 7) % P
RECURSIVE MixSeq(_, _, _)
MixSeq(h, s, k) == IF k > Len(s) THEN h ELSE MixSeq(Mix(h, s[k]), s, k + 1)
MixS(h, s) == MixSeq(h, s, 1)
HashPair(h) == LET x == Mix(Mix(h, 101), 7) IN <<x, Mix(x, Mix(h, 5))>>
HashMat(h, n, m) ==
  Force2([r \in 1..n |-> [c \in 1..m |-> HashPair(Mix(Mix(h, r), 1000 + c))]])

(*--- jets ------------------------------------------------------------------*)
MonoAll == << <<0,0>>, <<1,0>>, <<0,1>>, <<2,0>>, <<1,1>>, <<0,2>>,
              <<3,0>>, <<2,1>>, <<1,2>>, <<0,3>>,
              <<4,0>>, <<3,1>>, <<2,2>>, <<1,3>>, <<0,4>>,
              <<5,0>>, <<4,1>>, <<3,2>>, <<2,3>>, <<1,4>>, <<0,5>> >>
MonoIdx(i, j) == LET d == i + j IN (d * (d + 1)) \div 2 + j + 1
NM(d) == ((d + 1) * (d + 2)) \div 2            \* number of monomials up to order d
OrdOf(len) == CHOOSE d \in 0..5 : NM(d) = len
\* the pairs of monomials whose product is the k-th one
MulPairs == TLCEval([k \in 1..21 |->
   TLCEval(SetToSeq({ <<MonoIdx(a, b), MonoIdx(MonoAll[k][1] - a, MonoAll[k][2] - b)>> :
             <<a, b>> \in (0..MonoAll[k][1]) \X (0..MonoAll[k][2]) }))])
Min2(a, b) == IF a < b THEN a ELSE b

(*--- scalar jets: sequences of field elements; <<>> is undefined ------------*)
SUndef == <<>>
SConst(f, d) == [k \in 1..NM(d) |-> IF k = 1 THEN f ELSE F0]
SInt(n, d) == SConst(FInt(n), d)
SIsZero(a) == \A k \in 1..Len(a) : a[k] = F0
SAdd(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE
              TLCEval([k \in 1..Min2(Len(a), Len(b)) |-> FAdd(a[k], b[k])])
SNeg(a) == TLCEval([k \in 1..Len(a) |-> FNeg(a[k])])
SScale(f, a) == TLCEval([k \in 1..Len(a) |-> FMul(f, a[k])])
RECURSIVE SSumPairs(_, _, _, _)
SSumPairs(a, b, ps, n) == IF n = 0 THEN F0 ELSE
   FAdd(SSumPairs(a, b, ps, n - 1), FMul(a[ps[n][1]], b[ps[n][2]]))
SMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE
   IF Len(a) = 1 \/ Len(b) = 1 THEN << FMul(a[1], b[1]) >> ELSE
   TLCEval([k \in 1..Min2(Len(a), Len(b)) |-> SSumPairs(a, b, MulPairs[k], Len(MulPairs[k]))])
SConj(a) == TLCEval([k \in 1..Len(a) |-> FConj(a[k])])
SNil(a) == [a EXCEPT ![1] = F0]
\* sum_k cs[k+1] * delta^k by Horner's scheme
RECURSIVE SHorner(_, _, _)
SHorner(cs, delta, k) ==
   IF k = Len(cs) THEN [n \in 1..Len(delta) |-> IF n = 1 THEN cs[k] ELSE F0]
   ELSE SAdd([n \in 1..Len(delta) |-> IF n = 1 THEN cs[k] ELSE F0],
             SMul(delta, SHorner(cs, delta, k + 1)))
SApply(cs, a) == IF Len(a) = 1 THEN <<cs[1]>> ELSE SHorner(cs, SNil(a), 1)
SInv(a) == IF a = <<>> THEN <<>> ELSE IF a[1] = F0 THEN <<>> ELSE
   LET d == OrdOf(Len(a))  g == FInvP(a[1])
   IN SApply([k \in 1..d + 1 |-> IF k % 2 = 1 THEN FPowP(g, k) ELSE FNeg(FPowP(g, k))], a)
RECURSIVE SPowN(_, _)
SPowN(a, n) == IF n = 0 THEN [k \in 1..Len(a) |-> IF k = 1 THEN F1 ELSE F0]
               ELSE IF n = 1 THEN a
               ELSE LET h == SPowN(SMul(a, a), n \div 2) IN
                    IF n % 2 = 1 THEN SMul(a, h) ELSE h
SPow(a, n) == IF a = <<>> THEN <<>> ELSE
              IF Len(a) = 1 /\ n >= 0 THEN <<FPowP(a[1], n)>> ELSE
              IF n >= 0 THEN SPowN(a, n) ELSE LET b == SInv(a) IN IF b = <<>> THEN <<>> ELSE SPowN(b, -n)
\* the square root whose real part is a quadratic residue ("positive"):
\* compatible with conjugation and with positive factors, like the principal one
FSqrtDef(z) == IsQR(z[1] * z[1] + z[2] * z[2])
FSqrt(z) ==
  IF z[2] = 0 THEN FSqrtReal(z[1])
  ELSE LET r == ZSqrt(z[1] * z[1] + z[2] * z[2])
           h == ZInv(2)
           a == (((r + z[1]) % P) * h) % P
           u == IF IsQR(a) THEN <<ZSqrt(a), (((z[2] * h) % P) * ZInv(ZSqrt(a))) % P>>
                ELSE LET w == ZSqrt((-a) % P)       \* root = i w + z2 / (2 w)
                     IN <<(((z[2] * h) % P) * ZInv(w)) % P, w>>
       IN IF IsQR(u[1]) THEN u ELSE FNeg(u)
\* binomial(1/2, k)
RECURSIVE ZBinHalf(_)
ZBinHalf(k) == IF k = 0 THEN 1
   ELSE (((ZBinHalf(k - 1) * ((((3 - 2 * k) % P) * ZInv(2)) % P)) % P) * ZInv(k)) % P
SSqrt(a) == IF a = <<>> THEN <<>> ELSE
   IF SIsZero(a) THEN a ELSE
   IF a[1] = F0 \/ ~FSqrtDef(a[1]) THEN <<>> ELSE
   LET d == OrdOf(Len(a))  r == FSqrt(a[1])
       r2 == IF FMul(r, r) = a[1] THEN r ELSE F0
   IN IF r2 = F0 THEN <<>> ELSE
      SApply([k \in 1..d + 1 |-> FMul(<<ZBinHalf(k - 1), 0>>, FMul(r, FPowP(a[1], 1 - k)))], a)
RECURSIVE ZFact(_)
ZFact(n) == IF n <= 1 THEN 1 ELSE (n * ZFact(n - 1)) % P
\* exp of the jet a, when e0 stands for the exponential of its constant term
SExpWith(e0, a) == IF a = <<>> THEN <<>> ELSE
   SApply([k \in 1..OrdOf(Len(a)) + 1 |-> FMul(e0, <<ZInv(ZFact(k - 1)), 0>>)], a)
\* n-th derivative by parameter p of a jet: loses n orders
SDiffCoef(k, p, n) ==   \* <<source index, factor>>
   LET m == MonoAll[k]
       f == IF p = 1 THEN (ZFact(m[1] + n) * ZInv(ZFact(m[1]))) % P
                     ELSE (ZFact(m[2] + n) * ZInv(ZFact(m[2]))) % P
   IN << IF p = 1 THEN MonoIdx(m[1] + n, m[2]) ELSE MonoIdx(m[1], m[2] + n), <<f, 0>> >>
SDiff(a, p, n) == IF a = <<>> THEN <<>> ELSE
   TLCEval([k \in 1..NM(OrdOf(Len(a)) - n) |->
      LET c == SDiffCoef(k, p, n) IN FMul(c[2], a[c[1]])])

RECURSIVE MSumPairs(_, _, _, _)
MSumPairs(a, b, ps, n) ==
   IF n = 1 THEN MatMul(a[ps[1][1]], b[ps[1][2]])
   ELSE MatAdd(MSumPairs(a, b, ps, n - 1), MatMul(a[ps[n][1]], b[ps[n][2]]))
JMul(a, b) ==
   IF Len(a) = 1 \/ Len(b) = 1 THEN << MatMul(a[1], b[1]) >> ELSE
   TLCEval([k \in 1..Min2(Len(a), Len(b)) |-> MSumPairs(a, b, MulPairs[k], Len(MulPairs[k]))])

\* sum_n cs[n] * ms[n]: scalar jets times constant matrices
RECURSIVE JCombAt(_, _, _, _)
JCombAt(cs, ms, k, n) == IF n = 1 THEN MatScale(cs[1][k], ms[1])
   ELSE MatAdd(JCombAt(cs, ms, k, n - 1), MatScale(cs[n][k], ms[n]))
JComb(cs, ms) == TLCEval([k \in 1..Len(cs[1]) |-> JCombAt(cs, ms, k, Len(cs))])
=============================================================================
