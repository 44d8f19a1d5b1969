------------------------------- MODULE QField -------------------------------
(* The exact number system of every denotation: GF(p^2) = Z_p[i].             *)
(* p = 31391 = 7 (mod 8); 2,3,5,7,11,13 are quadratic residues, so real        *)
(* square roots of all small integers exist, i is not in Z_p, and complex      *)
(* conjugation is the field automorphism i -> -i.  All products fit into the   *)
(* 32-bit integers of TLC.                                                     *)
EXTENDS Integers, Sequences, TLC, FiniteSets
P == 31391
F0 == <<0, 0>>
F1 == <<1, 0>>
FIm == <<0, 1>>
FInt(n) == <<n % P, 0>>
FAdd(a, b) == <<(a[1] + b[1]) % P, (a[2] + b[2]) % P>>
FSub(a, b) == <<(a[1] - b[1]) % P, (a[2] - b[2]) % P>>
FNeg(a) == <<(-a[1]) % P, (-a[2]) % P>>
FMul(a, b) == <<(a[1] * b[1] - a[2] * b[2]) % P, (a[1] * b[2] + a[2] * b[1]) % P>>
FConj(a) == <<a[1], (-a[2]) % P>>
RECURSIVE ZPow(_, _)
ZPow(x, n) == IF n = 0 THEN 1
              ELSE LET h == ZPow((x * x) % P, n \div 2) IN
                   IF n % 2 = 1 THEN (x * h) % P ELSE h
ZInv(x) == ZPow(x % P, P - 2)
FInv(a) == LET n == ZInv(a[1] * a[1] + a[2] * a[2]) IN
           <<(a[1] * n) % P, ((P - a[2]) * n) % P>>
RECURSIVE FPowN(_, _)
FPowN(x, n) == IF n = 0 THEN F1
               ELSE LET h == FPowN(FMul(x, x), n \div 2) IN
                    IF n % 2 = 1 THEN FMul(x, h) ELSE h
FPow(x, n) == IF n >= 0 THEN FPowN(x, n) ELSE FPowN(FInv(x), -n)
(* principal square root of a real number: the root that is itself a residue; *)
(* multiplicative on residues; sqrt(-x) = i sqrt(x)                            *)
IsQR(x) == x % P = 0 \/ ZPow(x % P, (P - 1) \div 2) = 1
ZSqrt(x) == ZPow(x % P, (P + 1) \div 4)
FSqrtReal(x) == IF IsQR(x) THEN <<ZSqrt(x), 0>> ELSE <<0, ZSqrt((-x) % P)>>
=============================================================================
