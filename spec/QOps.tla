-------------------------------- MODULE QOps --------------------------------
(* The algebra API as operations on registers: static typing (which calls are  *)
(* well-formed, and what kind of object on which degrees of freedom results)   *)
(* and meaning (which value results).  A register is described by              *)
(*   [ty, sp, sz, ld]: type S(calar) O(perator) K(et) B(ra) P(super-operator); *)
(*   degrees of freedom; a bound on the size; number of ladder operators.      *)
(* A step is a record [op, r (register numbers), ...parameters].               *)
EXTENDS QEval

(*--- the degrees of freedom a program can use --------------------------------*)
(* number -> [kind, dim, labels, spin]; kind f: infinite Fock space            *)
SpaceTab == <<
  [k |-> "n", d |-> 2, lb |-> <<"0", "1">>, s2 |-> 0],              \* 1  LocalSpace("a", dimension=2)
  [k |-> "n", d |-> 2, lb |-> <<"0", "1">>, s2 |-> 0],              \* 2  LocalSpace("b", dimension=2)
  [k |-> "n", d |-> 2, lb |-> <<"g", "e">>, s2 |-> 0],              \* 3  LocalSpace("q", basis=("g","e"))
  [k |-> "f", d |-> 0, lb |-> <<>>, s2 |-> 0],                      \* 4  LocalSpace(0)
  [k |-> "f", d |-> 0, lb |-> <<>>, s2 |-> 0],                      \* 5  LocalSpace(1)
  [k |-> "s", d |-> 2, lb |-> <<"-1/2", "+1/2">>, s2 |-> 1],        \* 6  SpinSpace("s", spin="1/2")
  [k |-> "s", d |-> 3, lb |-> <<"-1", "0", "+1">>, s2 |-> 2],       \* 7  SpinSpace("z", spin=1)
  [k |-> "n", d |-> 3, lb |-> <<"0", "1", "2">>, s2 |-> 0],         \* 8  LocalSpace("c", dimension=3)
  [k |-> "n", d |-> 2, lb |-> <<"0", "1">>, s2 |-> 0],              \* 9  LocalSpace("10", dimension=2)
  [k |-> "n", d |-> 2, lb |-> <<"0", "1">>, s2 |-> 0],              \* 10 LocalSpace("w", dimension=2, order_index=1)
  [k |-> "f", d |-> 0, lb |-> <<>>, s2 |-> 0],                      \* 11 LocalSpace("f", order_index=2)
  [k |-> "s", d |-> 4, lb |-> <<"-3/2", "-1/2", "+1/2", "+3/2">>, s2 |-> 3], \* 12 SpinSpace("u", spin="3/2")
  [k |-> "n", d |-> 3, lb |-> <<"g", "e", "r">>, s2 |-> 0] >>       \* 13 LocalSpace("v", basis=("g","e","r"))
NSpaces == Len(SpaceTab)
\* levels on which the symbols of an infinite space act and results are compared
FockLevels == 3
EnvFor(ladders, ord, val, sy, pr) ==
  [D |-> TLCEval([k \in 1..NSpaces |-> IF SpaceTab[k].k = "f" THEN (IF ladders = 0 THEN FockLevels ELSE FockLevels + ladders + 1) ELSE SpaceTab[k].d]),
   B |-> TLCEval([k \in 1..NSpaces |-> IF SpaceTab[k].k = "f" THEN FockLevels ELSE SpaceTab[k].d]),
   C |-> TLCEval([k \in 1..NSpaces |-> IF SpaceTab[k].k = "f" THEN FockLevels ELSE SpaceTab[k].d]),
   lb |-> TLCEval([k \in 1..NSpaces |-> SpaceTab[k].lb]),
   sp |-> TLCEval([k \in 1..NSpaces |-> SpaceTab[k].s2]),
   sy |-> sy, val |-> val, ord |-> ord, pr |-> pr, sub |-> <<>>, base |-> <<>>, ix |-> <<>>,
   esub |-> <<>>, hsub |-> <<>>]

(*--- static semantics ----------------------------------------------------------*)
NoType == [ty |-> "X", sp |-> {}, sz |-> 0, ld |-> 0]
Desc(ty, sp, sz, ld) == [ty |-> ty, sp |-> sp, sz |-> sz, ld |-> ld]
\* the kind of the result of the python operator *, "X" when the call is rejected
MulType(a, b) ==
  LET p == a.ty \o b.ty
      ov == a.sp \cap b.sp # {}
  IN CASE a.ty = "S" -> b.ty
       [] b.ty = "S" -> a.ty
       [] p = "OO" -> "O"
       [] p = "OK" -> IF a.sp \subseteq b.sp THEN "K" ELSE "X"
       [] p = "BO" -> IF b.sp \subseteq a.sp THEN "B" ELSE "X"
       [] p = "KK" -> IF ov THEN "X" ELSE "K"
       [] p = "BB" -> IF ov THEN "X" ELSE "B"
       [] p = "BK" -> IF a.sp = b.sp THEN "S" ELSE "X"
       [] p = "KB" -> IF a.sp = b.sp THEN "O" ELSE "X"
       [] p = "PO" -> "O"
       [] p = "PP" -> "P"
       [] OTHER -> "X"
AddType(a, b) ==
  LET p == a.ty \o b.ty IN
  CASE p \in {"SS", "OO", "PP"} -> a.ty
    [] p \in {"KK", "BB"} -> IF a.sp = b.sp THEN a.ty ELSE "X"
    [] p \in {"OS", "SO"} -> "O"
    [] p \in {"PS", "SP"} -> "P"
    [] OTHER -> "X"
SpMul(ty, a, b) == IF ty = "S" THEN {} ELSE a.sp \cup b.sp
\* descriptor of the result of a step applied to registers with descriptors ds
Typ(st, ds) ==
  LET a == IF Len(ds) >= 1 THEN ds[1] ELSE NoType
      b == IF Len(ds) >= 2 THEN ds[2] ELSE NoType
      o == st.op
  IN CASE o = "leaf" -> Desc(st.ty, {st.hs[k] : k \in 1..Len(st.hs)}, 1, st.ld)
       [] o \in {"mul"} -> LET t == MulType(a, b) IN Desc(t, SpMul(t, a, b), a.sz * b.sz + 1, a.ld + b.ld)
       [] o \in {"add", "sub"} -> Desc(AddType(a, b), a.sp \cup b.sp, a.sz + b.sz, IF a.ld > b.ld THEN a.ld ELSE b.ld)
       [] o = "div" -> Desc(IF b.ty = "S" THEN a.ty ELSE "X", a.sp, a.sz + b.sz, a.ld)
       [] o = "neg" -> a
       [] o = "pow" -> Desc(IF (a.ty \in {"O", "P"} /\ st.n >= 0) \/ a.ty = "S" THEN a.ty ELSE "X", a.sp,
                            IF Abs_(st.n) = 3 THEN a.sz * a.sz * a.sz ELSE IF Abs_(st.n) = 2 THEN a.sz * a.sz ELSE a.sz, a.ld * Abs_(st.n))
       [] o = "dag" -> [a EXCEPT !.ty = CASE a.ty = "K" -> "B" [] a.ty = "B" -> "K" [] OTHER -> a.ty]
       [] o = "commutator" -> Desc(IF a.ty = "O" /\ b.ty = "O" THEN "O" ELSE "X", a.sp \cup b.sp, 2 * a.sz * b.sz, a.ld + b.ld)
       [] o = "trace" -> Desc(IF a.ty = "O" THEN "O" ELSE "X", a.sp \ {st.over[k] : k \in 1..Len(st.over)}, a.sz + 1, a.ld)
       [] o \in {"spre", "spost"} -> Desc(IF a.ty = "O" THEN "P" ELSE "X", a.sp, a.sz + 1, a.ld)
       [] o \in {"scomm", "santi"} -> Desc(IF a.ty = "O" THEN "P" ELSE "X", a.sp, 2 * a.sz, a.ld)
       [] o = "lindblad" -> Desc(IF a.ty = "O" THEN "P" ELSE "X", a.sp, 3 * a.sz * a.sz, 2 * a.ld)
       [] o = "liouv" -> Desc(IF \A k \in 1..Len(ds) : ds[k].ty = "O" THEN "P" ELSE "X",
                              UNION {ds[k].sp : k \in 1..Len(ds)},
                              2 * a.sz + 3 * FoldLeft(LAMBDA acc, d : acc + d.sz * d.sz, 0, Tail(ds)),
                              FoldLeft(LAMBDA acc, d : IF 2 * d.ld > acc THEN 2 * d.ld ELSE acc, 0, ds))
       [] o = "nsum" -> Desc(IF Cardinality({ds[k].ty : k \in 1..Len(ds)}) = 1 /\
                                 (a.ty \in {"O", "P", "S"} \/ (a.ty = "K" /\ Cardinality({ds[k].sp : k \in 1..Len(ds)}) = 1)) THEN a.ty ELSE "X",
                             UNION {ds[k].sp : k \in 1..Len(ds)}, FoldLeft(LAMBDA acc, d : acc + d.sz, 0, ds),
                             FoldLeft(LAMBDA acc, d : IF d.ld > acc THEN d.ld ELSE acc, 0, ds))
       [] o = "nprod" -> Desc(IF Cardinality({ds[k].ty : k \in 1..Len(ds)}) = 1 /\
                                 (a.ty \in {"O", "P", "S"} \/ (a.ty = "K" /\ \A i, j \in 1..Len(ds) : i # j => ds[i].sp \cap ds[j].sp = {})) THEN a.ty ELSE "X",
                             UNION {ds[k].sp : k \in 1..Len(ds)}, FoldLeft(LAMBDA acc, d : IF acc > 10000 THEN acc ELSE acc * d.sz + 1, 1, ds),
                             FoldLeft(LAMBDA acc, d : acc + d.ld, 0, ds))
       [] o \in {"expand", "simp", "rebuild", "doit", "leibniz", "pmcc", "basis", "coeffs", "simplify", "doit1", "doiti"} -> [a EXCEPT !.sz = 2 * a.sz]
       [] o \in {"diff"} -> [a EXCEPT !.sz = 3 * a.sz]
       [] o = "series" -> Desc("T", a.sp, a.sz, a.ld)      \* a tuple of coefficients
       [] o = "subs" -> LET hm == {st.m[k] : k \in {j \in 1..Len(st.m) : st.m[j].k = "h"}}
                            img(q) == IF \E e \in hm : e.a = q THEN (CHOOSE e \in hm : e.a = q).b ELSE q
                            es == IF Len(ds) > 1 THEN ds[2].sp ELSE {}
                        IN Desc(a.ty, {img(q) : q \in a.sp}, 2 * a.sz * (IF Len(ds) > 1 THEN ds[2].sz ELSE 1),
                                a.ld + (IF Len(ds) > 1 THEN 2 * ds[2].ld ELSE 0))
       [] o = "isum" -> [a EXCEPT !.sz = 3 * a.sz]
       [] o = "sqrt" -> Desc(IF a.ty = "S" THEN "S" ELSE "X", a.sp, a.sz + 1, 0)
       [] o \in {"re", "im", "cplx"} -> Desc(IF a.ty = "S" THEN "S" ELSE "X", a.sp, 2 * a.sz, 0)
       [] o \in {"eq", "ne", "lt", "le", "gt", "ge"} -> Desc(IF a.ty = "S" /\ b.ty = "S" THEN "S" ELSE "X", {}, 1, 0)
       [] o = "conj" -> Desc(IF a.ty = "S" THEN "S" ELSE "X", a.sp, a.sz, 0)
       [] o = "pmccform" -> Desc(IF a.ty = "O" THEN "O" ELSE "X", a.sp, 2 * a.sz, a.ld)
       [] OTHER -> NoType

(*--- meaning -----------------------------------------------------------------------*)
\* TRUE when all products in the step have compatible wires (always so when well-typed)
SpanT(d) == UNION {d[k].sp : k \in 1..Len(d)}
TBool(q, d) == TScal(SInt(IF q THEN 1 ELSE 0, d))
\* order of two rational numbers given as trees: -1, 0, 1, or 99 when one is not a small rational
RatOf(n) == IF HasF(n, "f") /\ n.f = "i" THEN <<n.n, 1>> ELSE IF HasF(n, "f") /\ n.f = "rat" /\ n.p.f = "i" /\ n.q.f = "i" THEN <<n.p.n, n.q.n>> ELSE <<>>
RatCmp(x, y) == LET a == RatOf(x)  b == RatOf(y) IN
  IF a = <<>> \/ b = <<>> THEN 99
  ELSE IF Abs_(a[1]) > 20000 \/ Abs_(b[1]) > 20000 \/ a[2] > 20000 \/ b[2] > 20000 THEN 99
  ELSE LET d == a[1] * b[2] - b[1] * a[2] IN IF d < 0 THEN -1 ELSE IF d > 0 THEN 1 ELSE 0
TOne(d) == TScal(SInt(1, d))
Val(st, vs, E) ==
  LET a == IF Len(vs) >= 1 THEN vs[1] ELSE Undef
      b == IF Len(vs) >= 2 THEN vs[2] ELSE Undef
      o == st.op
      D == E.D
      half == TScal(SConst(<<ZInv(2), 0>>, E.ord))
      lind(c) == LET cd == TDag(c)
                     cc == TMul(D, cd, c)
                 IN TAdd(D, TMul(D, TSPre(c), TSPost(cd)),
                         TNeg(TMul(D, half, TAdd(D, TSPre(cc), TSPost(cc)))))
  IN CASE o = "leaf" -> Eval(st.nd, E)
       [] o = "mul" -> IF IsU(a) \/ IsU(b) THEN Undef
                       ELSE IF st.app THEN TApplySuper(D, a, b) ELSE TMul(D, a, b)
       [] o = "add" -> TAdd(D, a, b)
       [] o = "sub" -> IF IsU(b) THEN Undef ELSE TAdd(D, a, TNeg(b))
       [] o = "div" -> LET s == SInv(TScalVal(b)) IN IF s = <<>> THEN Undef ELSE TMul(D, TScal(s), a)
       [] o = "neg" -> IF IsU(a) THEN a ELSE TNeg(a)
       [] o = "pow" -> IF IsU(a) THEN a
                       ELSE IF a.o = <<>> /\ a.i = <<>> THEN TScal(SPow(TScalVal(a), st.n))
                       ELSE IF st.n < 0 THEN Undef
                       ELSE TPowN(D, a, st.n, TOne(TOrd(a)))
       [] o = "dag" -> IF st.tp THEN TSuperAdj(D, a) ELSE TDag(a)
       [] o = "conj" -> TDag(a)
       [] o = "cplx" -> a
       [] o \in {"re", "im"} /\ (IF HasF(st, "ua") THEN IsU(Eval(st.ua, E)) ELSE FALSE) -> Undef   \* roots of sums
       [] o = "re" -> IF IsU(a) THEN a ELSE TMul(D, half, TAdd(D, a, TDag(a)))
       [] o = "im" -> IF IsU(a) THEN a ELSE TScale(FNeg(FIm), TMul(D, half, TAdd(D, a, TNeg(TDag(a)))))
       \* comparisons of numbers (1: true, 0: false)
       [] o = "eq" -> IF IsU(a) \/ IsU(b) THEN Undef ELSE TBool(TEq(D, E.C, a, b), TOrd(a))
       [] o = "ne" -> IF IsU(a) \/ IsU(b) THEN Undef ELSE TBool(~TEq(D, E.C, a, b), TOrd(a))
       [] o \in {"lt", "le", "gt", "ge"} ->
            LET c == RatCmp(st.ra, st.rb) IN
            IF c = 99 THEN Undef
            ELSE TBool(CASE o = "lt" -> c < 0 [] o = "le" -> c <= 0 [] o = "gt" -> c > 0 [] OTHER -> c >= 0, E.ord)
       [] o = "sqrt" -> LET s == SSqrt(TScalVal(a)) IN IF s = <<>> THEN Undef ELSE TScal(s)
       [] o = "commutator" -> TAdd(D, TMul(D, a, b), TScale(FNeg(F1), TMul(D, b, a)))
       [] o = "trace" -> TTrace(D, a, {2 * st.over[k] : k \in 1..Len(st.over)})
       [] o = "spre" -> TSPre(a)
       [] o = "spost" -> TSPost(a)
       [] o = "scomm" -> IF IsU(a) THEN a ELSE TAdd(D, TSPre(a), TNeg(TSPost(a)))
       [] o = "santi" -> TAdd(D, TSPre(a), TSPost(a))
       [] o = "lindblad" -> IF IsU(a) THEN a ELSE lind(a)
       [] o = "liouv" -> IF \E k \in 1..Len(vs) : IsU(vs[k]) THEN Undef
                         ELSE LET h == TScale(FNeg(FIm), TAdd(D, TSPre(a), TNeg(TSPost(a)))) IN
                              FoldLeft(LAMBDA acc, c : TAdd(D, acc, lind(c)), h, Tail(vs))
       [] o = "nsum" -> TSumSeq(D, vs, Len(vs))
       [] o = "nprod" -> TProdSeq(D, vs, Len(vs))
       [] o = "pmccform" -> IF IsU(a) THEN a ELSE TAdd(D, a, IF st.n > 0 THEN TDag(a) ELSE TNeg(TDag(a)))
       [] o \in {"expand", "simp", "rebuild", "doit", "leibniz", "pmcc", "coeffs", "simplify", "doit1", "doiti"} -> a
       \* (expansion of an operator that is assumed to be Hermitian)
       [] o = "basis" -> IF IsU(a) THEN a ELSE IF st.n = 1 /\ ~TEq(D, E.C, a, TDag(a)) THEN Undef ELSE a
       [] o = "diff" -> IF IsU(a) THEN a
                        ELSE IF TOrd(a) < st.n THEN Undef
                        ELSE TDiff(a, st.p, st.n)
       [] OTHER -> Undef
=============================================================================
