--------------------------------- MODULE OpMat -------------------------------
(* Matrices whose entries are symbolic operators or scalars.  A register is a    *)
(* matrix; its value is the matrix of blocks that the entries denote.            *)
EXTENDS SLHNet
\* registers [r, c, sc, nw, d]: shape, scalar entries, written entries, number of operations below
OEnt(z) == LET k == RE(IF z < 0 THEN {} ELSE {0, 1, 1, 1, 2}) IN IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<RTerm(z)>> ELSE <<RTerm(z), RTerm(z)>>
SEnt(z) == LET k == RE(IF z < 0 THEN {} ELSE {0, 1, 1, 2}) IN IF k = 0 THEN <<>> ELSE IF k = 1 THEN Sc(RE(1..10)) ELSE Sc(RE(1..10)) \o Sc(RE(1..10))
New(r, c, sc) == [op |-> "new", r |-> <<>>, h |-> r, w |-> c, sc |-> sc, m |-> [i \in 1..r |-> [j \in 1..c |-> IF sc THEN SEnt(i) ELSE OEnt(i)]]]
\* block diagonal
NewB(r, sc) == LET a == RE(1..r - 1) IN [op |-> "new", r |-> <<>>, h |-> r, w |-> r, sc |-> sc,
   m |-> [i \in 1..r |-> [j \in 1..r |-> IF (i <= a) # (j <= a) THEN <<>> ELSE IF sc THEN SEnt(i) ELSE OEnt(i)]]]
OLeaf == LET k == RE(IF N < 0 THEN {} ELSE 1..10)  r == RE({1, 2, 2, 3})  c == RE({1, 2, 2, 3}) IN
  CASE k <= 5 -> New(r, c, FALSE) [] k = 6 -> New(r, c, TRUE) [] k = 7 -> IF r = 1 THEN New(1, 1, TRUE) ELSE NewB(r, RE(BOOLEAN))
    [] k = 8 -> [op |-> RE({"ident", "zeros"}), r |-> <<>>, n |-> r]
    [] k = 9 -> [op |-> "perm", r |-> <<>>, p |-> RandPerm(0..r - 1)]
    [] k = 10 -> [op |-> "diag", r |-> <<>>, v |-> [j \in 1..r |-> OEnt(j)], q |-> RE({0, 0, 1, -1})]
R(x) == g.reg[x]
Live == {x \in 1..N : R(x).r > 0}
Sm == {x \in Live : R(x).d < 4}         \* expressions do not grow without bound
\* a pair of registers, or a fresh partner of the right shape
OChoice == LET c == IF N < 2 THEN 1 ELSE RE(1..36) IN
  CASE c <= 3 -> {OLeaf}
    [] c <= 6 -> UNION {{[op |-> RE({"add", "sub"}), r |-> <<x, y>>] : y \in One({y \in Sm : R(y).r = R(x).r /\ R(y).c = R(x).c})} : x \in One(Sm)}
    [] c <= 10 -> UNION {{[op |-> "mul", r |-> <<x, y>>] : y \in One({y \in Sm : R(y).r = R(x).c \/ RE(1..12) = 1})} : x \in One(Sm)}
    [] c = 11 -> {[op |-> "neg", r |-> <<x>>] : x \in One(Live)}
    [] c <= 13 -> {[op |-> RE({"smul", "smulr", "div"}), r |-> <<x>>, c |-> RE(1..10)] : x \in One(Sm)}
    [] c <= 15 -> {[op |-> RE({"omul", "omulr"}), r |-> <<x>>, w |-> <<RE(1..NOps) * RE({-1, 1})>>] : x \in One(Sm)}
    [] c = 16 -> {[op |-> "T", r |-> <<x>>] : x \in One(Live)}
    [] c <= 18 -> {[op |-> RE({"H", "dag", "adjoint"}), r |-> <<x>>] : x \in One(Live)}
    [] c <= 20 -> {[op |-> RE({"conj", "re", "im"}), r |-> <<x>>] : x \in One({x \in Live : R(x).sc \/ RE(1..8) = 1})}
    [] c = 21 -> {[op |-> "trace", r |-> <<x>>] : x \in One({x \in Live : R(x).r = R(x).c \/ RE(1..8) = 1})}
    [] c <= 23 -> UNION {{[op |-> "hstack", r |-> <<x, y>>] : y \in One({y \in Live : R(y).r = R(x).r /\ R(y).c + R(x).c <= 4})} : x \in One(Live)}
    [] c <= 25 -> UNION {{[op |-> "vstack", r |-> <<x, y>>] : y \in One({y \in Live : R(y).c = R(x).c /\ R(y).r + R(x).r <= 4})} : x \in One(Live)}
    [] c = 26 -> UNION {UNION {{[op |-> "block", r |-> <<x, y, z, w>>] : w \in One({w \in Live : R(w).r = R(z).r /\ R(w).c = R(y).c})} :
                    z \in One({z \in Live : R(z).c = R(x).c /\ R(z).r + R(x).r <= 4})} : <<x, y>> \in UNION {{<<x, y>> : y \in One({y \in Live : R(y).r = R(x).r /\ R(y).c + R(x).c <= 4})} : x \in One(Live)}}
    [] c = 27 -> {[op |-> "get", r |-> <<x>>, i |-> RE(0..R(x).r - 1), j |-> RE(-R(x).c..R(x).c - 1)] : x \in One(Live)}
    [] c <= 29 -> {LET a == RE(0..R(x).r - 1)  b == RE(0..R(x).c - 1) IN
                   [op |-> "slice", r |-> <<x>>, i |-> a, i2 |-> RE(a + 1..R(x).r), j |-> b, j2 |-> RE(b + 1..R(x).c)] : x \in One(Live)}
    [] c = 30 -> {[op |-> "each", r |-> <<x>>, f |-> RE({"dag", "double", "square"})] : x \in One(Sm)}
    [] c <= 32 -> {[op |-> RE({"expand", "simp"}), r |-> <<x>>] : x \in One(Sm)}
    [] c = 33 -> LET s == RE({[a |-> 1, b |-> 2], [a |-> 1, b |-> 3], [a |-> 1, b |-> 5], [a |-> 1, b |-> 11], [a |-> 2, b |-> 6], [a |-> 2, b |-> 11], [a |-> 2, b |-> 9]}) IN
                 {[op |-> "subst", r |-> <<x>>, a |-> s.a, b |-> s.b] : x \in One(Live)}
    [] c = 34 -> {[op |-> "substop", r |-> <<x>>, a |-> RE({1, 2}), b |-> RE({1, 2, 4})] : x \in One({x \in Live : R(x).nw /\ ~R(x).sc})}
    [] c = 35 -> {[op |-> "series", r |-> <<x>>, s |-> RE({1, 2}), n |-> RE(0..2)] : x \in One(Sm)}
    [] c = 36 -> {[op |-> "blocks", r |-> <<x>>] : x \in One({x \in Live : R(x).r = R(x).c})}
MDesc(s) ==
  LET q(k) == R(s.r[k])
      y(r, c, sc) == [r |-> r, c |-> c, sc |-> sc, nw |-> FALSE, d |-> IF s.r = <<>> THEN 0 ELSE 1 + (IF Len(s.r) = 1 THEN q(1).d ELSE q(1).d + q(2).d)]
      none == [r |-> 0, c |-> 0, sc |-> FALSE, nw |-> FALSE, d |-> 0] IN
  CASE s.op = "new" -> [r |-> s.h, c |-> s.w, sc |-> s.sc, nw |-> TRUE, d |-> 0]
    [] s.op \in {"ident", "zeros"} -> y(s.n, s.n, TRUE) [] s.op = "perm" -> y(Len(s.p), Len(s.p), TRUE)
    [] s.op = "diag" -> LET n == Len(s.v) + (IF s.q = 0 THEN 0 ELSE 1) IN y(n, n, FALSE)
    [] s.op \in {"add", "sub"} -> y(q(1).r, q(1).c, q(1).sc /\ q(2).sc)
    [] s.op = "mul" -> IF q(1).c = q(2).r THEN y(q(1).r, q(2).c, q(1).sc /\ q(2).sc) ELSE none
    [] s.op \in {"neg", "smul", "smulr", "div", "expand", "simp", "subst", "substop"} -> y(q(1).r, q(1).c, q(1).sc)
    [] s.op \in {"each", "adjoint", "H", "dag", "T"} -> IF s.op = "each" THEN y(q(1).r, q(1).c, q(1).sc) ELSE y(q(1).c, q(1).r, q(1).sc)
    [] s.op \in {"omul", "omulr"} -> y(q(1).r, q(1).c, FALSE)
    [] s.op \in {"conj", "re", "im"} -> IF q(1).sc THEN y(q(1).r, q(1).c, TRUE) ELSE none
    [] s.op = "hstack" -> y(q(1).r, q(1).c + q(2).c, FALSE) [] s.op = "vstack" -> y(q(1).r + q(2).r, q(1).c, FALSE)
    [] s.op = "block" -> y(q(1).r + q(3).r, q(1).c + q(2).c, FALSE)
    [] s.op = "slice" -> y(s.i2 - s.i, s.j2 - s.j, q(1).sc)
    [] OTHER -> none
\* conjugates of stacked scalar matrices are not asked for
OInit == g = [prog |-> <<>>, reg |-> <<>>, fin |-> FALSE] /\ Idle
ONext == /\ \/ N < MaxLen /\ \E C \in {OChoice} : \E s \in (IF C = {} THEN {OLeaf} ELSE C) :
                 g' = [g EXCEPT !.prog = Append(@, s), !.reg = Append(@, MDesc(s))]
            \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> g.prog]) /\ g' = [g EXCEPT !.fin = TRUE]
         /\ UNCHANGED <<l, cnt>>
OSpec == OInit /\ [][ONext]_<<g, l, cnt>>
(*--- meaning ---------------------------------------------------------------------------*)
\* values [r, c, m]; scalar operations act block by block
MV(r, c, m) == [n |-> 1, r |-> r, c |-> c, m |-> m]
BlockOf(v, i, j) == SubM(v.m, Idx(<<i>>, 4), Idx(<<j>>, 4))
FromB(r, c, f(_, _)) == MV(r, c, Blocks(TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> f(i, j)])])))
MapB(v, h(_)) == FromB(v.r, v.c, LAMBDA i, j : h(BlockOf(v, i, j)))
Two == FInt(2)
Diag4(f, r) == TLCEval([i \in 1..4 * r |-> [j \in 1..4 * r |-> IF i = j THEN f ELSE F0]])
SubstW(e, a, b) == [k \in 1..Len(e) |-> [e[k] EXCEPT !.w = [m \in 1..Len(@) |-> IF @[m] = a THEN b ELSE IF @[m] = -a THEN -b ELSE @[m]]]]
OVal(st, vs, E, steps) ==
  LET a == vs[1]  b == vs[2] IN
  CASE st.op = "new" -> MV(st.h, st.w, EMat(E, st.m))
    [] st.op = "ident" -> MV(st.n, st.n, OneM(4 * st.n)) [] st.op = "zeros" -> MV(st.n, st.n, ZeroM(4 * st.n, 4 * st.n))
    [] st.op = "perm" -> MV(Len(st.p), Len(st.p), CPerm(st.p, 4).S)
    [] st.op = "diag" -> LET n == Len(st.v) + (IF st.q = 0 THEN 0 ELSE 1) IN
         FromB(n, n, LAMBDA i, j : IF j - i = st.q THEN EntMat(E, st.v[IF st.q < 0 THEN j ELSE i]) ELSE ZeroM(4, 4))
    [] st.op = "add" -> MV(a.r, a.c, MatAdd(a.m, b.m)) [] st.op = "sub" -> MV(a.r, a.c, MatSub(a.m, b.m))
    [] st.op = "mul" -> MV(a.r, b.c, MatMul(a.m, b.m))
    [] st.op = "neg" -> MV(a.r, a.c, MatScale(FNeg(F1), a.m))
    [] st.op \in {"smul", "smulr"} -> MV(a.r, a.c, MatScale(SEval(Coef[st.c], E)[1], a.m))
    [] st.op = "div" -> MV(a.r, a.c, MatScale(FInvP(SEval(Coef[st.c], E)[1]), a.m))
    [] st.op = "omul" -> LET w == WordMat(E, st.w) IN MapB(a, LAMBDA x : MatMul(w, x))
    [] st.op = "omulr" -> LET w == WordMat(E, st.w) IN MapB(a, LAMBDA x : MatMul(x, w))
    [] st.op = "T" -> FromB(a.c, a.r, LAMBDA i, j : BlockOf(a, j, i))
    [] st.op \in {"H", "dag", "adjoint"} -> MV(a.c, a.r, MatDag(a.m))
    [] st.op = "conj" -> MapB(a, LAMBDA x : MatDag(x))
    [] st.op = "re" -> MapB(a, LAMBDA x : Half(MatAdd(x, MatDag(x))))
    [] st.op = "im" -> MapB(a, LAMBDA x : ImPart(x))
    [] st.op = "trace" -> MV(1, 1, FoldLeft(LAMBDA acc, k : MatAdd(acc, BlockOf(a, k, k)), ZeroM(4, 4), Chan(a.r)))
    [] st.op = "hstack" -> MV(a.r, a.c + b.c, TLCEval([i \in 1..Len(a.m) |-> a.m[i] \o b.m[i]]))
    [] st.op = "vstack" -> MV(a.r + b.r, a.c, a.m \o b.m)
    [] st.op = "block" -> MV(a.r + vs[3].r, a.c + b.c, TLCEval([i \in 1..Len(a.m) |-> a.m[i] \o b.m[i]] \o [i \in 1..Len(vs[3].m) |-> vs[3].m[i] \o vs[4].m[i]]))
    [] st.op = "get" -> MV(1, 1, BlockOf(a, st.i + 1, IF st.j < 0 THEN a.c + st.j + 1 ELSE st.j + 1))
    [] st.op = "slice" -> FromB(st.i2 - st.i, st.j2 - st.j, LAMBDA i, j : BlockOf(a, st.i + i, st.j + j))
    [] st.op = "each" -> MapB(a, LAMBDA x : CASE st.f = "dag" -> MatDag(x) [] st.f = "double" -> MatScale(Two, x) [] OTHER -> MatMul(x, x))
    [] st.op \in {"expand", "simp"} -> a
    [] st.op = "substop" -> MV(a.r, a.c, EMat(E, [i \in 1..a.r |-> [j \in 1..a.c |-> SubstW(steps[st.r[1]].m[i][j], st.a, st.b)]]))
\* recorded matrices
RecM(E, m) == LET q == [j \in 1..Len(m.m) |-> TLCEval([k \in 1..Len(m.m[j]) |-> Tree(E, m.m[j][k])])] IN
   IF \E j \in 1..Len(q) : \E k \in 1..Len(q[j]) : q[j][k] = <<>> THEN NoM
   ELSE MV(m.sh[1], m.sh[2], Blocks(q))
RECURSIVE ORegs(_, _, _)
ORegs(p, E, k) == IF k = 0 THEN <<>> ELSE LET rs == ORegs(p, E, k - 1)  st == p.steps[k]  o == p.res[k] IN
  Append(rs, IF o.err # "" \/ \E m \in 1..Len(st.r) : IsNoM(rs[st.r[m]]) THEN NoM
             ELSE IF st.op \in {"subst", "series", "blocks"} THEN (IF st.op = "subst" THEN TLCEval(RecM(E, o.m)) ELSE NoM)
             ELSE TLCEval(OVal(st, [m \in 1..Len(st.r) |-> rs[st.r[m]]], E, p.steps)))
\* coefficients of a power series, as in QTrace
SerTree(E, n, k) == LET t == Eval(n, E) IN IF IsU(t) THEN <<>> ELSE TPadSp(E.D, t, {2, 4}).j[k]
JudgeSer(st, src, o, E) ==
  LET E1 == [E EXCEPT !.ord = IF st.n = 0 THEN 1 ELSE st.n, !.pr = <<st.s, 0>>, !.base = << <<st.s, In(0)>> >>]
      ok(a, b, k) == LET w == SerTree(E1, src.m[a][b], MonoIdx(k, 0))  v == Tree(E, o.ms[k + 1].m[a][b]) IN w = <<>> \/ v = <<>> \/ w = v
  IN IF Len(o.ms) # st.n + 1 THEN "number of coefficients"
     ELSE IF \E k \in 1..st.n + 1 : o.ms[k].sh # src.sh THEN "shape"
     ELSE IF \A k \in 0..st.n : \A a \in 1..src.sh[1] : \A b \in 1..src.sh[2] : ok(a, b, k) THEN "ok" ELSE "series"
JudgeBlocks(v, o, E) ==
  LET bs == o.bs  off(k) == FoldLeft(LAMBDA s, x : s + x, 0, SubSeq(bs, 1, k - 1))
      bn(i) == CHOOSE k \in 1..Len(bs) : off(k) < i /\ i <= off(k) + bs[k]
      rec == [k \in 1..Len(bs) |-> RecM(E, o.ms[k])] IN
  IF FoldLeft(LAMBDA s, x : s + x, 0, bs) # v.r \/ (\E k \in 1..Len(bs) : bs[k] < 1) \/ Len(o.ms) # Len(bs) THEN "structure"
  ELSE IF \E k \in 1..Len(bs) : IsNoM(rec[k]) THEN "ok"
  ELSE IF \E k \in 1..Len(bs) : rec[k].r # bs[k] \/ rec[k].c # bs[k] THEN "block-shape"
  ELSE IF \A i, j \in 1..v.r : BlockOf(v, i, j) = (IF bn(i) = bn(j) THEN BlockOf(rec[bn(i)], i - off(bn(i)), j - off(bn(j))) ELSE ZeroM(4, 4)) THEN "ok"
  ELSE "reassembly"
ODead(p, k) == \E m \in 1..Len(p.steps[k].r) : p.res[p.steps[k].r[m]].err # ""
Must(st, rs) == \* the exception that has to be raised, "" if none
  CASE st.op = "mul" -> IF rs[st.r[1]].c # rs[st.r[2]].r THEN "any" ELSE ""
    [] st.op = "trace" -> IF rs[st.r[1]].r # rs[st.r[1]].c THEN "!NonSquareMatrix" ELSE ""
    [] OTHER -> ""
RECURSIVE Scal(_, _)
Scal(p, k) == LET st == p.steps[k] IN
  CASE st.op = "new" -> st.sc [] st.op \in {"ident", "zeros", "perm"} -> TRUE [] st.op \in {"omul", "omulr", "diag", "hstack", "vstack", "block"} -> FALSE
    [] OTHER -> \A m \in 1..Len(st.r) : Scal(p, st.r[m])
SubstVal(p, st, E) == TLCEval(RecM([E EXCEPT !.sub = << <<st.a, Coef[st.b], <<>>, <<>>>> >>], p.res[st.r[1]].m))
JudgeO(p, k, rs, E) ==
  LET st == p.steps[k]  o == p.res[k]  a == IF st.r = <<>> THEN NoM ELSE rs[st.r[1]] IN
  IF ODead(p, k) \/ \E m \in 1..Len(st.r) : IsNoM(rs[st.r[m]]) THEN "ok"
  ELSE LET must == Must(st, rs) IN
  IF must # "" THEN (IF o.err = "" \/ (must # "any" /\ o.err # must) THEN "not rejected" ELSE "ok")
  ELSE IF st.op \in {"conj", "re", "im"} /\ ~Scal(p, k) THEN (IF o.err = "" \/ o.err = "!NoConjugateMatrix" THEN "ok" ELSE "raises " \o o.err)
  ELSE IF o.err # "" THEN (IF st.op = "subst" /\ IsNoM(SubstVal(p, st, E)) THEN "ok" ELSE "raises " \o o.err)
  ELSE IF ~o.same THEN "rebuilt-differs"
  ELSE IF st.op = "series" THEN JudgeSer(st, p.res[st.r[1]].m, o, E)
  ELSE IF st.op = "blocks" THEN JudgeBlocks(a, o, E)
  ELSE LET w == TLCEval(RecM(E, o.m)) IN
     IF IsNoM(w) THEN "ok"
     ELSE LET v == IF st.op = "subst" THEN SubstVal(p, st, E) ELSE rs[k] IN
       IF IsNoM(v) THEN "ok" ELSE IF v.r # w.r \/ v.c # w.c THEN "shape" ELSE IF v.m # w.m THEN "value" ELSE "ok"
\* equal matrices have equal shapes, values and hashes; matrices with the same written entries are equal
JudgeEq(p, rs, E) == {[k |-> x[2], c |-> "equality"] : x \in {y \in SetOf(p.eq) :
   LET v == rs[y[1]]  w == rs[y[2]] IN
   IF y[3] THEN y[4] = FALSE \/ (~IsNoM(v) /\ ~IsNoM(w) /\ (v.r # w.r \/ v.c # w.c \/ v.m # w.m))
   ELSE p.steps[y[1]].op = "new" /\ p.steps[y[2]].op = "new" /\ [p.steps[y[1]] EXCEPT !.op = ""] = [p.steps[y[2]] EXCEPT !.op = ""]}}
OBads(p) == LET E == EnvOfP(p, Mix(p.id, 5))  rs == ORegs(p, E, Len(p.steps)) IN
  {x \in {[k |-> k, c |-> JudgeO(p, k, rs, E)] : k \in 1..Len(p.steps)} : x.c # "ok"} \cup JudgeEq(p, rs, E)
OObs(p) == Len(p.res)
=============================================================================
