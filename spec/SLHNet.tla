--------------------------------- MODULE SLHNet ------------------------------
(* Models (S, L, H) with operator entries composed by the rules of quantum       *)
(* networks.  A register of the machine is a circuit; whatever the code makes of *)
(* it is compared with the composition rule applied to the models of the parts.  *)
EXTENDS QBase, QOps, SLHAlg
CONSTANTS MaxLen, MaxN
Sy(k) == [f |-> "sym", id |-> k]
In(n) == [f |-> "i", n |-> n]
\* coefficients; symbols 1 x (complex), 2 r (real), 3 k (positive)
Coef == << In(1), In(-1), [f |-> "I"], Sy(1), Sy(2), [f |-> "rat", p |-> In(1), q |-> In(2)],
           [f |-> "Pow", a |-> <<Sy(3), [f |-> "rat", p |-> In(1), q |-> In(2)]>>],
           [f |-> "exp", a |-> <<[f |-> "Mul", a |-> <<[f |-> "I"], Sy(2)>>]>>, t |-> << [p |-> 1, q |-> 1, e |-> 1, at |-> << <<2, 0, 1>> >>] >>],
           In(2), [f |-> "conj", a |-> <<Sy(1)>>], In(0),
           [f |-> "rat", p |-> In(3), q |-> In(5)], [f |-> "rat", p |-> In(4), q |-> In(5)], [f |-> "rat", p |-> In(-4), q |-> In(5)] >>
OpNode == << [c |-> "OperatorSymbol", n |-> "A", hs |-> <<1>>], [c |-> "OperatorSymbol", n |-> "B", hs |-> <<1>>],
             [c |-> "OperatorSymbol", n |-> "C", hs |-> <<2>>], [c |-> "LocalSigma", a |-> <<In(0), In(1)>>, hs |-> <<1>>],
             [c |-> "LocalSigma", a |-> <<In(1), In(1)>>, hs |-> <<2>>], [c |-> "OperatorSymbol", n |-> "D", hs |-> <<1, 2>>] >>
NOps == Len(OpNode)
Codes == [A |-> 65, B |-> 66, C |-> 67, D |-> 68]
Full(E, t) == TPadSp(E.D, t, {2, 4}).j[1]
\* operator symbols get their matrices like any exported symbol
OpTen(E, k) == LET n == OpNode[k] IN
  IF n.c = "LocalSigma" THEN Eval([n EXCEPT !.c = "LocalSigma"], E)
  ELSE Eval([c |-> "OperatorSymbol", l |-> [s |-> n.n, h |-> MixS(17, <<Codes[n.n]>>)], a |-> <<>>, hs |-> n.hs], E)
OpMat(E, k) == IF k > 0 THEN Full(E, OpTen(E, k)) ELSE MatDag(Full(E, OpTen(E, -k)))
RECURSIVE WordMat(_, _)
WordMat(E, w) == IF w = <<>> THEN OneM(4) ELSE MatMul(OpMat(E, w[1]), WordMat(E, Tail(w)))
RECURSIVE EntMat(_, _)
EntMat(E, e) == IF e = <<>> THEN ZeroM(4, 4) ELSE MatAdd(MatScale(SEval(Coef[e[1].c], E)[1], WordMat(E, e[1].w)), EntMat(E, Tail(e)))
\* block matrix of a matrix of (d x d) blocks
Blocks(m) == LET d == 4 IN [r \in 1..Len(m) * d |-> TLCEval([c \in 1..Len(m[1]) * d |-> m[(r - 1) \div d + 1][(c - 1) \div d + 1][((r - 1) % d) + 1][((c - 1) % d) + 1]])]
EMat(E, m) == TLCEval(Blocks([j \in 1..Len(m) |-> [k \in 1..Len(m[1]) |-> TLCEval(EntMat(E, m[j][k]))]]))
(*--- generator ---------------------------------------------------------------------*)
RE(x) == RandomElement(x)
N == Len(g.reg)
RECURSIVE RandPerm(_)
RandPerm(S) == IF S = {} THEN <<>> ELSE LET x == RE(S) IN TLCEval(<<x>> \o RandPerm(S \ {x}))
RWord(z) == CASE RE(1..5) = 1 -> <<>> [] RE(1..4) = 1 -> <<RE(1..NOps), RE(1..NOps) * RE({-1, 1})>> [] OTHER -> <<RE(1..NOps) * RE({-1, 1})>>
RTerm(z) == [c |-> RE(1..10), w |-> RWord(z)]
REnt(z) == LET k == RE({0, 1, 1, 1, 2}) IN IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<RTerm(z)>> ELSE <<RTerm(z), RTerm(z)>>
Sc(c) == <<[c |-> c, w |-> <<>>]>>
Pr == <<[c |-> 1, w |-> <<5>>]>>
CoPr == <<[c |-> 1, w |-> <<>>], [c |-> 2, w |-> <<5>>]>>
Flip == <<[c |-> 1, w |-> <<>>], [c |-> 2, w |-> <<5>>], [c |-> 2, w |-> <<5>>]>>
Swap == <<[c |-> 1, w |-> <<4>>], [c |-> 1, w |-> <<-4>>]>>
RS(n) == LET k == RE(1..8) IN
  CASE k <= 2 /\ n = 2 -> << <<Sc(12), Sc(13)>>, <<Sc(14), Sc(12)>> >>
    [] k <= 4 -> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN Sc(RE({1, 2, 3, 8})) ELSE <<>>]]
    \* unitary scattering that depends on the state of the system
    [] k = 5 /\ n = 1 -> << <<RE({Flip, Swap})>> >>
    [] k = 5 /\ n = 2 -> << <<RE({Flip, Swap}), <<>>>>, <<<<>>, RE({Flip, Swap})>> >>
    [] k = 6 /\ n = 2 -> << <<Pr, CoPr>>, <<CoPr, Pr>> >>
    [] OTHER -> LET p == RandPerm(1..n) IN [i \in 1..n |-> [j \in 1..n |-> IF p[j] = i THEN Sc(RE({1, 1, 8})) ELSE <<>>]]
Ok == {k \in 1..N : g.reg[k] >= 1}
One(S) == IF S = {} THEN {} ELSE {RE(S)}
Slh(n) == [op |-> "slh", r |-> <<>>, n |-> n, S |-> RS(n), L |-> [i \in 1..n |-> <<REnt(n)>>], H |-> << <<REnt(n)>> >>]
Leaf0 == LET k == RE(IF N < 0 THEN {} ELSE 1..10) IN
  CASE k <= 6 -> Slh(RE({1, 1, 2, 2, 3}))
    [] k = 7 -> [op |-> "phase", r |-> <<>>, c |-> RE({1, 2})]
    [] k = 8 -> [op |-> "bs", r |-> <<>>, c |-> RE({1, 2, 3})]
    [] k = 9 -> [op |-> "cdrive", r |-> <<>>, c |-> RE({1, 3, 4, 9})]
    [] k = 10 -> [op |-> "perm", r |-> <<>>, p |-> RandPerm(0..RE(1..2))]
Fit(n) == {k \in Ok : g.reg[k] = n}
Choice == LET c == IF N < 2 THEN 1 ELSE RE(1..20) IN
  CASE c <= 2 -> {Leaf0}
    [] c <= 7 -> UNION {{[op |-> "ser", r |-> <<x, RE(Fit(g.reg[x]))>>]} : x \in One(Ok)}
    [] c <= 10 -> {[op |-> "cat", r |-> <<i, j>>] : i \in One(Ok), j \in One(Ok)}
    [] c <= 14 -> {[op |-> "fb", r |-> <<k>>, o |-> RE(0..g.reg[k] - 1), i |-> RE(0..g.reg[k] - 1)] : k \in One({k \in Ok : g.reg[k] >= 2})}
    [] c = 15 -> {[op |-> "inv", r |-> <<k>>] : k \in One(Ok)}
    [] c = 16 -> {[op |-> RE({"toslh", "expand"}), r |-> <<k>>] : k \in One(Ok)}
    [] c = 17 -> {[op |-> "input", r |-> <<k>>, a |-> [j \in 1..g.reg[k] |-> RE({1, 4, 11, 11})]] : k \in One(Ok)}
    [] c = 18 -> {[op |-> "mvd", r |-> <<k>>, wh |-> RE({<<>>, <<0>>, <<g.reg[k] - 1>>})] : k \in One(Ok)}
    [] c = 19 -> UNION {{[op |-> "net", r |-> <<i, j>>, o |-> RE(0..g.reg[i] + g.reg[j] - 1), i |-> RE(0..g.reg[i] + g.reg[j] - 1)]} : i \in One(Ok), j \in One(Ok)}
    [] c = 20 -> {[op |-> "perm", r |-> <<>>, p |-> RandPerm(0..g.reg[k] - 1)] : k \in One(Ok)}
Dim(st, ns) ==
  CASE st.op = "slh" -> st.n [] st.op \in {"phase", "cdrive"} -> 1 [] st.op = "bs" -> 2 [] st.op = "perm" -> Len(st.p)
    [] st.op \in {"ser", "inv", "toslh", "expand", "input", "mvd"} -> ns[1] [] st.op = "cat" -> ns[1] + ns[2] [] st.op = "fb" -> ns[1] - 1
    [] st.op = "net" -> ns[1] + ns[2] - 1
Ns(s) == [m \in 1..Len(s.r) |-> g.reg[s.r[m]]]
Init == g = [prog |-> <<>>, reg |-> <<>>, fin |-> FALSE] /\ Idle
Next == /\ \/ N < MaxLen /\ \E C \in {Choice} : \E C2 \in {One({s \in C : Dim(s, Ns(s)) <= MaxN /\ Dim(s, Ns(s)) > 0})} : \E s \in (IF C2 = {} THEN {Leaf0} ELSE C2) :
                 g' = [g EXCEPT !.prog = Append(@, s @@ (IF N < 3 /\ RE(1..4) = 1 THEN [dyn |-> [j \in 1..6 |-> RE({1, 3, 4, 8, 11})]] ELSE IF RE(1..8) = 1 THEN [dyn |-> <<>>] ELSE <<>>)), !.reg = Append(@, Dim(s, Ns(s)))]
           \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> g.prog]) /\ g' = [g EXCEPT !.fin = TRUE]
        /\ UNCHANGED <<l, cnt>>
Spec == Init /\ [][Next]_<<g, l, cnt>>
(*--- the composition rules -------------------------------------------------------------*)
ScalM(E, nd) == MatScale(SEval(nd, E)[1], OneM(4))
CosSin(E, c) == \* cos and sin of the mixing angles  pi/4, pi/2, r
  CASE c = 1 -> LET h == FMul(FSqrtReal(2), FInvP(FInt(2))) IN <<h, h>> [] c = 2 -> <<F0, F1>>
    [] OTHER -> LET w == SEval(Coef[8], E)[1]  u == FInvP(w)  h == FInvP(FInt(2)) IN
                <<FMul(h, FAdd(w, u)), FMul(FMul(h, FNeg(FIm)), FAdd(w, FNeg(u)))>>
Drive(E, nd) == [n |-> 1, S |-> OneM(4), L |-> ScalM(E, nd), H |-> ZeroM(4, 4)]
Isolated(v, o, i) == ~IsNoM(v) /\ \A k \in 1..v.n : (k = i + 1 \/ SubM(v.S, Idx(<<o + 1>>, 4), Idx(<<k>>, 4)) = ZeroM(4, 4))
                                                 /\ (k = o + 1 \/ SubM(v.S, Idx(<<k>>, 4), Idx(<<i + 1>>, 4)) = ZeroM(4, 4))
Value(st, vs, E) ==
  CASE st.op = "slh" -> [n |-> st.n, S |-> EMat(E, st.S), L |-> EMat(E, st.L), H |-> EMat(E, st.H)]
    [] st.op = "phase" -> [n |-> 1, S |-> IF st.c = 1 THEN ScalM(E, [f |-> "I"]) ELSE ScalM(E, Coef[8]), L |-> ZeroM(4, 4), H |-> ZeroM(4, 4)]
    [] st.op = "bs" -> LET q == CosSin(E, st.c)  o == OneM(4) IN
         [n |-> 2, S |-> TLCEval(Blocks(<< <<MatScale(q[1], o), MatScale(FNeg(q[2]), o)>>, <<MatScale(q[2], o), MatScale(q[1], o)>> >>)), L |-> ZeroM(8, 4), H |-> ZeroM(4, 4)]
    [] st.op = "cdrive" -> Drive(E, Coef[st.c]) [] st.op = "perm" -> CPerm(st.p, 4)
    [] st.op = "ser" -> Series(vs[1], vs[2]) [] st.op = "cat" -> Concat(vs[1], vs[2]) [] st.op = "inv" -> InvOf(vs[1])
    [] st.op \in {"toslh", "expand"} -> vs[1] [] st.op = "fb" -> IF Isolated(vs[1], st.o, st.i) THEN NoM ELSE Feed(vs[1], st.o, st.i)
    [] st.op = "input" -> IF IsNoM(vs[1]) THEN vs[1] ELSE Series(vs[1], ConcatAll([k \in 1..Len(st.a) |-> Drive(E, Coef[st.a[k]])], 4))
    [] st.op = "net" -> LET c == Concat(vs[1], vs[2]) IN IF Isolated(c, st.o, st.i) THEN NoM ELSE Feed(c, st.o, st.i)
\* recorded models
Tree(E, n) == LET t == Eval(n, E) IN IF IsU(t) THEN <<>> ELSE Full(E, t)
Rec(E, o) == LET f(m) == [j \in 1..Len(m) |-> TLCEval([k \in 1..Len(m[j]) |-> Tree(E, m[j][k])])]
                 s == f(o.S)  lv == f(o.L)  h == Tree(E, o.H)
                 bad(m) == \E j \in 1..Len(m) : \E k \in 1..Len(m[j]) : m[j][k] = <<>>
             IN IF bad(s) \/ bad(lv) \/ h = <<>> THEN NoM
                ELSE IF Len(s) # o.n \/ Len(lv) # o.n \/ \E j \in 1..Len(s) : Len(s[j]) # o.n THEN [n |-> -3]
                ELSE [n |-> o.n, S |-> Blocks(s), L |-> Blocks(lv), H |-> h]
\* generators of the dynamics
Ls(v) == [j \in 1..v.n |-> SubSeq(v.L, 4 * j - 3, 4 * j)]
Comm(a, b) == MatSub(MatMul(a, b), MatMul(b, a))
Half(m) == MatScale(FInvP(FInt(2)), m)
Master(v, R) == LET ls == Ls(v)  mi == MatScale(FNeg(FIm), Comm(v.H, R)) IN
  FoldLeft(LAMBDA acc, x : LET q == MatMul(MatDag(x), x) IN
     MatAdd(acc, MatSub(MatMul(MatMul(x, R), MatDag(x)), Half(MatAdd(MatMul(q, R), MatMul(R, q))))), mi, ls)
Heis(v, X) == LET ls == Ls(v)  mi == MatScale(FIm, Comm(v.H, X)) IN
  FoldLeft(LAMBDA acc, x : LET q == MatMul(MatDag(x), x) IN
     MatAdd(acc, MatSub(MatMul(MatMul(MatDag(x), X), x), Half(MatAdd(MatMul(q, X), MatMul(X, q))))), mi, ls)
\* the Langevin equation with noise amplitudes b (numbers): adds  b^+ S^+ [X, L] + [L^+, X] S b + b^+ (S^+ X S - X) b
Kron(n, X) == TLCEval([r \in 1..4 * n |-> [c \in 1..4 * n |-> IF (r - 1) \div 4 = (c - 1) \div 4 THEN X[((r - 1) % 4) + 1][((c - 1) % 4) + 1] ELSE F0]])
Noise(v, X, bs) ==
  LET b == TLCEval(Blocks([k \in 1..v.n |-> <<MatScale(bs[k], OneM(4))>>]))
      bd == MatDag(b)  XX == Kron(v.n, X)
      c == MatSub(MatMul(XX, v.L), MatMul(v.L, X))
      cd == MatSub(MatMul(MatDag(v.L), XX), MatMul(X, MatDag(v.L)))
  IN MatAdd(MatAdd(MatMul(bd, MatMul(MatDag(v.S), c)), MatMul(cd, MatMul(v.S, b))),
            MatMul(bd, MatMul(MatSub(MatMul(MatDag(v.S), MatMul(XX, v.S)), XX), b)))
(*--- judgement -----------------------------------------------------------------------------*)
EnvOfP(p, h) == EnvFor(0, 0, h, p.syms, <<0, 0>>)
RECURSIVE Regs(_, _, _)
Regs(p, E, k) == IF k = 0 THEN <<>> ELSE LET rs == Regs(p, E, k - 1)  st == p.steps[k]  o == p.res[k] IN
  Append(rs, IF o.err # "" \/ \E m \in 1..Len(st.r) : IsNoM(rs[st.r[m]]) THEN NoM
             ELSE IF st.op = "mvd" THEN TLCEval(Rec(E, o))    \* judged by itself
             ELSE TLCEval(Value(st, [m \in 1..Len(st.r) |-> rs[st.r[m]]], E)))
ScalarBlock(m) == \A j, k \in 1..4 : m[j][k] = IF j = k THEN m[1][1] ELSE F0
\* a loop that involves no other channel, or whose transmission is 1 or an operator, need not be supported
NoInv(v, o, i) == IsNoM(v) \/ LET b == SubM(v.S, Idx(<<o + 1>>, 4), Idx(<<i + 1>>, 4)) IN ~ScalarBlock(b) \/ b = OneM(4) \/ Isolated(v, o, i)
OperS(p) == \E k \in 1..Len(p.steps) : p.steps[k].op = "slh" /\ \E i, j \in 1..p.steps[k].n : \E t \in SetOf(p.steps[k].S[i][j]) : t.w # <<>>
Dead(p, k) == \E m \in 1..Len(p.steps[k].r) : p.res[p.steps[k].r[m]].err # ""
XMat(E) == Full(E, Eval([c |-> "OperatorSymbol", l |-> [s |-> "X", h |-> MixS(17, <<88>>)], a |-> <<>>, hs |-> <<1, 2>>], E))
Sub1(v, k) == SubSeq(v.L, 4 * k - 3, 4 * k)
JudgeMvd(st, v, w, o, X) ==
  LET sel == IF st.wh = <<>> THEN 0..v.n - 1 ELSE SetOf(st.wh) IN
  IF w.S # v.S THEN "scattering-changed"
  ELSE IF \E k \in 1..v.n : (k - 1) \notin sel /\ Sub1(v, k) # Sub1(w, k) THEN "unselected-changed"
  ELSE IF \E k \in sel : ~ScalarBlock(MatSub(Sub1(v, k + 1), Sub1(w, k + 1))) THEN "not-a-displacement"
  ELSE IF \E k \in sel : o.hasid[k + 1] THEN "drive-left"
  ELSE IF Master(w, X) # Master(v, X) THEN "dynamics-changed" ELSE "ok"
JudgeStep(p, k, rs, E, X) ==
  LET st == p.steps[k]  o == p.res[k]  v == rs[k] IN
  IF Dead(p, k) \/ \E m \in 1..Len(st.r) : IsNoM(rs[st.r[m]]) THEN "ok"
  ELSE IF o.err # "" THEN
     (IF st.op = "fb" /\ NoInv(rs[st.r[1]], st.o, st.i) THEN "ok"
      ELSE IF st.op = "net" /\ NoInv(Concat(rs[st.r[1]], rs[st.r[2]]), st.o, st.i) THEN "ok"
      ELSE IF st.op \in {"fb", "net"} /\ o.err = "!AlgebraError" /\ OperS(p) THEN "ok"    \* an operator that need not be simplified to a number
      ELSE "raises " \o o.err)
  ELSE IF st.op # "mvd" /\ IsNoM(v) THEN "ok"
  ELSE LET w == TLCEval(Rec(E, o)) IN
     IF IsNoM(w) THEN "ok"
     ELSE IF w.n = -3 THEN "shape"
     ELSE IF st.op = "mvd" THEN (IF IsNoM(rs[st.r[1]]) THEN "ok" ELSE JudgeMvd(st, rs[st.r[1]], w, o, X))
     ELSE IF w.n # v.n THEN "channels"
     ELSE IF w.S # v.S THEN "S" ELSE IF w.L # v.L THEN "L" ELSE IF w.H # v.H THEN "H"
     ELSE IF ~("me" \in DOMAIN o) THEN "ok"
     ELSE LET s(n) == Tree(E, n)  bad(n, m) == LET q == s(n) IN q # <<>> /\ q # m IN
        IF bad(o.me, Master(v, X)) THEN "master-equation"
        ELSE IF bad(o.li, Master(v, X)) THEN "liouvillian"
        ELSE IF bad(o.he, Heis(v, X)) THEN "heisenberg-equation"
        ELSE IF "la" \in DOMAIN o /\ Unitary(v) THEN
             (IF bad(o.la, MatAdd(Heis(v, X), Noise(v, X, [j \in 1..v.n |-> SEval(o.bs[j], E)[1]]))) THEN "langevin-equation" ELSE "ok")
        ELSE "ok"
Bads(p) == LET E == EnvOfP(p, Mix(p.id, 5))  rs == Regs(p, E, Len(p.steps))  X == XMat(E) IN
  {x \in {[k |-> k, c |-> JudgeStep(p, k, rs, E, X)] : k \in 1..Len(p.steps)} : x.c # "ok"}
Obs(p) == Len(p.res)
=============================================================================
