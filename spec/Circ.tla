--------------------------------- MODULE Circ --------------------------------
(* Circuit expressions: the network that was written down against the circuit   *)
(* that automatic simplification makes of it, each circuit symbol interpreted    *)
(* by an arbitrary model.                                                        *)
EXTENDS QBase, SLHAlg
CONSTANTS MaxLen, MaxN, D
Perm0(n) == [k \in 1..n |-> k - 1]
(* number of channels of a step; -1: must be rejected *)
Dim(st, ns) ==
  CASE st.op \in {"sym", "id"} -> st.n [] st.op = "zero" -> 0 [] st.op = "perm" -> Len(st.p)
    [] st.op = "ser" -> IF \A k \in 1..Len(ns) : ns[k] = ns[1] THEN ns[1] ELSE -1
    [] st.op = "cat" -> FoldSeq(+, 0, ns) [] st.op \in {"inv", "red"} -> ns[1]
    [] st.op = "fb" -> IF ns[1] < 2 \/ st.o >= ns[1] \/ st.i >= ns[1] THEN -1 ELSE ns[1] - 1
    [] st.op = "pad" -> ns[1] + st.n
    [] st.op = "drive" -> IF Len(st.a) = ns[1] THEN ns[1] ELSE -1
\* a coherent drive displaces the channel
Drive(a, d) == [n |-> 1, S |-> OneM(d), L |-> MatScale(FInt(a), OneM(d)), H |-> ZeroM(d, d)]
PadPerm(n, k, m) == [j \in 1..n + m |-> IF j <= k THEN j - 1 ELSE IF j <= k + m THEN n + j - k - 1 ELSE j - m - 1]
InvP(p) == [k \in 1..Len(p) |-> CHOOSE j \in 0..Len(p) - 1 : p[j + 1] = k - 1]
Value(st, vs, h) ==
  CASE st.op = "sym" -> Model(Mix(Mix(h, st.l), st.n), st.n, D)
    [] st.op = "id" -> CPass(st.n, D) [] st.op = "zero" -> CZero(D) [] st.op = "perm" -> CPerm(st.p, D)
    [] st.op = "ser" -> SeriesAll(vs) [] st.op = "cat" -> ConcatAll(vs, D)
    [] st.op = "inv" -> InvOf(vs[1]) [] st.op = "red" -> vs[1] [] st.op = "fb" -> Feed(vs[1], st.o, st.i)
    [] st.op = "pad" -> IF IsNoM(vs[1]) THEN NoM ELSE LET p == PadPerm(vs[1].n, st.k, st.n) IN
         Series(CPerm(InvP(p), D), Series(Concat(vs[1], CPass(st.n, D)), CPerm(p, D)))
    [] st.op = "drive" -> IF IsNoM(vs[1]) THEN NoM ELSE Series(vs[1], ConcatAll([k \in 1..Len(st.a) |-> Drive(st.a[k], D)], D))
(*--- generator -----------------------------------------------------------------*)
RE(x) == RandomElement(x)
N == Len(g.reg)
RECURSIVE RandPerm(_)
RandPerm(S) == IF S = {} THEN <<>> ELSE LET x == RE(S) IN TLCEval(<<x>> \o RandPerm(S \ {x}))
Ok == {k \in 1..N : g.reg[k] >= 0}
Big == {k \in Ok : g.reg[k] >= 2}
\* (mention of the state keeps TLC from evaluating these once and for all)
Sym == LET n == RE(IF N < 0 THEN {} ELSE {1, 2, 3}) IN {[op |-> "sym", r |-> <<>>, n |-> n, l |-> RE(1..3)]}
RP == {[op |-> "perm", r |-> <<>>, p |-> RandPerm(0..n - 1)] : n \in {RE(IF N < 0 THEN {} ELSE 1..MaxN)}}
\* something of n channels to compose with
Fit(n) == {k \in Ok : g.reg[k] = n}
One(S) == IF S = {} THEN {} ELSE {RE(S)}
Choice == LET c == IF N < 2 THEN 1 ELSE RE(1..24) IN
  CASE c <= 2 -> Sym [] c = 3 -> RP
    [] c = 4 -> {[op |-> "perm", r |-> <<>>, p |-> RandPerm(0..g.reg[k] - 1)] : k \in One({k \in Ok : g.reg[k] > 1})}
    [] c = 5 -> {[op |-> "id", r |-> <<>>, n |-> RE(0..3)]} \cup (IF RE(1..4) = 1 THEN {[op |-> "zero", r |-> <<>>]} ELSE {})
    [] c <= 10 -> {[op |-> "ser", r |-> <<i, j>>, c |-> FALSE] : i \in One(Ok), j \in One(Ok \ {0})}
                  \cap {[op |-> "ser", r |-> <<i, j>>, c |-> FALSE] : <<i, j>> \in {x \in Ok \X Ok : g.reg[x[1]] = g.reg[x[2]] \/ RE(1..12) = 1}}
    [] c = 11 -> LET i == One(Ok) IN UNION {{[op |-> "ser", r |-> <<x, RE(Fit(g.reg[x])), RE(Fit(g.reg[x]))>>, c |-> TRUE]} : x \in i}
    [] c <= 15 -> {[op |-> "cat", r |-> <<i, j>>, c |-> FALSE] : i \in One(Ok), j \in One(Ok)}
    [] c = 16 -> {[op |-> "cat", r |-> <<i, j, k>>, c |-> TRUE] : i \in One(Ok), j \in One(Ok), k \in One(Ok)}
    [] c <= 20 -> UNION {{[op |-> "fb", r |-> <<k>>, o |-> RE(0..g.reg[k] - 1), i |-> RE(0..g.reg[k] - 1), via |-> RE({"m", "f", "x"})]} : k \in One(Big)}
                  \cup (IF RE(1..8) = 1 THEN {[op |-> "fb", r |-> <<k>>, o |-> 0, i |-> 0, via |-> RE({"f", "x"})] : k \in One({k \in Ok : g.reg[k] <= 1})} ELSE {})
    [] c = 21 -> {[op |-> "inv", r |-> <<k>>] : k \in One(Ok)}
    [] c = 22 -> {[op |-> "red", r |-> <<k>>] : k \in One(Ok)}
    [] c = 23 -> UNION {{[op |-> "pad", r |-> <<k>>, k |-> RE(0..g.reg[k]), n |-> RE(1..2)]} : k \in One(Ok)}
    [] c = 24 -> UNION {{[op |-> "drive", r |-> <<k>>, a |-> [j \in 1..(g.reg[k] + (IF RE(1..10) = 1 THEN 1 ELSE 0)) |-> RE({0, 1, 2})]]} : k \in One({k \in Ok : g.reg[k] >= 1})}
Ns(s) == [m \in 1..Len(s.r) |-> g.reg[s.r[m]]]
Init == g = [prog |-> <<>>, reg |-> <<>>, fin |-> FALSE] /\ Idle
Next == /\ \/ N < MaxLen /\ \E C \in {Choice} : \E C2 \in {One({s \in C : Dim(s, Ns(s)) <= MaxN})} : \E s \in (IF C2 = {} THEN Sym ELSE C2) :
                 g' = [g EXCEPT !.prog = Append(@, s), !.reg = Append(@, Dim(s, Ns(s)))]
           \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> g.prog]) /\ g' = [g EXCEPT !.fin = TRUE]
        /\ UNCHANGED <<l, cnt>>
Spec == Init /\ [][Next]_<<g, l, cnt>>
(*--- meaning of a recorded circuit expression ------------------------------------*)
RECURSIVE Mean(_, _)
Mean(e, h) ==
  CASE e.c = "sym" -> Model(Mix(Mix(h, e.l), e.n), e.n, D)
    [] e.c = "perm" -> CPerm(e.p, D) [] e.c = "id" -> CPass(1, D) [] e.c = "zero" -> CZero(D)
    [] e.c = "drive" -> Drive(e.l, D)
    [] e.c \in {"bs", "ph"} -> Model(Mix(Mix(h, e.l + (IF e.c = "bs" THEN 20 ELSE 30)), e.n), e.n, D)
    [] e.c = "ser" -> LET s == [k \in 1..Len(e.a) |-> Mean(e.a[k], h)] IN
                      IF \A k \in 1..Len(s) : IsNoM(s[k]) \/ s[k].n = s[1].n THEN SeriesAll(s) ELSE [n |-> -2]
    [] e.c = "cat" -> ConcatAll([k \in 1..Len(e.a) |-> Mean(e.a[k], h)], D)
    [] e.c = "fb" -> Feed(Mean(e.a[1], h), e.o, e.i)
    [] e.c = "inv" -> InvOf(Mean(e.a[1], h))
RECURSIVE Regs(_, _, _)
Regs(p, h, k) == IF k = 0 THEN <<>> ELSE LET rs == Regs(p, h, k - 1)  st == p.steps[k]  vs == [m \in 1..Len(st.r) |-> rs[st.r[m]]] IN
  Append(rs, IF Dim(st, [m \in 1..Len(vs) |-> vs[m].n]) < 0 \/ p.res[k].t.c = "err" \/ \E m \in 1..Len(st.r) : p.res[st.r[m]].t.c = "err" THEN NoM ELSE TLCEval(Value(st, vs, h)))
RECURSIVE Dims(_, _)
Dims(p, k) == IF k = 0 THEN <<>> ELSE LET rs == Dims(p, k - 1)  st == p.steps[k] IN Append(rs, Dim(st, [m \in 1..Len(st.r) |-> rs[st.r[m]]]))
RECURSIVE BlockOf(_, _, _)
BlockOf(s, k, x) == IF x < s[k] THEN k ELSE BlockOf(s, k + 1, x - s[k])
\* the loop involves no other channel: it has no symbolic form and may be rejected
Isolated(v, o, i) == IsNoM(v) \/ LET co == Idx(<<o + 1>>, D)  ci == Idx(<<i + 1>>, D) IN
   SubM(v.S, co, Idx(Except(v.n, i + 1), D)) = ZeroM(D, (v.n - 1) * D) /\ SubM(v.S, Idx(Except(v.n, o + 1), D), ci) = ZeroM((v.n - 1) * D, D)
One1(p, k, v, n, h) == LET o == p.res[k]  m == TLCEval(Mean(o.t, h)) IN
  IF o.err # "" THEN "raises " \o o.err
  ELSE IF m.n = -2 THEN "inconsistent-dimensions"
  ELSE IF ~Same(m, v) THEN "meaning"
  ELSE IF o.n # n THEN "cdim"
  ELSE IF FoldSeq(+, 0, o.bs) # n \/ Len(o.blocks) # Len(o.bs) THEN "block-structure"
  ELSE LET bl == [j \in 1..Len(o.blocks) |-> TLCEval(Mean(o.blocks[j], h))] IN
       IF \E j \in 1..Len(bl) : ~IsNoM(bl[j]) /\ bl[j].n # o.bs[j] THEN "block-dimension"
  ELSE IF ~Same(ConcatAll(bl, D), v) THEN "blocks"
  ELSE IF \E q \in SetOf(o.coarse) : ~Same(ConcatAll([j \in 1..Len(q) |-> Mean(q[j], h)], D), v) THEN "coarser-blocks"
  ELSE IF ~Same(Mean(o.red, h), v) THEN "creduce"
  ELSE IF ~Same(Mean(o.inv, h), InvOf(v)) THEN "series-inverse"
  ELSE IF ~Same(Mean(o.back, h), v) THEN "double-inverse"
  ELSE IF ~Same(Mean(o.unit, h), CPass(n, D)) THEN "inverse-cancels"
  ELSE IF o.iib # [x \in 1..n |-> LET b == BlockOf(o.bs, 1, x - 1) IN <<x - 1 - FoldSeq(+, 0, SubSeq(o.bs, 1, b - 1)), b - 1>>] THEN "index_in_block"
  ELSE "ok"
Dead(p, k) == \E m \in 1..Len(p.steps[k].r) : p.res[p.steps[k].r[m]].t.c = "err"
Bads(p) == LET h == Mix(p.id, 77)  rs == Regs(p, h, Len(p.steps))  ns == Dims(p, Len(p.steps)) IN
  {x \in {[k |-> k, c |-> IF Dead(p, k) THEN "ok"
                          ELSE IF ns[k] = -1 THEN (IF p.res[k].t.c = "err" THEN "ok" ELSE "not-rejected")
                          ELSE IF p.res[k].t.c = "err" THEN (IF p.steps[k].op = "fb" /\ Isolated(rs[p.steps[k].r[1]], p.steps[k].o, p.steps[k].i) THEN "ok" ELSE "raises " \o p.res[k].t.l)
                          ELSE One1(p, k, rs[k], ns[k], h)] : k \in 1..Len(rs)} : x.c # "ok"}
Obs(p) == Len(p.res)
\* the model laws themselves
Laws == N = 3 => LET h == MixS(5, [k \in 1..N |-> g.reg[k] + 2])  a == Model(h, 2, D)  b == Model(Mix(h, 1), 2, D)  c == Model(Mix(h, 2), 2, D)  e == Model(Mix(h, 3), 1, D) IN
   /\ Unitary(a) /\ Series(a, InvOf(a)) = CPass(2, D)
   /\ Series(Series(a, b), c) = Series(a, Series(b, c))
   /\ Series(Concat(a, e), Concat(b, InvOf(e))) = Concat(Series(a, b), CPass(1, D))
   /\ LET f == Feed(a, 0, 1) IN Same(InvOf(f), Feed(InvOf(a), 1, 0)) /\ (IsNoM(f) \/ Unitary(f))
   /\ Same(Feed(Concat(e, b), 0, 1), Series(b, Concat(e, CPass(1, D))))
=============================================================================
