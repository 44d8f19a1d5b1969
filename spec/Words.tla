-------------------------------- MODULE Words --------------------------------
(* Products as words of factors.  Two factors depend on each other iff they     *)
(* share a degree of freedom (SPre and SPost never do); a product denotes the    *)
(* word of its factors up to interchanging independent neighbours, with a        *)
(* commuting number in front.  Registers are built by multiplying registers, by  *)
(* spelling a word with any bracketing, by powers and adjoints.                  *)
EXTENDS QBase, Integers
CONSTANTS MaxLen, MaxW, NL, Kinds
Full == 1..9        \* the space of everything
\* letters are numbered; a dagger is a negative letter
Lt(x) == IF x < 0 THEN -x ELSE x
\* number of the first letter that is the same
Id(L, x) == LET k == CHOOSE k \in 1..Len(L) : L[k] = L[Lt(x)] /\ \A j \in 1..k - 1 : L[j] # L[k] IN IF x < 0 THEN -k ELSE k
Dep(L, x, y) == LET a == L[Lt(x)]  b == L[Lt(y)] IN
                IF a.k # b.k /\ {a.k, b.k} = {"pre", "post"} THEN FALSE ELSE a.sp \cap b.sp # {}
DelAt(w, k) == SubSeq(w, 1, k - 1) \o SubSeq(w, k + 1, Len(w))
\* canonical word: always the smallest letter that can be moved to the front
RECURSIVE NF(_, _)
NF(L, w) == IF w = <<>> THEN <<>> ELSE
  LET av == {k \in 1..Len(w) : \A j \in 1..k - 1 : ~Dep(L, w[j], w[k])}
      k == CHOOSE k \in av : \A j \in av : w[k] < w[j] \/ (w[k] = w[j] /\ k <= j)
  IN <<w[k]>> \o NF(L, DelAt(w, k))
RECURSIVE Rep(_, _)
Rep(w, n) == IF n = 0 THEN <<>> ELSE w \o Rep(w, n - 1)
Dag(w) == [k \in 1..Len(w) |-> -w[Len(w) + 1 - k]]
RECURSIVE Pw(_, _)
Pw(c, n) == IF n = 0 THEN 1 ELSE c * Pw(c, n - 1)
\* a ket product needs pairwise different degrees of freedom
Clash(ty, L, w) == ty = "ket" /\ \E i, j \in 1..Len(w) : i < j /\ Dep(L, w[i], w[j])
RECURSIVE CatAll(_)
CatAll(vs) == IF vs = <<>> THEN [c |-> 1, w |-> <<>>] ELSE LET r == CatAll(Tail(vs)) IN [c |-> vs[1].c * r.c, w |-> vs[1].w \o r.w]
Step(ty, L, st, vs) ==
  LET v == CASE st.op = "word" -> [c |-> 1, w |-> [k \in 1..Len(st.w) |-> Id(L, st.w[k])]]
             [] st.op \in {"mul", "prod"} -> CatAll(vs)
             [] st.op = "pow" -> [c |-> Pw(vs[1].c, st.n), w |-> Rep(vs[1].w, st.n)]
             [] st.op = "adj" -> [c |-> vs[1].c, w |-> Dag(vs[1].w)]
             [] st.op = "scal" -> [c |-> vs[1].c * st.c, w |-> vs[1].w]
  IN IF Clash(ty, L, v.w) THEN [c |-> 0, w |-> <<-99>>] ELSE [v EXCEPT !.w = NF(L, @)]
Bad(v) == v.w = <<-99>>
(*--- generator ----------------------------------------------------------------------*)
RE(x) == RandomElement(x)
Tys == {"op", "op", "sup", "ket", "spp", "rw"}
KindOf(ty) == CASE ty = "op" -> RE({"sym", "sym", "sym", "sum", "comm", "hsum", "create", "num"}) [] ty = "sup" -> RE({"S", "S", "Ssum"})
              [] ty = "ket" -> RE({"ket", "ket", "ketsum", "basis", "coh"}) [] ty = "spp" -> RE({"pre", "post"})
              [] ty = "rw" -> RE({"sym", "sym", "a", "ad", "n1", "s01", "s11"})
Loc == {"create", "basis", "coh", "a", "ad", "n1", "s01", "s11"}   \* these live on one degree of freedom
MaxWt(ty) == IF ty = "rw" THEN 6 ELSE MaxW
\* spaces 1..3 numeric Fock labels, 4 named Fock space, 5 TLS, 6 spin, 7,8 finite
RandSp(ty, k) == IF k \in Loc THEN {RE(IF k \in {"s01", "s11"} THEN {5, 7, 8} ELSE {1, 2, 3, 4})}
                 ELSE LET n == RE({1, 1, 1, 2, 2, 3}) IN
                      IF ty \in {"op", "sup"} /\ RE(1..40) = 1 THEN Full ELSE {RE(1..8) : q \in 1..n}
Letter(ty, n) == LET k == KindOf(ty) IN LET s == RandSp(ty, k) IN [k |-> k, n |-> IF k \in {"create", "a", "ad", "n1", "s01", "s11"} THEN 0 ELSE n, sp |-> s]
RECURSIVE Letters(_, _)
Letters(ty, n) == IF n = 0 THEN <<>> ELSE LET x == Letter(ty, n) IN TLCEval(Letters(ty, n - 1) \o <<x>>)
NLet == Len(g.L)
N == Len(g.reg)
NoAdj == g.ty # "op" \/ \E x \in SetOf(g.L) : x.k \in {"create", "num", "hsum", "comm"}
RandL == LET x == RE(1..NLet) IN IF g.ty = "op" /\ ~NoAdj /\ RE(1..6) = 1 THEN -x ELSE x
\* a random spelling of an equivalent word: random topological order
RECURSIVE Spell(_, _)
Spell(L, w) == IF w = <<>> THEN <<>> ELSE
  LET k == RE({k \in 1..Len(w) : \A j \in 1..k - 1 : ~Dep(L, w[j], w[k])}) IN TLCEval(<<w[k]>> \o Spell(L, DelAt(w, k)))
\* one interchange of neighbours, allowed or not
Swap(w) == IF Len(w) < 2 THEN w ELSE LET k == RE(1..Len(w) - 1) IN [w EXCEPT ![k] = w[k + 1], ![k + 1] = w[k]]
Brack(n) == TLCEval([k \in 1..n |-> RE(1..50)])
RECURSIVE Pick(_, _)
Pick(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == RE(S) IN TLCEval(<<x>> \o Pick(S \ {x}, n - 1))
KetW(n) == LET w == Pick(1..NLet, n) IN IF RE(1..10) = 1 THEN w ELSE SelectSeq(w, LAMBDA x : \A j \in 1..Len(w) : w[j] = x \/ ~Dep(g.L, w[j], x) \/ x < w[j])
NewWord == LET n == RE(2..MaxWt(g.ty)) IN IF g.ty = "ket" THEN KetW(n) ELSE TLCEval([k \in 1..n |-> RandL])
Wd(w) == [op |-> "word", r |-> <<>>, w |-> w, b |-> Brack(Len(w))]
Good(m) == {k \in 1..N : ~Bad(g.reg[k]) /\ Len(g.reg[k].w) <= m}
Choice == LET c == IF N = 0 THEN 1 ELSE RE(1..12)  G == Good(100)  M == MaxWt(g.ty) IN
  IF G = {} \/ c <= 2 THEN {Wd(w) : w \in {x \in {NewWord} : Len(x) > 0}}
  ELSE IF c <= 6 THEN LET k == RE(G) IN IF g.reg[k].w = <<>> THEN {} ELSE {Wd(Spell(g.L, g.reg[k].w))}
  ELSE IF c = 7 THEN LET k == RE(G) IN IF g.reg[k].w = <<>> THEN {} ELSE {Wd(Swap(Spell(g.L, g.reg[k].w)))}
  ELSE IF c <= 9 THEN LET i == RE(G) IN {[op |-> "mul", r |-> <<i, j>>] : j \in {x \in {RE(G)} : Len(g.reg[x].w) + Len(g.reg[i].w) <= M}}
  ELSE IF c = 10 THEN LET r == TLCEval([k \in 1..RE(1..3) |-> RE(G)]) IN {[op |-> "prod", r |-> q] : q \in {x \in {r} : FoldLeft(LAMBDA a, k : a + Len(g.reg[k].w), 0, x) <= M}}
  ELSE IF c = 11 /\ g.ty \notin {"ket", "spp"} THEN LET n == RE(0..3)  i == RE(G) IN IF n * Len(g.reg[i].w) <= M THEN {[op |-> "pow", r |-> <<i>>, n |-> n]} ELSE {}
  ELSE IF c = 12 /\ ~NoAdj THEN {[op |-> "adj", r |-> <<RE(G)>>]}
  ELSE IF g.ty = "rw" THEN {} ELSE {[op |-> "scal", r |-> <<RE(G)>>, c |-> RE({1, 2, 3})]}
Init == g \in {[prog |-> <<>>, reg |-> <<>>, fin |-> FALSE, ty |-> t, L |-> <<>>] : t \in Kinds} /\ Idle
Next == /\ \/ g.L = <<>> /\ \E n \in {RE(2..NL)} : g' = [g EXCEPT !.L = Letters(g.ty, n)]
           \/ g.L # <<>> /\ N < MaxLen /\ \E C \in {Choice} : \E s \in (IF C = {} THEN {Wd(<<1>>)} ELSE C) :
                 g' = [g EXCEPT !.prog = Append(@, s), !.reg = Append(@, Step(g.ty, g.L, s, [m \in 1..Len(s.r) |-> g.reg[s.r[m]]]))]
           \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> g.prog, ty |-> g.ty, L |-> g.L]) /\ g' = [g EXCEPT !.fin = TRUE]
        /\ UNCHANGED <<l, cnt>>
Spec == Init /\ [][Next]_<<g, l, cnt>>
\* the canonical word is equivalent to every projection on two dependent letters, and canonical forms are fixed points
Proj(L, w, x, y) == SelectSeq(w, LAMBDA z : z \in {x, y})
Laws == \A k \in 1..N : LET s == g.prog[k]  v == g.reg[k] IN ~Bad(v) =>
   /\ NF(g.L, v.w) = v.w
   /\ s.op = "word" => \A x, y \in {Id(g.L, z) : z \in SetOf(s.w)} : Dep(g.L, x, y) => Proj(g.L, [q \in 1..Len(s.w) |-> Id(g.L, s.w[q])], x, y) = Proj(g.L, v.w, x, y)
(*--- judge -------------------------------------------------------------------------------*)
RECURSIVE Regs(_, _)
Regs(p, k) == IF k = 0 THEN <<>> ELSE LET rs == Regs(p, k - 1)  st == p.steps[k] IN Append(rs, Step(p.ty, p.L, st, [m \in 1..Len(st.r) |-> rs[st.r[m]]]))
\* the order of the factors that were written is kept: the observed operands spell the same word
ValOk(p, v, o) == IF Bad(v) THEN o.c = 0 ELSE p.ty = "rw" \/ (o.c = v.c /\ NF(p.L, o.w) = v.w)
PairBad(p, rs, i, j) == LET same == rs[i] = rs[j] IN
  IF Bad(rs[i]) \/ Bad(rs[j]) THEN "ok"
  ELSE IF same /\ p.eq[i] # p.eq[j] THEN "equal-spellings-differ"
  ELSE IF ~same /\ p.ty # "rw" /\ p.eq[i] = p.eq[j] THEN "different-words-equal"
  ELSE IF same /\ p.hash[i] # p.hash[j] THEN "hash"
  ELSE IF same /\ p.print[i] # p.print[j] THEN "printing" ELSE "ok"
Bads(p0) ==
  LET p == [p0 EXCEPT !.L = [k \in 1..Len(@) |-> [@[k] EXCEPT !.sp = SetOf(@)]]]
      rs == Regs(p, Len(p.steps)) IN
  {[k |-> k, c |-> "factors"] : k \in {k \in 1..Len(rs) : ~ValOk(p, rs[k], p.res[k])}}
  \cup {x \in {[k |-> k, c |-> PairBad(p, rs, k, j)] : k \in 1..Len(rs), j \in 1..Len(rs)} : x.c # "ok"}
Obs(p) == Len(p.res) * 2
=============================================================================
