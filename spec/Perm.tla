-------------------------------- MODULE Perm ---------------------------------
(* Channel permutations: a permutation is the function from input to output    *)
(* channels.  Programs build permutations from each other (register machine),   *)
(* and ask for blocks, cycles and factorisations of them.                       *)
EXTENDS QBase
CONSTANTS MaxLen, MaxN
At(p, k) == p[k + 1]
Rng(n) == [k \in 1..n |-> k - 1]
IsPerm(p) == SetOf(p) = 0..Len(p) - 1
Comp(a, b) == [k \in 1..Len(b) |-> At(a, b[k])]
Inv(p) == [k \in 1..Len(p) |-> CHOOSE j \in 0..Len(p) - 1 : At(p, j) = k - 1]
Plus(a, b) == a \o [k \in 1..Len(b) |-> b[k] + Len(a)]
RECURSIVE PlusAll(_)
PlusAll(ps) == IF ps = <<>> THEN <<>> ELSE Plus(ps[1], PlusAll(Tail(ps)))
Drop(x, q) == IF x > q THEN x - 1 ELSE x        \* renumber after removing q
\* connect output o with input i
Feed(p, o, i) == [k \in 1..Len(p) - 1 |-> LET j == IF k - 1 < i THEN k - 1 ELSE k
                                              t == IF At(p, j) = o THEN At(p, i) ELSE At(p, j) IN Drop(t, o)]
Asc(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
\* partial mapping given as pairs <<in, out>>; the other channels keep their order
MapP(m, n) == LET ins == {m[k][1] : k \in 1..Len(m)}  outs == {m[k][2] : k \in 1..Len(m)}
                  fi == Asc((0..n - 1) \ ins)  fo == Asc((0..n - 1) \ outs)
              IN [k \in 1..n |-> IF k - 1 \in ins THEN (CHOOSE q \in SetOf(m) : q[1] = k - 1)[2]
                                 ELSE fo[CHOOSE j \in 1..Len(fi) : fi[j] = k - 1]]
MapOk(m, n) == /\ \A k \in 1..Len(m) : m[k][1] < n /\ m[k][2] < n
               /\ Cardinality({m[k][2] : k \in 1..Len(m)}) = Len(m)
\* n channels pass at position k
Pad(p, k, n) == LET up(x) == IF x < k THEN x ELSE x + n IN
                [j \in 1..Len(p) + n |-> IF j - 1 < k THEN up(At(p, j - 1)) ELSE IF j - 1 < k + n THEN j - 1 ELSE up(At(p, j - 1 - n))]
\* positions where a permutation falls apart
Cuts(p) == {k \in 1..Len(p) : {p[j] : j \in 1..k} = 0..k - 1}
Piece(p, a, b) == [j \in 1..b - a |-> p[a + j] - a]
RECURSIVE CutAt(_, _, _)
CutAt(p, cs, a) == IF cs = <<>> THEN <<>> ELSE <<Piece(p, a, cs[1])>> \o CutAt(p, Tail(cs), cs[1])
BlocksOf(p) == CutAt(p, Asc(Cuts(p)), 0)
RECURSIVE Sums(_, _)
Sums(s, a) == IF s = <<>> THEN <<>> ELSE <<a + s[1]>> \o Sums(Tail(s), a + s[1])
BlocksLike(p, s) == CutAt(p, Sums(s, 0), 0)
LikeOk(p, s) == SetOf(Sums(s, 0)) \subseteq Cuts(p) /\ Len(p) \in SetOf(Sums(s, 0))
\* blocks of sizes s are moved as a whole: block k goes to position bp[k]
FullBlock(bp, s) == LET off(t) == FoldSeq(+, 0, [j \in 1..t |-> s[At(Inv(bp), j - 1) + 1]]) IN
                    FlattenSeq([k \in 1..Len(s) |-> [j \in 1..s[k] |-> off(bp[k]) + j - 1]])
RECURSIVE Cyc(_, _, _)
Cyc(p, a, x) == IF At(p, x) = a THEN <<x>> ELSE <<x>> \o Cyc(p, a, At(p, x))
Cycles(p) == LET firsts == {a \in 0..Len(p) - 1 : \A x \in SetOf(Cyc(p, a, a)) : a <= x} IN
             LET fs == Asc(firsts) IN [k \in 1..Len(fs) |-> Cyc(p, fs[k], fs[k])]
\* value of a step that defines a permutation
Step(st, vs) ==
  CASE st.op = "perm" -> st.p
    [] st.op \in {"series", "compose", "serperm"} -> Comp(vs[1], vs[2])
    [] st.op \in {"plus", "concat"} -> Plus(vs[1], vs[2])
    [] st.op \in {"inv", "invert"} -> Inv(vs[1])
    [] st.op = "fb" -> Feed(vs[1], st.o, st.i)
    [] st.op = "map" -> MapP(st.m, st.n)
    [] st.op = "extract" -> MapP(<< <<st.k, st.n - 1>> >>, st.n)
    [] st.op = "pad" -> Pad(vs[1], st.k, st.n)
    [] st.op = "ident" -> Rng(st.n)
(*--- generator ----------------------------------------------------------------------*)
reg == g.reg
prog == g.prog
N == Len(reg)
Perms(n) == {[k \in 1..n |-> p[k] - 1] : p \in Permutations(1..n)}
RECURSIVE RandPerm(_)
RandPerm(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN TLCEval(<<x>> \o RandPerm(S \ {x}))
Sz(k) == Len(reg[k])
Rg == 1..N
RandMap(n) == LET a == RandPerm(0..n - 1)  b == RandPerm(0..n - 1)  k == RandomElement(0..n) IN TLCEval([j \in 1..k |-> <<a[j], b[j]>>])
Pick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
StepsOf(c) ==
  CASE c = 1 -> {[op |-> "perm", r |-> <<>>, p |-> RandPerm(0..RandomElement(1..MaxN) - 1)]}
    [] c = 2 -> {[op |-> RandomElement({"series", "series", "compose", "serperm"}), r |-> x] : x \in Pick({<<i, j>> \in Rg \X Rg : Sz(i) = Sz(j) /\ Sz(i) > 0})}
    [] c = 3 -> {[op |-> RandomElement({"plus", "concat"}), r |-> x] : x \in Pick({<<i, j>> \in Rg \X Rg : Sz(i) + Sz(j) <= MaxN + 1})}
    [] c = 4 -> {[op |-> RandomElement({"inv", "invert"}), r |-> <<i>>] : i \in Pick(Rg)}
    [] c = 5 -> {[op |-> "fb", r |-> <<i>>, o |-> RandomElement(0..Sz(i) - 1), i |-> RandomElement(0..Sz(i) - 1)] : i \in Pick({i \in Rg : Sz(i) > 1})}
    [] c = 6 -> {[op |-> "map", r |-> <<>>, n |-> n, m |-> RandMap(n)] : n \in Pick(1..MaxN)}
    [] c = 7 -> {[op |-> "extract", r |-> <<>>, n |-> n, k |-> RandomElement(0..n - 1)] : n \in Pick(1..MaxN)}
    [] c = 8 -> {[op |-> "pad", r |-> <<i>>, n |-> RandomElement(1..2), k |-> RandomElement(0..Sz(i))] : i \in Pick({i \in Rg : Sz(i) \in 1..MaxN - 1})}
    [] c = 9 -> {[op |-> "ident", r |-> <<>>, n |-> n] : n \in Pick(1..MaxN)}
Choice == LET c == IF N < 2 THEN 1 ELSE RandomElement({1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
              s == StepsOf(IF c = 10 THEN 2 ELSE IF c = 11 THEN 2 ELSE IF c = 12 THEN 5 ELSE c)
          IN IF s = {} THEN StepsOf(1) ELSE s
\* a random structure of blocks of n channels
RECURSIVE RandStruct(_)
RandStruct(n) == IF n = 0 THEN <<>> ELSE LET x == RandomElement(1..n) IN TLCEval(<<x>> \o RandStruct(n - x))
RandTuple(n) == TLCEval([k \in 1..n |-> RandomElement(0..n)])
RandBadMap(n) == TLCEval([k \in 1..RandomElement(1..3) |-> <<k - 1, RandomElement(0..n)>>])
Asks(rs) == [blocks |-> TLCEval([k \in 1..Len(rs) |-> RandStruct(Len(rs[k]))]),
             coarse |-> TLCEval([k \in 1..Len(rs) |-> LET c == Asc(Cuts(rs[k]))  T == RandomElement(SUBSET Cuts(rs[k]))
                                                          b == Asc(T \cup (IF rs[k] = <<>> THEN {} ELSE {Len(rs[k])}))
                                                      IN [j \in 1..Len(b) |-> b[j] - (IF j = 1 THEN 0 ELSE b[j - 1])]]),
             tuples |-> TLCEval([k \in 1..4 |-> RandTuple(RandomElement(1..4))]),
             bad |-> TLCEval([k \in 1..3 |-> LET n == RandomElement(2..4) IN [n |-> n, m |-> RandBadMap(n)]]),
             bperm |-> TLCEval([k \in 1..3 |-> LET s == RandStruct(RandomElement(2..6)) IN [s |-> s, p |-> RandPerm(0..Len(s) - 1)]])]
Init == g = [prog |-> <<>>, reg |-> <<>>, fin |-> FALSE] /\ Idle
Next == /\ \/ N < MaxLen /\ \E s \in Choice : LET v == Step(s, [m \in 1..Len(s.r) |-> reg[s.r[m]]]) IN
                              /\ g' = [g EXCEPT !.prog = Append(@, s), !.reg = Append(@, v)]
           \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> prog, ask |-> Asks(reg)]) /\ g' = [g EXCEPT !.fin = TRUE]
        /\ UNCHANGED <<l, cnt>>
Spec == Init /\ [][Next]_<<g, l, cnt>>
Laws == \A k \in 1..N : LET p == reg[k] IN
   /\ IsPerm(p) /\ Comp(p, Inv(p)) = Rng(Len(p)) /\ PlusAll(BlocksOf(p)) = p
   /\ \A o, i \in 0..Len(p) - 1 : Feed(p, o, i) = Inv(Feed(Inv(p), i, o)) /\ (At(p, i) = o => Feed(p, o, i) = [j \in 1..Len(p) - 1 |-> Drop(At(p, IF j - 1 < i THEN j - 1 ELSE j), o)])
(*--- judge -------------------------------------------------------------------------------*)
RECURSIVE Regs(_, _)
Regs(p, k) == IF k = 0 THEN <<>> ELSE LET rs == Regs(p, k - 1)  st == p.steps[k] IN Append(rs, Step(st, [m \in 1..Len(st.r) |-> rs[st.r[m]]]))
Rank(s) == [k \in 1..Len(s) |-> Cardinality({j \in 1..Len(s) : s[j] < s[k]})]
SubImg(p, s, k) == LET a == IF k = 1 THEN 0 ELSE Sums(s, 0)[k - 1] IN SubSeq(p, a + 1, a + s[k])
Contig(q) == \E a \in 0..40 : SetOf(q) = a..a + Len(q) - 1
Un(v, o, st, sc) ==
  IF v = <<>> THEN "ok"
  ELSE IF o.cdim # Len(v) THEN "cdim"
  ELSE IF o.blocks # BlocksOf(v) \/ o.struct # [k \in 1..Len(BlocksOf(v)) |-> Len(BlocksOf(v)[k])] THEN "blocks"
  ELSE IF o.like # (IF LikeOk(v, st) THEN BlocksLike(v, st) ELSE << <<-1>> >>) THEN "blocks-of-structure"
  ELSE IF o.likec # BlocksLike(v, sc) THEN "blocks-of-coarser-structure"
  ELSE IF o.ublocks # BlocksOf(v) THEN "permutation_to_block_permutations"
  ELSE IF o.cycles # Cycles(v) THEN "cycles" ELSE IF o.uncyc # v THEN "from-cycles"
  ELSE IF o.perm # [k \in 1..Len(v) |-> 100 + v[k]] \/ o.permt # o.perm \/ o.perms # v THEN "permute"
  ELSE IF ~IsPerm(o.bp) \/ Len(o.bp) # Len(st) \/ \E k \in 1..Len(st) : o.within[k] # Rank(SubImg(v, st, k)) THEN "within-blocks"
  ELSE IF (\A k \in 1..Len(st) : Contig(SubImg(v, st, k))) /\ Comp(FullBlock(o.bp, st), PlusAll(o.within)) # v THEN "block-permutation"
  ELSE IF \E k \in 0..Len(v) - 1 : LET x == o.frhs[k + 1] IN x # << <<-9>> >> /\ (x = << <<-1>> >> \/ 
            (x[1] # <<At(v, k)>> \/ Comp(v, MapP(<< <<Len(v) - 1, k>> >>, Len(v))) # Comp(MapP(<< <<Len(v) - 1, At(v, k)>> >>, Len(v)), Plus(x[2], <<0>>)))) THEN "factor_rhs"
  ELSE IF \E k \in 0..Len(v) - 1 : LET x == o.flhs[k + 1] IN x # << <<-9>> >> /\ (x = << <<-1>> >> \/ 
            (x[1] # <<At(Inv(v), k)>> \/ Comp(MapP(<< <<k, Len(v) - 1>> >>, Len(v)), v) # Comp(Plus(x[2], <<0>>), MapP(<< <<At(Inv(v), k), Len(v) - 1>> >>, Len(v))))) THEN "factor_lhs"
  ELSE "ok"
\* a loop of a single wire may be rejected
Closed(st, vs) == st.op = "fb" /\ At(vs[1], st.i) = st.o
Bads(p) ==
  LET rs == Regs(p, Len(p.steps)) IN
  {[k |-> k, c |-> "value"] : k \in {k \in 1..Len(rs) : p.res[k] # rs[k] /\ ~(p.res[k] = <<-1>> /\ Closed(p.steps[k], [m \in 1..Len(p.steps[k].r) |-> rs[p.steps[k].r[m]]]))}}
  \cup {x \in {[k |-> k, c |-> Un(rs[k], p.un[k], p.ask.blocks[k], p.ask.coarse[k])] : k \in 1..Len(rs)} : x.c # "ok"}
  \cup {[k |-> 0, c |-> "check_permutation"] : k \in {k \in 1..4 : p.tuples[k].ok # IsPerm(p.ask.tuples[k]) \/ p.tuples[k].new # (IF IsPerm(p.ask.tuples[k]) THEN p.ask.tuples[k] ELSE <<-2>>)}}
  \cup {[k |-> 0, c |-> "conflicting-map"] : k \in {k \in 1..3 : p.bad[k] # (IF MapOk(p.ask.bad[k].m, p.ask.bad[k].n) THEN MapP(p.ask.bad[k].m, p.ask.bad[k].n) ELSE <<-1>>)}}
  \cup {[k |-> 0, c |-> "full_block_perm"] : k \in {k \in 1..3 : p.bperm[k] # FullBlock(p.ask.bperm[k].p, p.ask.bperm[k].s)}}
Obs(p) == Len(p.res) * 12 + 10
=============================================================================
