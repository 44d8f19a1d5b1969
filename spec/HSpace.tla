------------------------------- MODULE HSpace -------------------------------
(* The lattice of Hilbert spaces: a space is the set of its local factors, or   *)
(* the full space, which contains everything.  Spec generates programs that     *)
(* build spaces; TSpec consumes what the real code answered about every space   *)
(* and every pair of spaces of a program.                                       *)
EXTENDS QBase

CONSTANTS MaxLen, Locals      \* number of steps; local factors used
\* oi: order index (99: none), lb: label, b: basis labels (<<>>: no basis), i: integer labels allowed
L(oi, lb, b, spin) == [oi |-> oi, lb |-> lb, b |-> b, spin |-> spin]
Tab == <<L(99, "a", <<"0", "1">>, FALSE), L(99, "b", <<"g", "e", "r">>, FALSE), L(99, "0", <<>>, FALSE), L(1, "c", <<"0", "1", "2">>, FALSE),
         L(99, "s", <<"-1/2", "+1/2">>, TRUE), L(99, "10", <<"0", "1">>, FALSE), L(99, "a", <<>>, FALSE), L(0, "q", <<"0", "1">>, FALSE),
         L(99, "s", <<"-", "+">>, TRUE), L(99, "2", <<"0">>, FALSE), L(1, "b", <<"e", "g">>, FALSE)>>
Full == {0}           \* as a set of factors: marked by 0
IsFull(v) == 0 \in v
Err(e) == "!" \o e
\* the lattice
Mul(vs) == IF \E k \in 1..Len(vs) : IsFull(vs[k]) THEN Full ELSE UNION {vs[k] : k \in 1..Len(vs)}
Le(a, b) == IsFull(b) \/ (~IsFull(a) /\ a \subseteq b)
Lt(a, b) == Le(a, b) /\ a # b
Disj(a, b) == ~IsFull(a) /\ ~IsFull(b) /\ a \cap b = {}
Meet(a, b) == IF IsFull(a) THEN b ELSE IF IsFull(b) THEN a ELSE a \cap b
Minus(a, b) == IF IsFull(b) THEN {} ELSE a \ b
Step(st, vs) ==
  CASE st.op = "local" -> {st.id}
    [] st.op = "trivial" -> {}
    [] st.op = "full" -> Full
    [] st.op \in {"mul", "tensor", "create"} -> Mul(vs)
    [] st.op \in {"and", "intersect"} -> Meet(vs[1], vs[2])
    [] st.op \in {"div", "remove"} -> Minus(vs[1], vs[2])
\* removing something from the full space is undefined
Defined(st, vs) == ~(st.op \in {"div", "remove"} /\ IsFull(vs[1]))
Before(x, y) == Tab[x].oi < Tab[y].oi \/ (Tab[x].oi = Tab[y].oi)
(*--- generator -------------------------------------------------------------------*)
prog == g.prog
reg == g.reg
N == Len(reg)
Binary == {"mul", "tensor", "and", "intersect", "div", "remove", "create"}
Insts == {[op |-> "local", id |-> q, r |-> <<>>] : q \in Locals} \cup {[op |-> o, r |-> <<>>] : o \in {"trivial", "full"}}
Ops == {[op |-> o, r |-> <<i, j>>] : o \in Binary, i \in 1..N, j \in 1..N} \cup
       {[op |-> o, r |-> <<i, j, k>>] : o \in {"create", "tensor"}, i \in 1..N, j \in 1..N, k \in 1..N}
Vals(st) == [m \in 1..Len(st.r) |-> reg[st.r[m]]]
Choice == IF N < 2 THEN RandomElement({s \in Insts : s.op = "local"})
          ELSE IF RandomElement(1..5) = 1 THEN RandomElement(Insts)
          ELSE IF RandomElement(1..3) = 1 THEN RandomElement({s \in Insts : s.op = "local"})
          ELSE LET good == {s \in Ops : Defined(s, Vals(s))}
                   new == {s \in good : Step(s, Vals(s)) \notin {reg[m] : m \in 1..N}}
               IN RandomElement(IF RandomElement(1..3) = 1 \/ new = {} THEN good ELSE new)
Init == g = [prog |-> <<>>, reg |-> <<>>, fin |-> FALSE] /\ Idle
Next == /\ \/ N < MaxLen /\ \E s \in {Choice} : g' = [g EXCEPT !.prog = Append(@, s), !.reg = Append(@, Step(s, Vals(s)))]
           \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> prog]) /\ g' = [g EXCEPT !.fin = TRUE]
        /\ UNCHANGED <<l, cnt>>
Spec == Init /\ [][Next]_<<g, l, cnt>>
\* laws of the machine itself, checked by TLC on all its states
Laws == \A i, j \in 1..N : LET a == reg[i]  b == reg[j] IN
          /\ Mul(<<a, b>>) = Mul(<<b, a>>) /\ Mul(<<a, a>>) = a /\ Mul(<<a, {}>>) = a /\ Mul(<<a, Full>>) = Full
          /\ Meet(a, b) = Meet(b, a) /\ Meet(a, Mul(<<a, b>>)) = a
          /\ (Le(a, b) <=> Mul(<<a, b>>) = b) /\ (Le(a, b) <=> Meet(a, b) = a)
(*--- trace validation --------------------------------------------------------------*)
RECURSIVE Regs(_, _)
Regs(p, k) == IF k = 0 THEN <<>> ELSE LET rs == Regs(p, k - 1)  st == p.steps[k] IN
              Append(rs, Step(st, [m \in 1..Len(st.r) |-> rs[st.r[m]]]))
NoBasis(v) == IsFull(v) \/ \E q \in v : Tab[q].b = <<>>
RECURSIVE Cart(_)
Cart(fs) == IF fs = <<>> THEN << <<>> >> ELSE
            LET rest == Cart(Tail(fs)) IN FlattenSeq([k \in 1..Len(Tab[fs[1]].b) |-> [m \in 1..Len(rest) |-> << <<fs[1], k - 1>> >> \o rest[m]]])
RECURSIVE Join(_)
Join(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "," \o Join(Tail(ls))
LabelOf(bs) == IF bs = <<>> THEN "0" ELSE Join([k \in 1..Len(bs) |-> Tab[bs[k][1]].b[bs[k][2] + 1]])
\* answers about one space; f: order of the factors that the code reports
Unary(v, o) ==
  LET f == o.factors  n == IF NoBasis(v) THEN 0 ELSE Len(Cart(f))  bss == IF NoBasis(v) THEN <<>> ELSE Cart(f)
      nb == Err("BasisNotSetError")
  IN IF IsFull(v) THEN
        IF o.factors # <<Err("AlgebraError")>> THEN "full-factors"
        ELSE IF o.dim # nb \/ o.labels # <<nb>> \/ o.states # <<nb>> \/ o.has THEN "full-basis" ELSE "ok"
     ELSE IF SetOf(f) # v \/ Len(f) # Cardinality(v) \/ o.len # Cardinality(v) THEN "factors"
     ELSE IF \E i \in 1..Len(f) - 1 : Tab[f[i]].oi > Tab[f[i + 1]].oi THEN "factor-order"
     ELSE IF o.has # ~NoBasis(v) THEN "has-basis"
     ELSE IF NoBasis(v) THEN (IF o.dim # nb \/ o.labels # <<nb>> \/ o.states # <<nb>> THEN "basis-not-set"
                              ELSE IF Cardinality(v) > 1 /\ \E k \in 1..Len(o.byidx) : o.idx[k] >= 0 /\ o.byidx[k] # <<nb>> THEN "basis-not-set"
                              ELSE IF Cardinality(v) = 1 /\ \E k \in 1..Len(o.byidx) : o.idx[k] >= 0 /\ o.byidx[k] # << <<f[1], o.idx[k]>> >> THEN "basis-state"
                              ELSE "ok")
     ELSE IF o.dim # n THEN "dimension"
     ELSE IF o.labels # [k \in 1..n |-> LabelOf(bss[k])] THEN "basis-labels"
     ELSE IF o.states # bss THEN "basis-states"
     ELSE IF \E k \in 1..Len(o.idx) : o.byidx[k] # (IF Len(f) = 1 /\ Tab[f[1]].spin THEN <<Err("TypeError")>>
                                                    ELSE IF o.idx[k] \in 0..n - 1 THEN bss[o.idx[k] + 1] ELSE <<Err("IndexError")>>) THEN "state-by-index"
     ELSE IF o.bylab # bss THEN "state-by-label"
     ELSE IF o.badlab # <<Err("KeyError")>> THEN "bad-label"
     ELSE IF Len(f) = 1 /\ \E q \in 1..Len(o.next) : LET x == o.next[q]  t == x.k + x.n IN
                x.lab # (IF t \in 0..n - 1 THEN Tab[f[1]].b[t + 1] ELSE Err("IndexError")) \/
                x.idx # (IF t \in 0..n - 1 THEN (IF Tab[f[1]].spin THEN Tab[f[1]].b[t + 1] ELSE ToString(t)) ELSE Err("IndexError")) THEN "next-label"
     ELSE "ok"
Pair(a, b, o) ==
  IF o.eq # (a = b) THEN "eq" ELSE IF o.ne # (a # b) THEN "ne" ELSE IF a = b /\ ~o.hash THEN "hash"
  ELSE IF o.le # Le(a, b) \/ o.itf # Le(a, b) THEN "le" ELSE IF o.lt # Lt(a, b) \/ o.istf # Lt(a, b) \/ o.issf # Lt(a, b) THEN "lt"
  ELSE IF o.ge # Le(b, a) THEN "ge" ELSE IF o.gt # Lt(b, a) THEN "gt"
  \* the trivial space counts as not disjoint from the full space
  ELSE IF o.dis # Disj(a, b) THEN "isdisjoint"
  ELSE IF \E w \in {<<o.mul, Mul(<<a, b>>)>>, <<o.meet, Meet(a, b)>>, <<o.rem, IF IsFull(a) THEN {-1} ELSE Minus(a, b)>>} : SetOf(w[1]) # w[2] THEN "operation"
  ELSE "ok"
Bads(p) ==
  LET rs == Regs(p, Len(p.steps)) IN
  {[k |-> k, c |-> c] : k \in {k \in 1..Len(rs) : SetOf(p.res[k]) # rs[k]}, c \in {"value"}}
  \cup {x \in {[k |-> k, c |-> Unary(rs[k], p.un[k])] : k \in 1..Len(rs)} : x.c # "ok"}
  \cup {x \in {[k |-> p.pair[q].i, c |-> Pair(rs[p.pair[q].i], rs[p.pair[q].j], p.pair[q])] : q \in 1..Len(p.pair)} : x.c # "ok"}
Obs(p) == Len(p.un) + Len(p.pair)
=============================================================================
