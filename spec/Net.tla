---------------------------------- MODULE Net --------------------------------
(* connect(): a list of components and a list of connections from output ports  *)
(* to input ports, against the network in which exactly these ports are joined. *)
(* A component is [k, n, l, p]; a connection [o, i] of two port references      *)
(* [c: component number, by: "ix"/"ob", p: port, pn: port name or ""].          *)
EXTENDS Circ
CONSTANTS MaxC, MaxW
\* ports of named components
Names(c, dir) == CASE c.k = "bs" -> IF dir = "o" THEN <<"tr", "rf">> ELSE <<"in", "vac">>
                   [] c.k \in {"ph", "dr"} -> IF dir = "o" THEN <<"out">> ELSE <<"in">> [] OTHER -> <<>>
CompDim(c) == CASE c.k \in {"sym", "id"} -> c.n [] c.k = "bs" -> 2 [] c.k \in {"ph", "dr"} -> 1 [] c.k = "perm" -> Len(c.p) [] c.k = "two" -> c.n + 1 [] c.k = "up" -> c.n
CompVal(c, h) ==
  LET m(s, n) == Model(Mix(Mix(h, s), n), n, D) IN
  CASE c.k = "sym" -> m(c.l, c.n) [] c.k = "id" -> CPass(c.n, D) [] c.k = "bs" -> m(20 + c.l, 2) [] c.k = "ph" -> m(30 + c.l, 1) [] c.k = "dr" -> Drive(c.l, D)
    [] c.k = "perm" -> CPerm(c.p, D) [] c.k = "two" -> Concat(m(c.l, c.n), m(c.l, 1)) [] c.k = "up" -> Series(m(c.l, c.n), m(c.l + 1, c.n))
(*--- generator -------------------------------------------------------------------*)
RComp == LET k == RE(IF g.n < 0 THEN {} ELSE {"sym", "sym", "bs", "ph", "dr", "perm", "two", "up", "id"}) IN
  [k |-> IF RE(1..3) = 1 THEN "sym" ELSE k, n |-> RE({1, 2, 2, 3}), l |-> RE(1..2), p |-> IF k = "perm" THEN RandPerm(0..RE(1..2)) ELSE <<>>]
\* a reference to port x of component c, as the user may write it
RECURSIVE CList(_)
CList(n) == IF n = 0 THEN <<>> ELSE Append(CList(n - 1), RComp)
Off(cs, k) == FoldSeq(+, 0, [j \in 1..k - 1 |-> CompDim(cs[j])])
CompOf(cs, x) == CHOOSE k \in 1..Len(cs) : Off(cs, k) <= x /\ x < Off(cs, k) + CompDim(cs[k])
Ref(cs, x, dir) == LET c == CompOf(cs, x)  p == x - Off(cs, c)  nm == Names(cs[c], dir) IN
  [c |-> c, by |-> RE({"ix", "ob"}), p |-> p, pn |-> IF nm # <<>> /\ RE(1..2) = 1 THEN nm[p + 1] ELSE ""]
\* sometimes the reference is spoilt
Spoil(cs, f) == CASE RE(1..40) = 1 -> [f EXCEPT !.p = CompDim(cs[f.c]), !.pn = ""] [] RE(1..40) = 1 -> [f EXCEPT !.p = -1, !.pn = ""]
                  [] RE(1..40) = 1 -> [f EXCEPT !.pn = RE({"in", "out", "tr", "vac", "x"})] [] RE(1..40) = 1 -> [f EXCEPT !.c = RE({0, Len(cs) + 1})]
                  [] OTHER -> f
RECURSIVE RConn(_, _, _, _)
RConn(cs, os, is, n) == IF n = 0 THEN <<>> ELSE
  LET o == RE(os)  i == RE(is)  keep == RE(1..25) = 1 IN
  TLCEval(<<[o |-> Spoil(cs, Ref(cs, o, "o")), i |-> Spoil(cs, Ref(cs, i, "i"))]>>
          \o RConn(cs, IF keep THEN os ELSE os \ {o}, IF RE(1..25) = 1 THEN is ELSE is \ {i}, n - 1))
Width(cs) == Off(cs, Len(cs) + 1)
NInit == g = [n |-> 0, cs |-> <<>>] /\ Idle
NNext == /\ \/ g.n = 0 /\ \E cs \in {CList(RE(1..MaxC))} : g' = [n |-> IF Width(cs) \in 2..MaxW THEN 1 ELSE 0, cs |-> cs]
            \/ g.n = 1 /\ \E w \in {Width(g.cs)} : \E m \in {RE(1..w - (IF RE(1..8) = 1 THEN 0 ELSE 1))} :
                 Emit([steps |-> <<[comps |-> g.cs, conns |-> RConn(g.cs, 0..w - 1, 0..w - 1, m)]>>]) /\ g' = [g EXCEPT !.n = 2]
         /\ UNCHANGED <<l, cnt>>
NSpec == NInit /\ [][NNext]_<<g, l, cnt>>
(*--- the network -------------------------------------------------------------------*)
\* the same component at several places
Equal(a, b) == /\ a.k = b.k /\ CompDim(a) = CompDim(b)
               /\ CASE a.k = "perm" -> a.p = b.p [] a.k = "id" -> TRUE [] OTHER -> a.l = b.l
\* special cases in which two ways of writing give the same circuit
Sig(c) == CASE c.k = "perm" /\ c.p = Perm0(Len(c.p)) -> [k |-> "id", n |-> Len(c.p), l |-> 0, p |-> <<>>] [] c.k = "two" /\ c.n < 1 -> c [] OTHER -> c
Count(cs, c) == Cardinality({k \in 1..Len(cs) : Equal(Sig(cs[k]), Sig(c))})
Port(cs, f, dir) == \* global number; -1: invalid reference
  IF f.c \notin 1..Len(cs) THEN -1
  ELSE IF f.by = "ob" /\ Count(cs, cs[f.c]) > 1 THEN -1
  ELSE IF f.pn # "" THEN LET nm == Names(cs[f.c], dir)  s == {k \in 1..Len(nm) : nm[k] = f.pn} IN IF s = {} THEN -1 ELSE Off(cs, f.c) + (CHOOSE k \in s : TRUE) - 1
  ELSE IF f.p < 0 \/ f.p >= CompDim(cs[f.c]) THEN -1 ELSE Off(cs, f.c) + f.p
Lower(x, s) == Cardinality({y \in s : y < x})
RECURSIVE Wire(_, _, _, _, _)
Wire(v, os, is, k, r) == \* connects k, k+1, ...; r.iso: some loop involves nothing else
  IF k > Len(os) \/ IsNoM(v) THEN [r EXCEPT !.v = v]
  ELSE LET o == os[k] - Lower(os[k], {os[j] : j \in 1..k - 1})  i == is[k] - Lower(is[k], {is[j] : j \in 1..k - 1}) IN
       Wire(TLCEval(Feed(v, o, i)), os, is, k + 1, [r EXCEPT !.iso = @ \/ Isolated(v, o, i)])
Distinct(s) == \A j, k \in 1..Len(s) : j # k => s[j] # s[k]
NetBad(s, o, h) ==
  LET cs == s.comps
      os == [k \in 1..Len(s.conns) |-> Port(cs, s.conns[k].o, "o")]
      is == [k \in 1..Len(s.conns) |-> Port(cs, s.conns[k].i, "i")]
      valid == Distinct(os) /\ Distinct(is) /\ \A k \in 1..Len(os) : os[k] >= 0 /\ is[k] >= 0
  IN IF ~valid THEN (IF o.t.c = "err" THEN (IF o.t.l = "!ValueError" THEN "ok" ELSE "rejected-with " \o o.t.l) ELSE "not-rejected")
     ELSE LET w == Wire(ConcatAll([k \in 1..Len(cs) |-> CompVal(cs[k], h)], D), os, is, 1, [v |-> 0, iso |-> FALSE]) IN
          IF o.t.c = "err" THEN (IF w.iso \/ IsNoM(w.v) \/ Len(os) = Width(cs) THEN "ok" ELSE "raises " \o o.t.l)
          ELSE LET m == Mean(o.t, h) IN
               IF m.n = -2 THEN "inconsistent-dimensions"
               ELSE IF ~Same(m, w.v) THEN "meaning" ELSE IF o.n # Width(cs) - Len(os) THEN "cdim" ELSE "ok"
NBads(p) == {x \in {[k |-> k, c |-> NetBad(p.steps[k], p.res[k], Mix(p.id, 77))] : k \in 1..Len(p.steps)} : x.c # "ok"}
NObs(p) == Len(p.steps)
=============================================================================
