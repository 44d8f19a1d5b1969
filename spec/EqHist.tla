------------------------------- MODULE EqHist --------------------------------
(* Equations and their histories.  A side denotes a polynomial in non-commuting *)
(* letters; an equation is a list of lines (left side or "same as before", right *)
(* side, tag).  Steps build new equations from earlier ones, branching freely;   *)
(* no step changes an earlier equation.                                          *)
EXTENDS QBase
CONSTANTS MaxLen
\* polynomials: sets of pairs <<word, coefficient>>
Words(p) == {x[1] : x \in p}
Coef(p, w) == LET s == {x \in p : x[1] = w} IN IF s = {} THEN 0 ELSE (CHOOSE x \in s : TRUE)[2]
Clean(p) == {x \in p : x[2] # 0}
Plus(p, q) == Clean({<<w, Coef(p, w) + Coef(q, w)>> : w \in Words(p) \cup Words(q)})
Scale(c, p) == Clean({<<x[1], c * x[2]>> : x \in p})
RECURSIVE PMulS(_, _)
PMulS(S, q) == IF S = {} THEN {} ELSE LET x == CHOOSE x \in S : TRUE IN
               Plus({<<x[1] \o y[1], x[2] * y[2]>> : y \in q}, PMulS(S \ {x}, q))
PMul(p, q) == PMulS(p, q)
Mono(w) == {<<w, 1>>}
RECURSIVE PProd(_)
PProd(s) == IF s = <<>> THEN Mono(<<>>) ELSE PMul(s[1], PProd(Tail(s)))
\* replace letter x by the polynomial q (under a dagger too)
PDag(p) == {<<[k \in 1..Len(x[1]) |-> -x[1][Len(x[1]) + 1 - k]], x[2]>> : x \in p}
RECURSIVE SubstS(_, _, _)
SubstS(S, y, q) == IF S = {} THEN {} ELSE LET t == CHOOSE t \in S : TRUE IN
  Plus(Scale(t[2], PProd([k \in 1..Len(t[1]) |-> IF t[1][k] = y THEN q ELSE IF t[1][k] = -y THEN PDag(q) ELSE Mono(<<t[1][k]>>)])), SubstS(S \ {t}, y, q))
F(f, p) == CASE f.f = "plus" -> Plus(p, f.q) [] f.f = "minus" -> Plus(p, Scale(-1, f.q)) [] f.f = "times" -> Scale(f.c, p)
             [] f.f = "right" -> PMul(p, f.q) [] f.f = "left" -> PMul(f.q, p) [] f.f = "square" -> PMul(p, p)
             [] f.f = "subst" -> SubstS(p, f.x, f.q) [] f.f = "adjoint" -> PDag(p)
             [] f.f \in {"expand", "id", "simplify_scalar"} -> p
Deg(p) == IF p = {} THEN 0 ELSE LET n == {Len(x[1]) : x \in p} IN CHOOSE m \in n : \A j \in n : j <= m
(* an equation: [l, r: polynomials, h: lines], a line is [l, r, t] with l = 0 if  *)
(* the left side is not repeated; l and r of lines are numbers of expressions     *)
Both(f, e, side) == [l |-> IF side = "r" THEN e.l ELSE F(f, e.l), r |-> IF side = "l" THEN e.r ELSE F(f, e.r)]
Value(st, es) ==
  CASE st.op = "new" -> [l |-> st.l, r |-> st.q]
    [] st.op \in {"ap", "mtd", "substitute", "arith"} -> Both(st.f, es[st.a], st.side)
    [] st.op \in {"settag", "copy"} -> es[st.a]
    [] st.op = "add" -> [l |-> Plus(es[st.a].l, es[st.b].l), r |-> Plus(es[st.a].r, es[st.b].r)]
    [] st.op = "sub" -> [l |-> Plus(es[st.a].l, Scale(-1, es[st.b].l)), r |-> Plus(es[st.a].r, Scale(-1, es[st.b].r))]
(*--- generator ----------------------------------------------------------------------*)
RE(x) == RandomElement(x)
RandP(n, d) == LET k == RE(1..n) IN Clean({<<[j \in 1..RE(0..d) |-> RE({1, 2, 3, 4, 1, 2, 3, 4, -1})], RE({1, 1, 2, -1, 3})>> : q \in 1..k})
Fun(p) == \A x, y \in p : x[1] = y[1] => x = y
RP(n, d) == LET p == RandP(n, d) IN IF Fun(p) THEN p ELSE Mono(<<2>>)
RandF == LET w == RE(1..10) IN
  CASE w = 1 -> [f |-> "plus", q |-> RP(2, 2)] [] w = 2 -> [f |-> "minus", q |-> RP(2, 1)] [] w = 3 -> [f |-> "times", c |-> RE({2, 3, -1, 1})]
    [] w = 4 -> [f |-> "right", q |-> RP(2, 1)] [] w = 5 -> [f |-> "left", q |-> RP(2, 1)] [] w = 6 -> [f |-> "square"]
    [] w = 7 -> [f |-> "subst", x |-> RE(1..4), q |-> RP(1, 1)] [] w = 8 -> [f |-> "adjoint"] [] OTHER -> [f |-> RE({"expand", "id", "simplify_scalar"})]
N == Len(g.es)
Tag == RE({"", "", "7", "A", "B.2", "1000", "x y"})
Rec == [cont |-> RE(BOOLEAN), tag |-> Tag, side |-> RE({"b", "b", "l", "r"}), a |-> IF RE(1..2) = 1 THEN N ELSE RE(1..N), b |-> RE(1..N)]
Choice == IF N = 0 THEN [op |-> "new", l |-> RP(3, 2), q |-> RP(3, 2), tag |-> Tag]
          ELSE LET w == RE(1..14)  r == Rec  f == RandF IN
   CASE w = 1 -> [op |-> "new", l |-> RP(3, 2), q |-> RP(3, 2), tag |-> Tag]
     [] w = 2 -> LET p == RP(3, 2) IN [op |-> "new", l |-> p, q |-> p, tag |-> Tag]
     [] w <= 6 -> r @@ [op |-> "ap", f |-> f]
     [] w <= 8 -> r @@ [op |-> "mtd", f |-> RE({[f |-> "expand"], [f |-> "simplify_scalar"], [f |-> "adjoint"], [f |-> "subst", x |-> RE(1..4), q |-> RP(1, 1)]})]
     [] w = 9 -> [r EXCEPT !.side = "b"] @@ [op |-> "substitute", f |-> [f |-> "subst", x |-> RE(1..4), q |-> RP(2, 1)]]
     [] w = 10 -> r @@ [op |-> "settag"] [] w = 11 -> r @@ [op |-> "copy"]
     [] w = 12 -> r @@ [op |-> RE({"add", "sub"})]
     [] OTHER -> [r EXCEPT !.side = "b"] @@ [op |-> "arith", f |-> RE({[f |-> "plus", q |-> RP(2, 1)], [f |-> "minus", q |-> RP(2, 1)], [f |-> "times", c |-> RE({2, 3, -1})],
                                                    [f |-> "right", q |-> RP(1, 1)], [f |-> "left", q |-> RP(1, 1)], [f |-> "plus", q |-> {<< <<>>, RE(1..3)>>}]})]
Small(v) == Deg(v.l) <= 5 /\ Deg(v.r) <= 5 /\ Cardinality(v.l) <= 12 /\ Cardinality(v.r) <= 12
Init == g = [prog |-> <<>>, es |-> <<>>, fin |-> FALSE] /\ Idle
Next == /\ \/ N < MaxLen /\ \E s \in {Choice} : \E v \in {Value(s, g.es)} :
                 g' = IF Small(v) THEN [g EXCEPT !.prog = Append(@, s), !.es = Append(@, v)] ELSE g
           \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> g.prog]) /\ g' = [g EXCEPT !.fin = TRUE]
        /\ UNCHANGED <<l, cnt>>
Spec == Init /\ [][Next]_<<g, l, cnt>>
\* a valid equation stays valid under transformations of both sides
Laws == \A k \in 1..N : LET s == g.prog[k] IN
   /\ Fun(g.es[k].l) /\ Fun(g.es[k].r)
   /\ (s.op \in {"ap", "mtd", "substitute", "arith"} /\ s.side = "b" /\ g.es[s.a].l = g.es[s.a].r) => g.es[k].l = g.es[k].r
   /\ (s.op \in {"add", "sub"} /\ g.es[s.a].l = g.es[s.a].r /\ g.es[s.b].l = g.es[s.b].r) => g.es[k].l = g.es[k].r
(*--- judge --------------------------------------------------------------------------------*)
Pol(q) == {<<x[1], x[2]>> : x \in SetOf(q)}
FF(f) == IF "q" \in DOMAIN f THEN [f EXCEPT !.q = Pol(@)] ELSE f
St(s) == LET t == IF "f" \in DOMAIN s THEN [s EXCEPT !.f = FF(@)] ELSE s IN
         IF t.op = "new" THEN [t EXCEPT !.l = Pol(@), !.q = Pol(@)] ELSE t
RECURSIVE Vals(_, _)
Vals(p, k) == IF k = 0 THEN <<>> ELSE LET es == Vals(p, k - 1) IN Append(es, Value(St(p.steps[k]), es))
\* lines of the equation made by step k; o.fl, o.fr: expressions obtained by applying the step to the sides directly
RECURSIVE Hist(_, _)
Hist(p, k) == LET s == p.steps[k]  o == p.obs[k] IN
  CASE s.op \in {"new", "add", "sub", "arith"} -> << [l |-> o.fl, r |-> o.fr, t |-> IF s.op = "new" THEN s.tag ELSE ""] >>
    [] s.op = "copy" -> Hist(p, s.a)
    [] s.op = "settag" -> LET h == Hist(p, s.a) IN [h EXCEPT ![Len(h)].t = s.tag]
    [] OTHER -> LET h == Hist(p, s.a)
                    same == s.cont /\ (s.side = "r" \/ (s.side = "b" /\ o.fl = p.obs[s.a].l))
                    line == [l |-> IF same THEN 0 ELSE o.fl, r |-> o.fr, t |-> s.tag]
                IN IF s.cont THEN Append(h, line) ELSE << line >>
RECURSIVE Sp(_)
Sp(n) == IF n <= 0 THEN "" ELSE " " \o Sp(n - 1)
MaxOf(s) == CHOOSE m \in SetOf(s) : \A j \in SetOf(s) : j <= m
Lines(p, h) == LET a == [k \in 1..Len(h) |-> IF h[k].l = 0 THEN "" ELSE p.text[h[k].l]]  b == [k \in 1..Len(h) |-> p.text[h[k].r]]
                   la == MaxOf([k \in 1..Len(h) |-> Len(a[k])])  lb == MaxOf([k \in 1..Len(h) |-> Len(b[k])]) IN
               [k \in 1..Len(h) |-> Sp(la - Len(a[k])) \o a[k] \o " = " \o b[k] \o
                                    (IF h[k].t = "" THEN "" ELSE Sp(lb - Len(b[k])) \o "    (" \o h[k].t \o ")")]
One(p, k, v) == LET o == p.obs[k]  h == Hist(p, k) IN
  IF o.err # "" THEN "error"
  ELSE IF Pol(p.poly[o.l]) # v.l THEN "left-side" ELSE IF Pol(p.poly[o.r]) # v.r THEN "right-side"
  ELSE IF o.l # o.fl \/ o.r # o.fr THEN "side-is-not-the-image"
  ELSE IF o.tag # h[Len(h)].t THEN "tag"
  ELSE IF o.lines # Lines(p, h) THEN "printed-history"
  ELSE IF o.zero # (v.l = v.r) THEN "verify" ELSE IF o.vf # (v.l = v.r) THEN "verify-function"
  ELSE IF o.dict # <<o.l, o.r>> THEN "as_dict" ELSE IF o.again # o.lines THEN "changed-by-use" ELSE "ok"
Bads(p) == LET vs == Vals(p, Len(p.steps)) IN
  {x \in {[k |-> k, c |-> One(p, k, vs[k])] : k \in 1..Len(vs)} : x.c # "ok"}
  \cup {[k |-> q[1], c |-> "equality"] : q \in {q \in (1..Len(vs)) \X (1..Len(vs)) :
          p.eq[q[1]][q[2]] # (p.obs[q[1]].l = p.obs[q[2]].l /\ p.obs[q[1]].r = p.obs[q[2]].r)}}
Obs(p) == Len(p.obs) * 3
=============================================================================
