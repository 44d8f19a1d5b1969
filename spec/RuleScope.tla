----------------------------- MODULE RuleScope -----------------------------
(* The rules that create() applies: per class an ordered list of named rules,   *)
(* changed by adding and deleting, and saved and restored by nested scopes.     *)
(* A state also determines the result of creating any expression (Make): no     *)
(* result may depend on what was created under other rules.                     *)
EXTENDS QBase
CONSTANTS MaxLen
\* classes: 1 OperatorTimes, 2 ScalarTimesOperator, 3 OperatorTimesKet, 4 OperatorPlus
Classes == 1..4
Builtin(names) == [k \in 1..Len(names) |-> [n |-> names[k], k |-> "builtin", v |-> 0]]
\* state: rules, custom simplifications (front of the list), caching flag, stack of saved states
State(init) == [ru |-> [c \in Classes |-> Builtin(init[c])], si |-> [c \in Classes |-> <<>>], ca |-> TRUE, st |-> <<>>]
Names(s) == {s[k].n : k \in 1..Len(s)}
Saved(s, cs, nic) == [cs |-> cs, ru |-> s.ru, si |-> s.si, ca |-> s.ca, nic |-> nic]
Leave(s) == LET f == s.st[Len(s.st)] IN
  [ru |-> [c \in Classes |-> IF c \in f.cs THEN f.ru[c] ELSE s.ru[c]],
   si |-> [c \in Classes |-> IF c \in f.cs THEN f.si[c] ELSE s.si[c]],
   ca |-> IF f.nic THEN f.ca ELSE s.ca, st |-> Front(s.st)]
RECURSIVE LeaveN(_, _)
LeaveN(s, n) == IF n = 0 THEN s ELSE LeaveN(Leave(s), n - 1)
R(s, res) == [s |-> s, res |-> res]
Step(s, t) ==
  CASE t.op = "add" -> IF t.n \in Names(s.ru[t.c]) THEN R(s, "!ValueError")
                       ELSE R([s EXCEPT !.ru[t.c] = Append(@, [n |-> t.n, k |-> t.k, v |-> t.v])], "ok")
    [] t.op = "bad" -> R(s, CASE t.w \in {"pattern", "name", "norules"} -> "!TypeError" [] t.w \in {"args", "head"} -> "!ValueError"
                              [] t.w \in {"attr", "delattr", "enter"} -> "!AttributeError" [] t.w = "del" -> "!KeyError")
    [] t.op = "del" -> IF t.ns = <<>> THEN R([s EXCEPT !.ru[t.c] = <<>>], "ok")
                       ELSE IF SetOf(t.ns) \subseteq Names(s.ru[t.c])
                       THEN R([s EXCEPT !.ru[t.c] = SelectSeq(@, LAMBDA r : r.n \notin SetOf(t.ns))], "ok") ELSE R(s, "!KeyError")
    [] t.op = "rules" -> R([s EXCEPT !.st = Append(@, Saved(s, SetOf(t.cs), FALSE)),
                                     !.ru = [c \in Classes |-> IF t.clear /\ c \in SetOf(t.cs) THEN <<>> ELSE s.ru[c]],
                                     !.si = [c \in Classes |-> IF c \in SetOf(t.si) THEN <<t.y>> \o s.si[c] ELSE s.si[c]]], "ok")
    [] t.op = "nocache" -> R([s EXCEPT !.st = Append(@, Saved(s, {}, TRUE)), !.ca = FALSE], "ok")
    [] t.op = "cache" -> R([s EXCEPT !.st = Append(@, Saved(s, {}, FALSE))], "ok")
    [] t.op \in {"exit", "raise"} -> R(LeaveN(s, t.k), "ok")
(*--- what create() makes under the visible rules ----------------------------------*)
T(f, a) == [f |-> f, a |-> a]
S(f) == T(f, <<>>)
Syms == {"U", "V", "W", "X1", "X2", "X3", "Y1", "Y2"}
IsSym(t) == t.f \in Syms
IsKet(t) == t.f \in {"psi", "phi1", "phi2", "phi3"}
OpRes(v) == IF v = 0 THEN S("Id") ELSE S("X" \o ToString(v))
KetRes(v) == S("phi" \o ToString(IF v = 0 THEN 3 ELSE v))
None == S("none")
Num(n) == S(ToString(n))
CMul(a, b) == IF a = S("2") /\ b = S("3") THEN S("6") ELSE IF a = S("1") THEN b ELSE IF b = S("1") THEN a ELSE S("?")
\* does the custom rule r match the operands x, y?  (rules of kind cs decline)
Fits(r, c, x, y) ==
  CASE r.k = "first" -> (IF c = 2 THEN x = Num(2) /\ y = S("U") ELSE x = S("U") /\ (IF c = 3 THEN y = S("psi") ELSE y = S("V")))
    [] r.k = "second" -> (IF c = 2 THEN x = Num(3) /\ IsSym(y) ELSE IF c = 3 THEN x = S("U") /\ IsKet(y) ELSE x = S("V") /\ IsSym(y))
    [] r.k = "any" -> (IF c = 2 THEN IsSym(y) ELSE IF c = 3 THEN IsSym(x) /\ IsKet(y) ELSE IsSym(x) /\ IsSym(y))
    [] r.k = "same" -> (IF c \in {1, 4} THEN x = y /\ IsSym(x) ELSE FALSE)
    [] OTHER -> FALSE
Res(r, c) == IF c = 3 THEN KetRes(r.v) ELSE OpRes(r.v)
RECURSIVE Make(_, _, _), Pair(_, _, _, _, _), Comb(_, _, _, _), Red(_, _, _)
\* replacement of a pair (x, y) by the rules of class c from position k on; None: no rule applies
Pair(s, c, x, y, k) ==
  IF k > Len(s.ru[c]) THEN None
  ELSE LET r == s.ru[c][k] IN
       IF r.k # "builtin" THEN (IF Fits(r, c, x, y) THEN Res(r, c) ELSE Pair(s, c, x, y, k + 1))
       ELSE IF c = 1 /\ r.n = "R001" /\ x.f = "S" THEN Make(s, 2, <<x.a[1], Make(s, 1, <<x.a[2], y>>)>>)
       ELSE IF c = 2 /\ r.n = "R001" /\ x = Num(1) THEN y
       ELSE IF c = 2 /\ r.n = "R004" /\ y.f = "S" THEN Make(s, 2, <<CMul(x, y.a[1]), y.a[2]>>)
       ELSE IF c = 3 /\ r.n = "R001" /\ x = S("Id") THEN y
       ELSE IF c = 3 /\ r.n = "R014" /\ y.f = "K" THEN
            (LET by == Make(s, 3, y.a) IN IF by = y THEN Make(s, 3, <<Make(s, 1, <<x, y.a[1]>>), y.a[2]>>) ELSE Make(s, 3, <<x, by>>))
       ELSE Pair(s, c, x, y, k + 1)
Args(c, t) == IF c = 1 /\ t.f = "T" THEN t.a ELSE <<t>>
Comb(s, c, a, b) ==
  IF a = <<>> \/ b = <<>> THEN a \o b
  ELSE LET r == Pair(s, c, a[Len(a)], b[1], 1) IN
       IF r = None THEN a \o b
       ELSE IF c = 1 /\ r = S("Id") THEN Comb(s, c, Front(a), Tail(b))
       ELSE Comb(s, c, Comb(s, c, Front(a), Args(c, r)), Tail(b))
Red(s, c, o) == IF Len(o) <= 1 THEN o ELSE LET h == Len(o) \div 2 IN Comb(s, c, Red(s, c, SubSeq(o, 1, h)), Red(s, c, SubSeq(o, h + 1, Len(o))))
Key(c, o) == IF c = 2 THEN o[2] ELSE o[1]
Make(s, c, o) ==
  IF s.si[c] # <<>> /\ Key(c, o) = S("U") THEN (IF c = 3 THEN S("phi3") ELSE S("Y" \o ToString(s.si[c][1])))
  ELSE IF c \in {2, 3} THEN LET r == Pair(s, c, o[1], o[2], 1) IN IF r = None THEN T(IF c = 2 THEN "S" ELSE "K", o) ELSE r
  ELSE LET flat == IF c = 1 THEN SelectSeq(FlattenSeq([k \in 1..Len(o) |-> Args(1, o[k])]), LAMBDA t : t # S("Id")) ELSE o
           f == Red(s, c, flat)
       IN IF f = <<>> THEN S("Id") ELSE IF Len(f) = 1 THEN f[1] ELSE T(IF c = 1 THEN "T" ELSE "P", f)
U == S("U")
V == S("V")
W == S("W")
Probes == << <<1, <<U, V>> >>, <<1, <<V, U>> >>, <<1, <<U, U>> >>, <<1, <<U, V, W>> >>, <<1, <<W, U, V>> >>, <<1, <<V, W, U, V>> >>,
             <<1, <<T("S", <<Num(2), U>>), V>> >>, <<1, <<T("S", <<Num(3), V>>), W>> >>,
             <<2, <<Num(2), U>> >>, <<2, <<Num(3), V>> >>, <<2, <<Num(1), U>> >>, <<2, <<Num(1), W>> >>, <<2, <<Num(2), T("S", <<Num(3), U>>)>> >>,
             <<2, <<Num(2), T("S", <<Num(3), V>>)>> >>,
             <<3, <<U, S("psi")>> >>, <<3, <<V, S("psi")>> >>, <<3, <<U, T("K", <<V, S("psi")>>)>> >>, <<3, <<V, T("K", <<U, S("psi")>>)>> >>,
             <<3, <<W, T("K", <<V, S("phi1")>>)>> >>,
             <<4, <<U, V>> >>, <<4, <<V, W>> >> >>
\* a sum first collects its terms, i.e. multiplies them by 1; the order of what that makes is not fixed unless the terms are unchanged
Sum(s, o) == LET x == Make(s, 2, <<Num(1), o[1]>>)  y == Make(s, 2, <<Num(1), o[2]>>) IN
             IF s.si[4] # <<>> /\ o[1] = U THEN Make(s, 4, o) ELSE IF x = o[1] /\ y = o[2] THEN Make(s, 4, o) ELSE S("any")
Eq(a, b) == a = S("any") \/ a = b
Answers(s) == [k \in 1..Len(Probes) |-> IF Probes[k][1] = 4 THEN Sum(s, Probes[k][2]) ELSE Make(s, Probes[k][1], Probes[k][2])]
(*--- generator ---------------------------------------------------------------------*)
Init0 == << <<"R001", "R002", "R004">>, <<"R001", "R004">>, <<"R001", "R014">>, <<>> >>
Cs == {<<1>>, <<2>>, <<3>>, <<4>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<3, 1, 3>>, <<4, 2, 1>>, <<2, 3, 2, 3>>, <<>>, <<1, 2, 3, 4>>}
CustomNames == {"X1", "X2", "zz", "R001", "R014"}
RE(x) == RandomElement(x)
RandStep(s) ==
  LET w == RE(1..20)  c == RE({1, 1, 1, 2, 3, 4})  d == Len(s.st)
      cust == {n \in Names(s.ru[c]) : n \in CustomNames}
  IN IF w <= 7 THEN [op |-> "add", c |-> c, n |-> RE(CustomNames), k |-> RE({"first", "second", "any", "same", "cs"}), v |-> RE(0..3)]
     ELSE IF w <= 9 THEN [op |-> "del", c |-> c, ns |-> IF RE(1..4) = 1 \/ cust = {} THEN <<>>
                          ELSE IF RE(1..3) = 1 THEN SetToSeq(cust) ELSE <<RE(CustomNames \cup cust)>>]
     ELSE IF w = 10 THEN [op |-> "bad", c |-> c, w |-> RE({"pattern", "name", "norules", "args", "head", "attr", "delattr", "enter", "del"})]
     ELSE IF w <= 14 \/ d = 0 THEN
          (LET cs == RE(Cs) IN [op |-> "rules", cs |-> cs, clear |-> RE(1..3) = 1, y |-> RE(1..2),
                                si |-> IF cs = <<>> \/ RE(1..3) > 1 THEN <<>> ELSE <<cs[1]>>])
     ELSE IF w = 15 THEN [op |-> "nocache"]
     ELSE IF w = 16 THEN [op |-> "cache", cs |-> RE(Cs)]
     ELSE IF w <= 18 THEN [op |-> "exit", k |-> 1] ELSE [op |-> "raise", k |-> RE(1..d)]
N == Len(g.prog)
Init == g = [prog |-> <<>>, s |-> State(Init0), fin |-> FALSE] /\ Idle
Next == /\ \/ N < MaxLen /\ \E t \in {IF N < MaxLen - 1 \/ g.s.st = <<>> THEN RandStep(g.s) ELSE [op |-> RE({"exit", "raise"}), k |-> Len(g.s.st)]} :
                            g' = [g EXCEPT !.prog = Append(@, t), !.s = Step(g.s, t).s]
           \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> g.prog, probes |-> Probes]) /\ g' = [g EXCEPT !.fin = TRUE]
        /\ UNCHANGED <<l, cnt>>
Spec == Init /\ [][Next]_<<g, l, cnt>>
\* a class that is in every open scope is as before the outermost one once all scopes are left; entering and leaving is the identity
Laws == /\ g.s.st = <<>> => g.s.ca
        /\ \A cs \in Cs : \A b \in BOOLEAN : Leave(Step(g.s, [op |-> "rules", cs |-> cs, clear |-> b, si |-> <<>>, y |-> 1]).s) = g.s
        /\ \A c \in Classes : Cardinality(Names(g.s.ru[c])) = Len(g.s.ru[c])
        /\ LET full == {c \in Classes : g.s.st # <<>> /\ c \in g.s.st[1].cs} IN
           \A c \in full : LeaveN(g.s, Len(g.s.st)).ru[c] = g.s.st[1].ru[c]
(*--- trace validation ----------------------------------------------------------------*)
RECURSIVE Run(_, _)
Run(p, k) == IF k = 0 THEN << R(State(p.init), "ok") >> ELSE LET h == Run(p, k - 1) IN Append(h, Step(h[k].s, p.steps[k]))
Expect(s, o, p) ==
  IF \E c \in Classes : o.rules[c] # [k \in 1..Len(s.ru[c]) |-> s.ru[c][k].n] THEN "rules"
  ELSE IF o.shown # o.rules THEN "show-rules"
  ELSE IF \E c \in Classes : o.simp[c] # Len(s.si[c]) + p.nsimp[c] THEN "simplifications"
  ELSE IF o.caching # s.ca THEN "instance-caching"
  ELSE IF ~o.others THEN "other-classes"
  ELSE LET a == Answers(s) IN IF \E k \in 1..Len(a) : ~Eq(a[k], o.made[k]) THEN "applied-rules-" \o ToString(CHOOSE k \in 1..Len(a) : ~Eq(a[k], o.made[k]) /\ \A q \in 1..k - 1 : Eq(a[q], o.made[q])) ELSE "ok"
Bads(p) ==
  LET h == Run(p, Len(p.steps)) IN
  {[k |-> k, c |-> "result-of-step"] : k \in {k \in 1..Len(p.steps) : p.res[k] # h[k + 1].res}}
  \cup {x \in {[k |-> k, c |-> Expect(h[k + 1].s, p.obs[k + 1], p)] : k \in 0..Len(p.steps)} : x.c # "ok"}
Obs(p) == Len(p.steps) * Len(Probes)
=============================================================================
