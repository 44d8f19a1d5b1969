----------------------------- MODULE PrintConf -----------------------------
(* The configuration of the printing system: global settings that accumulate,   *)
(* settings of single printing functions (sections of an INI file), formats of   *)
(* str and repr, caching; temporary configurations restore all of it.  Which     *)
(* text a printing function gives under which effective settings is a table     *)
(* (p.tab) that is measured with printers built in a fresh process.              *)
EXTENDS QBase
CONSTANTS MaxLen
Keys == <<"hs", "kb", "oph", "bra", "mul">>
Default == [hs |-> "T", kb |-> "T", oph |-> "T", bra |-> "F", mul |-> "none"]
Vals == [hs |-> {"T", "F", "subscript"}, kb |-> {"T", "F"}, oph |-> {"T", "F"}, bra |-> {"T", "F"}, mul |-> {"dot", "times"}]
Fs == {"ascii", "unicode", "latex"}
Rel == [ascii |-> <<"hs", "kb">>, unicode |-> <<"hs", "kb", "oph">>, latex |-> <<"hs", "kb", "bra", "mul">>]
Formats == {"ascii", "unicode", "latex", "tex", "srepr", "indsrepr", "tree"}
\* settings are lists of pairs, later ones win
RECURSIVE Look(_, _, _)
Look(s, k, d) == IF s = <<>> THEN d ELSE IF s[Len(s)][1] = k THEN s[Len(s)][2] ELSE Look(Front(s), k, d)
\* the process starts on a terminal without unicode, and configures itself there when the first text is needed
NoSec == [f \in Fs |-> <<>>]
Auto(utf, rf) == IF utf \/ rf = "unicode" THEN "unicode" ELSE "ascii"
Start == [g |-> <<>>, sec |-> NoSec, sf |-> Auto(FALSE, ""), rf |-> Auto(FALSE, ""), uni |-> FALSE, ca |-> TRUE, st |-> <<>>]
Conf(s, t, utf) ==
  [s EXCEPT !.g = (IF t.reset THEN <<>> ELSE @) \o t.set, !.sec = [f \in Fs |-> t.sec[f]],
            !.sf = IF t.sf = "" THEN Auto(utf, t.rf) ELSE t.sf, !.rf = IF t.rf = "" THEN Auto(utf, t.rf) ELSE t.rf,
            !.uni = utf \/ t.rf = "unicode", !.ca = t.ca]
Keep(s) == [x \in DOMAIN s \ {"st"} |-> s[x]]
Leave(s) == LET f == s.st[Len(s.st)] IN [x \in DOMAIN s |-> IF x = "st" THEN Front(s.st) ELSE f[x]]
RECURSIVE LeaveN(_, _)
LeaveN(s, n) == IF n = 0 THEN s ELSE LeaveN(Leave(s), n - 1)
R(s, res) == [s |-> s, res |-> res]
Step(s, t, utf) ==
  CASE t.op = "init" -> R(Conf(s, t, utf), "ok")
    [] t.op = "enter" -> R([Conf(s, t, utf) EXCEPT !.st = Append(s.st, Keep(s))], "ok")
    [] t.op = "bad" -> R(s, IF t.w \in {"setting", "mix", "call"} THEN "!TypeError" ELSE "!ValueError")
    [] t.op \in {"exit", "raise"} -> R(LeaveN(s, t.k), "ok")
    [] t.op = "none" -> R(s, "ok")
(*--- generator ---------------------------------------------------------------------*)
RE(x) == RandomElement(x)
RandSet(n) == [k \in 1..RE(0..n) |-> LET key == RE({Keys[q] : q \in 1..Len(Keys)}) IN <<key, RE(Vals[key])>>]
SecSet(f) == IF RE(1..2) = 1 THEN <<>> ELSE [k \in 1..RE(1..2) |-> LET key == Rel[f][RE(1..Len(Rel[f]))] IN <<key, RE(Vals[key])>>]
\* sections of a file that is no longer the latest configuration: not tested without a reset
Secs(s) == \E f \in Fs : s.sec[f] # <<>>
ConfStep(op, s) == LET ini == RE(1..3) = 1 IN
  [op |-> op, ini |-> ini, reset |-> Secs(s) \/ RE(1..4) = 1, sy |-> RE({TRUE, FALSE}), set |-> RandSet(3),
   sec |-> IF ini THEN [f \in Fs |-> SecSet(f)] ELSE NoSec,
   sf |-> RE({"", "", ""} \cup Formats), rf |-> RE({"", "unicode"} \cup Formats), ca |-> RE(1..4) > 1]
Call(f) == [f |-> f, set |-> [k \in 1..RE(1..2) |-> LET key == Rel[f][RE(1..Len(Rel[f]))] IN <<key, RE(Vals[key])>>]]
RandStep(s) == LET w == RE(1..10)  d == Len(s.st) IN
  CASE w <= 2 -> ConfStep("init", s)
    [] w <= 5 -> ConfStep("enter", s)
    [] w = 6 -> [op |-> "bad", w |-> RE({"sf", "rf", "section", "printer", "setting", "mix", "call"}), scope |-> RE({TRUE, FALSE})]
    [] w = 7 \/ d = 0 -> [op |-> "none"]
    [] w <= 9 -> [op |-> "exit", k |-> 1]
    [] OTHER -> [op |-> "raise", k |-> RE(1..d)]
With(t) == t @@ [call |-> Call(RE(Fs)), ob |-> RE({"none", "fun", "all", "all"})]
N == Len(g.prog)
Init == g \in {[prog |-> <<>>, s |-> Start, utf |-> u, fin |-> FALSE] : u \in BOOLEAN} /\ Idle
Next == /\ \/ N < MaxLen /\ \E t \in {IF N < MaxLen - 1 \/ g.s.st = <<>> THEN RandStep(g.s) ELSE [op |-> RE({"exit", "raise"}), k |-> Len(g.s.st)]} :
                            g' = [g EXCEPT !.prog = Append(@, With(t)), !.s = Step(g.s, t, g.utf).s]
           \/ N = MaxLen /\ ~g.fin /\ Emit([steps |-> g.prog, utf |-> g.utf]) /\ g' = [g EXCEPT !.fin = TRUE]
        /\ UNCHANGED <<l, cnt>>
Spec == Init /\ [][Next]_<<g, l, cnt>>
Laws == /\ \A k \in 1..Len(g.s.st) : LeaveN(g.s, Len(g.s.st) - k + 1).g = g.s.st[k].g
        /\ g.s.st # <<>> => LET t == [reset |-> TRUE, set |-> <<>>, sec |-> NoSec, sf |-> "", rf |-> "", ca |-> FALSE] IN
             Leave([Conf(g.s, t, g.utf) EXCEPT !.st = Append(g.s.st, Keep(g.s))]) = g.s
(*--- trace validation ----------------------------------------------------------------*)
RECURSIVE Run(_, _)
Run(p, k) == IF k = 0 THEN <<R(Start, "ok")>> ELSE LET h == Run(p, k - 1) IN Append(h, Step(h[k].s, p.steps[k], p.utf))
RECURSIVE KeyOf(_, _)
KeyOf(f, v) == f \o FoldLeft(LAMBDA acc, k : acc \o "," \o v[k], "", Rel[f])
Eff(s, f, call) == [k \in SetOf(Rel[f]) |-> Look(call, k, Look(s.sec[f], k, Look(s.g, k, Default[k])))]
Text(p, s, f, call, c) == p.tab[KeyOf(f, Eff(s, f, call)) \o (IF c /\ s.ca THEN "c" ELSE "")]
Shown(p, s, fmt, o) == CASE fmt \in Fs -> Text(p, s, fmt, <<>>, FALSE) [] fmt = "tex" -> Text(p, s, "latex", <<>>, FALSE)
                       [] fmt = "srepr" -> p.tab.srepr [] fmt = "indsrepr" -> p.tab.indsrepr
                       [] fmt = "tree" -> IF s.uni THEN o.treeu ELSE o.treea
Judge(p, t, s, o) ==
  IF t.ob = "none" THEN "ok"
  ELSE IF \E f \in Fs : o.fun[f] # Text(p, s, f, <<>>, FALSE) THEN "print-function"
  ELSE IF \E f \in Fs : o.again[f] # o.fun[f] THEN "print-function-repeated"
  ELSE IF o.call # Text(p, s, t.call.f, t.call.set, FALSE) THEN "call-settings"
  ELSE IF \E f \in Fs : o.cached[f] # Text(p, s, f, <<>>, TRUE) THEN "cache"
  ELSE IF o.srepr # p.tab.srepr THEN "srepr"
  ELSE IF t.ob # "all" THEN "ok"
  ELSE IF o.str # Shown(p, s, s.sf, o) THEN "str" ELSE IF o.repr # Shown(p, s, s.rf, o) THEN "repr"
  ELSE IF o.tex # Text(p, s, "latex", <<>>, FALSE) THEN "repr-latex" ELSE "ok"
Bads(p) == LET h == Run(p, Len(p.steps)) IN
  {[k |-> k, c |-> "result-of-step"] : k \in {k \in 1..Len(p.steps) : p.res[k] # h[k + 1].res}}
  \cup {x \in {[k |-> k, c |-> Judge(p, p.steps[k], h[k + 1].s, p.obs[k])] : k \in 1..Len(p.steps)} : x.c # "ok"}
Obs(p) == Len(p.steps)
=============================================================================
