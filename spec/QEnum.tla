-------------------------------- MODULE QEnum --------------------------------
(* The same machine as QGen, but with the choice of the next call left open: TLC *)
(* explores breadth-first every program of NLeaf leaves and MaxLen - NLeaf calls *)
(* over a small alphabet (named by Profile).                                     *)
EXTENDS QGen

ScalarsOf(NS) == {Lf("plain", "S", <<>>, a, <<>>, <<>>, 0) : a \in NS} \cup {Lf("ScalarValue", "S", <<>>, a, <<>>, <<>>, 0) : a \in NS}
ESpaces ==
  CASE Profile = "fock" -> {{4}}
    [] Profile = "spin1" -> {{7}}
    [] Profile = "spinh" -> {{6}}
    [] Profile = "spin32" -> {{12}}
    [] Profile = "label" -> {{3, 2}}
    [] Profile = "opscal" -> {{1}}
    [] Profile = "op3" -> {{1, 9}}
    [] Profile = "op3c" -> {{1, 9, 2}}
    [] Profile = "ket2" -> {{1, 3}}
    [] Profile = "ketfock" -> {{4}}
    [] Profile = "ketspin" -> {{7}}
    [] Profile = "ketscal" -> {{3}}
    [] Profile = "scal2" -> {{3}}
    [] Profile = "scalb" -> {{3}}
    [] Profile = "sup2" -> {{1, 2}}
    [] Profile = "supscal" -> {{1}}
    [] Profile \in {"rew1", "rew2", "rewk"} -> {{3}}
    [] Profile = "rewc" -> {{1, 9}}
    [] Profile = "cal1" -> {{3}}
    [] Profile \in {"cal2", "calp"} -> {{1}}
    [] Profile = "cal3" -> {{3}, {4}}
    [] Profile = "cals" -> {{3}}
    [] Profile = "tr3" -> {{1, 2}}
    [] Profile = "tr4" -> {{1, 2, 9}}
    [] OTHER -> {{1}}
ELeaves ==
  CASE Profile = "fock" -> OpSyms({"A"}, 1, 1) \cup {Lf("OperatorSymbol", "O", <<4>>, "A", <<"r">>, <<>>, 0)} \cup Ladders \cup Sigmas \cup Projs \cup Phases \cup OpConsts
    [] Profile \in {"spin1", "spinh"} -> OpSyms({"A"}, 1, 1) \cup Spins \cup Sigmas \cup Projs \cup OpConsts
    [] Profile = "spin32" -> Spins \cup Sigmas
    [] Profile = "label" -> OpSyms({"A"}, 1, 2) \cup Sigmas \cup OpConsts
    [] Profile = "opscal" -> OpSyms({"A"}, 1, 1) \cup OpConsts \cup {Lf("LocalSigma", "O", <<1>>, "", <<>>, <<[i |-> 0, l |-> ""], [i |-> 1, l |-> ""]>>, 0)} \cup ScalarsOf(ScalNames)
    [] Profile = "op3" -> OpSyms({"A"}, 1, 2) \cup OpSyms({"B"}, 1, 1) \cup ScalarsOf({"2"}) \cup {Lf("ScalarValue", "S", <<>>, "x", <<>>, <<>>, 0)}
    [] Profile = "op3c" -> OpSyms({"A"}, 1, 2) \cup OpSyms({"T"}, 3, 3)
    [] Profile = "ket2" -> Kets({"K"}, 1, 2) \cup Kets({"L"}, 1, 1) \cup Basis \cup OpSyms({"A"}, 1, 2) \cup Sigmas \cup OpConsts
    [] Profile = "ketfock" -> Kets({"K"}, 1, 1) \cup Basis \cup Ladders \cup Phases \cup Sigmas \cup OpSyms({"A"}, 1, 1)
    [] Profile = "ketspin" -> Kets({"K"}, 1, 1) \cup Basis \cup Spins \cup Sigmas \cup OpSyms({"A"}, 1, 1)
    [] Profile = "ketscal" -> Kets({"K"}, 1, 1) \cup Basis \cup ScalarsOf(ScalNames)
    [] Profile = "scal2" -> ScalarsOf(ScalNames)
    [] Profile = "scalb" -> Kets({"K"}, 1, 1) \cup {Lf("KetSymbol", "K", <<3>>, "L", <<>>, <<>>, 0)} \cup ScalarsOf({"1", "0", "2", "x", "-1", "I", "0.5", "1/2"})
    [] Profile = "sup2" -> SupSyms({"S"}, 1, 2) \cup SupSyms({"T"}, 1, 1) \cup SupConsts \cup OpSyms({"A"}, 1, 2) \cup OpConsts
    [] Profile = "supscal" -> SupSyms({"S"}, 1, 1) \cup SupConsts \cup OpSyms({"A"}, 1, 1) \cup ScalarsOf({"x", "2", "0", "1", "I", "-1", "1-2j", "r"})
    [] Profile = "rew1" -> OpSyms({"A", "B"}, 1, 1) \cup {Lf("plain", "S", <<>>, "x+1", <<>>, <<>>, 0), Lf("ScalarValue", "S", <<>>, "I", <<>>, <<>>, 0)}
    [] Profile = "rew2" -> OpSyms({"A"}, 1, 1) \cup Sigmas \cup OpFuns({"F"}) \cup OpConsts
    [] Profile = "rewk" -> OpSyms({"A"}, 1, 1) \cup Kets({"K"}, 1, 1) \cup Basis
    [] Profile = "rewc" -> OpSyms({"A"}, 1, 2) \cup OpSyms({"B"}, 1, 1)
    [] Profile = "cal1" -> {Lf("OperatorSymbol", "O", <<3>>, a[1], a[2], <<>>, 0) : a \in {<<"A", <<"t">>>>, <<"F", <<"t", "r">>>>, <<"B", <<>>>>, <<"A", <<"t**2">>>>}}
                            \cup {Lf("plain", "S", <<>>, a, <<>>, <<>>, 0) : a \in {"t", "exp(r*t)", "x"}} \cup OpConsts
    [] Profile = "cal2" -> {Lf("OperatorSymbol", "O", <<1>>, a[1], a[2], <<>>, 0) : a \in {<<"A", <<"t">>>>, <<"F", <<"t", "r">>>>}}
                            \cup {Lf("KetSymbol", "K", <<1>>, a[1], a[2], <<>>, 0) : a \in {<<"K", <<"t">>>>, <<"L", <<"t", "r">>>>, <<"L", <<>>>>}}
                            \cup {Lf("ScalarValue", "S", <<>>, a, <<>>, <<>>, 0) : a \in {"t", "exp(r*t)"}}
    [] Profile = "cal3" -> {Lf("OperatorSymbol", "O", SeqOfSet(T), "A", <<"t">>, <<>>, 0) : T \in Sub(spc, 1, 1)} \cup Ladders \cup OpConsts
                            \cup {Lf("Phase", "O", <<s>>, "", <<a>>, <<>>, 0) : s \in FockS, a \in {"t", "r*t"}}
                            \cup {Lf("plain", "S", <<>>, a, <<>>, <<>>, 0) : a \in {"t", "1/(2+t)"}}
    [] Profile = "calp" -> {Lf("OperatorSymbol", "O", <<1>>, "A", <<"t">>, <<>>, 0), Lf("plain", "S", <<>>, "t", <<>>, <<>>, 0)}
                            \cup {Lf("SuperOperatorSymbol", "P", <<1>>, a[1], a[2], <<>>, 0) : a \in {<<"S", <<"t">>>>, <<"T", <<"t", "r">>>>, <<"S", <<>>>>}}
    [] Profile = "cals" -> {Lf("ScalarValue", "S", <<>>, a, <<>>, <<>>, 0) : a \in CalScalNames}
                            \cup {Lf("KetSymbol", "K", <<3>>, a[1], a[2], <<>>, 0) : a \in {<<"K", <<"t">>>>, <<"L", <<>>>>}}
    [] Profile = "tr3" -> OpSyms({"A"}, 1, 2) \cup {s \in Sigmas : s.hs = <<1>>} \cup {Lf("IdentityOperator", "O", <<>>, "", <<>>, <<>>, 0)}
    [] Profile = "tr4" -> OpSyms({"A"}, 1, 3)
    [] OTHER -> {}
ECats ==
  CASE Profile \in {"fock", "spin1", "spinh", "spin32"} -> {"mulO", "addO", "subO", "commO", "dagO", "negO", "powO"}
    [] Profile = "label" -> {"mulO", "addO", "commO", "trace", "dagO"}
    [] Profile = "opscal" -> {"mulSO", "addOS", "divO"}
    [] Profile = "op3" -> {"mulO", "mulSO", "addO", "subO", "commO", "dagO"}
    [] Profile = "op3c" -> {"mulO"}
    [] Profile = "ket2" -> {"mulK", "mulKO", "addK", "subK", "dagK", "negK", "nprodK"}
    [] Profile \in {"ketfock", "ketspin"} -> {"mulK", "mulKO", "addK", "dagK"}
    [] Profile = "ketscal" -> {"mulSK", "divK"}
    [] Profile = "scalb" -> CASE Len(prog) = NLeaf -> {"dagK"} [] Len(prog) = NLeaf + 1 -> {"brkt"} [] OTHER -> {"mulS", "addS", "subS", "divS", "powS", "cmpS", "reS"}
    [] Profile = "scal2" -> {"reS", "cmpS", "mulS", "addS", "subS", "divS", "powS", "negS", "conjS", "sqrtS"}
    [] Profile = "sup2" -> {"mulP", "mulPO", "addP", "subP", "dagP", "negP", "spre", "spost", "scomm", "santi", "lind", "powP"}
    [] Profile = "supscal" -> {"mulSP", "divP", "mulP", "mulPO", "dagP", "spre", "spost"}
    [] Profile = "rew1" -> IF Len(prog) < MaxLen - 1 THEN {"mulO", "addO", "commO", "pmccO", "dagO", "mulSO", "powO"} ELSE {"rewO", "leibO", "pmccR", "coefO", "basisO"}
    [] Profile = "rew2" -> IF Len(prog) < MaxLen - 1 THEN {"mulO", "addO", "commO", "pmccO", "dagO"} ELSE {"rewO", "leibO", "pmccR", "coefO", "basisO"}
    [] Profile = "rewk" -> IF Len(prog) < MaxLen - 1 THEN {"mulK", "mulKO", "addK", "dagK"} ELSE {"rewO", "rewK", "rewS", "coefO"}
    [] Profile = "rewc" -> IF Len(prog) < MaxLen - 1 THEN {"mulO", "commO"} ELSE {"rewO", "leibO"}
    [] Profile \in {"cal1", "cal3"} -> IF Len(prog) < MaxLen - 1 THEN {"mulO", "addO", "subO", "commO", "pmccO", "dagO", "mulSO", "powO", "divO", "traceF"} ELSE {"diff", "series"}
    [] Profile = "cal2" -> IF Len(prog) < MaxLen - 1 THEN {"mulK", "brkt", "mulKO", "mulSK", "addK", "dagK"} ELSE {"diff", "series"}
    [] Profile = "calp" -> IF Len(prog) < MaxLen - 1 THEN {"spre", "spost", "mulP", "mulPO", "mulSP", "addP", "scomm", "lind", "dagP"} ELSE {"diff", "series"}
    [] Profile = "cals" -> IF Len(prog) < MaxLen - 1 THEN {"mulS", "addS", "divS", "powS", "conjS", "brkt"} ELSE {"diff", "series"}
    [] Profile \in {"tr3", "tr4"} -> {"mulO", "trace"}
    [] OTHER -> {}
\* every call after the leaves uses the most recent result or, first, the last leaf
UsesLast(s) == \E k \in 1..Len(s.r) : s.r[k] = N
\* ... and the first one uses the first leaf when it is binary
FirstOk(s) == Len(prog) # NLeaf \/ Len(s.r) = 1 \/ NLeaf # 2 \/ s.r[1] # s.r[2]
ECall == /\ Len(prog) < MaxLen
         /\ \E s \in IF Len(prog) < NLeaf THEN ELeaves ELSE {s \in UNION {Insts(c) : c \in ECats} : UsesLast(s) /\ FirstOk(s)} :
              LET d == DescOf(s)
                  s1 == IF s.op = "mul" THEN s @@ [app |-> reg[s.r[1]].ty = "P" /\ reg[s.r[2]].ty = "O"]
                        ELSE IF s.op = "dag" THEN s @@ [tp |-> reg[s.r[1]].ty = "P"] ELSE s
              IN prog' = Append(prog, s1 @@ [ty |-> d.ty]) /\ reg' = Append(reg, d)
         /\ UNCHANGED <<spc, fin>>
EInit == spc \in ESpaces /\ prog = <<>> /\ reg = <<>> /\ fin = FALSE
ESpec == EInit /\ [][ECall \/ Done]_vars
=============================================================================
