-------------------------------- MODULE QGen --------------------------------
(* The state machine of a user of the algebra API: every behaviour is a        *)
(* well-formed program, each action one API call on existing objects.  In this *)
(* configuration only the static semantics is tracked; completed programs are  *)
(* printed as JSON and replayed in the implementation.  (QTrace.tla runs the   *)
(* same steps with their meaning.)                                             *)
EXTENDS QOps, Json

CONSTANTS Profile,      \* which calls and objects
          MaxLen,       \* number of steps
          NLeaf,        \* number of initial leaf steps
          MaxSz, MaxLd  \* bounds on the size and number of ladder operators
VARIABLES spc, prog, reg, fin
vars == <<spc, prog, reg, fin>>

SeqOfSet(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Sub(S, lo, hi) == {T \in SUBSET S : Cardinality(T) >= lo /\ Cardinality(T) <= hi}
Lf(cls, ty, hs, lab, ax, lv, ld) ==
  [op |-> "leaf", r |-> <<>>, cls |-> cls, ty |-> ty, hs |-> hs, lab |-> lab, ax |-> ax, lv |-> lv, ld |-> ld]
FockS == {s \in spc : SpaceTab[s].k = "f"}
SpinS == {s \in spc : SpaceTab[s].k = "s"}
\* levels used on degree of freedom s: by number or by label
NLev(s) == IF SpaceTab[s].k = "f" THEN FockLevels ELSE SpaceTab[s].d
Levels(s) == {[i |-> k - 1, l |-> IF SpaceTab[s].lb = <<>> \/ (SpaceTab[s].k = "n" /\ SpaceTab[s].lb[1] = "0") THEN "" ELSE SpaceTab[s].lb[k]] : k \in 1..NLev(s)}

OpSyms(labs, lo, hi) == {Lf("OperatorSymbol", "O", SeqOfSet(T), l, <<>>, <<>>, 0) : T \in Sub(spc, lo, hi), l \in labs}
OpFuns(labs) == {Lf("OperatorSymbol", "O", SeqOfSet(T), l, <<a>>, <<>>, 0) : T \in Sub(spc, 1, 1), l \in labs, a \in {"x", "r"}}
Sigmas == UNION {{Lf("LocalSigma", "O", <<s>>, "", <<>>, <<j, k>>, 0) : j \in Levels(s), k \in Levels(s)} : s \in spc}
Projs == UNION {{Lf("LocalProjector", "O", <<s>>, "", <<>>, <<j>>, 0) : j \in Levels(s)} : s \in spc}
Ladders == UNION {{Lf("Create", "O", <<s>>, "", <<>>, <<>>, 1), Lf("Destroy", "O", <<s>>, "", <<>>, <<>>, 1)} : s \in FockS}
Phases == {Lf("Phase", "O", <<s>>, "", <<a>>, <<>>, 0) : s \in FockS, a \in {"r", "2*r", "p"}}
Spins == UNION {{Lf(c, "O", <<s>>, "", <<>>, <<>>, 0) : c \in {"Jz", "Jplus", "Jminus"}} : s \in SpinS}
OpConsts == {Lf("IdentityOperator", "O", <<>>, "", <<>>, <<>>, 0), Lf("ZeroOperator", "O", <<>>, "", <<>>, <<>>, 0)}
ScalNames == {"x", "y", "r", "p", "2", "-1", "1/2", "I", "0", "1", "0.5", "1-2j", "x*r", "x+1", "sqrt(p)", "exp(I*r)", "conj(x)", "-3", "3j", "sqrt(2)", "1/x", "p/3"}
ScalPlain == {Lf("plain", "S", <<>>, a, <<>>, <<>>, 0) : a \in ScalNames}
ScalWrap == {Lf("ScalarValue", "S", <<>>, a, <<>>, <<>>, 0) : a \in ScalNames}
Kets(labs, lo, hi) == {Lf("KetSymbol", "K", SeqOfSet(T), l, <<>>, <<>>, 0) : T \in Sub(spc, lo, hi), l \in labs}
Basis == UNION {{Lf("BasisKet", "K", <<s>>, "", <<>>, <<j>>, 0) : j \in Levels(s)} : s \in spc}
SupSyms(labs, lo, hi) == {Lf("SuperOperatorSymbol", "P", SeqOfSet(T), l, <<>>, <<>>, 0) : T \in Sub(spc, lo, hi), l \in labs}
SupConsts == {Lf("IdentitySuperOperator", "P", <<>>, "", <<>>, <<>>, 0), Lf("ZeroSuperOperator", "P", <<>>, "", <<>>, <<>>, 0)}

N == Len(reg)
Recent == {k \in 1..N : k + 4 > N}
Fits(d) == d.ty # "X" /\ d.sz <= MaxSz /\ d.ld <= MaxLd
\* binary steps on registers of the allowed types; at least one operand is recent
Bin(op, tys) == {s \in {[op |-> op, r |-> <<i, j>>] : i \in {k \in 1..N : reg[k].ty \in tys}, j \in {k \in 1..N : reg[k].ty \in tys}} :
                  /\ s.r[1] \in Recent \/ s.r[2] \in Recent
                  /\ Fits(Typ(s, <<reg[s.r[1]], reg[s.r[2]]>>))}
\* multiplications whose operands include one of type ty
MulWith(ty, other) == {s \in Bin("mul", {ty} \cup other) : \E k \in 1..2 : reg[s.r[k]].ty = ty}
UnP(op, tys, ps) == {s \in {p @@ [op |-> op, r |-> <<i>>] : p \in ps, i \in {k \in Recent : reg[k].ty \in tys}} :
                      Fits(Typ(s, <<reg[s.r[1]]>>))}
Un(op, tys) == {s \in {[op |-> op, r |-> <<i>>] : i \in {k \in Recent : reg[k].ty \in tys}} : Fits(Typ(s, <<reg[s.r[1]]>>))}
NAry(op, tys) == {s \in {[op |-> op, r |-> <<i, j, k>>] : i, j, k \in {m \in Recent : reg[m].ty \in tys}} :
                   Fits(Typ(s, [m \in 1..3 |-> reg[s.r[m]]]))}
\* sums and products of lo..hi operands at once, written from any registers
Chain(op, tys, lo, hi) ==
  LET idx == {k \in 1..N : reg[k].ty \in tys}  n == RandomElement(lo..hi)
  IN IF idx = {} THEN {} ELSE
     {s \in {TLCEval([op |-> op, r |-> TLCEval([m \in 1..n |-> RandomElement(idx)])]) : q \in 1..8} :
        Fits(Typ(s, [m \in 1..Len(s.r) |-> reg[s.r[m]]]))}
Liou == {s \in {[op |-> "liouv", r |-> q] : q \in {<<i>> : i \in Recent} \cup (Recent \X Recent) \cup (Recent \X Recent \X Recent)} :
           Fits(Typ(s, [m \in 1..Len(s.r) |-> reg[s.r[m]]]))}
TraceSets == Sub(spc, 1, 3)
TraceSteps == {s \in {[op |-> "trace", r |-> <<i>>, over |-> SeqOfSet(T)] :
                      i \in {k \in Recent : reg[k].ty = "O"}, T \in {T \in TraceSets : \A q \in T : SpaceTab[q].k # "f"}} :
                 Fits(Typ(s, <<reg[s.r[1]]>>))}

OpLeaf(c) ==
  CASE c = 1 -> OpSyms({"A", "B", "C"}, 1, 1)
    [] c = 2 -> OpSyms({"A", "B"}, 2, 2)
    [] c = 3 -> Sigmas
    [] c = 4 -> Ladders
    [] c = 5 -> Spins
    [] c = 6 -> Projs \cup Phases \cup OpConsts
    [] c = 7 -> OpFuns({"A", "F"}) \cup OpSyms({"T"}, 3, 3)
    [] OTHER -> Ladders
RandLeafO == LET c == RandomElement(1..8)  s == OpLeaf(c) IN IF s = {} THEN OpSyms({"A", "B"}, 1, 1) ELSE s
RandLeafS == IF RandomElement(1..3) = 1 THEN ScalWrap ELSE ScalPlain
RandLeafK == CASE RandomElement(1..3) = 1 -> Kets({"K", "L"}, 1, 1)
               [] RandomElement(1..3) = 1 -> Kets({"K", "M"}, 1, 3)
               [] OTHER -> Basis
RandLeafP == CASE RandomElement(1..4) = 1 -> SupConsts
               [] OTHER -> SupSyms({"S", "T"}, 1, 2)

\* inner products of two ket symbols, named by two letters, as symbolic scalars
BraKets(labs, S) == {Lf("BraKet", "S", <<q>>, l, <<>>, <<>>, 0) : q \in S, l \in labs}
\* profiles that start with given objects, to get at longer formulas of them
Sym0(c, ty, hs, lab, ax) == {Lf(c, ty, hs, lab, ax, <<>>, 0)}
OS(hs, lab) == Sym0("OperatorSymbol", "O", hs, lab, <<>>)
KS(hs, lab) == Sym0("KetSymbol", "K", hs, lab, <<>>)
PS(hs, lab) == Sym0("SuperOperatorSymbol", "P", hs, lab, <<>>)
SV(lab) == Sym0("ScalarValue", "S", <<>>, lab, <<>>)
UnS(op, k) == {[op |-> op, r |-> <<k>>]}
Min1 == CHOOSE q \in spc : \A t \in spc : q <= t
SomeScal == {Lf(c, "S", <<>>, a, <<>>, <<>>, 0) : c \in {"plain", "ScalarValue"}, a \in ScalNames}
Pre ==
  CASE Profile = "supw" -> <<OS(<<1>>, "A"), OS(<<1>>, "B"), OS(<<1, 2>>, "C"), PS(<<1>>, "S"), PS(<<1, 2>>, "T"), UnS("spre", 1), UnS("spost", 2), UnS("spre", 3), UnS("spost", 1), SomeScal>>
    [] Profile = "scalw" -> <<BraKets({"KL", "LK"}, spc), BraKets({"KM", "ML"}, spc), BraKets({"LM", "KN"}, spc), BraKets({"MN", "NL"}, spc), SomeScal, SomeScal>>
    [] Profile = "opw" -> <<OpSyms({"A"}, 1, 1), OpSyms({"B"}, 1, 1), OpSyms({"C"}, 1, 1), OpSyms({"A", "B"}, 2, 2), SomeScal, RandLeafO>>
    [] Profile = "leibs" -> <<OS(<<Min1>>, "A"), OS(<<Min1>>, "B"), OS(<<Min1>>, "C"), OS(<<Min1>>, "D"), OpSyms({"A", "B"}, 1, 2) \cup OS(<<Min1>>, "F")>>
    [] Profile = "leibw" -> <<OpSyms({"A"}, 1, 1), OpSyms({"B"}, 1, 1), OpSyms({"C"}, 1, 2), OpSyms({"A", "B"}, 1, 2), SomeScal>>
    [] Profile = "herm" -> <<Sigmas, OpSyms({"A"}, 1, 1) \cup Sigmas, Projs \cup Sigmas \cup Spins, Sigmas, SomeScal>>
    [] Profile = "ketw" -> <<Kets({"K"}, 2, 3), Kets({"L"}, 1, 1), Kets({"M"}, 1, 2), OpSyms({"A"}, 1, 1), OpSyms({"B"}, 1, 1), OpSyms({"A", "B"}, 1, 3), Basis>>
    [] OTHER -> <<>>
\* objects with summation indices
SDim == CHOOSE d \in {NLev(s) : s \in spc} : TRUE
Sym(i) == [i |-> 0, l |-> "@" \o i]
Sym1(i) == [i |-> 1, l |-> "@" \o i]          \* by label instead of by index, where there are labels
IdxNames == {"i", "j", "k"}
SymLevels(s) == {Sym(i) : i \in IdxNames} \cup {Sym1(i) : i \in {"i", "j"}} \cup {CHOOSE l \in Levels(s) : l.i = 1}
SumSigmas == UNION {{Lf("LocalSigma", "O", <<s>>, "", <<>>, <<j, k>>, 0) : j \in SymLevels(s), k \in SymLevels(s)} : s \in spc}
SumProjs == UNION {{Lf("LocalProjector", "O", <<s>>, "", <<>>, <<j>>, 0) : j \in SymLevels(s)} : s \in spc}
SumBasis == UNION {{Lf("BasisKet", "K", <<s>>, "", <<>>, <<j>>, 0) : j \in SymLevels(s)} : s \in spc}
SumScal == {Lf(c, "S", <<>>, a, <<>>, <<>>, 0) : c \in {"plain", "ScalarValue"}, a \in {"i", "j", "x*i", "i+1", "al[i]", "al[j]", "al[i]*x", "exp(I*r*i)", "x**i", "i*j", "al[k]", "conj(x)*i"}}
SumDelta == {Lf("ScalarValue", "S", <<>>, a, <<>>, <<>>, 0) : a \in {"KD(i,j)", "KD(i,1)", "KD(i,j)*al[i]", "KD(j,k)", "KD(j,0)", "KD(i,k)", "x*KD(i,j)"}}
SumConst == {Lf(c, "S", <<>>, a, <<>>, <<>>, 0) : c \in {"plain", "ScalarValue"}, a \in {"x", "2", "r", "I", "-1", "1/2"}}
SumLeafO == IF Profile = "sumsub" THEN OpSyms({"A[i,j]", "A[i+2*j]", "B[2*i+j]", "B[i]", "A[j,k]", "A[i+1,j]"}, 1, 1) ELSE CASE RandomElement(1..3) = 1 -> IF Profile = "sum" THEN SumSigmas \cup SumProjs ELSE OpSyms({"A[i]", "B[j]"}, 1, 2)
              [] RandomElement(1..4) = 1 -> OpSyms({"A", "B"}, 1, 2)
              [] OTHER -> OpSyms({"A[i]", "A[j]", "B[i]", "A[i,j]", "B[k]", "A[i+1]"}, 1, 1)
SumLeafK == IF Profile = "sumsub" THEN Kets({"K[i,j]", "K[i+2*j]", "L[2*j+i,k]", "K[i]", "L[i+1,j]"}, 1, 1) \cup SumBasis ELSE CASE RandomElement(1..2) = 1 -> IF Profile = "sum" THEN SumBasis ELSE Kets({"K[i]", "L[j]"}, 1, 1)
              [] RandomElement(1..4) = 1 -> Kets({"K"}, 1, 2)
              [] OTHER -> Kets({"K[i]", "K[j]", "L[i]", "K[i,j]"}, 1, 1)
SumLeafS == CASE Profile = "sum" /\ RandomElement(1..2) = 1 -> SumDelta [] RandomElement(1..3) = 1 -> SumConst [] OTHER -> SumScal
Lst(d) == [m \in 1..d |-> m - 1]
SumRanges == IF Profile = "sum"
   THEN {[k |-> "list", v |-> Lst(SDim)], [k |-> "list", v |-> Reverse(Lst(SDim))], [k |-> "range", v |-> <<0, SDim - 1, 1>>],
         [k |-> "range", v |-> <<SDim - 1, 0, -1>>]} \cup {[k |-> "fock", v |-> <<s>>] : s \in spc}
   ELSE {[k |-> "list", v |-> <<1, 3>>], [k |-> "list", v |-> <<2>>], [k |-> "list", v |-> <<4, 0, 1>>], [k |-> "list", v |-> <<-1, 2, 2>>],
         [k |-> "range", v |-> <<1, 3, 1>>], [k |-> "range", v |-> <<0, 4, 2>>], [k |-> "range", v |-> <<3, 1, -1>>], [k |-> "range", v |-> <<2, 2, 1>>],
         [k |-> "range", v |-> <<1, 4, 2>>]} \cup {[k |-> "fock", v |-> <<s>>] : s \in spc}
\* substitutions
SubLeafO == CASE RandomElement(1..4) = 1 -> Phases \cup OpSyms({"A", "B", "C"}, 1, 1)
              [] RandomElement(1..3) = 1 -> {Lf("OperatorSymbol", "O", SeqOfSet(T), l, a, <<>>, 0) : T \in Sub(spc, 1, 2), l \in {"A", "F"},
                            a \in {<<"x">>, <<"r">>, <<"t", "r">>, <<"x+1">>, <<"x", "y">>}}
              [] RandomElement(1..5) = 1 -> Sigmas \cup Ladders \cup Spins
              [] OTHER -> OpSyms({"A", "B"}, 1, 2)
SubLeafS == {Lf(c, "S", <<>>, a, <<>>, <<>>, 0) : c \in {"plain", "ScalarValue"}, a \in {"x", "y", "r", "t", "x*y", "x+y", "exp(I*r)", "exp(r*t)", "1/x", "p", "sqrt(p)", "conj(x)", "2", "x**2+1", "t*x", "I*r"}}
SubLeafK == CASE RandomElement(1..4) = 1 -> Basis
              [] RandomElement(1..3) = 1 -> {Lf("KetSymbol", "K", SeqOfSet(T), l, a, <<>>, 0) : T \in Sub(spc, 1, 1), l \in {"K", "M"}, a \in {<<"x">>, <<"t">>, <<"r", "t">>}}
              [] OTHER -> Kets({"K", "L"}, 1, 2)
SubVals(a) == CASE a = "x" -> {"x+1", "y", "2", "0", "r", "-x", "exp(I*r)", "I", "x*y", "1"}
                [] a = "y" -> {"x", "3", "y**2", "1", "0"}
                [] a = "r" -> {"2*r", "t", "0", "1", "p", "-r", "r*t", "2"}
                [] a = "t" -> {"r", "0", "1", "t+1", "2*t", "-1"}
                [] a = "p" -> {"2*p", "1", "p**2"}
                [] a = "i" -> {"0", "1", "j", "k"}
                [] a = "j" -> {"1", "i", "0"}
                [] a = "k" -> {"0", "i"}
SubNames == IF Profile = "subs" THEN {"x", "y", "r", "t", "p"} ELSE IF Profile = "sumsub" THEN {"x", "i", "j", "k"} ELSE {"x", "i", "j"}
SubE1 == UNION {{<<[k |-> "s", a |-> a, b |-> b]>> : b \in SubVals(a)} : a \in SubNames}
SubE2 == {e \o f : e \in SubE1, f \in SubE1}
SubS == IF RandomElement(1..2) = 1 THEN SubE1 ELSE {m \in SubE2 : m[1].a # m[2].a}
Kinds == <<{1, 2, 9, 10}, {4, 5, 11}>>
KindOf(q) == IF q \in Kinds[1] THEN Kinds[1] ELSE IF q \in Kinds[2] THEN Kinds[2] ELSE {}
HMaps == LET hs == {q \in UNION {reg[k].sp : k \in 1..N} : KindOf(q) # {}} IN
   UNION {{<<[k |-> "h", a |-> q, b |-> t]>> : t \in KindOf(q) \ UNION {reg[k].sp : k \in 1..N}} : q \in hs}
   \cup UNION {{<<[k |-> "h", a |-> q, b |-> t], [k |-> "h", a |-> t, b |-> q]>> : t \in (KindOf(q) \cap hs) \ {q}} : q \in hs}
HasSub(c) == \E k \in 1..Len(prog) : prog[k].op = "subs" /\ prog[k].m[1].k = c
SubKeys == {k \in 1..N : prog[k].op = "leaf" /\ prog[k].cls \in {"OperatorSymbol", "KetSymbol", "SuperOperatorSymbol"} /\ prog[k].ax = <<>>
                          /\ prog[k].lab \in {"A", "B", "C", "K", "L", "S", "T"}}
SubSteps(tys) ==
   LET c == RandomElement(1..4)
       rs == {k \in Recent : reg[k].ty \in tys}
   IN IF c = 1 /\ ~HasSub("h") THEN
         {s \in {[op |-> "subs", r |-> <<i, v, q>>, m |-> <<[k |-> "e", a |-> "", b |-> ""]>>, n |-> RandomElement(0..1)] : i \in rs, v \in 1..N, q \in SubKeys} :
             /\ reg[s.r[2]].ty = reg[s.r[3]].ty /\ s.r[2] # s.r[3]
             /\ IF reg[s.r[3]].ty = "K" THEN reg[s.r[2]].sp = reg[s.r[3]].sp /\ prog[s.r[2]].op = "leaf" ELSE reg[s.r[2]].sp \subseteq reg[s.r[3]].sp
             /\ Fits(Typ(s, <<reg[s.r[1]], reg[s.r[2]], reg[s.r[3]]>>))}
      ELSE IF c = 2 /\ ~HasSub("e") THEN
         {[op |-> "subs", r |-> <<i>>, m |-> m, n |-> RandomElement(0..1)] : i \in {k \in rs : reg[k].ty # "S" \/ TRUE}, m \in HMaps}
      ELSE {[op |-> "subs", r |-> <<i>>, m |-> m, n |-> RandomElement(0..1)] : i \in rs, m \in SubS}
\* objects that depend on the parameters t and r
CalLeafO == CASE RandomElement(1..6) = 1 -> Phases \cup {Lf("Phase", "O", <<s>>, "", <<a>>, <<>>, 0) : s \in FockS, a \in {"t", "r*t"}}
              [] RandomElement(1..6) = 1 -> OpSyms({"B"}, 1, 2)
              [] RandomElement(1..6) = 1 -> RandLeafO
              [] OTHER -> {Lf("OperatorSymbol", "O", SeqOfSet(T), l, a, <<>>, 0) : T \in Sub(spc, 1, 2), l \in {"A", "F"},
                            a \in {<<"t">>, <<"r">>, <<"t", "r">>, <<"2*t">>, <<"x*t">>, <<"t**2">>, <<"r*t">>}}
CalScalNames == {"t", "t**2", "exp(I*t)", "x*t", "1/(2+t)", "cos(2*t)", "r*t", "t+r", "x", "2", "exp(r*t)", "sqrt(p)*t", "I*t+1", "t**3-r"}
CalLeafS == {Lf(IF RandomElement(1..2) = 1 THEN "ScalarValue" ELSE "plain", "S", <<>>, a, <<>>, <<>>, 0) : a \in CalScalNames}
CalLeafK == CASE RandomElement(1..4) = 1 -> Basis
              [] OTHER -> {Lf("KetSymbol", "K", SeqOfSet(T), l, a, <<>>, 0) : T \in Sub(spc, 1, 1), l \in {"K", "L"}, a \in {<<>>, <<"t">>, <<"t">>, <<"t", "r">>, <<"2*t">>}}
CalLeafP == {Lf("SuperOperatorSymbol", "P", SeqOfSet(T), l, a, <<>>, 0) : T \in Sub(spc, 1, 1), l \in {"S"}, a \in {<<"t">>, <<"t", "r">>, <<>>}}
CalVars == {[s |-> "t", p |-> 1], [s |-> "t", p |-> 1], [s |-> "r", p |-> 2]}

\* categories of steps and their weights, per profile
Cats ==
  CASE Profile = "op" -> <<"leafO", "leafO", "leafS", "mulO", "mulO", "mulO", "mulSO", "mulSO", "addO", "addO", "subO", "negO", "dagO", "powO", "commO", "divO", "nsumO", "nprodO", "addOS">>
    [] Profile = "tr" -> <<"leafO", "leafO", "leafS", "mulO", "mulO", "mulO", "mulSO", "addO", "dagO", "trace", "trace", "trace", "trace">>
    [] Profile = "ket" -> <<"leafK", "leafK", "leafO", "leafS", "mulK", "mulK", "mulK", "mulK", "mulKO", "mulKO", "mulSK", "addK", "addK", "addK", "subK", "negK", "dagK", "dagK", "divK", "nsumK", "nprodK", "mulO", "dagO", "addO">>
    [] Profile = "scal" -> <<"leafS", "leafS", "mulS", "mulS", "mulS", "addS", "addS", "addS", "subS", "subS", "divS", "divS", "powS", "negS", "conjS", "sqrtS", "reS", "reS", "cmpS", "cmpS", "nsumS", "nprodS", "leafK", "brkt", "brkt">>
    [] Profile = "sup" -> <<"leafO", "leafO", "leafS", "leafP", "spre", "spost", "mulP", "mulP", "mulP", "mulSP", "addP", "addP", "subP", "negP", "dagP", "dagP", "mulPO", "mulPO", "mulPO", "scomm", "santi", "lind", "liouv", "liouv", "powP", "divP", "nsumP", "nprodP", "mulO", "addO">>
    [] Profile = "rew" -> <<"leafO", "leafO", "leafS", "leafK", "mulO", "mulO", "mulSO", "addO", "addO", "dagO", "commO", "commO", "commO", "pmccO", "mulK", "mulK", "mulKO", "mulSK", "addK", "addK", "dagK", "spre", "spost", "mulP", "mulPO", "addP", "scomm", "mulS", "addS", "traceF", "rewO", "rewO", "rewO", "rewO", "leibO", "leibO", "pmccR", "pmccR", "basisO", "basisO", "coefO", "rewK", "rewK", "rewS", "rewP">>
    [] Profile = "cal" -> <<"leafO", "leafS", "leafK", "leafP", "mulO", "mulO", "mulO", "mulSO", "mulSO", "addO", "subO", "dagO", "commO", "powO", "divO", "pmccO", "traceF", "mulK", "mulK", "brkt", "mulKO", "mulKO", "mulSK", "addK", "dagK", "spre", "spost", "mulP", "mulPO", "mulPO", "mulSP", "addP", "scomm", "lind", "dagP", "mulS", "addS", "divS", "powS", "rewO",
          "diff", "diff", "diff", "diff", "diff", "diff", "series", "series", "series">>
    [] Profile \in {"sum", "sumx"} -> <<"leafO", "leafO", "leafS", "leafS", "leafK", "mulO", "mulO", "mulO", "mulSO", "mulSO", "mulS", "addO", "subO", "addS", "nsumO", "negO", "dagO", "commO", "powO", "powS", "divO",
          "mulK", "mulK", "brkt", "mulKO", "mulSK", "addK", "dagK", "expX", "expX", "doiti", "isum", "isum", "isum", "isum", "isum", "isum", "isum", "subsX">>
    [] Profile = "sumsub" -> <<"leafO", "leafS", "leafK", "mulO", "mulSO", "mulS", "addO", "dagO", "mulK", "brkt", "mulKO", "mulSK", "addK", "expX", "isum", "isum", "subsX", "subsX", "subsX", "subsX", "subsX">>
    [] Profile = "subs" -> <<"leafO", "leafO", "leafS", "leafS", "leafK", "leafP", "mulO", "mulO", "mulO", "mulSO", "mulSO", "mulS", "addO", "subO", "addS", "nsumO", "dagO", "commO", "powO", "divO", "divS", "conjS", "sqrtS", "pmccO", "traceF",
          "mulK", "mulK", "brkt", "mulKO", "mulSK", "addK", "dagK", "spre", "mulPO", "mulP", "lind", "expX", "diffX", "subsX", "subsX", "subsX", "subsX", "subsX", "subsX", "subsX", "subsX">>
    [] Profile = "supw" -> <<"wordP", "wordP", "wordP", "mulPO", "mulPO", "mulPO", "mulPO", "chsumP", "mulSP", "dagP", "addP", "mulP", "lind", "scomm">>
    [] Profile = "scalw" -> <<"wordS", "wordS", "wordS", "chsumS", "chsumS", "mulS", "addS", "subS", "divS", "powS", "conjS", "negS", "sqrtS", "expS">>
    [] Profile = "opw" -> <<"wordO", "wordO", "wordO", "chsumO", "chsumO", "mulO", "addO", "subO", "commO", "mulSO", "dagO", "powO">>
    [] Profile = "leibs" -> <<"commO", "addO", "wordO", "mulSO", "leibO">>
    [] Profile = "leibw" -> <<"wordO", "wordO", "commO", "commO", "commO", "mulSO", "addO", "leibO", "leibO", "rewO", "chsumO">>
    [] Profile = "herm" -> <<"leafO", "mulO", "mulO", "mulSO", "addO", "addO", "chsumO", "pmccO", "pmccO", "pmccO", "pmccR", "basish", "basish", "basish", "basisO", "dagO">>
    [] Profile = "ketw" -> <<"wordK", "wordK", "wordO", "wordO", "mulK", "mulKO", "mulKO", "mulKO", "mulKO", "addK", "dagK", "dagK", "chsumK", "mulO", "addO">>
    [] OTHER -> <<"leafO">>
\* profiles that repeat a fixed pattern of calls
Script ==
  CASE Profile = "leibs" -> <<"wordlO", "commL", "leibL">>
    [] OTHER -> <<>>
Rewrites == {"expand", "expand", "simp", "rebuild", "doit", "simplify", "doit1"}
FiniteReg(k) == \A q \in reg[k].sp : SpaceTab[q].k # "f"
Insts(c) ==
  CASE c = "leafO" -> IF Profile = "cal" THEN CalLeafO ELSE IF Profile \in {"sum", "sumx", "sumsub"} THEN SumLeafO ELSE IF Profile = "subs" THEN SubLeafO ELSE RandLeafO
    [] c = "leafS" -> IF Profile = "cal" THEN CalLeafS ELSE IF Profile \in {"sum", "sumx", "sumsub"} THEN SumLeafS ELSE IF Profile = "subs" THEN SubLeafS ELSE RandLeafS
    [] c = "leafK" -> IF Profile = "cal" THEN CalLeafK ELSE IF Profile \in {"sum", "sumx", "sumsub"} THEN SumLeafK ELSE IF Profile = "subs" THEN SubLeafK ELSE RandLeafK
    [] c = "isum" -> UnP("isum", {"O", "K", "S"}, {[s |-> i, rg |-> g] : i \in IdxNames, g \in SumRanges})
    [] c = "expX" -> UNION {Un(o, {"O", "K", "S"}) : o \in {"expand", "doit", "doit1", "rebuild"}}
    [] c = "doiti" -> UnP("doiti", {"O", "K", "S"}, {[s |-> i] : i \in IdxNames})
    [] c = "diffX" -> UnP("diff", {"O", "K", "S"}, {[n |-> 1] @@ v : v \in CalVars})
    [] c = "subsX" -> SubSteps({"O", "K", "B", "S", "P"})
    [] c = "leafP" -> IF Profile = "cal" THEN CalLeafP ELSE RandLeafP
    [] c = "diff" -> UnP("diff", {"O", "K", "B", "S", "P"}, {[n |-> k] @@ v : k \in {1, 1, 2}, v \in CalVars})
    [] c = "series" -> UnP("series", {"O", "K", "S", "P"}, {[n |-> k, ab |-> b] @@ v : k \in {0, 1, 2, 3}, b \in {"0", "1", "x"}, v \in CalVars})
    [] c = "mulO" -> Bin("mul", {"O"})
    [] c = "mulSO" -> MulWith("S", {"O"})
    [] c = "addO" -> Bin("add", {"O"})
    [] c = "addOS" -> {s \in Bin("add", {"O", "S"}) \cup Bin("sub", {"O", "S"}) : reg[s.r[1]].ty # reg[s.r[2]].ty}
    [] c = "subO" -> Bin("sub", {"O"})
    [] c = "negO" -> Un("neg", {"O"})
    [] c = "dagO" -> Un("dag", {"O"})
    [] c = "powO" -> UnP("pow", {"O"}, {[n |-> k] : k \in {0, 1, 2, 3}})
    [] c = "commO" -> Bin("commutator", {"O"})
    [] c = "divO" -> {s \in Bin("div", {"O", "S"}) : reg[s.r[1]].ty = "O"}
    [] c = "nsumO" -> NAry("nsum", {"O"})
    [] c = "nprodO" -> NAry("nprod", {"O"})
    [] c = "trace" -> TraceSteps
    [] c = "mulK" -> MulWith("K", {"K", "B"}) \cup MulWith("B", {"B"})
    [] c = "brkt" -> {s \in Bin("mul", {"K", "B"}) : Typ(s, <<reg[s.r[1]], reg[s.r[2]]>>).ty = "S"} \cup Un("dag", {"K"})
    [] c = "mulKO" -> MulWith("K", {"O"}) \cup MulWith("B", {"O"})
    [] c = "mulSK" -> MulWith("S", {"K", "B"})
    [] c = "addK" -> Bin("add", {"K"}) \cup Bin("add", {"B"})
    [] c = "subK" -> Bin("sub", {"K"}) \cup Bin("sub", {"B"})
    [] c = "negK" -> Un("neg", {"K", "B"})
    [] c = "dagK" -> Un("dag", {"K", "B"})
    [] c = "divK" -> {s \in Bin("div", {"K", "B", "S"}) : reg[s.r[1]].ty # "S"}
    [] c = "nsumK" -> NAry("nsum", {"K"})
    [] c = "nprodK" -> NAry("nprod", {"K"})
    [] c = "mulS" -> Bin("mul", {"S"})
    [] c = "addS" -> Bin("add", {"S"})
    [] c = "subS" -> Bin("sub", {"S"})
    [] c = "divS" -> Bin("div", {"S"})
    [] c = "powS" -> UnP("pow", {"S"}, {[n |-> k] : k \in {-2, -1, 0, 1, 2, 3}})
    [] c = "negS" -> Un("neg", {"S"})
    [] c = "conjS" -> Un("conj", {"S"})
    [] c = "reS" -> UNION {Un(o, {"S"}) : o \in {"re", "im", "cplx"}}
    [] c = "cmpS" -> UNION {Bin(o, {"S"}) : o \in {"eq", "ne", "lt", "le", "gt", "ge"}}
    [] c = "sqrtS" -> Un("sqrt", {"S"})
    [] c = "nsumS" -> NAry("nsum", {"S"})
    [] c = "nprodS" -> NAry("nprod", {"S"})
    [] c = "spre" -> Un("spre", {"O"})
    [] c = "spost" -> Un("spost", {"O"})
    [] c = "scomm" -> Un("scomm", {"O"})
    [] c = "santi" -> Un("santi", {"O"})
    [] c = "lind" -> Un("lindblad", {"O"})
    [] c = "liouv" -> Liou
    [] c = "mulP" -> Bin("mul", {"P"})
    [] c = "mulPO" -> {s \in MulWith("P", {"O"}) : Typ(s, <<reg[s.r[1]], reg[s.r[2]]>>).ty = "O"}
    [] c = "mulSP" -> MulWith("S", {"P"})
    [] c = "addP" -> Bin("add", {"P"})
    [] c = "subP" -> Bin("sub", {"P"})
    [] c = "negP" -> Un("neg", {"P"})
    [] c = "dagP" -> Un("dag", {"P"})
    [] c = "powP" -> UnP("pow", {"P"}, {[n |-> k] : k \in {0, 1, 2}})
    [] c = "divP" -> {s \in Bin("div", {"P", "S"}) : reg[s.r[1]].ty = "P"}
    [] c = "nsumP" -> NAry("nsum", {"P"})
    [] c = "nprodP" -> NAry("nprod", {"P"})
    [] c = "pmccO" -> UnP("pmccform", {"O"}, {[n |-> k] : k \in {1, -1}})
    [] c = "traceF" -> TraceSteps
    [] c = "rewO" -> UNION {Un(o, {"O"}) : o \in Rewrites}
    [] c = "rewK" -> UNION {Un(o, {"K", "B"}) : o \in Rewrites}
    [] c = "rewS" -> UNION {Un(o, {"S"}) : o \in {"expand", "simp", "rebuild", "doit", "simplify"}}
    [] c = "rewP" -> UNION {Un(o, {"P"}) : o \in Rewrites}
    [] c = "leibO" -> UnP("leibniz", {"O"}, {[n |-> k] : k \in {0, 1}})
    [] c = "pmccR" -> Un("pmcc", {"O"})
    [] c = "basisO" -> {s \in UnP("basis", {"O"}, {[n |-> 0]}) : FiniteReg(s.r[1]) /\ reg[s.r[1]].sz <= 8 /\ Cardinality(reg[s.r[1]].sp) <= 2}
    [] c = "basish" -> {s \in UnP("basis", {"O"}, {[n |-> 1]}) : FiniteReg(s.r[1]) /\ reg[s.r[1]].sz <= 12 /\ Cardinality(reg[s.r[1]].sp) <= 2}
    [] c = "wordO" -> Chain("nprod", {"O"}, 2, 6)
    [] c = "wordP" -> Chain("nprod", {"P"}, 2, 5)
    [] c = "wordS" -> Chain("nprod", {"S"}, 2, 6)
    [] c = "wordK" -> Chain("nprod", {"K"}, 2, 4)
    [] c = "wordlO" -> Chain("nprod", {"O"}, 4, 7)
    [] c = "commL" -> {s \in Bin("commutator", {"O"}) : s.r[1] = N \/ s.r[2] = N}
    [] c = "leibL" -> {s \in UnP("leibniz", {"O"}, {[n |-> k] : k \in {0, 1}}) : s.r[1] = N}
    [] c = "chsumO" -> Chain("nsum", {"O"}, 2, 6)
    [] c = "chsumP" -> Chain("nsum", {"P"}, 2, 5)
    [] c = "chsumS" -> Chain("nsum", {"S"}, 2, 6)
    [] c = "chsumK" -> Chain("nsum", {"K"}, 2, 4)
    [] c = "expS" -> UNION {Un(o, {"S"}) : o \in {"expand", "simp", "rebuild"}}
    [] c = "coefO" -> UnP("coeffs", {"O"}, {[n |-> k] : k \in {0, 1}})
    [] OTHER -> {}

SpaceSets ==
  CASE Profile \in {"op", "ket"} -> {{1, 2}, {1, 3}, {3, 9}, {4}, {4, 1}, {4, 3}, {6, 2}, {6, 4}, {7, 1}, {8, 2}, {1, 2, 9}, {1, 9, 10}, {2, 3, 6}, {10, 11}, {4, 5}, {12}, {13, 2}}
    [] Profile = "tr" -> {{1, 2}, {1, 3}, {3, 9}, {6, 2}, {1, 2, 9}, {1, 9, 10}, {8, 2}, {2, 3, 6}, {4, 3}, {13, 1}}
    [] Profile = "cal" -> {{1}, {1, 2}, {3}, {4}, {8}, {3, 9}, {6}}
    [] Profile = "sum" -> {{8}, {3}, {1}, {7}, {1, 9}, {1, 3}, {13}, {6, 2}, {7, 8}}
    [] Profile = "sumsub" -> {{8}, {3}, {1}, {1, 9}}
    [] Profile = "sumx" -> {{8}, {3}, {1}, {7}, {1, 9}, {6, 2}}
    [] Profile = "subs" -> {{1}, {1, 2}, {3, 9}, {4}, {1, 2, 10}, {4, 5}, {6, 1}, {3}, {9, 10}, {11, 1}}
    [] Profile = "rew" -> {{1}, {1, 2}, {1, 3}, {3, 9}, {4}, {4, 1}, {6}, {6, 4}, {7}, {8}, {1, 2, 9}, {4, 5}, {10, 1}}
    [] Profile = "supw" -> {{1, 2}}
    [] Profile = "scalw" -> {{3}, {1}, {8}}
    [] Profile = "opw" -> {{1, 2}, {1, 3, 9}, {6, 2}, {8, 1}, {10, 2}, {1, 2, 4}}
    [] Profile = "leibs" -> {{1}, {8}, {3, 9}}
    [] Profile = "leibw" -> {{1}, {1, 2}, {3, 9, 10}}
    [] Profile = "herm" -> {{8}, {13}, {7}, {12}, {1, 3}, {8, 2}}
    [] Profile = "ketw" -> {{1, 2, 9}, {1, 2, 3, 10}, {3, 9, 6}, {2, 8, 10}}
    [] Profile = "sup" -> {{1}, {1, 2}, {3, 9}, {4}, {6}, {10, 1}, {8}, {7}}
    [] OTHER -> {{1, 2}, {3}, {8}}
FirstLeaf(k) ==
  CASE Profile = "scal" -> RandLeafS
    [] Profile = "ket" -> IF k % 3 = 0 THEN RandLeafO ELSE RandLeafK
    [] Profile \in {"sum", "sumx", "sumsub"} -> CASE k = 2 -> SumLeafS [] k = 3 -> SumLeafK [] OTHER -> SumLeafO
    [] Profile = "subs" -> CASE k = 2 -> SubLeafS [] k = 3 -> SubLeafK [] OTHER -> SubLeafO
    [] Profile = "cal" -> CASE k = 2 -> CalLeafS [] k = 3 -> CalLeafK [] k = 1 /\ RandomElement(1..2) = 1 -> CalLeafK [] OTHER -> CalLeafO
    [] Profile = "rew" -> CASE k % 4 = 3 -> RandLeafK [] OTHER -> RandLeafO
    [] Profile = "sup" -> IF k % 4 = 3 THEN RandLeafP ELSE RandLeafO
    [] OTHER -> RandLeafO

DescOf(s) == Typ(s, [k \in 1..Len(s.r) |-> reg[s.r[k]]])
Init == spc \in SpaceSets /\ prog = <<>> /\ reg = <<>> /\ fin = FALSE
Choice ==
  IF Len(prog) < Len(Pre) THEN RandomElement(Pre[Len(prog) + 1])
  ELSE IF Len(prog) < NLeaf THEN RandomElement(FirstLeaf(Len(prog)))
  ELSE LET RECURSIVE pick(_)
           pick(n) == LET c == IF Script # <<>> /\ n = 8 THEN Script[((Len(prog) - Len(Pre)) % Len(Script)) + 1] ELSE Cats[RandomElement(1..Len(Cats))]
                          s == Insts(c)
                      IN IF s # {} THEN RandomElement(s)
                         ELSE IF n = 0 THEN RandomElement(FirstLeaf(RandomElement(0..3))) ELSE pick(n - 1)
       IN pick(8)
\* one call of the API
Call == /\ Len(prog) < MaxLen
        /\ \E s \in {Choice} :
              LET d == DescOf(s)
                  s1 == IF s.op = "mul" THEN s @@ [app |-> reg[s.r[1]].ty = "P" /\ reg[s.r[2]].ty = "O"]
                        ELSE IF s.op = "dag" THEN s @@ [tp |-> reg[s.r[1]].ty = "P"] ELSE s
              IN prog' = Append(prog, s1 @@ [ty |-> d.ty]) /\ reg' = Append(reg, d)
        /\ UNCHANGED <<spc, fin>>
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Done == /\ Len(prog) = MaxLen /\ ~fin
        /\ fin' = TRUE
        /\ PrintT("PROG " \o ToJson([sp |-> SeqOfSet(spc), ld |-> MaxOf({reg[k].ld : k \in 1..N}), steps |-> prog,
                                     sps |-> [k \in 1..N |-> SeqOfSet(reg[k].sp)]]))
        /\ UNCHANGED <<spc, prog, reg>>
Next == Call \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
