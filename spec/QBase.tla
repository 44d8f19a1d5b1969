-------------------------------- MODULE QBase --------------------------------
(* Frame of the machines whose traces are judged program by program.  A machine *)
(* M defines its own generator (variable g) and Bads(p): the set of disagreeing  *)
(* observations [k, c] of one recorded program, and its number of observations.  *)
(* cfg: CONSTANT Bads <- ...; Obs <- ...                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Verdicts(_), Weight(_)
VARIABLES g, l, cnt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Idle == l = 0 /\ cnt = [ok |-> 0, bad |-> 0, skip |-> 0]
TInit == g = 0 /\ Idle
TNext == /\ l < Len(Trace) /\ l' = l + 1 /\ UNCHANGED g
         /\ \E p \in {Trace[l + 1]} : \E b \in {IF "crash" \in DOMAIN p THEN {[k |-> 0, c |-> "crash " \o p.crash]} ELSE Verdicts(p)} :
            /\ \A x \in b : PrintT("BAD " \o ToJson([id |-> p.id, k |-> x.k, clause |-> x.c]))
            /\ cnt' = [cnt EXCEPT !.ok = @ + (IF "crash" \in DOMAIN p THEN 0 ELSE Weight(p) - Cardinality(b)), !.bad = @ + Cardinality(b)]
         /\ IF l + 1 = Len(Trace) THEN PrintT("TOTAL " \o ToJson(cnt')) ELSE TRUE
TSpec == TInit /\ [][TNext]_<<g, l, cnt>>
\* every recorded program was consumed
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
SetOf(s) == {s[k] : k \in 1..Len(s)}
Emit(x) == PrintT("PROG " \o ToJson(x))
=============================================================================
