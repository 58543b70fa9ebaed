------------------------------- MODULE VOLife -------------------------------
(***************************************************************************)
(* The life of gates and lookups: created unresolved, resolved against a   *)
(* set of columns by configuring, resolved again against another set by    *)
(* configuring again.  Configuring also leaves the queried rotations on    *)
(* the columns of that set; lookups in Refused have tables that are not    *)
(* fixed columns and are never resolved.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NVos, NSets, Refused, MaxLen
Vos == 1..NVos
Sets == 1..NSets
VARIABLES bound,    \* bound[v] = the set v is resolved against, 0 = none
          marks,    \* <<v, s>>: the rotations of v are registered on s
          prog
vars == <<bound, marks, prog>>

Init == bound = [v \in Vos |-> 0] /\ marks = {} /\ prog = << >>
Configure(v, s) ==
  /\ Len(prog) < MaxLen
  /\ IF v \in Refused THEN UNCHANGED <<bound, marks>>
     ELSE bound' = [bound EXCEPT ![v] = s] /\ marks' = marks \cup {<<v, s>>}
  /\ prog' = Append(prog, [v |-> v, s |-> s])
Next == \E v \in Vos, s \in Sets : Configure(v, s)
Spec == Init /\ [][Next]_vars

\* what is resolved is registered where it is resolved
Registered == \A v \in Vos : bound[v] # 0 => <<v, bound[v]>> \in marks
NeverRefused == \A v \in Refused : bound[v] = 0 /\ \A s \in Sets : <<v, s>> \notin marks
\* one's configuration never changes another's; registrations are never undone
Local == [][/\ marks \subseteq marks'
            /\ Cardinality({v \in Vos : bound'[v] # bound[v]}) <= 1]_vars
\* the last successful configuration decides
LastWins == \A v \in Vos :
  LET S == {k \in 1..Len(prog) : prog[k].v = v /\ v \notin Refused} IN
  bound[v] = IF S = {} THEN 0 ELSE prog[CHOOSE k \in S : \A m \in S : m <= k].s
Emit == Len(prog) = 0 \/ PrintT("PROG " \o ToJson(prog))
=============================================================================
