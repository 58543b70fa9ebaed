--------------------------------- MODULE Rng ---------------------------------
(***************************************************************************)
(* A transcript: an initial input, then absorptions and draws in any       *)
(* order.  The state that determines the next value drawn is the sequence  *)
(* of absorbed inputs and the draws since the last absorption; what was    *)
(* drawn before an absorption is forgotten.  The programs reaching every   *)
(* state are printed and run on the real generator.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Inits, Inputs, Draws, MaxLen
VARIABLES hist, drawn, prog
vars == <<hist, drawn, prog>>

Start(i) == [o |-> "init", d |-> i]
Init == \E i \in Inits : hist = <<i>> /\ drawn = << >> /\ prog = <<Start(i)>>
Absorb == \E x \in Inputs : hist' = Append(hist, x) /\ drawn' = << >> /\ prog' = Append(prog, [o |-> "absorb", d |-> x])
Draw == \E k \in Draws : drawn' = Append(drawn, k) /\ prog' = Append(prog, [o |-> k, d |-> ""]) /\ UNCHANGED hist
Next == Len(prog) <= MaxLen /\ (Absorb \/ Draw)
Spec == Init /\ [][Next]_vars
Emit == PrintT("PROG " \o ToJson(prog))

\* the state is a function of the program: histories only ever grow, draws never touch them
Grows == [][Len(hist') >= Len(hist) /\ SubSeq(hist', 1, Len(hist)) = hist]_vars
Forgets == [][hist' # hist => drawn' = << >>]_vars
=============================================================================
