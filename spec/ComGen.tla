------------------------------- MODULE ComGen -------------------------------
(* All programs over the operations of Com up to MaxLen; the laws of a module hold in every state. *)
EXTENDS Com
CONSTANTS MaxLen
VARIABLES regs, prog
Init == regs = Base /\ prog = << >>
S(k, r) == [k |-> k, rho |-> r]
Scalars == {S(0, FALSE), S(-1, FALSE), S(2, FALSE), S(1, TRUE)}
Rhos == Cardinality({i \in 1..Len(prog) : prog[i].o = "scale" /\ prog[i].s.rho})
R == {0, 2, 4} \cup {Len(regs) - 1}
Ops == {[o |-> "add", a |-> a, b |-> b] : a \in R, b \in R}
       \cup {[o |-> "neg", a |-> a] : a \in R}
       \cup {[o |-> "scale", a |-> a, s |-> s] : a \in R, s \in {x \in Scalars : ~x.rho \/ Rhos < 2}}
       \cup {[o |-> "zero"]}
       \cup {[o |-> "msm", ix |-> ix, ss |-> [k \in 1..Len(ix) |-> IF k = 1 THEN S(-1, FALSE) ELSE S(3, FALSE)]] : ix \in {<< >>, <<Len(regs) - 1>>, <<0, Len(regs) - 1>>, <<Len(regs) - 1, 3, 0>>}}
Next == Len(prog) < MaxLen /\ \E o \in Ops : regs' = Append(regs, Result(regs, o)) /\ prog' = Append(prog, o)
Spec == Init /\ [][Next]_<<regs, prog>>
Emit == prog = << >> \/ PrintT("PROG " \o ToJson(prog))
\* module laws on whatever was reached
Laws == \A i, j \in 1..Len(regs) :
   /\ VAdd(regs[i], regs[j]) = VAdd(regs[j], regs[i])
   /\ VAdd(regs[i], VNeg(regs[i])) = VZero
   /\ VScale(VAdd(regs[i], regs[j]), S(2, FALSE)) = VAdd(VScale(regs[i], S(2, FALSE)), VScale(regs[j], S(2, FALSE)))
=============================================================================
