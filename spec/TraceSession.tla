---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Recorded sessions of the implementation against Session.  Each line of  *)
(* the trace file is one session: circ, vcirc (verifier's statement), and  *)
(* the outcomes of index, prove and verify ("none" when not reached).      *)
(* Sessions are independent, so they are distributed over chains of states *)
(* to use several workers.  A step the specification does not allow is     *)
(* printed, and the session abandoned.                                     *)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 8
VARIABLES l          \* current line of this chain
vars == <<phase, pst, vst, l>>

Init == /\ l \in {k \in 1..N : k <= W}
        /\ phase = "start"
        /\ pst = << >> /\ vst = << >>

Close == l' = l + W /\ phase' = "start" /\ pst' = << >> /\ vst' = << >>
Report(why) == PrintT("BAD " \o ToJson([id |-> Trace[l].id, phase |-> phase, why |-> why]))

\* the statements are read, and are well formed
Open == /\ phase = "start" /\ l <= N
        /\ pst' = Trace[l].circ /\ vst' = Trace[l].vcirc
        /\ Assert(SigmaIsPermutation(pst') /\ SigmaIsPermutation(vst'), <<"generator", Trace[l].id>>)
        /\ phase' = "open" /\ UNCHANGED l

\* the recorded outcome is a step of Session ...
TraceIndex == phase = "open" /\ UNCHANGED l /\ Index(Trace[l].index)
TraceProve == phase = "indexed" /\ UNCHANGED l /\ Prove(Trace[l].prove)
TraceVerify == phase = "proved" /\ UNCHANGED l /\ Verify(Trace[l].verify)
\* ... or it is not
BadIndex == /\ phase = "open"
            /\ Trace[l].index \notin {"ok", "refused"} \/ ~IndexEnabled(Trace[l].index)
            /\ Report("indexing: " \o Trace[l].index) /\ Close
BadProve == /\ phase = "indexed"
            /\ Trace[l].prove \notin {"ok", "refused", "panicked"} \/ ~ProveEnabled(Trace[l].prove)
            /\ Report(IF Trace[l].prove = "panicked" THEN "proving panicked" ELSE "a satisfied statement was not proved") /\ Close
BadVerify == /\ phase = "proved"
             /\ ~VerifyEnabled(Trace[l].verify)
             /\ Report("verdict " \o Trace[l].verify \o " for a claim that is "
                        \o (IF Satisfied(Claim(pst, vst)) THEN "satisfied" ELSE "not satisfied"))
             /\ Close
Done == phase = "end" /\ Close

Next == Open \/ TraceIndex \/ TraceProve \/ TraceVerify \/ BadIndex \/ BadProve \/ BadVerify \/ Done
Spec == Init /\ [][Next]_vars

\* every session moves on until its end
Moves == (phase = "start" /\ l > N) \/ ENABLED Next
TypeOK == phase \in {"start", "open", "indexed", "proved", "end"}
View == <<l, phase>>
=============================================================================
