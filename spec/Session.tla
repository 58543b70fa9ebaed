------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One statement going through indexing, proving and verification.  The    *)
(* prover works on the statement `pst`, the verifier on `vst`: an          *)
(* adversarial prover is one whose statement differs (other gates, fixed   *)
(* columns, permutation, public values, ...) while it follows the protocol *)
(* for its own.  What it committed to is the witness of `pst`.             *)
(***************************************************************************)
EXTENDS Sizes

CONSTANT MaxSub   \* size of the largest subgroup of two-power order of the field

VARIABLES phase, pst, vst
svars == <<phase, pst, vst>>

\* the verifier's statement completed with the witness the prover committed to
Claim(p, v) == [v EXCEPT !.srs = p.srs, !.wit = [k \in 1..Len(v.wit) |-> [v.wit[k] EXCEPT !.rows = p.wit[k].rows]]]
\* both sides describe the same statement
Same(p, v) == Claim(p, v) = p

IndexEnabled(o) == o = "refused" => Refusable(pst, MaxSub)
Index(o) ==
  /\ phase = "open"
  /\ o \in {"ok", "refused"}
  /\ IndexEnabled(o)
  /\ phase' = IF o = "ok" THEN "indexed" ELSE "end"
  /\ UNCHANGED <<pst, vst>>

\* Proving: a satisfied statement must be proved; an unsatisfied one may be
\* refused in any way the prover likes, or be given a worthless proof.
\* A reference string too short for a column of the domain may be refused, with an error.
ShortReference(st) == st.srs < st.n - 1
ProveEnabled(o) ==
  CASE o = "refused" -> ~Satisfied(pst) \/ ShortReference(pst)
    [] o = "panicked" -> ~Satisfied(pst)
    [] OTHER -> TRUE
Prove(o) ==
  /\ phase = "indexed"
  /\ o \in {"ok", "refused", "panicked"}
  /\ ProveEnabled(o)
  /\ phase' = IF o = "ok" THEN "proved" ELSE "end"
  /\ UNCHANGED <<pst, vst>>

\* Verification: never accept an unsatisfied claim, always accept an honest proof of a
\* satisfied one; never panic.
VerifyEnabled(o) ==
  CASE o = "accept" -> Satisfied(Claim(pst, vst))
    [] o = "reject" -> ~(Same(pst, vst) /\ Satisfied(pst))
    [] OTHER -> FALSE
Verify(o) ==
  /\ phase = "proved"
  /\ o \in {"accept", "reject"}
  /\ VerifyEnabled(o)
  /\ phase' = "end"
  /\ UNCHANGED <<pst, vst>>
=============================================================================
