----------------------------- MODULE TraceProof -----------------------------
(***************************************************************************)
(* Recorded facts about proofs against Proof:                              *)
(*  shape      lengths, statistics and serialization of an honest proof    *)
(*  alter      verdicts after changes at fixed challenges                  *)
(*  malformed  verdicts after changes of the shape of the proof            *)
(*  crash      whether there is a verdict at all, over a tiny field        *)
(*  influence  which derived challenges change with which message          *)
(***************************************************************************)
EXTENDS Proof, TraceLoop

Fields(cnt) == DOMAIN cnt

\* ------------------------------------------------------------- shape
Wrong(C, nz, ch, cnt) == {f \in DOMAIN Required(C, nz, ch) : cnt[f] # Required(C, nz, ch)[f]}
EvalFields == {"witness_evals", "fixed_oracle_evals", "table_oracle_evals", "permutation_oracle_evals", "lookup_evals",
               "lookup_z_evals", "z_evals", "quotient_chunks_evals", "q_evals"}
ComFields == {"witness_commitments", "lookup_commitments", "lookup_z_commitments", "z_commitments", "quotient_chunk_commitments"}
RECURSIVE SumF(_, _)
SumF(S, r) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN r[x] + SumF(S \ {x}, r)

JudgeShape(t) ==
  LET C == t.circ  cnt == t.counts
      ch == cnt.quotient_chunk_commitments
      nz == cnt.z_commitments
  IN
  IF t.status # "ok" THEN "no proof: " \o t.status
  ELSE IF ch < 1 THEN "no quotient"
  ELSE IF nz # (IF Len(C.sigma) = 0 THEN 0 ELSE (Len(C.sigma) + ch - 2) \div (ch - 1)) THEN "number of aggregation polynomials"
  ELSE IF Wrong(C, nz, ch, cnt) # {} THEN "number of " \o ToString(Wrong(C, nz, ch, cnt))
  ELSE IF \E f \in DOMAIN t.info : t.info[f] # cnt[f] THEN "reported statistics differ from the proof"
  ELSE IF t.info_fixed # <<1, 1, 1>> THEN "reported single items"
  ELSE IF DOMAIN t.info # DOMAIN cnt THEN "statistics incomplete"
  ELSE IF t.cum_commitments # SumF(ComFields, cnt) + 1 THEN "reported total of commitments"
  ELSE IF t.cum_evals # SumF(EvalFields, cnt) + 1 THEN "reported total of field elements"
  ELSE IF t.verdict # "accept" THEN "honest proof not accepted"
  ELSE IF t.rt # "ok" THEN "round trip fails"
  ELSE IF ~(t.same_bytes /\ t.same_counts /\ t.unchecked_rt /\ t.uncompressed_rt /\ t.serialized_size_ok) THEN "round trip changes the proof"
  ELSE IF t.verdict_rt # "accept" THEN "verdict changes over the round trip"
  ELSE IF ~t.bad_same_bytes THEN "round trip changes a rejected proof"
  ELSE IF t.bad_verdict_rt # "reject" THEN "a rejected proof is accepted after the round trip"
  ELSE IF \E k \in 1..Len(t.trunc) : t.trunc[k] # "err" THEN "truncated bytes are not refused"
  ELSE "ok"

\* ------------------------------------------------------------- alter
\* every changed proof is rejected, an unchanged one accepted
BadRes(t) == {k \in 1..Len(t.res) : t.res[k].v # (IF t.res[k].noop THEN "accept" ELSE "reject")}
\* every slot of every vector was changed on its own
Single(t) == {<<t.res[k].m[1].f, t.res[k].m[1].i>> : k \in {k \in 1..Len(t.res) : Len(t.res[k].m) = 1 /\ ~t.res[k].noop}}
Slots(cnt) == UNION {{<<f, i>> : i \in 0..(cnt[f] - 1)} : f \in EvalFields \cup ComFields} \cup {<<"q_blind_eval", 0>>, <<"f_commit", 0>>}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
JudgeAlter(t) ==
  IF t.base # "accept" THEN "honest proof not accepted: " \o t.base
  ELSE IF BadRes(t) # {} THEN "altered proof: " \o t.res[First(BadRes(t))].v \o " after " \o ToString(t.res[First(BadRes(t))].m)
  ELSE IF t.full /\ ~(Slots(t.counts) \subseteq Single(t)) THEN "slot not exercised " \o ToString(Slots(t.counts) \ Single(t))
  ELSE "ok"

\* ------------------------------------------------------------- crash
\* a field of 257 elements: a changed proof may be accepted, but there is a verdict
JudgeCrash(t) ==
  IF \E k \in 1..Len(t.res) : t.res[k] \notin {"accept", "reject"} THEN "altered proof: " \o ToString(t.res)
  ELSE "ok"

\* ------------------------------------------------------------- influence
JudgeInfluence(t) ==
  IF t.base # "accept" THEN "honest proof not accepted: " \o t.base
  ELSE IF ~t.agree THEN "prover and verifier derive different challenges"
  ELSE IF t.n # NDraws THEN "number of challenges " \o ToString(t.n)
  ELSE LET
      want(f, d) == IF Influences(f, d) THEN 1 ELSE 0
      \* the first change decides from where on the challenges differ
      FirstSent(m) == CHOOSE f \in {m[k].f : k \in 1..Len(m)} : \A k \in 1..Len(m) : SentAt(f) <= SentAt(m[k].f)
      wrong == {<<k, d>> \in (1..Len(t.res)) \X (1..NDraws) :
                  t.res[k].ch[d] # (IF t.res[k].noop THEN 0 ELSE want(FirstSent(t.res[k].m), d))}
  IN IF wrong = {} THEN
       (IF t.full /\ ~(Slots(t.counts) \subseteq Single(t)) THEN "slot not exercised " \o ToString(Slots(t.counts) \ Single(t)) ELSE "ok")
     ELSE LET w == CHOOSE x \in wrong : TRUE IN
       "challenge " \o ToString(w[2]) \o (IF t.res[w[1]].ch[w[2]] = 0 THEN " does not depend on " ELSE " depends on (or is not drawn after) ")
         \o ToString(t.res[w[1]].m)

Judge(t) ==
  CASE t.mode = "shape" -> JudgeShape(t)
    [] t.mode \in {"alter", "malformed"} -> JudgeAlter(t)
    [] t.mode = "crash" -> JudgeCrash(t)
    [] t.mode = "influence" -> JudgeInfluence(t)

Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
