------------------------------- MODULE Proof -------------------------------
(***************************************************************************)
(* What a proof of a circuit consists of: which polynomials are committed  *)
(* to, at which rotations each is opened, how many values of each kind the *)
(* proof carries, and the order in which they and the challenges occur.    *)
(* nz = number of aggregation polynomials, ch = number of quotient chunks. *)
(***************************************************************************)
EXTENDS Sizes

\* Polynomials opened at the same set of rotations form one group of the batched opening; rotations
\* are compared as written, not modulo n.
AllQueries(C) ==
  UNION ({Queries(C.gates[k]) : k \in 1..Len(C.gates)}
         \cup UNION {{Queries(C.lookups[k].exprs[x]) : x \in 1..Len(C.lookups[k].exprs)} : k \in 1..Len(C.lookups)})

RotsOf(C, t, i) == {q[3] : q \in {q \in AllQueries(C) : q[1] = t /\ q[2] = i}}
WitRots(C, i) == RotsOf(C, "w", i) \cup (IF C.wit[i + 1].perm THEN {0} ELSE {})
TabRots(C, i) == UNION {{C.lookups[k].tables[x].r : x \in {x \in 1..Len(C.lookups[k].tables) : C.lookups[k].tables[x].i = i}}
                        : k \in 1..Len(C.lookups)}
AggRots(C, k, nz) == {0, 1} \cup (IF k < nz - 1 THEN {C.u} ELSE {})
PrevNow(C) == {0, -1}
NowNext(C) == {0, 1}

CeilD(a, b) == (a + b - 1) \div b
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
Total(n, f) == SumOver(0..(n - 1), f)

NL(C) == Len(C.lookups)
Required(C, nz, ch) ==
  [ witness_commitments |-> Len(C.wit),
    witness_evals |-> Total(Len(C.wit), [i \in 0..(Len(C.wit) - 1) |-> Cardinality(WitRots(C, i))]),
    fixed_oracle_evals |-> Total(Len(C.fix), [i \in 0..(Len(C.fix) - 1) |-> Cardinality(RotsOf(C, "f", i))]),
    table_oracle_evals |-> Total(Len(C.tab), [i \in 0..(Len(C.tab) - 1) |-> Cardinality(TabRots(C, i))]),
    permutation_oracle_evals |-> Len(C.sigma),
    lookup_commitments |-> 2 * NL(C), lookup_evals |-> 3 * NL(C),
    lookup_z_commitments |-> NL(C), lookup_z_evals |-> 2 * NL(C),
    z_commitments |-> nz,
    z_evals |-> Total(nz, [k \in 0..(nz - 1) |-> Cardinality(AggRots(C, k, nz))]),
    quotient_chunk_commitments |-> ch, quotient_chunks_evals |-> ch,
    q_evals |-> Cardinality(
      ( {WitRots(C, i) : i \in 0..(Len(C.wit) - 1)} \cup {RotsOf(C, "f", i) : i \in 0..(Len(C.fix) - 1)}
        \cup {TabRots(C, i) : i \in 0..(Len(C.tab) - 1)} \cup {AggRots(C, k, nz) : k \in 0..(nz - 1)}
        \cup (IF NL(C) > 0 THEN {PrevNow(C), {0}, NowNext(C)} ELSE {})
        \cup {{0}} )) ]   \* columns nobody queries form a group of their own

\* committed polynomials and their kinds
Opened(C, nz, ch) == Len(C.wit) + Len(C.fix) + Len(C.tab) + Len(C.sigma) + 1 + 3 * NL(C) + nz + ch

--------------------------------------------------------------------------
\* the conversation, in order
Steps == << [k |-> "send", f |-> {"instance"}], [k |-> "send", f |-> {"witness_commitments"}], [k |-> "draw", f |-> {"theta"}],
            [k |-> "send", f |-> {"lookup_commitments"}], [k |-> "draw", f |-> {"beta"}], [k |-> "draw", f |-> {"gamma"}],
            [k |-> "send", f |-> {"z_commitments", "lookup_z_commitments"}], [k |-> "draw", f |-> {"alpha"}],
            [k |-> "send", f |-> {"quotient_chunk_commitments"}], [k |-> "draw", f |-> {"xi"}],
            [k |-> "send", f |-> {"witness_evals", "fixed_oracle_evals", "table_oracle_evals", "permutation_oracle_evals", "q_blind_eval",
                                  "lookup_evals", "lookup_z_evals", "z_evals", "quotient_chunks_evals"}],
            [k |-> "draw", f |-> {"x1"}], [k |-> "draw", f |-> {"x2"}],
            [k |-> "send", f |-> {"f_commit"}], [k |-> "draw", f |-> {"x3"}],
            [k |-> "send", f |-> {"q_evals"}], [k |-> "draw", f |-> {"x4"}],
            [k |-> "send", f |-> {"opening_proof"}] >>
SentAt(f) == CHOOSE s \in 1..Len(Steps) : f \in Steps[s].f
DrawSteps == SelectSeq([s \in 1..Len(Steps) |-> s], LAMBDA s : Steps[s].k = "draw")
NDraws == Len(DrawSteps)
\* a message influences a challenge iff it is sent before it
Influences(f, d) == SentAt(f) < DrawSteps[d]
=============================================================================
