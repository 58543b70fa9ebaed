#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the statements are easy to review)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
TP="src/turbo_plonk.rs"
HK="cfg(zok_verif): the prover/verifier module is private to the crate"
p("C01","Completeness: every satisfied circuit yields an accepted proof",
"Whenever the witness satisfies every gate, copy constraint and lookup of the indexed circuit, the prover returns a proof without panicking and the verifier accepts it, for every blinding randomness. This holds for any mix of witness, fixed and public columns, rotations, gate degrees, numbers of copy columns and lookups, column labels, domain sizes and custom vanishing polynomials the indexer accepts (except that two rotations of one column meeting in the same point are refused with an error). A reference string of degree one less than the domain size is enough; with a shorter one proving ends with an error, not a panic.",
["inputs","programs","configurations"],"all circuits (column sets, labels, gates, rotations, copy permutations, lookups, domain size, vanishing polynomial) and all satisfying witnesses and blinders",
"The tests run about ten hand-written circuits with one domain size each; no rotated public/fixed queries, no more than one gate, no custom vanishing polynomial with copy constraints, no reordered labels.",
[TP,"src/piop/prover.rs","src/indexer.rs","src/lookup/mod.rs","src/permutation/mod.rs","src/multiproof/piop/mod.rs"],
[("prover rounds","src/turbo_plonk.rs:prove"),("verifier rounds","src/turbo_plonk.rs:verify"),("extended domain choice","src/indexer.rs:index")],observe=["return value of prove","return value of verify"],hook=HK)
p("C02","Gate soundness: an unsatisfied gate is never accepted",
"If at least one gate is nonzero on at least one row selected by the vanishing polynomial, the verifier does not accept a proof for that statement, whatever polynomials the prover commits to (except with negligible probability over the challenges). The quantity the verifier requires to be zero is exactly the sum of all gate, copy and lookup constraint values at the evaluation point, each weighted by its own distinct power of the separation challenge, minus the committed quotient times the vanishing polynomial.",
["inputs","programs"],"all circuits with gates, all committed polynomials, all challenge values",
"The repository has no negative end-to-end test: a verifier that drops or merges constraints passes all of them.",
[TP,"src/piop/prover.rs"],[("quotient identity","src/turbo_plonk.rs:verify"),("powers of alpha","src/turbo_plonk.rs:verify")],observe=["return value of verify"],hook=HK)
p("C03","Copy soundness: values tied by the permutation must be equal",
"If two usable cells tied by the copy permutation hold different values, no proof is accepted (except with negligible probability), for every number of copied columns and every split of them over aggregation polynomials. The constraints enforced on the aggregation polynomials are exactly: first one starts at one, each satisfies the grand-product step on every usable row, each next one starts where the previous ended, and the last ends at zero or one.",
["inputs","programs","configurations"],"all permutations over usable cells, all column counts and chunk sizes, all committed polynomials and challenges",
"Tests use three columns, one permutation and honest provers only.",
["src/permutation/mod.rs","src/permutation/grand_product.rs",TP,"src/piop/prover.rs"],[("grand product","src/permutation/grand_product.rs"),("chunk stitching","src/permutation/mod.rs")],observe=["return value of verify","aggregation polynomials"],hook=HK)
p("C04","Lookup soundness: every looked-up tuple is in the table",
"If on some usable row the tuple of lookup expressions is not a row of the table restricted to its usable rows, no proof is accepted (except with negligible probability), for any number of lookups and any tuple width. The constraints enforced per lookup are exactly: product starts at one, product step on usable rows, product ends at zero or one, permuted input equals permuted table on the first row, and on every usable row the permuted input equals the permuted table or its own predecessor.",
["inputs","programs","configurations"],"all lookup expressions, tables, tuple widths, numbers of lookups, committed polynomials and challenges",
"Tests run one single-column lookup and one triple, with honest provers only.",
["src/lookup/mod.rs","src/lookup/subset_equality.rs",TP,"src/piop/prover.rs"],[("subset equality","src/lookup/subset_equality.rs"),("well-formedness","src/lookup/mod.rs")],observe=["return value of verify"],hook=HK)
p("C05","Evaluation binding: every claimed evaluation is tied to its commitment",
"A proof in which any evaluation used by the verifier differs from the value of the committed polynomial at that point is rejected, and so is one in which any commitment was replaced; this covers witness, fixed, table, permutation, blinding-selector, aggregation, lookup and quotient polynomials, however the verifier's inputs were constructed through the public API.",
["inputs","fault_sequences","configurations"],"all proofs obtained by altering any one or several fields of an accepted proof (also adaptively, after the challenges are known), all circuits",
"No test alters a proof.",
[TP,"src/multiproof/piop/mod.rs","src/data_structures.rs"],[("multi-point opening","src/multiproof/piop/mod.rs:verify"),("evaluation registration","src/turbo_plonk.rs:verify")],observe=["return value of verify"],hook=HK)
p("C06","Multi-point opening is complete and sound for any opening layout",
"For any set of committed polynomials, any assignment of rotation sets to them (of distinct points each), any domain size and any nonzero evaluation point, the batched opening produced for true evaluations verifies, and a batched opening is rejected whenever some claimed evaluation is false, some commitment is swapped or the proof has missing or extra values (except with negligible probability).",
["inputs","configurations","fault_sequences"],"all polynomial lists (incl. zero polynomials, single polynomials, equal polynomials), all rotation-set layouts, all evaluation points, all tampered claims",
"One test with the halo2 book layout and honest values.",
["src/multiproof/piop/mod.rs","src/multiproof/piop/prover.rs","src/multiproof/poly.rs"],[("opening-set grouping","src/multiproof/piop/mod.rs"),("f/q/final combination","src/multiproof/piop/prover.rs")],observe=["Multiopen::prove","Multiopen::verify"])
p("C07","Fiat-Shamir: every challenge depends on everything sent before it",
"Every verifier challenge changes when any prover message sent before it (commitments, evaluations, opening messages) or any public input value changes, and prover and verifier derive identical challenges for the same proof. No challenge is derived before the messages it must bind, and later messages never influence earlier challenges.",
["inputs","histories"],"all proofs and all single-message alterations, for every challenge of the protocol",
"Honest round trips are symmetric: a message missing from both transcripts goes unnoticed.",
[TP,"src/multiproof/piop/mod.rs","src/rng.rs"],[("transcript absorption","src/turbo_plonk.rs"),("transcript absorption in multiopen","src/multiproof/piop/mod.rs")],observe=["values drawn from the transcript RNG"],hook=HK)
p("C08","Malformed proofs are rejected with an error, never a panic",
"For every proof object whose vectors are empty, truncated, extended, permuted or zeroed relative to what the circuit requires, verification returns an error: it neither panics nor accepts.",
["inputs","fault_sequences"],"all proof shapes (lengths of every vector field), all circuits",
"Every test verifies only well-formed honest proofs.",
[TP,"src/multiproof/piop/mod.rs"],[("shape checks","src/turbo_plonk.rs:verify"),("shape checks","src/multiproof/piop/mod.rs:verify")],observe=["return value of verify"],hook=HK)
p("C09","Verification verdicts do not depend on earlier verifications",
"The verdict for a proof is the same whether the verifier's inputs are fresh or were used in any earlier sequence of accepting and rejecting verifications, and the same holds for provers reusing their inputs. Verification never changes the statement being verified.",
["histories"],"all sequences of prove/verify calls over shared inputs, with good, bad and malformed proofs of different statements",
"Each test performs a single verification.",
[TP,"src/oracles/witness.rs","src/oracles/fixed.rs"],[("registration overwrites","src/oracles/witness.rs:register_eval_at_challenge")],state=[("evaluations at challenges","claimed evaluations registered in reused oracles","src/oracles/witness.rs"),("commitment","commitment registered in reused oracles","src/oracles/witness.rs")],observe=["return value of verify"],hook=HK)
p("C10","Public inputs are binding",
"A proof accepted for one vector of public inputs is rejected for every other one, for public columns used with any rotation and in any row selected by the vanishing polynomial, in gates and in lookups.",
["inputs","configurations"],"all circuits with public columns that constrain the altered cell, all alterations of one or more public values",
"No test verifies against altered public inputs.",
[TP,"src/oracles/instance.rs"],[("direct evaluation of public polynomials","src/oracles/instance.rs:query")],observe=["return value of verify"],hook=HK)
p("C11","Rotations mean the same row shift in every representation",
"Querying a column with a rotation of +k or -k on row i yields the value of row i+k or i-k modulo the domain size, identically when reading rows, when reading the extended coset evaluations and when evaluating at the shifted challenge. This holds for every column type, every domain size, every extension factor and every k below the domain size.",
["inputs","configurations"],"all column values, rotations, rows, domain sizes, extension factors",
"Negative rotations are marked untested in the source; tests use degree one and one extension factor.",
["src/oracles/traits.rs","src/oracles/rotation.rs"],[("index arithmetic","src/oracles/traits.rs:query_in_coset"),("row access","src/oracles/traits.rs:query_at_omega_in_original_domain"),("challenge shift","src/oracles/rotation.rs")],observe=["query results"])
p("C12","Lookup permutation sorts inputs against the table correctly",
"For every input column whose values all occur in the table, the permuted input is a rearrangement of the input, the permuted table is a rearrangement of the table, the first entries agree and every other entry of the permuted input equals its table entry or its predecessor. For any other input no result is produced.",
["inputs"],"all pairs of equally long value sequences, with arbitrary repetitions",
"One fixed vector, and the test does not check that the outputs are rearrangements.",
["src/lookup/permute.rs"],[("sort and fill","src/lookup/permute.rs:permute_for_lookup")],observe=["permute_for_lookup"])
p("C13","Indexing sizes the quotient correctly and inverts the vanishing values",
"For every circuit it accepts, the indexer picks an extended domain large enough to hold the quotient of every gate, copy and lookup constraint, the same for prover-side and verifier-side columns, together with the exact inverses of the vanishing polynomial over the extended coset. Circuits it cannot support are refused with an error, not a panic.",
["inputs","programs","configurations"],"all gate sets, column types, domain sizes, vanishing polynomials, copy and lookup configurations",
"Tests index a handful of circuits where the chosen power of two happens to have slack.",
["src/indexer.rs","src/vo/expression.rs","src/permutation/mod.rs"],[("degree computation","src/indexer.rs:compute_quotient_degree"),("vanishing inverses","src/indexer.rs:compute_zh_evals")],observe=["Indexer::index"])
p("C14","Blinding: committed witness-dependent data is always hidden",
"Every commitment to data depending on the witness is made with fresh hiding randomness, every prover-chosen aggregation and permuted column has all rows after the usable ones filled with fresh randomness, and none of the prover's randomness is reused between columns or proofs. Blinding never changes the usable rows or the verdict.",
["inputs","histories","configurations"],"all circuits, usable-row counts, domain sizes and proof histories",
"Tests never look at randomness; a prover with constant blinders passes all of them.",
["src/lookup/mod.rs","src/lookup/subset_equality.rs","src/permutation/grand_product.rs","src/oracles/witness.rs",TP],[("row blinding","src/permutation/grand_product.rs:construct_agg_poly"),("hiding commitments","src/oracles/witness.rs:to_labeled")],observe=["commitment requests","committed polynomials"],hook=HK)
p("C15","Precompiled gates and lookups enforce exactly their documented relation",
"Each precompiled gate is zero on a row exactly when the documented relation holds for that row's values (multiplication, arithmetic with three and four wires, fifth-power sum, two-bit accumulator step, two-bit and/xor), and registers every column and rotation it reads. Each precompiled lookup pairs each input column with its own table column.",
["inputs"],"all cell values in the gates' intended range and arbitrary field values outside it",
"Tests run random satisfying assignments; no violating row is ever tried and the four-wire gate is untested.",
["src/vo/precompiled/plonk_arith.rs","src/vo/precompiled/mul.rs","src/vo/precompiled/rescue.rs","src/vo/precompiled/logic.rs","src/vo/precompiled_lookups/simple_3_arith.rs"],[("gate expressions","src/vo/precompiled")],observe=["get_expr_and_queries","gate value on a row"])
p("C16","Gate configuration resolves columns faithfully and fails cleanly",
"Configuring a gate or lookup binds every relative column index to the column at that position, registers exactly the queried rotations on exactly those columns, and keeps the meaning of the expression; until it is configured its use is an error. Unknown columns and unconfigured gates are reported as the matching error by indexing, proving and verifying, and non-fixed lookup tables by configuring, proving and verifying.",
["histories","programs"],"all sequences of init, configure, reconfigure and use; all expressions; all column lists",
"Tests configure once, on matching columns, and never use an unconfigured gate.",
["src/vo/generic_vo.rs","src/vo/generic_lookup_vo.rs","src/vo/virtual_expression.rs"],[("configure","src/vo/generic_vo.rs:configure"),("configure","src/vo/generic_lookup_vo.rs:configure")],state=[("expression","resolved expression","src/vo/generic_vo.rs"),("queried rotations","rotations registered on each column","src/oracles/witness.rs")],observe=["configure","get_expression","rotation sets"])
p("C17","Expressions compute what their operators say, and bound their degree",
"An expression built with +, -, *, negation and scaling evaluates to the field value those operators denote, in every evaluation context (rows, extended coset, challenge point), and its reported degree is never below the true degree of the composed polynomial and is at most the sum/maximum bound.",
["inputs","programs"],"all expression trees and all cell values",
"Tests use a few fixed expressions.",
["src/vo/expression.rs","src/vo/virtual_expression.rs"],[("evaluate","src/vo/expression.rs:evaluate"),("degree","src/vo/expression.rs:degree")],observe=["evaluate","degree"])
p("C18","The transcript RNG output is a function of the absorbed history only",
"The values drawn after any sequence of absorptions depend on all absorbed inputs and their order, and on nothing else except how many values were drawn since the last absorption; equal histories give equal values and different histories give different ones (barring hash collisions and initial inputs crafted to contain a hash state).",
["histories"],"all interleavings of absorb and draw operations",
"The RNG has no test of its own.",
["src/rng.rs"],[("reseeding","src/rng.rs:absorb")],state=[("seed","hash chain of everything absorbed","src/rng.rs")],observe=["draws"])
p("C19","Homomorphic commitment operations form a faithful linear structure",
"Any combination of commitment additions, negations, scalings and multi-scalar products equals the commitment of the same combination of polynomials, zero is recognised exactly for the zero combination, and combining randomness in the same way lets the combined commitment be opened to the combined value and to no other.",
["inputs","programs"],"all finite sequences of commitment operations with arbitrary scalars",
"One test combines two commitments with one scalar.",
["src/commitment.rs"],[("group operations","src/commitment.rs")],observe=["HomomorphicCommitment methods"])
p("C20","The mock prover accepts exactly the rows-satisfying assignments",
"Mock proving succeeds exactly when every gate is zero on every row of the domain for the given columns, with the same reading of rotations and columns as the real prover; when it fails, the gate and row it names are ones at which that gate is not zero.",
["inputs","programs"],"all gate sets and assignments",
"The mock prover has no test.",
["src/mock_prover.rs"],[("row check","src/mock_prover.rs:prove")],observe=["MockProver::prove"],hook=HK)
p("C21","Proof contents match the circuit and survive serialization",
"A proof contains exactly the commitments and evaluations the circuit requires, its reported statistics equal those counts, and serializing then deserializing it gives a proof with the same verdict and the same bytes.",
["inputs","configurations"],"all circuits and proofs",
"No test serializes a proof or reads its statistics.",
[TP,"src/multiproof/mod.rs"],[("proof structure","src/turbo_plonk.rs:TPProof")],observe=["info","cumulative_info","serialize"],hook=HK)
p("C22","Custom vanishing polynomials constrain exactly their roots",
"With a vanishing polynomial having some domain rows removed, gates are enforced on every remaining row and on no removed row: honest proofs are accepted whatever the removed rows contain, and a violated remaining row is never accepted.",
["inputs","configurations"],"all choices of removed rows the indexer accepts, all gate sets, all assignments",
"One test uses the full vanishing polynomial throughout; none removes rows.",
["src/indexer.rs",TP,"src/piop/prover.rs"],[("division by the vanishing polynomial","src/piop/prover.rs:prover_quotient_round"),("vanishing inverses","src/indexer.rs:compute_zh_evals")],observe=["return values of prove and verify"],hook=HK)
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
