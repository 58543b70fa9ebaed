//! Proving, verifying and altering proofs through the public interface.
use crate::circuit::*;
use crate::common::*;
use crate::fields::*;
use ark_ff::PrimeField;
use ark_poly::UVPolynomial;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain};
use ark_poly_commit::{LabeledPolynomial, PolynomialCommitment};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::SeedableRng;
use rand_chacha::ChaChaRng;
use serde_json::{json, Value};
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::data_structures::*;
use zero_over_k::oracles::witness::WitnessVerifierOracle;
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::*;
use zero_over_k::piop::PIOPforPolyIdentity;
use zero_over_k::rng::FiatShamirRng;
use zero_over_k::turbo_plonk::{TPProof, TurboPlonk};
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use zero_over_k::PIL;

pub struct Keys<F: PrimeField, PC: HomomorphicCommitment<F>> {
    pub ck: PC::CommitterKey,
    pub vk: PC::VerifierKey,
}
impl<F: PrimeField, PC: HomomorphicCommitment<F>> Keys<F, PC> {
    pub fn new(max: usize) -> Self {
        let (ck, vk) = keys::<F, PC>(max);
        Keys { ck, vk }
    }
}

pub fn seeded(seed: u64) -> ChaChaRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    ChaChaRng::from_seed(s)
}

fn dbg<E: core::fmt::Debug>(e: E) -> String {
    let s = format!("{e:?}");
    s.chars().take(160).collect()
}

pub type Pf<F, PC> = TPProof<F, PC>;

/// Setup failures are reported as `err:config:`/`err:index:`/... so that callers see the stage.
pub fn prove_with<F, PC, FS>(c: &Circ<F>, k: &Keys<F, PC>, seeds: &[u64]) -> Out<Vec<Pf<F, PC>>>
where
    F: PrimeField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let mut ps = match guard(|| PSide::new(c).map_err(|e| format!("config:{e}"))) {
        Out::Ok(p) => p,
        Out::Err(e) => return Out::Err(e),
        Out::Panic(e) => return Out::Panic(format!("config:{e}")),
    };
    let mut wit = std::mem::take(&mut ps.wit);
    let mut inst = std::mem::take(&mut ps.inst);
    prove_side::<F, PC, FS>(c, k, &ps, &mut wit, &mut inst, seeds)
}

/// Proves with the given columns and the remaining inputs of `ps`.
pub fn prove_side<F, PC, FS>(
    c: &Circ<F>,
    k: &Keys<F, PC>,
    ps: &PSide<F>,
    wit: &mut Vec<zero_over_k::oracles::witness::WitnessProverOracle<F>>,
    inst: &mut Vec<zero_over_k::oracles::instance::InstanceProverOracle<F>>,
    seeds: &[u64],
) -> Out<Vec<Pf<F, PC>>>
where
    F: PrimeField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let PSide { fix, tab, sigma, qblind, gates, lookups, .. } = ps;
    let vos: Vec<&dyn VirtualOracle<F>> = gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect();
    let luts: Vec<&dyn LookupVirtualOracle<F>> =
        lookups.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect();
    let vk = match guard(|| {
        zero_over_k::indexer::Indexer::<F, PC>::index(
            &k.vk, &vos, luts, wit, inst, fix, c.domain, &c.zh, c.perm_info(), c.usable,
        )
        .map_err(|e| format!("index:{}", dbg(e)))
    }) {
        Out::Ok(v) => v,
        Out::Err(e) => return Out::Err(e),
        Out::Panic(e) => return Out::Panic(format!("index:{e}")),
    };
    guard(|| {
        let pp = ProverPreprocessedInput::<F, PC>::new(fix, sigma, tab, qblind, &vk.index_info);
        let pk = ProverKey::from_ck_and_vk(&k.ck, &vk);
        let mut out = vec![];
        for s in seeds {
            let mut rng = seeded(*s);
            out.push(
                TurboPlonk::<F, PC, FS>::prove(&pk, &pp, wit, inst, &vos, c.n, &mut rng)
                    .map_err(|e| format!("prove:{}", dbg(e)))?,
            );
        }
        Ok(out)
    })
}

pub fn verify_at<F, PC, FS>(
    c: &Circ<F>,
    k: &Keys<F, PC>,
    vs: &mut VSide<F, PC>,
    proof: Pf<F, PC>,
    inst: Option<&mut Vec<zero_over_k::oracles::instance::InstanceVerifierOracle<F>>>,
) -> Out<()>
where
    F: PrimeField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let VSide { wit, inst: own, pp, gates, lookups } = vs;
    let vos: Vec<&dyn VirtualOracle<F>> = gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect();
    let luts: Vec<&dyn LookupVirtualOracle<F>> =
        lookups.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect();
    let inst = inst.unwrap_or(own);
    let vk = match guard(|| {
        zero_over_k::indexer::Indexer::<F, PC>::index(
            &k.vk, &vos, luts, wit, inst, &pp.fixed_oracles, c.domain, &c.zh, c.perm_info(), c.usable,
        )
        .map_err(|e| format!("index:{}", dbg(e)))
    }) {
        Out::Ok(v) => v,
        Out::Err(e) => return Out::Err(e),
        Out::Panic(e) => return Out::Panic(format!("index:{e}")),
    };
    guard(|| {
        TurboPlonk::<F, PC, FS>::verify(&vk, pp, proof, wit, inst, &vos, c.n, &c.zh)
            .map_err(|e| format!("verify:{}", dbg(e)))
    })
}

pub fn verify_fresh<F, PC, FS>(c: &Circ<F>, k: &Keys<F, PC>, proof: Pf<F, PC>) -> Out<()>
where
    F: PrimeField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let mut vs = match guard(|| VSide::<F, PC>::new(c, &k.ck).map_err(|e| format!("config:{e}"))) {
        Out::Ok(p) => p,
        Out::Err(e) => return Out::Err(e),
        Out::Panic(e) => return Out::Panic(format!("config:{e}")),
    };
    verify_at::<F, PC, FS>(c, k, &mut vs, proof, None)
}

pub fn bytes<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut b = vec![];
    t.serialize(&mut b).expect("harness: serialize");
    b
}

pub fn com_const<F: PrimeField, PC: HomomorphicCommitment<F>>(k: &Keys<F, PC>, v: F) -> PC::Commitment {
    let p = DensePolynomial::from_coefficients_slice(&[F::zero(), v]);
    let (c, _) = PC::commit(&k.ck, &[LabeledPolynomial::new("x".into(), p, None, None)], None)
        .expect("harness: commit");
    c[0].commitment().clone()
}

/// `Clone` of proofs asks for a cloneable commitment scheme, so copy by hand.
pub fn cp<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &Pf<F, PC>) -> Pf<F, PC> {
    TPProof {
        witness_commitments: p.witness_commitments.clone(),
        witness_evals: p.witness_evals.clone(),
        fixed_oracle_evals: p.fixed_oracle_evals.clone(),
        table_oracle_evals: p.table_oracle_evals.clone(),
        permutation_oracle_evals: p.permutation_oracle_evals.clone(),
        q_blind_eval: p.q_blind_eval,
        lookup_commitments: p.lookup_commitments.clone(),
        lookup_z_commitments: p.lookup_z_commitments.clone(),
        lookup_evals: p.lookup_evals.clone(),
        lookup_z_evals: p.lookup_z_evals.clone(),
        z_commitments: p.z_commitments.clone(),
        z_evals: p.z_evals.clone(),
        quotient_chunk_commitments: p.quotient_chunk_commitments.clone(),
        quotient_chunks_evals: p.quotient_chunks_evals.clone(),
        multiopen_proof: zero_over_k::multiproof::Proof {
            q_evals: p.multiopen_proof.q_evals.clone(),
            f_commit: p.multiopen_proof.f_commit.clone(),
            opening_proof: p.multiopen_proof.opening_proof.clone(),
        },
    }
}

pub const FVECS: [&str; 10] = [
    "witness_evals", "fixed_oracle_evals", "table_oracle_evals", "permutation_oracle_evals",
    "lookup_evals", "lookup_z_evals", "z_evals", "quotient_chunks_evals", "q_evals", "q_blind_eval",
];
pub const CVECS: [&str; 6] = [
    "witness_commitments", "lookup_commitments", "lookup_z_commitments", "z_commitments",
    "quotient_chunk_commitments", "f_commit",
];

pub fn fvec<'a, F: PrimeField, PC: HomomorphicCommitment<F>>(p: &'a mut Pf<F, PC>, f: &str) -> Option<&'a mut Vec<F>> {
    Some(match f {
        "witness_evals" => &mut p.witness_evals,
        "fixed_oracle_evals" => &mut p.fixed_oracle_evals,
        "table_oracle_evals" => &mut p.table_oracle_evals,
        "permutation_oracle_evals" => &mut p.permutation_oracle_evals,
        "lookup_evals" => &mut p.lookup_evals,
        "lookup_z_evals" => &mut p.lookup_z_evals,
        "z_evals" => &mut p.z_evals,
        "quotient_chunks_evals" => &mut p.quotient_chunks_evals,
        "q_evals" => &mut p.multiopen_proof.q_evals,
        _ => return None,
    })
}
pub fn cvec<'a, F: PrimeField, PC: HomomorphicCommitment<F>>(p: &'a mut Pf<F, PC>, f: &str) -> Option<&'a mut Vec<PC::Commitment>> {
    Some(match f {
        "witness_commitments" => &mut p.witness_commitments,
        "lookup_commitments" => &mut p.lookup_commitments,
        "lookup_z_commitments" => &mut p.lookup_z_commitments,
        "z_commitments" => &mut p.z_commitments,
        "quotient_chunk_commitments" => &mut p.quotient_chunk_commitments,
        _ => return None,
    })
}

fn vec_op<T: Clone>(v: &mut Vec<T>, op: &str, m: &Value, zero: T, extra: T) {
    let i = m["i"].as_u64().unwrap_or(0) as usize;
    match op {
        "empty" => v.clear(),
        "drop" => {
            if i < v.len() {
                v.remove(i);
            }
        }
        "droplast" => {
            v.pop();
        }
        "dup" => {
            if i < v.len() {
                let x = v[i].clone();
                v.insert(i, x);
            }
        }
        "append" => v.push(extra),
        "prepend" => v.insert(0, extra),
        "append0" => v.push(zero),
        "zero" => v.iter_mut().for_each(|x| *x = zero.clone()),
        "reverse" => v.reverse(),
        "rotate" => {
            if !v.is_empty() {
                v.rotate_left(1)
            }
        }
        "double" => {
            let w = v.clone();
            v.extend(w)
        }
        "swap" => {
            let j = us(&m["j"]);
            if i < v.len() && j < v.len() {
                v.swap(i, j)
            }
        }
        "set0" => {
            if i < v.len() {
                v[i] = zero
            }
        }
        "copy" => {
            let j = us(&m["j"]);
            if i < v.len() && j < v.len() {
                v[i] = v[j].clone()
            }
        }
        _ => panic!("harness: vec op {op}"),
    }
}

/// Apply one edit.  `other` is a second accepted proof of the same circuit.
pub fn edit<F: PrimeField, PC: HomomorphicCommitment<F>>(
    p: &mut Pf<F, PC>, other: &Pf<F, PC>, m: &Value, k: &Keys<F, PC>,
) {
    let f = st(&m["f"]);
    let op = st(&m["op"]);
    let mut oth = cp::<F, PC>(other);
    if f == "opening_proof" {
        assert!(op == "from2", "harness: opening_proof op {op}");
        p.multiopen_proof.opening_proof = other.multiopen_proof.opening_proof.clone();
        return;
    }
    if f == "q_blind_eval" {
        match op {
            "add" => p.q_blind_eval += fj::<F>(&m["v"]),
            "zero" | "set0" => p.q_blind_eval = F::zero(),
            "from2" => p.q_blind_eval = other.q_blind_eval,
            _ => panic!("harness: op {op}"),
        }
        return;
    }
    if f == "f_commit" {
        let c = &mut p.multiopen_proof.f_commit;
        match op {
            "add" => *c = PC::add(c, &com_const::<F, PC>(k, fj(&m["v"]))),
            "zero" | "set0" => *c = PC::zero_comm(),
            "from2" => *c = other.multiopen_proof.f_commit.clone(),
            _ => panic!("harness: op {op}"),
        }
        return;
    }
    if let Some(v) = fvec::<F, PC>(p, f) {
        let i = m["i"].as_u64().unwrap_or(0) as usize;
        match op {
            "add" => {
                if i < v.len() {
                    v[i] += fj::<F>(&m["v"])
                }
            }
            "from2" => {
                let o = fvec::<F, PC>(&mut oth, f).unwrap();
                if i < v.len() && i < o.len() {
                    v[i] = o[i]
                }
            }
            "all2" => *v = fvec::<F, PC>(&mut oth, f).unwrap().clone(),
            _ => vec_op(v, op, m, F::zero(), fj(&json!("r77"))),
        }
        return;
    }
    if let Some(v) = cvec::<F, PC>(p, f) {
        let i = m["i"].as_u64().unwrap_or(0) as usize;
        match op {
            "add" => {
                if i < v.len() {
                    v[i] = PC::add(&v[i], &com_const::<F, PC>(k, fj(&m["v"])))
                }
            }
            "from2" => {
                let o = cvec::<F, PC>(&mut oth, f).unwrap();
                if i < v.len() && i < o.len() {
                    v[i] = o[i].clone()
                }
            }
            "all2" => *v = cvec::<F, PC>(&mut oth, f).unwrap().clone(),
            _ => vec_op(v, op, m, PC::zero_comm(), com_const::<F, PC>(k, fj(&json!("r78")))),
        }
        return;
    }
    panic!("harness: proof field {f}");
}

/// Lengths of all vectors of a proof.
pub fn counts<F: PrimeField, PC: HomomorphicCommitment<F>>(p: &Pf<F, PC>) -> Value {
    json!({
        "witness_commitments": p.witness_commitments.len(), "witness_evals": p.witness_evals.len(),
        "fixed_oracle_evals": p.fixed_oracle_evals.len(), "table_oracle_evals": p.table_oracle_evals.len(),
        "permutation_oracle_evals": p.permutation_oracle_evals.len(),
        "lookup_commitments": p.lookup_commitments.len(), "lookup_evals": p.lookup_evals.len(),
        "lookup_z_commitments": p.lookup_z_commitments.len(), "lookup_z_evals": p.lookup_z_evals.len(),
        "z_commitments": p.z_commitments.len(), "z_evals": p.z_evals.len(),
        "quotient_chunk_commitments": p.quotient_chunk_commitments.len(),
        "quotient_chunks_evals": p.quotient_chunks_evals.len(),
        "q_evals": p.multiopen_proof.q_evals.len(),
    })
}

/// (label, rotation) per evaluation slot of a group of columns, in proof order.
pub fn layout<F: PrimeField, PC: HomomorphicCommitment<F>, O>(os: &[O], c: &Circ<F>, xi: F) -> Vec<(String, i64)>
where
    O: QuerySetProvider<F>,
{
    let qs = PIOPforPolyIdentity::<F, PC>::get_query_set(os, "xi", xi, &c.omegas);
    let n = c.n as i64;
    qs.iter()
        .map(|(l, (_, p))| {
            let mut r = None;
            for k in 0..n {
                if c.omegas[k as usize] * xi == *p {
                    r = Some(k);
                }
            }
            (l.clone(), r.expect("harness: point outside the coset of the challenge"))
        })
        .collect()
}

pub fn z_layout<F: PrimeField, PC: HomomorphicCommitment<F>>(nz: usize, c: &Circ<F>, xi: F) -> Vec<(String, i64)> {
    let u = c.perm_info().u;
    let os: Vec<WitnessVerifierOracle<F, PC>> = (0..nz)
        .map(|i| {
            let mut o = WitnessVerifierOracle::new(format!("agg_permutation_{i}"), false);
            o.register_rotation(Rotation::curr());
            o.register_rotation(Rotation::next());
            if i + 1 != nz {
                o.register_rotation(rot(u as i64));
            }
            o
        })
        .collect();
    layout::<F, PC, _>(&os, c, xi)
}

pub fn deser<F: PrimeField, PC: HomomorphicCommitment<F>>(b: &[u8]) -> Result<Pf<F, PC>, String> {
    Pf::<F, PC>::deserialize(b).map_err(|e| format!("{e:?}"))
}

pub fn dom_evals<F: PrimeField>(c: &Circ<F>, p: &[F]) -> Vec<F> {
    let mut v = p.to_vec();
    // reduce modulo X^n - 1
    let mut r = vec![F::zero(); c.n];
    for (i, x) in v.drain(..).enumerate() {
        r[i % c.n] += x;
    }
    c.domain.fft(&r)
}

pub fn unused<F: PrimeField, PC: PolynomialCommitment<F, DensePolynomial<F>>>() {}
