#![allow(dead_code)]
mod circuit;
mod common;
mod core;
mod fields;
mod hfs;
mod tpc;
use crate::core::{bytes, com_const, seeded, Keys};
use ark_bls12_381::{Bls12_381, Fr};
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use blake2::Blake2s;
use circuit::*;
use common::*;
use fields::*;
use hfs::HFS;
use rand_chacha::ChaChaRng;
use serde_json::{json, Value};
use tpc::*;
use zero_over_k::commitment::{HomomorphicCommitment, KZG10};
use zero_over_k::multiproof::{piop::Multiopen, Proof};
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};

struct Setup<F: VField> {
    n: usize,
    xi: F,
    omegas: Vec<F>,
    polys: Vec<DensePolynomial<F>>,
    kinds: Vec<String>,
    rots: Vec<Vec<i64>>,
}
impl<F: VField> Setup<F> {
    fn new(j: &Value) -> Self {
        let n = us(&j["n"]);
        let d = GeneralEvaluationDomain::<F>::new(n).expect("harness: domain");
        let os = arr(&j["oracles"]);
        Setup {
            n,
            xi: fj(&j["xi"]),
            omegas: d.elements().collect(),
            polys: os.iter().map(|o| DensePolynomial::from_coefficients_vec(arr(&o["co"]).iter().map(fj).collect())).collect(),
            kinds: os.iter().map(|o| st(&o["kind"]).to_string()).collect(),
            rots: os.iter().map(|o| arr(&o["rots"]).iter().map(i6).collect()).collect(),
        }
    }
    fn point(&self, r: i64) -> F {
        let n = self.n as i64;
        self.xi * self.omegas[(((r % n) + n) % n) as usize]
    }
    fn label(&self, i: usize) -> String {
        format!("o{i}")
    }
    /// the column of the verifier: claims are [value per rotation]
    fn committed<PC: HomomorphicCommitment<F> + 'static>(&self, coms: &[PC::Commitment], claims: &[Vec<F>]) -> Vec<Box<dyn CommittedOracle<F, PC>>>
    where
        PC: 'static,
    {
        (0..self.polys.len())
            .map(|i| -> Box<dyn CommittedOracle<F, PC>> {
                if self.kinds[i] == "f" {
                    let mut o = FixedVerifierOracle::<F, PC>::new(self.label(i), Some(coms[i].clone()));
                    for (r, v) in self.rots[i].iter().zip(&claims[i]) {
                        o.register_rotation(rot(*r));
                        o.register_eval_at_challenge(self.point(*r), *v);
                    }
                    Box::new(o)
                } else {
                    let mut o = WitnessVerifierOracle::<F, PC>::new(self.label(i), false);
                    o.register_commitment(coms[i].clone());
                    for (r, v) in self.rots[i].iter().zip(&claims[i]) {
                        o.register_rotation(rot(*r));
                        o.register_eval_at_challenge(self.point(*r), *v);
                    }
                    Box::new(o)
                }
            })
            .collect()
    }
}

fn run_verify<F: VField, PC: HomomorphicCommitment<F> + 'static, FS: FiatShamirRng>(
    s: &Setup<F>, k: &Keys<F, PC>, pf: Proof<F, PC>, coms: &[PC::Commitment], claims: &[Vec<F>],
) -> String {
    guard(|| {
        let v = s.committed::<PC>(coms, claims);
        let refs: Vec<&dyn CommittedOracle<F, PC>> = v.iter().map(|x| x.as_ref()).collect();
        let mut fs = FS::initialize(&[7u8]);
        Multiopen::<F, PC, FS>::verify(&k.vk, pf, &refs, s.xi, s.n, &mut fs).map_err(|e| format!("{e:?}").chars().take(90).collect())
    })
    .status("accept")
}

fn cpp<F: VField, PC: HomomorphicCommitment<F>>(p: &Proof<F, PC>) -> Proof<F, PC> {
    Proof { q_evals: p.q_evals.clone(), f_commit: p.f_commit.clone(), opening_proof: p.opening_proof.clone() }
}

fn tamper<F: VField, PC: HomomorphicCommitment<F> + 'static, FS: FiatShamirRng>(j: &Value) -> Value {
    let s = Setup::<F>::new(j);
    let top = s.polys.iter().map(|p| p.coeffs.len()).max().unwrap_or(0).max(4) + 2;
    let k = Keys::<F, PC>::new(top);
    let script: Vec<Option<u64>> = match j.get("script") {
        Some(v) if v.is_array() => arr(v).iter().map(|x| Some(fj::<F>(x).raw())).collect(),
        _ => vec![],
    };
    let cfg = || hfs::configure(F::modulus64(), script.clone(), 0);
    let seed = us(&j["seed"]) as u64;
    let mut rng = seeded(seed);
    let mut ws: Vec<Option<WitnessProverOracle<F>>> = vec![];
    let mut fx: Vec<Option<FixedProverOracle<F>>> = vec![];
    for i in 0..s.polys.len() {
        if s.kinds[i] == "f" {
            let mut o = FixedProverOracle::new(s.label(i), s.polys[i].clone(), &[]);
            s.rots[i].iter().for_each(|r| o.register_rotation(rot(*r)));
            ws.push(None);
            fx.push(Some(o));
        } else {
            let mut o = WitnessProverOracle::new(s.label(i), s.polys[i].clone(), &[], false);
            s.rots[i].iter().for_each(|r| o.register_rotation(rot(*r)));
            fx.push(None);
            ws.push(Some(o));
        }
    }
    let os: Vec<&dyn Instantiable<F>> = (0..s.polys.len())
        .map(|i| -> &dyn Instantiable<F> {
            match (&ws[i], &fx[i]) {
                (Some(w), _) => w,
                (_, Some(f)) => f,
                _ => unreachable!(),
            }
        })
        .collect();
    let labeled: Vec<_> = os.iter().map(|o| o.to_labeled()).collect();
    let (coms, rands) = PC::commit(&k.ck, &labeled, Some(&mut rng)).expect("harness: commit");
    let coms: Vec<PC::Commitment> = coms.iter().map(|c| c.commitment().clone()).collect();
    let claims: Vec<Vec<F>> =
        (0..s.polys.len()).map(|i| s.rots[i].iter().map(|r| eval(&s.polys[i], s.point(*r))).collect()).collect();
    let prove = |seed: u64| {
        cfg();
        guard(|| {
            let mut fs = FS::initialize(&[7u8]);
            let mut zk = seeded(seed);
            Multiopen::<F, PC, FS>::prove(&k.ck, &os, &rands, s.xi, s.n, &mut fs, &mut zk)
                .map_err(|e| format!("{e:?}").chars().take(90).collect())
        })
    };
    let p = match prove(seed + 1) {
        Out::Ok(p) => p,
        o => {
            // whatever the prover thinks of it, the verifier must not crash on these columns
            let pf = Proof { q_evals: vec![], f_commit: PC::zero_comm(), opening_proof: match prove_dummy::<F, PC, FS>(&k) { Some(x) => x, None => return json!({"prove": o.status("ok"), "v": "err:none"}) } };
            let mut vs = vec![];
            for m in 0..4usize {
                let mut q = cpp::<F, PC>(&pf);
                q.q_evals = vec![F::zero(); m];
                cfg();
                vs.push(json!(run_verify::<F, PC, FS>(&s, &k, q, &coms, &claims)));
            }
            return json!({"prove": o.status("ok"), "vs": vs});
        }
    };
    cfg();
    let base = run_verify::<F, PC, FS>(&s, &k, cpp::<F, PC>(&p), &coms, &claims);
    let mut again = vec![];
    for t in 2..4u64 {
        if let Out::Ok(p2) = prove(seed + t) {
            cfg();
            again.push(json!(run_verify::<F, PC, FS>(&s, &k, p2, &coms, &claims)));
        } else {
            again.push(json!("panic:no proof"));
        }
    }
    let Out::Ok(other) = prove(seed + 9) else { return json!({"prove": "panic:second proof"}) };
    let mut res = vec![];
    for ms in arr(&j["edits"]) {
        let (mut q, mut cs, mut cl) = (cpp::<F, PC>(&p), coms.clone(), claims.clone());
        for m in arr(ms) {
            let i = m["i"].as_u64().unwrap_or(0) as usize;
            let op = st(&m["op"]);
            match (st(&m["f"]), op) {
                ("claim", "add") => {
                    let r = us(&m["k"]);
                    if i < cl.len() && r < cl[i].len() {
                        cl[i][r] += fj::<F>(&m["v"]);
                    }
                }
                ("claim", "cancel") => {
                    // shifts both columns' interpolants so that the plain sum of the two quotients is unchanged
                    let h = us(&m["h"]);
                    let v = fj::<F>(&m["v"]);
                    let pts = |c: usize| -> Vec<F> { s.rots[c].iter().map(|r| s.point(*r)).collect() };
                    let (a, b) = (pts(i), pts(h));
                    let w = |x: F, p: &Vec<F>, q: &Vec<F>| -> F { p.iter().filter(|y| !q.contains(y)).fold(F::one(), |t, y| t * (x - y)) };
                    for r in 0..a.len() {
                        cl[i][r] += v * w(a[r], &a, &b);
                    }
                    for r in 0..b.len() {
                        cl[h][r] -= v * w(b[r], &b, &a);
                    }
                }
                ("claim", "lead") => {
                    // two claims whose parts of the interpolation cancel in the leading coefficient
                    let (a, b, v) = (us(&m["k"]), us(&m["h"]), fj::<F>(&m["v"]));
                    let key = |c: usize| { let mut x = s.rots[c].clone(); x.sort(); x };
                    for c in 0..cl.len() {
                        if c != i && key(c) == key(i) {
                            cl[c].iter_mut().for_each(|x| *x = F::zero());
                        }
                    }
                    let pts: Vec<F> = s.rots[i].iter().map(|r| s.point(*r)).collect();
                    let w = |k: usize| (0..pts.len()).filter(|x| *x != k).fold(v, |t, x| t * (pts[k] - pts[x]));
                    cl[i][a] = w(a);
                    cl[i][b] = -w(b);
                }
                ("claim", "swap") => {
                    let h = us(&m["h"]);
                    if cl[i].len() == cl[h].len() {
                        cl.swap(i, h)
                    }
                }
                ("com", "add") => cs[i] = PC::add(&cs[i], &com_const::<F, PC>(&k, fj(&m["v"]))),
                ("com", "swap") => cs.swap(i, us(&m["h"])),
                ("com", "zero") => cs[i] = PC::zero_comm(),
                ("q", "add") => {
                    if i < q.q_evals.len() {
                        q.q_evals[i] += fj::<F>(&m["v"])
                    }
                }
                ("q", "drop") => {
                    if i < q.q_evals.len() {
                        q.q_evals.remove(i);
                    }
                }
                ("q", "append") => q.q_evals.push(fj(&m["v"])),
                ("q", "empty") => q.q_evals.clear(),
                ("q", "swap") => {
                    let h = us(&m["h"]);
                    if i < q.q_evals.len() && h < q.q_evals.len() {
                        q.q_evals.swap(i, h)
                    }
                }
                ("f", "add") => q.f_commit = PC::add(&q.f_commit, &com_const::<F, PC>(&k, fj(&m["v"]))),
                ("f", "zero") => q.f_commit = PC::zero_comm(),
                ("f", "other") => q.f_commit = other.f_commit.clone(),
                ("open", "other") => q.opening_proof = other.opening_proof.clone(),
                (a, b) => panic!("harness: edit {a} {b}"),
            }
        }
        let same_cs = cs.iter().zip(&coms).all(|(a, b)| PC::eq_cm(a, b));
        let noop = same_cs && cl == claims && bytes(&q.q_evals) == bytes(&p.q_evals) && PC::eq_cm(&q.f_commit, &p.f_commit)
            && bytes(&q.opening_proof) == bytes(&p.opening_proof);
        cfg();
        res.push(json!({"noop": noop, "v": run_verify::<F, PC, FS>(&s, &k, q, &cs, &cl)}));
    }
    json!({"prove": "ok", "nq": p.q_evals.len(), "base": base, "again": again, "res": res})
}

fn prove_dummy<F: VField, PC: HomomorphicCommitment<F> + 'static, FS: FiatShamirRng>(k: &Keys<F, PC>) -> Option<PC::Proof> {
    let mut w = WitnessProverOracle::new("d", DensePolynomial::from_coefficients_vec(vec![F::one(), F::one()]), &[], false);
    w.register_rotation(rot(0));
    let l = w.to_labeled();
    let (_, r) = PC::commit(&k.ck, &[l], Some(&mut seeded(3))).ok()?;
    let mut fs = FS::initialize(&[7u8]);
    hfs::configure(F::modulus64(), vec![], 0);
    Multiopen::<F, PC, FS>::prove(&k.ck, &[&w], &r, fi(3), 4, &mut fs, &mut seeded(3)).ok().map(|p| p.opening_proof)
}

/// the value f has to take at x3, for arbitrary commitments, claims and q evaluations
fn exact<F: VField>(j: &Value) -> Value {
    let s = Setup::<F>::new(j);
    let k = Keys::<F, TPC<F>>::new(64);
    let coms: Vec<TCom<F>> = s.polys.iter().map(tcom).collect();
    let mut out = vec![];
    for c in arr(&j["samples"]) {
        let script: Vec<Option<u64>> = arr(&c["ch"]).iter().map(|x| Some(fj::<F>(x).raw())).collect();
        let claims: Vec<Vec<F>> = arr(&c["claims"]).iter().map(|v| arr(v).iter().map(fj).collect()).collect();
        let q: Vec<F> = arr(&c["q"]).iter().map(fj).collect();
        let mut acc = vec![];
        let mut other = "".to_string();
        for d in 0..F::modulus64() as i64 {
            hfs::configure(F::modulus64(), script.clone(), 0);
            let pf = Proof { q_evals: q.clone(), f_commit: tcom(&DensePolynomial::from_coefficients_vec(vec![fi(d)])), opening_proof: TProof { rv: F::zero() } };
            let v = run_verify::<F, TPC<F>, HFS>(&s, &k, pf, &coms, &claims);
            if v == "accept" {
                acc.push(json!(d));
            } else if !v.starts_with("err:") {
                other = v;
            }
        }
        out.push(json!({"acc": acc, "other": other}));
    }
    json!({"om": s.omegas.get(1).map(|x| x.to_json()).unwrap_or(json!(1)), "res": out})
}

fn job(j: &Value) -> Value {
    match (st(&j["cmd"]), st(&j["field"])) {
        ("exact", "F257") => exact::<F257>(j),
        ("tamper", "F62") => tamper::<F62, TPC<F62>, HFS>(j),
        ("tamper", "F257") => tamper::<F257, TPC<F257>, HFS>(j),
        ("tamper", "BLS") => tamper::<Fr, KZG10<Bls12_381>, SimpleHashFiatShamirRng<Blake2s, ChaChaRng>>(j),
        x => panic!("harness: {x:?}"),
    }
}
fn main() {
    main_loop(job);
}
