#![allow(dead_code)]
mod circuit;
mod common;
mod core;
mod fields;
mod hfs;
mod tpc;
use crate::core::*;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::PrimeField;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, Polynomial};
use blake2::Blake2s;
use circuit::*;
use common::*;
use fields::*;
use hfs::HFS;
use rand_chacha::ChaChaRng;
use serde_json::{json, Value};
use std::collections::HashMap;
use tpc::*;
use zero_over_k::commitment::{HomomorphicCommitment, KZG10};
use zero_over_k::data_structures::*;
use zero_over_k::mock_prover::MockProver;
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};
use zero_over_k::turbo_plonk::TPProof;
use zero_over_k::vo::VirtualOracle;
use zero_over_k::{Proof, PIL};

type RealFS = SimpleHashFiatShamirRng<Blake2s, ChaChaRng>;

fn srs_size(j: &Value) -> usize {
    j["srs"].as_u64().unwrap_or(64) as usize
}

fn script<F: VField>(j: &Value) -> (Vec<Option<u64>>, usize) {
    // names of the challenges in drawing order
    let names = ["theta", "beta", "gamma", "alpha", "xi", "x1", "x2", "x3", "x4"];
    let v = names
        .iter()
        .map(|k| {
            let x = &j["script"][k];
            if x.is_null() {
                None
            } else {
                Some(fj::<F>(x).raw())
            }
        })
        .collect();
    (v, 0)
}

fn xi_script<F: VField>(j: &Value, c: &Circ<F>) -> Vec<Option<u64>> {
    let (mut s, _) = script::<F>(j);
    if let Some(i) = j["xi_row"].as_u64() {
        s[4] = Some(c.omegas[i as usize].raw());
    }
    s
}

fn jobj(v: &Value) -> Value {
    v.clone()
}

/// honest prover for `circ`, verifier for `vcirc` (default: the same)
fn e2e<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, PC>::new(srs_size(j));
    let seed = j["seed"].as_u64().unwrap_or(1);
    let scr = xi_script::<F>(j, &c);
    hfs::configure(F::modulus64(), scr.clone(), 0);
    let p = prove_with::<F, PC, FS>(&c, &k, &[seed]);
    let dp = hfs::draws(&hfs::take_log());
    let ps = p.status("ok");
    let mut vs = String::from("none");
    let mut dv = vec![];
    if let Out::Ok(mut p) = p {
        let vc = if j["vcirc"].is_object() { Circ::<F>::parse(&j["vcirc"]) } else { Circ::<F>::parse(&j["circ"]) };
        let mut pf = p.pop().unwrap();
        if j["edits"].is_array() {
            let o = cp::<F, PC>(&pf);
            for m in arr(&j["edits"]) {
                edit::<F, PC>(&mut pf, &o, m, &k);
            }
        }
        hfs::configure(F::modulus64(), scr, 0);
        let r = verify_fresh::<F, PC, FS>(&vc, &k, pf);
        dv = hfs::draws(&hfs::take_log());
        vs = r.status("accept");
    }
    let same = dp.len() >= dv.len() && dp[..dv.len()] == dv[..];
    json!({"prove": ps, "verify": vs, "draws_equal": same, "ndraws": dv.len()})
}

/// The mock prover on the same statement.
fn mock<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, PC>::new(srs_size(j));
    let mut why = String::new();
    let r = guard(|| -> Result<(), String> {
        let mut ps = PSide::new(&c)?;
        let PSide { wit, inst, fix, tab, sigma, qblind, gates, lookups } = &mut ps;
        let vos: Vec<&dyn VirtualOracle<F>> = gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect();
        let luts = lookups.iter().map(|g| g as &dyn zero_over_k::vo::LookupVirtualOracle<F>).collect();
        let vk = zero_over_k::indexer::Indexer::<F, PC>::index(
            &k.vk, &vos, luts, wit, inst, fix, c.domain, &c.zh, c.perm_info(), c.usable,
        )
        .map_err(|e| format!("index:{e:?}"))?;
        let pp = ProverPreprocessedInput::<F, PC>::new(fix, sigma, tab, qblind, &vk.index_info);
        let pk = ProverKey::from_ck_and_vk(&k.ck, &vk);
        match guard(|| {
            MockProver::<F, PC, FS>::prove(&pk, &pp, wit, inst, &vos, c.n, &mut seeded(1))
                .map(|_| ())
                .map_err(|e| format!("{e:?}"))
        }) {
            Out::Ok(_) => Ok(()),
            o => {
                why = o.status("accept");
                Err("refused".into())
            }
        }
    });
    json!({"mock": r.status("accept"), "why": why})
}

fn index_of<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, PC>::new(srs_size(j));
    fn describe<F: VField, PC: HomomorphicCommitment<F>>(c: &Circ<F>, vk: &VerifierKey<F, PC>) -> Value {
        let ii = &vk.index_info;
        let d = &ii.extended_coset_domain;
        // product with the values of the vanishing polynomial over the coset
        let g = F::multiplicative_generator();
        let prods: Vec<F> = vk
            .zh_inverses_over_coset
            .iter()
            .enumerate()
            .map(|(i, inv)| c.zh.evaluate(&(g * d.element(i))) * inv)
            .collect();
        json!({
            "status": "ok", "ext": d.size(), "qdeg": ii.quotient_degree, "usable": ii.usable_rows,
            "nz": ii.permutation_argument.number_of_z_polys(c.num_perm()),
            "nlk": ii.lookups.len(),
            "ninv": prods.len(), "inv_exact": prods.iter().all(|x| x.is_one()),
            "inv": if F::modulus64() > 0 && F::modulus64() < 50000 { js(&vk.zh_inverses_over_coset) } else { json!([]) },
            "gen": F::multiplicative_generator().to_json(), "extgen": d.element(1).to_json(),
        })
    }
    let a = match guard(|| {
        let ps = PSide::new(&c).map_err(|e| format!("config:{e}"))?;
        let vk = ps.index::<PC>(&c, &k.vk).map_err(|e| format!("index:{e:?}"))?;
        Ok(describe(&c, &vk))
    }) {
        Out::Ok(v) => v,
        o => json!({"status": o.status("ok")}),
    };
    let b = match guard(|| {
        let vs = VSide::<F, PC>::new(&c, &k.ck).map_err(|e| format!("config:{e}"))?;
        let vk = vs.index(&c, &k.vk).map_err(|e| format!("index:{e:?}"))?;
        Ok(describe(&c, &vk))
    }) {
        Out::Ok(v) => v,
        o => json!({"status": o.status("ok")}),
    };
    json!({"p": a, "v": b})
}


/// verdicts of altered proofs
fn alter<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, PC>::new(srs_size(j));
    let seed = j["seed"].as_u64().unwrap_or(1);
    let scr = xi_script::<F>(j, &c);
    let cfg = || hfs::configure(F::modulus64(), scr.clone(), 0);
    cfg();
    let p = prove_with::<F, PC, FS>(&c, &k, &[seed]);
    let ps = p.status("ok");
    let Out::Ok(p) = p else { return json!({"base": ps, "res": []}) };
    cfg();
    let p2 = prove_with::<F, PC, FS>(&c, &k, &[seed + 1]);
    let Out::Ok(p2) = p2 else { return json!({"base": p2.status("ok"), "res": []}) };
    cfg();
    let base = verify_fresh::<F, PC, FS>(&c, &k, cp::<F, PC>(&p[0])).status("accept");
    let b0 = bytes::<Pf<F, PC>>(&p[0]);
    let wo_blind = j["wo_blind"].as_bool().unwrap_or(false);
    let mut res = vec![];
    for ms in arr(&j["muts"]) {
        let mut q = cp::<F, PC>(&p[0]);
        for m in arr(ms) {
            edit::<F, PC>(&mut q, &p2[0], m, &k);
        }
        let noop = bytes::<Pf<F, PC>>(&q) == b0;
        cfg();
        let r = if wo_blind {
            let mut vs = VSide::<F, PC>::new(&c, &k.ck).expect("harness: vside");
            vs.pp = VerifierPreprocessedInput::new_wo_blind(
                vs.pp.fixed_oracles.clone(), vs.pp.table_oracles.clone(), vs.pp.permutation_oracles.clone());
            verify_at::<F, PC, FS>(&c, &k, &mut vs, q, None)
        } else {
            verify_fresh::<F, PC, FS>(&c, &k, q)
        };
        res.push(json!({"noop": noop, "v": r.status("accept")}));
    }
    let base = if wo_blind {
        cfg();
        let mut vs = VSide::<F, PC>::new(&c, &k.ck).expect("harness: vside");
        vs.pp = VerifierPreprocessedInput::new_wo_blind(
            vs.pp.fixed_oracles.clone(), vs.pp.table_oracles.clone(), vs.pp.permutation_oracles.clone());
        verify_at::<F, PC, FS>(&c, &k, &mut vs, cp::<F, PC>(&p[0]), None).status("accept")
    } else { base };
    json!({"base": base, "counts": counts::<F, PC>(&p[0]), "res": res})
}

/// lengths of the vectors of an honest proof
fn shape<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, PC>::new(srs_size(j));
    hfs::configure(F::modulus64(), xi_script::<F>(j, &c), 0);
    let p = prove_with::<F, PC, FS>(&c, &k, &[j["seed"].as_u64().unwrap_or(1)]);
    let Out::Ok(p) = p else { return json!({"status": p.status("ok")}) };
    let p = &p[0];
    let b = bytes::<Pf<F, PC>>(p);
    let mut v = json!({"status": "ok", "counts": counts::<F, PC>(p), "info": p.info(), "cum": p.cumulative_info()});
    hfs::configure(F::modulus64(), xi_script::<F>(j, &c), 0);
    v["verdict"] = json!(verify_fresh::<F, PC, FS>(&c, &k, cp::<F, PC>(p)).status("accept"));
    match guard(|| deser::<F, PC>(&b)) {
        Out::Ok(q) => {
            v["rt"] = json!("ok");
            v["same_bytes"] = json!(bytes::<Pf<F, PC>>(&q) == b);
            v["same_counts"] = json!(counts::<F, PC>(&q) == counts::<F, PC>(p));
            hfs::configure(F::modulus64(), xi_script::<F>(j, &c), 0);
            v["verdict_rt"] = json!(verify_fresh::<F, PC, FS>(&c, &k, q).status("accept"));
        }
        o => {
            v["rt"] = json!(o.status("ok"));
        }
    }
    // a rejected proof stays rejected after the round trip
    let mut bad = cp::<F, PC>(p);
    bad.q_blind_eval += F::one();
    let bb = bytes::<Pf<F, PC>>(&bad);
    match guard(|| deser::<F, PC>(&bb)) {
        Out::Ok(q) => {
            v["bad_same_bytes"] = json!(bytes::<Pf<F, PC>>(&q) == bb && bb != b);
            hfs::configure(F::modulus64(), xi_script::<F>(j, &c), 0);
            v["bad_verdict_rt"] = json!(verify_fresh::<F, PC, FS>(&c, &k, q).status("accept"));
        }
        o => {
            v["bad_same_bytes"] = json!(false);
            v["bad_verdict_rt"] = json!(o.status("ok"));
        }
    }
    // truncated bytes are an error
    let mut trunc = vec![];
    for cut in [0usize, 1, b.len() / 3, b.len() / 2, b.len() - 1] {
        trunc.push(match guard(|| deser::<F, PC>(&b[..cut])) {
            Out::Ok(_) => "ok",
            Out::Err(_) => "err",
            Out::Panic(_) => "panic",
        });
    }
    v["trunc"] = json!(trunc);
    v["serialized_size_ok"] = json!(ark_serialize::CanonicalSerialize::serialized_size(p) == b.len());
    let mut ub = vec![];
    ark_serialize::CanonicalSerialize::serialize_unchecked(p, &mut ub).expect("harness: ser");
    v["unchecked_rt"] = json!(match guard(|| <TPProof<F, PC> as ark_serialize::CanonicalDeserialize>::deserialize_unchecked(&ub[..])
        .map_err(|e| format!("{e:?}"))) {
        Out::Ok(q) => bytes::<Pf<F, PC>>(&q) == b,
        _ => false,
    });
    let mut ub = vec![];
    ark_serialize::CanonicalSerialize::serialize_uncompressed(p, &mut ub).expect("harness: ser");
    v["uncompressed_rt"] = json!(match guard(|| <TPProof<F, PC> as ark_serialize::CanonicalDeserialize>::deserialize_uncompressed(&ub[..])
        .map_err(|e| format!("{e:?}"))) {
        Out::Ok(q) => bytes::<Pf<F, PC>>(&q) == b,
        _ => false,
    });
    v
}

/// which derived challenges change when one message (or public value) changes
fn influence<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, PC>::new(srs_size(j));
    let seed = j["seed"].as_u64().unwrap_or(1);
    let scr = xi_script::<F>(j, &c);
    let cfg = || hfs::configure(F::modulus64(), scr.clone(), 0);
    if F::modulus64() == 0 {
        // no alpha, and a xi at which the vanishing polynomial is zero
        assert_eq!(std::mem::size_of::<F>(), 32, "harness: field size");
        let limbs = |x: &F| unsafe { std::mem::transmute_copy::<F, [u64; 4]>(x) };
        hfs::force(match j["xi_row"].as_u64() {
            Some(i) => vec![None, None, Some([0; 4]), Some(limbs(&c.omegas[i as usize]))],
            None => vec![],
        });
    }
    cfg();
    let p = prove_with::<F, PC, FS>(&c, &k, &[seed]);
    let dp = hfs::draws(&hfs::take_log());
    let Out::Ok(p) = p else { return json!({"base": p.status("ok")}) };
    let p = &p[0];
    cfg();
    let p2 = prove_with::<F, PC, FS>(&c, &k, &[seed + 1]);
    let Out::Ok(p2) = p2 else { return json!({"base": p2.status("ok")}) };
    cfg();
    let base = verify_fresh::<F, PC, FS>(&c, &k, cp::<F, PC>(p)).status("accept");
    let dv = hfs::draws(&hfs::take_log());
    let diff = |d: &Vec<u64>| -> Vec<i64> {
        // per challenge: 0 same, 1 different, 2 not drawn
        (0..dv.len()).map(|i| if i >= d.len() { 2 } else if d[i] == dv[i] { 0 } else { 1 }).collect()
    };
    let mut res = vec![];
    for ms in arr(&j["muts"]) {
        let mut q = cp::<F, PC>(p);
        for m in arr(ms) {
            edit::<F, PC>(&mut q, &p2[0], m, &k);
        }
        let noop = bytes::<Pf<F, PC>>(&q) == bytes::<Pf<F, PC>>(p);
        cfg();
        let r = verify_fresh::<F, PC, FS>(&c, &k, q);
        let d = hfs::draws(&hfs::take_log());
        res.push(json!({"noop": noop, "v": r.status("accept"), "ch": diff(&d)}));
    }
    let mut ires = vec![];
    for ms in arr(&j["imuts"]) {
        let cc = alter_instance::<F>(j, ms);
        cfg();
        let r = verify_fresh::<F, PC, FS>(&cc, &k, cp::<F, PC>(p));
        let d = hfs::draws(&hfs::take_log());
        ires.push(json!({"v": r.status("accept"), "ch": diff(&d)}));
    }
    if F::modulus64() == 0 {
        // one record per period: spread over the challenges drawn in it
        let per = [0usize, 1, 1, 2, 3, 4, 4, 5, 6];
        let wide = |v: &mut Value| {
            let c: Vec<Value> = arr(&v["ch"]).clone();
            if c.len() == 7 {
                v["ch"] = json!(per.iter().map(|k| c[*k].clone()).collect::<Vec<_>>());
            }
        };
        res.iter_mut().for_each(wide);
        ires.iter_mut().for_each(wide);
        let n = if dv.len() == 7 { 9 } else { dv.len() };
        return json!({"base": base, "n": n, "agree": dp == dv, "counts": counts::<F, PC>(p), "res": res, "ires": ires});
    }
    json!({"base": base, "n": dv.len(), "agree": dp == dv, "counts": counts::<F, PC>(p), "res": res, "ires": ires})
}

/// instance edits: [[column, row, delta], ...] or [column, power, delta, "coeff"]
fn alter_instance<F: VField>(j: &Value, ms: &Value) -> Circ<F> {
    let mut cc = Circ::<F>::parse(&j["circ"]);
    for m in arr(ms) {
        let (col, row) = (us(&m[0]), us(&m[1]));
        let d: F = fj(&m[2]);
        // a row, or a coefficient
        let e = if m[3] == "vanish" {
            // d * X^row * (a polynomial that is zero wherever the column is opened)
            let xi: F = fj(&j["script"]["xi"]);
            let mut z = vec![d];
            for r in arr(&m[4]) {
                let p = xi * cc.omegas[i6(r).rem_euclid(cc.omegas.len() as i64) as usize];
                let mut y = vec![F::zero(); z.len() + 1];
                for (i, c) in z.iter().enumerate() {
                    y[i + 1] += *c;
                    y[i] -= *c * p;
                }
                z = y;
            }
            let mut e = cc.domain.ifft(&cc.inst[col].evals);
            for (i, c) in z.iter().enumerate() {
                e[row + i] += *c;
            }
            cc.inst[col].evals = cc.domain.fft(&e);
            e
        } else if m[3] == "coeff" {
            let mut e = cc.domain.ifft(&cc.inst[col].evals);
            e[row] += d;
            cc.inst[col].evals = cc.domain.fft(&e);
            e
        } else {
            cc.inst[col].evals[row] += d;
            cc.domain.ifft(&cc.inst[col].evals)
        };
        cc.inst[col].poly = DensePolynomial { coeffs: e };
        while cc.inst[col].poly.coeffs.last().map_or(false, |x| x.is_zero()) {
            cc.inst[col].poly.coeffs.pop();
        }
    }
    cc
}

fn public<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, PC>::new(srs_size(j));
    let seed = j["seed"].as_u64().unwrap_or(1);
    let scr = xi_script::<F>(j, &c);
    let cfg = || hfs::configure(F::modulus64(), scr.clone(), 0);
    cfg();
    let p = prove_with::<F, PC, FS>(&c, &k, &[seed]);
    let Out::Ok(p) = p else { return json!({"base": p.status("ok"), "res": []}) };
    cfg();
    let base = verify_fresh::<F, PC, FS>(&c, &k, cp::<F, PC>(&p[0])).status("accept");
    let mut res = vec![];
    for ms in arr(&j["imuts"]) {
        let cc = alter_instance::<F>(j, ms);
        cfg();
        res.push(json!(verify_fresh::<F, PC, FS>(&cc, &k, cp::<F, PC>(&p[0])).status("accept")));
    }
    json!({"base": base, "res": res})
}

/// A sequence of verifications over shared inputs, next to the same over fresh inputs,
/// and of provings reusing the prover's inputs.
fn history<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, PC>::new(srs_size(j));
    let scr = xi_script::<F>(j, &c);
    let cfg = || hfs::configure(F::modulus64(), scr.clone(), 0);
    // proofs of the other statements (same circuit, other witness / public values)
    let mut pool: Vec<Pf<F, PC>> = vec![];
    let mut noop = vec![];
    let mut stm: Vec<Circ<F>> = vec![Circ::parse(&j["circ"])];
    for a in arr(&j["alts"]) {
        stm.push(Circ::parse(a));
    }
    for s in arr(&j["pool"]) {
        // {"st": statement, "seed":.., "edits":[..]}
        let sc = &stm[us(&s["st"])];
        cfg();
        let p = prove_with::<F, PC, FS>(sc, &k, &[us(&s["seed"]) as u64]);
        let Out::Ok(mut p) = p else { return json!({"base": p.status("ok")}) };
        let mut q = p.pop().unwrap();
        let o = cp::<F, PC>(&q);
        for m in arr(&s["edits"]) {
            edit::<F, PC>(&mut q, &o, m, &k);
        }
        noop.push(bytes::<Pf<F, PC>>(&q) == bytes::<Pf<F, PC>>(&o));
        pool.push(q);
    }
    // fresh verdicts of every (statement, proof)
    let mut fresh = vec![];
    for s in 0..stm.len() {
        let mut row = vec![];
        for p in &pool {
            cfg();
            row.push(verify_fresh::<F, PC, FS>(&stm[s], &k, cp::<F, PC>(p)).status("accept"));
        }
        fresh.push(row);
    }
    // shared runs: the witness/fixed/table inputs are shared, public inputs follow the statement
    let mut runs = vec![];
    for h in arr(&j["histories"]) {
        let mut vs = VSide::<F, PC>::new(&c, &k.ck).expect("harness: vside");
        let mut insts: Vec<_> =
            stm.iter().map(|s| VSide::<F, PC>::new(s, &k.ck).expect("harness: vside").inst).collect();
        let mut out = vec![];
        for step in arr(h) {
            let (s, p) = (us(&step[0]), us(&step[1]));
            cfg();
            out.push(
                verify_at::<F, PC, FS>(&c, &k, &mut vs, cp::<F, PC>(&pool[p]), Some(&mut insts[s])).status("accept"),
            );
        }
        runs.push(json!(out));
    }
    // prover reuse
    let seeds: Vec<u64> = arr(&j["reuse"]).iter().map(|x| us(x) as u64).collect();
    cfg();
    let reuse: Vec<String> = match prove_with::<F, PC, FS>(&c, &k, &seeds) {
        Out::Ok(ps) => ps
            .into_iter()
            .map(|p| {
                cfg();
                verify_fresh::<F, PC, FS>(&c, &k, p).status("accept")
            })
            .collect(),
        o => vec![o.status("ok")],
    };
    json!({"base": "ok", "noop": noop, "fresh": fresh, "runs": runs, "reuse": reuse})
}

/// One set of prover columns used with the keys of several circuits over the same columns.
fn rekey<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    let cs: Vec<Circ<F>> = arr(&j["circs"]).iter().map(Circ::parse).collect();
    let k = Keys::<F, PC>::new(srs_size(j));
    let mut sides: Vec<PSide<F>> = cs.iter().map(|c| PSide::new(c).expect("harness: pside")).collect();
    let mut wit = std::mem::take(&mut sides[0].wit);
    let mut inst = std::mem::take(&mut sides[0].inst);
    let mut res = vec![];
    for (x, s) in arr(&j["order"]).iter().map(us).enumerate() {
        let c = &cs[s];
        hfs::configure(F::modulus64(), vec![], 0);
        let r = prove_side::<F, PC, FS>(c, &k, &sides[s], &mut wit, &mut inst, &[x as u64]);
        res.push(match r {
            Out::Ok(mut p) => {
                hfs::configure(F::modulus64(), vec![], 0);
                verify_fresh::<F, PC, FS>(c, &k, p.pop().unwrap()).status("accept")
            }
            o => o.status("ok"),
        });
    }
    json!({"res": res})
}

/// Everything the prover commits to, through the transparent commitment.
fn blind<F: VField>(j: &Value) -> Value {
    type P<F> = TPC<F>;
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, P<F>>::new(srs_size(j));
    let seeds: Vec<u64> = arr(&j["seeds"]).iter().map(|x| us(x) as u64).collect();
    let scr = xi_script::<F>(j, &c);
    let mut tok: HashMap<F, usize> = HashMap::new();
    let mut t = |x: &F| -> usize {
        let n = tok.len();
        *tok.entry(*x).or_insert(n + 1)
    };
    let mut z0 = |v: &[F]| -> Vec<usize> { v.iter().map(|x| t(x)).collect() };
    let _ = z0(&[F::zero(), F::one()]); // tokens 1 and 2
    let mut runs = vec![];
    let mut emit = |p: &Pf<F, P<F>>, calls: Vec<CommitCall>, verdict: String, reused: bool| -> Value {
        let mut items = vec![];
        let mut add = |kind: &str, cs: &Vec<TCom<F>>| {
            for (i, x) in cs.iter().enumerate() {
                items.push(json!({"kind": kind, "i": i, "hid": z0(&x.r), "hz": x.r.iter().any(|y| y.is_zero()),
                    "rows": z0(&dom_evals(&c, &x.p))}));
            }
        };
        add("w", &p.witness_commitments);
        add("l", &p.lookup_commitments);
        add("lz", &p.lookup_z_commitments);
        add("z", &p.z_commitments);
        add("t", &p.quotient_chunk_commitments);
        add("f", &vec![p.multiopen_proof.f_commit.clone()]);
        json!({"items": items, "verdict": verdict, "reused": reused,
            "calls": calls.iter().map(|x| json!({"label": x.label, "hid": x.hiding.map(|h| h as i64).unwrap_or(-1), "rng": x.had_rng})).collect::<Vec<_>>()})
    };
    for s in &seeds {
        CALLS.with(|c| c.borrow_mut().clear());
        hfs::configure(F::modulus64(), scr.clone(), 0);
        match prove_with::<F, P<F>, HFS>(&c, &k, &[*s]) {
            Out::Ok(p) => {
                let calls = CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()));
                hfs::configure(F::modulus64(), scr.clone(), 0);
                let v = verify_fresh::<F, P<F>, HFS>(&c, &k, cp::<F, P<F>>(&p[0])).status("accept");
                runs.push(emit(&p[0], calls, v, false));
            }
            o => return json!({"status": o.status("ok")}),
        }
    }
    // the same inputs reused for two more proofs from one randomness stream
    hfs::configure(F::modulus64(), scr.clone(), 0);
    match prove_with::<F, P<F>, HFS>(&c, &k, &[991, 992]) {
        Out::Ok(ps) => {
            for p in ps {
                hfs::configure(F::modulus64(), scr.clone(), 0);
                let v = verify_fresh::<F, P<F>, HFS>(&c, &k, cp::<F, P<F>>(&p)).status("accept");
                runs.push(emit(&p, vec![], v, true));
            }
        }
        o => return json!({"status": o.status("ok")}),
    }
    json!({"status": "ok", "runs": runs})
}

/// Recover the quantity the verifier requires to vanish, as a polynomial in the separation
/// challenge, from verdicts alone.  Runs in a tiny field with chosen challenges and arbitrary
/// claimed evaluations.
fn extract<F: VField>(j: &Value) -> Value {
    type P<F> = TPC<F>;
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, P<F>>::new(srs_size(j));
    let p64 = F::modulus64();
    let mut rng = seeded(us(&j["seed"]) as u64);
    let ch = &j["script"];
    let xi: F = fj(&ch["xi"]);
    let st0 = guard(|| {
        let vs = VSide::<F, P<F>>::new(&c, &k.ck).map_err(|e| format!("config:{e}"))?;
        let (ext, nz) = {
            let vk = vs.index(&c, &k.vk).map_err(|e| format!("index:{e:?}"))?;
            (vk.index_info.extended_coset_domain.size(), vk.index_info.permutation_argument.number_of_z_polys(c.num_perm()))
        };
        Ok((vs, ext, nz))
    });
    let (mut vs, ext, nz) = match st0 {
        Out::Ok(x) => x,
        o => return json!({"status": o.status("ok")}),
    };
    // copied columns are opened at the current row; the verifier registers that itself
    for w in vs.wit.iter_mut() {
        if zero_over_k::oracles::traits::WitnessOracle::should_include_in_copy(w) {
            zero_over_k::oracles::traits::ConcreteOracle::register_rotation(w, rot(0));
        }
    }
    let lw = layout::<F, P<F>, _>(&vs.wit, &c, xi);
    let lf = layout::<F, P<F>, _>(&vs.pp.fixed_oracles, &c, xi);
    let lt = layout::<F, P<F>, _>(&vs.pp.table_oracles, &c, xi);
    let lz = z_layout::<F, P<F>>(nz, &c, xi);
    let nl = c.lookups().len();
    let chunks = ext / c.n;
    let mut rv = |n: usize| -> Vec<F> { (0..n).map(|_| F::rand(&mut rng)).collect() };
    let mut pf: Pf<F, P<F>> = TPProof {
        witness_commitments: vec![TCom::default(); c.wit.len()],
        witness_evals: rv(lw.len()),
        fixed_oracle_evals: rv(lf.len()),
        table_oracle_evals: rv(lt.len()),
        permutation_oracle_evals: rv(c.sigma.len()),
        q_blind_eval: rv(1)[0],
        lookup_commitments: vec![TCom::default(); 2 * nl],
        lookup_z_commitments: vec![TCom::default(); nl],
        lookup_evals: rv(3 * nl),
        lookup_z_evals: rv(2 * nl),
        z_commitments: vec![TCom::default(); nz],
        z_evals: rv(lz.len()),
        quotient_chunk_commitments: vec![TCom::default(); chunks],
        quotient_chunks_evals: vec![F::zero(); chunks],
        multiopen_proof: zero_over_k::multiproof::Proof {
            q_evals: vec![], f_commit: TCom::default(), opening_proof: TProof { rv: F::zero() },
        },
    };
    let (s0, _) = script::<F>(j);
    // accepted values of one chunk evaluation for a given alpha
    let mut run = |pf: &Pf<F, P<F>>, alpha: F| -> Out<bool> {
        let mut s = s0.clone();
        s[3] = Some(alpha.raw());
        hfs::configure(p64, s, 0);
        match verify_at::<F, P<F>, HFS>(&c, &k, &mut vs, cp::<F, P<F>>(pf), None) {
            Out::Ok(_) => Out::Ok(true),
            Out::Err(e) => Out::Ok(!e.contains("QuotientNotZero") && {
                // errors before the quotient check are not a pass
                if e.contains("MalformedProof") || e.contains("WrongNumberOfChunks") || e.contains("IOPError") || e.contains("VOError") || e.contains("index:") {
                    return Out::Err(e);
                }
                true
            }),
            Out::Panic(e) => Out::Panic(e),
        }
    };
    let mut samples = vec![];
    let mut pts: Vec<(F, F)> = vec![];
    for a in arr(&j["alphas"]) {
        let alpha: F = fj(a);
        let mut acc = vec![];
        for v in 0..p64 {
            pf.quotient_chunks_evals[0] = F::from(v);
            match run(&pf, alpha) {
                Out::Ok(true) => acc.push(v),
                Out::Ok(false) => {}
                o => return json!({"status": o.status("ok")}),
            }
            if acc.len() > 3 {
                break;
            }
        }
        if acc.len() == 1 {
            pts.push((alpha, F::from(acc[0])));
        }
        samples.push(json!({"a": alpha.to_json(), "acc": acc}));
    }
    // weights of the other chunks, at one alpha: chunk j alone
    let mut wts = vec![];
    if let Some((alpha, _)) = pts.last().copied() {
        for i in 0..chunks {
            let mut acc = vec![];
            for v in 0..p64 {
                pf.quotient_chunks_evals = vec![F::zero(); chunks];
                pf.quotient_chunks_evals[i] = F::from(v);
                match run(&pf, alpha) {
                    Out::Ok(true) => acc.push(v),
                    Out::Ok(false) => {}
                    o => return json!({"status": o.status("ok")}),
                }
            }
            wts.push(json!(acc));
        }
    }
    // interpolate v(alpha)
    let coefs = interpolate(&pts);
    let nm = |l: &Vec<(String, i64)>, e: &Vec<F>| -> Value {
        Value::Array(l.iter().zip(e).map(|((s, r), v)| json!({"l": s, "r": r, "v": v.to_json()})).collect())
    };
    json!({
        "status": "ok", "om": c.omegas[1 % c.n].to_json(), "theta": fj::<F>(&ch["theta"]).to_json(), "beta": fj::<F>(&ch["beta"]).to_json(), "gamma": fj::<F>(&ch["gamma"]).to_json(), "xi": xi.to_json(), "samples": samples, "coefs": js(&coefs), "chunks": chunks, "nz": nz,
        "wts": wts, "walpha": pts.last().map(|x| x.0.to_json()).unwrap_or(json!(0)),
        "wit": nm(&lw, &pf.witness_evals), "fix": nm(&lf, &pf.fixed_oracle_evals), "tab": nm(&lt, &pf.table_oracle_evals),
        "z": nm(&lz, &pf.z_evals), "sig": js(&pf.permutation_oracle_evals), "qb": pf.q_blind_eval.to_json(),
        "lk": js(&pf.lookup_evals), "lkz": js(&pf.lookup_z_evals),
    })
}

fn interpolate<F: PrimeField>(pts: &[(F, F)]) -> Vec<F> {
    let n = pts.len();
    let mut res = vec![F::zero(); n];
    for i in 0..n {
        let mut num = vec![F::one()];
        let mut den = F::one();
        for k in 0..n {
            if k != i {
                let mut nx = vec![F::zero(); num.len() + 1];
                for (d, x) in num.iter().enumerate() {
                    nx[d + 1] += *x;
                    nx[d] -= *x * pts[k].0;
                }
                num = nx;
                den *= pts[i].0 - pts[k].0;
            }
        }
        let s = pts[i].1 * den.inverse().expect("harness: equal alphas");
        for (d, x) in num.iter().enumerate() {
            res[d] += *x * s;
        }
    }
    res
}

fn dispatch<F: VField>(j: &Value) -> Value {
    match st(&j["cmd"]) {
        "extract" => extract::<F>(j),
        "blind" => blind::<F>(j),
        _ => generic::<F, TPC<F>, HFS>(j),
    }
}
fn generic<F, PC, FS>(j: &Value) -> Value
where
    F: VField,
    PC: HomomorphicCommitment<F>,
    FS: FiatShamirRng,
{
    match st(&j["cmd"]) {
        "e2e" => e2e::<F, PC, FS>(j),
        "mock" => mock::<F, PC, FS>(j),
        "index" => index_of::<F, PC, FS>(j),
        "alter" => alter::<F, PC, FS>(j),
        "shape" => shape::<F, PC, FS>(j),
        "influence" => influence::<F, PC, FS>(j),
        "public" => public::<F, PC, FS>(j),
        "history" => history::<F, PC, FS>(j),
        "rekey" => rekey::<F, PC, FS>(j),
        x => panic!("harness: cmd {x}"),
    }
}

fn job(j: &Value) -> Value {
    if j["cmd"] == "series" {
        // one after another, in one thread
        return json!({"res": arr(&j["jobs"]).iter().map(job).collect::<Vec<_>>()});
    }
    match j["field"].as_str().unwrap_or("F62") {
        "F257" => dispatch::<F257>(j),
        "F12289" => dispatch::<F12289>(j),
        "F40961" => dispatch::<F40961>(j),
        "F62" => dispatch::<F62>(j),
        "BLS" if j["cmd"] == "influence" => influence::<Fr, KZG10<Bls12_381>, hfs::RFS>(j),
        "BLS" => generic::<Fr, KZG10<Bls12_381>, RealFS>(j),
        x => panic!("harness: field {x}"),
    }
}

fn main() {
    main_loop(job);
}
