#![allow(dead_code)]
mod circuit;
mod common;
mod core;
mod fields;
mod hfs;
mod tpc;
use circuit::*;
use common::*;
use fields::*;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use serde_json::{json, Value};
use tpc::*;
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;

fn strs<F: VField>(v: &[F]) -> Value {
    js(v)
}

fn run<F: VField>(j: &Value) -> Value {
    let rows: Vec<F> = arr(&j["rows"]).iter().map(fj).collect();
    let n = rows.len();
    let ratio = us(&j["ratio"]);
    let d = GeneralEvaluationDomain::<F>::new(n).expect("harness: domain");
    let e = GeneralEvaluationDomain::<F>::new(n * ratio).expect("harness: ext domain");
    let poly = DensePolynomial::from_coefficients_vec(d.ifft(&rows));
    let omegas: Vec<F> = d.elements().collect();
    let x: F = fj(&j["x"]);
    let mut w;
    let mut f;
    let mut i;
    let o: &mut dyn Instantiable<F> = match st(&j["type"]) {
        "w" => {
            w = WitnessProverOracle::new("c", poly.clone(), &rows, false);
            &mut w
        }
        "f" => {
            f = FixedProverOracle::new("c", poly.clone(), &rows);
            &mut f
        }
        "fd" => {
            f = FixedProverOracle::from_evals_and_domains("c".to_string(), &rows, &d, &e);
            &mut f
        }
        "i" => {
            i = InstanceProverOracle::new("c", poly.clone(), &rows);
            &mut i
        }
        t => panic!("harness: type {t}"),
    };
    // before the extended evaluations exist their use is an error
    let before = match guard(|| o.query_in_coset(0, rot(1)).map_err(|e| format!("{e:?}"))) {
        Out::Ok(_) => "value".to_string(),
        Out::Err(e) => format!("err:{}", e.split('(').next().unwrap()),
        Out::Panic(_) => "panic".to_string(),
    };
    if st(&j["type"]) != "fd" {
        o.compute_extended_evals(&e);
    }
    let ext = o.get_extended_coset_evals().expect("harness: ext").clone();
    let mut res = vec![];
    for k in arr(&j["ks"]) {
        let k = i6(k);
        let r = rot(k);
        let one = guard(|| {
            let byrow: Vec<F> = (0..n).map(|i| o.query_at_omega_in_original_domain(i, r)).collect();
            let mut bycoset: Vec<F> = vec![];
            for i in 0..n * ratio {
                bycoset.push(o.query_in_coset(i, r).map_err(|e| format!("{e:?}"))?);
            }
            let pt = r.compute_evaluation_point(x, &omegas);
            let (_, pt2) = r.get_point_info("x", x, &omegas);
            let v = o.query(&pt).map_err(|e| format!("{e:?}"))?;
            let vi = InstanceVerifierOracle::new("c", poly.clone()).query(&pt).map_err(|e| format!("{e:?}"))?;
            let mut wv = WitnessVerifierOracle::<F, TPC<F>>::new("c", false);
            let missing = matches!(wv.query(&pt), Err(_));
            wv.register_eval_at_challenge(pt, v);
            let wvv = wv.query(&pt).map_err(|e| format!("{e:?}"))?;
            let mut fv = FixedVerifierOracle::<F, TPC<F>>::new("c", None);
            let missing = missing && matches!(fv.query(&pt), Err(_));
            fv.register_eval_at_challenge(pt, v);
            let fvv = fv.query(&pt).map_err(|e| format!("{e:?}"))?;
            let (mut eb, mut ee) = (vec![], vec![]);
            // evaluating through the Lagrange basis at the shifted point
            let lag = d.evaluate_all_lagrange_coefficients(pt);
            eb.push(o.query_in_evals_form(&lag));
            ee.push(v);
            Ok(json!({"k": k, "ok": true, "rows": strs(&byrow), "coset": strs(&bycoset), "pt": pt.to_json(), "pt2": pt2.to_json(),
                "v": v.to_json(), "others": strs(&[vi, wvv, fvv, eb[0]]), "missing": missing}))
        });
        res.push(match one {
            Out::Ok(v) => v,
            o => json!({"k": k, "ok": false, "why": o.status("ok")}),
        });
    }
    json!({"before": before, "ext": strs(&ext), "coeffs": strs(&poly.coeffs), "gen": F::multiplicative_generator().to_json(),
        "extgen": e.element(1).to_json(), "deg": o.get_degree(n), "res": res})
}
fn job(j: &Value) -> Value {
    match st(&j["field"]) {
        "F257" => run::<F257>(j),
        "F12289" => run::<F12289>(j),
        "F40961" => run::<F40961>(j),
        "F62" => run::<F62>(j),
        "BLS" => run::<ark_bls12_381::Fr>(j),
        x => panic!("harness: field {x}"),
    }
}
fn main() {
    main_loop(job);
}
