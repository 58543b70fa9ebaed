#![allow(dead_code)]
mod circuit;
mod common;
mod core;
mod fields;
mod hfs;
mod tpc;
use circuit::*;
use common::*;
use fields::*;
use ark_poly::{univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use serde_json::{json, Value};
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zero_over_k::piop::error::Error;
use zero_over_k::vo::expression::Expression;

/// the same tree through the operators of resolved expressions
fn direct<F: VField>(e: &Value) -> Expression<F> {
    match st(&e["k"]) {
        "c" => Expression::Constant(fj(&e["v"])),
        "q" => OracleQuery { label: format!("{}{}", st(&e["t"]), us(&e["i"])), rotation: rot(i6(&e["r"])), oracle_type: ot(st(&e["t"])) }.into(),
        "neg" => -direct::<F>(&e["a"]),
        "add" => direct::<F>(&e["a"]) + direct::<F>(&e["b"]),
        "sub" => direct::<F>(&e["a"]) - direct::<F>(&e["b"]),
        "mul" => direct::<F>(&e["a"]) * direct::<F>(&e["b"]),
        "scale" => direct::<F>(&e["a"]) * fj::<F>(&e["v"]),
        k => panic!("harness: expr {k}"),
    }
}

fn run<F: VField>(j: &Value) -> Value {
    let n = us(&j["n"]);
    let ratio = us(&j["ratio"]);
    let d = GeneralEvaluationDomain::<F>::new(n).expect("harness: domain");
    let e = GeneralEvaluationDomain::<F>::new(n * ratio).expect("harness: ext");
    let omegas: Vec<F> = d.elements().collect();
    let x: F = fj(&j["x"]);
    let cols = |k: &str| -> Vec<(Vec<F>, DensePolynomial<F>)> {
        arr(&j[k])
            .iter()
            .map(|c| {
                let r: Vec<F> = arr(c).iter().map(fj).collect();
                let p = DensePolynomial::from_coefficients_vec(d.ifft(&r));
                (r, p)
            })
            .collect()
    };
    let mut w: Vec<WitnessProverOracle<F>> =
        cols("wit").into_iter().enumerate().map(|(i, (r, p))| WitnessProverOracle::new(format!("w{i}"), p, &r, false)).collect();
    let mut ins: Vec<InstanceProverOracle<F>> =
        cols("inst").into_iter().enumerate().map(|(i, (r, p))| InstanceProverOracle::new(format!("i{i}"), p, &r)).collect();
    let mut f: Vec<FixedProverOracle<F>> =
        cols("fix").into_iter().enumerate().map(|(i, (r, p))| FixedProverOracle::new(format!("f{i}"), p, &r)).collect();
    for o in w.iter_mut() {
        o.compute_extended_evals(&e);
    }
    for o in ins.iter_mut() {
        o.compute_extended_evals(&e);
    }
    for o in f.iter_mut() {
        o.compute_extended_evals(&e);
    }
    let find = |q: &OracleQuery| -> &dyn Instantiable<F> {
        match q.oracle_type {
            OracleType::Witness => w.iter().find(|o| o.get_label() == q.label).expect("harness: w") as &dyn Instantiable<F>,
            OracleType::Instance => ins.iter().find(|o| o.get_label() == q.label).expect("harness: i") as &dyn Instantiable<F>,
            OracleType::Fixed => f.iter().find(|o| o.get_label() == q.label).expect("harness: f") as &dyn Instantiable<F>,
        }
    };
    let eval = |ex: &Expression<F>, g: &dyn Fn(&OracleQuery) -> F| -> F {
        ex.evaluate(&|c| c, &|q| g(q), &|a: F| -a, &|a: F, b: F| a + b, &|a: F, b: F| a * b, &|a: F, s: F| a * s)
    };
    let mut res = vec![];
    for t in arr(&j["trees"]) {
        let v = vexpr::<F>(t).to_expression(&w, &ins, &f);
        let dd = direct::<F>(t);
        let mut per = vec![];
        for ex in [&v, &dd] {
            let rows: Vec<F> = (0..n).map(|i| eval(ex, &|q| find(q).query_at_omega_in_original_domain(i, q.rotation))).collect();
            let coset: Vec<F> =
                (0..n * ratio).map(|i| eval(ex, &|q| find(q).query_in_coset(i, q.rotation).expect("harness: coset"))).collect();
            let at = eval(ex, &|q| find(q).query(&q.rotation.compute_evaluation_point(x, &omegas)).expect("harness: query"));
            let deg = ex.degree(&|q| Ok::<usize, Error>(find(q).get_degree(n))).expect("harness: degree");
            let failing = ex.degree(&|q| Err::<usize, Error>(Error::MissingWitnessOracle(q.label.clone()))).is_err();
            per.push(json!({"rows": js(&rows), "coset": js(&coset), "at": at.to_json(), "deg": deg, "failing": failing}));
        }
        res.push(json!({"virt": per[0], "direct": per[1]}));
    }
    json!({"res": res, "gen": F::multiplicative_generator().to_json(), "extgen": e.element(1).to_json()})
}
fn job(j: &Value) -> Value {
    match st(&j["field"]) {
        "F257" => run::<F257>(j),
        "F12289" => run::<F12289>(j),
        "F40961" => run::<F40961>(j),
        x => panic!("harness: field {x}"),
    }
}
fn main() {
    main_loop(job);
}
