#![allow(dead_code)]
mod common;
mod fields;
use ark_bls12_381::Fr;
use common::*;
use fields::*;
use serde_json::{json, Value};
use zero_over_k::lookup::permute::permute_for_lookup;

/// case values stand for field elements: themselves, elements agreeing in their low limb, or pseudo-random ones
fn emb<F: VField>(k: i64, how: &str) -> F {
    match how {
        "high" => F::from(7u64) + F::from(2u64).pow([if F::size_in_bits() > 64 { 64 } else { 40 }]) * fi::<F>(k + 3000),
        "top" => F::from(7u64) + F::from(2u64).pow([if F::size_in_bits() > 64 { 192 } else { 48 }]) * fi::<F>(k + 3000),
        "rnd" => fj::<F>(&json!(format!("r{k}"))),
        _ => fi::<F>(k),
    }
}
fn one<F: VField>(c: &Value, how: &str) -> Value {
    let v = |k: &str| -> Vec<F> { arr(&c[k]).iter().map(|x| emb::<F>(i6(x), how)).collect() };
    let (a, s) = (v("a"), v("s"));
    let known: Vec<(F, i64)> = ["a", "s"].iter().flat_map(|k| arr(&c[k]).iter().map(|x| (emb::<F>(i6(x), how), i6(x)))).collect();
    let back = |x: &[F]| -> Vec<Value> {
        x.iter().map(|x| known.iter().find(|y| y.0 == *x).map(|y| json!(y.1)).unwrap_or(json!("foreign"))).collect()
    };
    match guard(|| Ok(permute_for_lookup(&a, &s))) {
        Out::Ok((x, y)) => json!({"ok": true, "pa": back(&x), "ps": back(&y)}),
        _ => json!({"ok": false, "pa": [], "ps": []}),
    }
}
fn job(j: &Value) -> Value {
    let how = j["emb"].as_str().unwrap_or("");
    let run = |f: fn(&Value, &str) -> Value| -> Value { json!({"res": arr(&j["cases"]).iter().map(|c| f(c, how)).collect::<Vec<_>>()}) };
    match st(&j["field"]) {
        "F257" => run(one::<F257>),
        "F12289" => run(one::<F12289>),
        "F62" => run(one::<F62>),
        "BLS" => run(one::<Fr>),
        x => panic!("harness: field {x}"),
    }
}
fn main() {
    main_loop(job);
}
