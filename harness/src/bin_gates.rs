#![allow(dead_code)]
mod circuit;
mod common;
mod core;
mod fields;
mod hfs;
mod tpc;
use ark_poly::univariate::DensePolynomial;
use circuit::*;
use common::*;
use fields::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeSet;
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::precompiled::logic::*;
use zero_over_k::vo::precompiled::mul::PrecompiledMul;
use zero_over_k::vo::precompiled::plonk_arith::*;
use zero_over_k::vo::precompiled::rescue::PrecompiledRescue;
use zero_over_k::vo::precompiled::PrecompiledVO;
use zero_over_k::vo::precompiled_lookups::simple_1_arith::PrecompiledSimple1ArithLookup;
use zero_over_k::vo::precompiled_lookups::simple_3_arith::PrecompiledSimple3ArithLookup;
use zero_over_k::vo::precompiled_lookups::PrecompiledLookupVO;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};

/// rotation as an integer: its public meaning is the point it produces
fn rnum(r: &Rotation) -> i64 {
    for k in 0..40i64 {
        if *r == Rotation::new(k as usize, Sign::Plus) {
            return k;
        }
        if *r == Rotation::new(k as usize, Sign::Minus) {
            return -k;
        }
    }
    panic!("harness: rotation {r:?}")
}

fn run<F: VField>(j: &Value) -> Value {
    let cols = |k: &str| -> Vec<Vec<F>> { arr(&j[k]).iter().map(|c| arr(c).iter().map(fj).collect()).collect() };
    let p = DensePolynomial { coeffs: vec![] };
    let (cw, ci, cf, ct) = (cols("wit"), cols("inst"), cols("fix"), cols("tab"));
    let n = cw[0].len();
    let mut w: Vec<_> = cw.iter().enumerate().map(|(i, r)| WitnessProverOracle::new(format!("w{i}"), p.clone(), r, false)).collect();
    let mut ins: Vec<_> = ci.iter().enumerate().map(|(i, r)| InstanceProverOracle::new(format!("i{i}"), p.clone(), r)).collect();
    let mut f: Vec<_> = cf.iter().enumerate().map(|(i, r)| FixedProverOracle::new(format!("f{i}"), p.clone(), r)).collect();
    let mut t: Vec<_> = ct.iter().enumerate().map(|(i, r)| FixedProverOracle::new(format!("t{i}"), p.clone(), r)).collect();
    let name = st(&j["gate"]);
    let mut exprs: Vec<Expression<F>> = vec![];
    let mut tables: Vec<OracleQuery> = vec![];
    if let Some(l) = name.strip_prefix("lookup:") {
        let cfg = match l {
            "simple1" => PrecompiledSimple1ArithLookup::<F>::get_expressions_and_queries(),
            "simple3" => PrecompiledSimple3ArithLookup::<F>::get_expressions_and_queries(),
            x => panic!("harness: lookup {x}"),
        };
        let mut v = GenericLookupVO::<F>::init(cfg);
        v.configure(&mut w, &mut ins, &mut f, &mut t).expect("harness: configure");
        exprs.extend(v.get_expressions().expect("harness: expr").iter().cloned());
        tables.extend(v.get_table_queries().expect("harness: tab").iter().cloned());
    } else {
        let cfg = match name {
            "mul" => PrecompiledMul::get_expr_and_queries(),
            "arith" => PrecompiledPlonkArith::get_expr_and_queries(),
            "arith4" => PlonkArith4::get_expr_and_queries(),
            "rescue" => PrecompiledRescue::get_expr_and_queries(),
            "delta" => Delta::get_expr_and_queries(),
            "xorand" => DeltaXorAnd::get_expr_and_queries(),
            x => panic!("harness: gate {x}"),
        };
        let mut v = GenericVO::<F>::init(cfg);
        v.configure(&mut w, &mut ins, &mut f);
        exprs.push(v.get_expression().expect("harness: expr").clone());
    }
    let reads: RefCell<BTreeSet<(String, i64)>> = RefCell::new(BTreeSet::new());
    let get = |q: &OracleQuery, row: usize| -> F {
        let r = rnum(&q.rotation);
        reads.borrow_mut().insert((q.label.clone(), r));
        let o: &dyn Instantiable<F> = match q.oracle_type {
            OracleType::Witness => w.iter().find(|o| o.get_label() == q.label).expect("harness: w"),
            OracleType::Instance => ins.iter().find(|o| o.get_label() == q.label).expect("harness: i"),
            OracleType::Fixed => f.iter().find(|o| o.get_label() == q.label).expect("harness: f"),
        };
        o.query_at_omega_in_original_domain(row, q.rotation)
    };
    let vals: Vec<Vec<F>> = exprs
        .iter()
        .map(|e| {
            (0..n)
                .map(|row| e.evaluate(&|c| c, &|q| get(q, row), &|a: F| -a, &|a: F, b: F| a + b, &|a: F, b: F| a * b, &|a: F, s: F| a * s))
                .collect()
        })
        .collect();
    let tabv: Vec<Value> = tables
        .iter()
        .map(|q| {
            let o = t.iter().find(|o| o.get_label() == q.label).expect("harness: t");
            js(&(0..n).map(|r| o.query_at_omega_in_original_domain(r, q.rotation)).collect::<Vec<F>>())
        })
        .collect();
    let mut regs: Vec<(String, i64)> = vec![];
    let mut reg = |l: String, s: &BTreeSet<Rotation>| s.iter().for_each(|r| regs.push((l.clone(), rnum(r))));
    w.iter().for_each(|o| reg(o.get_label(), o.get_queried_rotations()));
    ins.iter().for_each(|o| reg(o.get_label(), o.get_queried_rotations()));
    f.iter().for_each(|o| reg(o.get_label(), o.get_queried_rotations()));
    t.iter().for_each(|o| reg(o.get_label(), o.get_queried_rotations()));
    tables.iter().for_each(|q| {
        reads.borrow_mut().insert((q.label.clone(), rnum(&q.rotation)));
    });
    json!({"vals": vals.iter().map(|v| js(v)).collect::<Vec<_>>(), "tabs": tabv,
        "reads": reads.into_inner().into_iter().collect::<Vec<_>>(), "regs": regs})
}
fn job(j: &Value) -> Value {
    match st(&j["field"]) {
        "F257" => run::<F257>(j),
        "F12289" => run::<F12289>(j),
        "F40961" => run::<F40961>(j),
        x => panic!("harness: field {x}"),
    }
}
fn main() {
    main_loop(job);
}
