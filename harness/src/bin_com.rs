#![allow(dead_code)]
mod common;
mod core;
mod circuit;
mod fields;
mod hfs;
mod tpc;
use crate::core::seeded;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ff::{One, UniformRand, Zero};
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use ark_poly_commit::{LabeledCommitment, LabeledPolynomial, PCRandomness, PCUniversalParams, PolynomialCommitment};
use common::*;
use fields::*;
use serde_json::{json, Value};
use zero_over_k::commitment::{HomomorphicCommitment, KZG10};

type F = Fr;
type PC = KZG10<Bls12_381>;
type C = <PC as PolynomialCommitment<F, DensePolynomial<F>>>::Commitment;
type R = <PC as PolynomialCommitment<F, DensePolynomial<F>>>::Randomness;

#[derive(Clone)]
struct Reg {
    c: C,
    p: DensePolynomial<F>,
    r: R,
}

/// scalars: integer, or {"s": k} = k * rho for a fixed random rho
fn scal(v: &Value, rho: F) -> F {
    if let Some(k) = v.as_i64() {
        fi(k)
    } else {
        fi::<F>(i6(&v["s"])) * rho
    }
}
fn job(j: &Value) -> Value {
    let mut rng = seeded(us(&j["seed"]) as u64);
    let srs = PC::setup(12, None, &mut rng).expect("harness: setup");
    let (ck, vk) = PC::trim(&srs, srs.max_degree(), 6, None).expect("harness: trim");
    let rho = F::rand(&mut rng);
    // basis: two hiding polynomials, one plain, one constant, the hiding zero polynomial
    let mut basis = vec![];
    for (deg, hide) in [(8usize, Some(1)), (5, Some(6)), (7, None), (0, None)] {
        basis.push((DensePolynomial::<F>::rand(deg, &mut rng), hide));
    }
    basis.push((DensePolynomial::zero(), Some(1)));
    let base: Vec<Reg> = basis
        .iter()
        .map(|(p, hide)| {
            let l = LabeledPolynomial::new("b".into(), p.clone(), None, *hide);
            let (c, r) = PC::commit(&ck, [&l], Some(&mut rng)).expect("harness: commit");
            Reg { c: c[0].commitment().clone(), p: p.clone(), r: r[0].clone() }
        })
        .collect();
    let mut progs = vec![];
    for pr in arr(&j["progs"]) {
        let out = guard(|| {
            let mut regs = base.clone();
            for o in arr(pr) {
                let a = || &regs[us(&o["a"])];
                let b = || &regs[us(&o["b"])];
                let new = match st(&o["o"]) {
                    "add" => Reg { c: PC::add(&a().c, &b().c), p: &a().p + &b().p, r: PC::add_rands(&a().r, &b().r) },
                    "addas" => {
                        let mut r = a().r.clone();
                        PC::add_assign_rand(&mut r, &b().r);
                        Reg { c: PC::add(&a().c, &b().c), p: &a().p + &b().p, r }
                    }
                    "neg" => Reg { c: PC::neg_com(&a().c), p: &a().p * (-F::one()), r: PC::scale_rand(&a().r, -F::one()) },
                    "scale" => {
                        let s = scal(&o["s"], rho);
                        Reg { c: PC::scale_com(&a().c, s), p: &a().p * s, r: PC::scale_rand(&a().r, s) }
                    }
                    "zero" => Reg { c: PC::zero_comm(), p: DensePolynomial::zero(), r: R::empty() },
                    "msm" => {
                        let ix: Vec<usize> = arr(&o["ix"]).iter().map(us).collect();
                        let ss: Vec<F> = arr(&o["ss"]).iter().map(|s| scal(s, rho)).collect();
                        let cs: Vec<C> = ix.iter().map(|i| regs[*i].c.clone()).collect();
                        let mut p = DensePolynomial::zero();
                        let mut r = R::empty();
                        for (i, s) in ix.iter().zip(&ss) {
                            p = &p + &(&regs[*i].p * *s);
                            r = PC::add_rands(&r, &PC::scale_rand(&regs[*i].r, *s));
                        }
                        Reg { c: PC::msm(&cs, &ss), p, r }
                    }
                    x => panic!("harness: op {x}"),
                };
                regs.push(new);
            }
            let m = regs.len();
            let mut eq = vec![];
            for i in 0..m {
                for k in 0..m {
                    if PC::eq_cm(&regs[i].c, &regs[k].c) {
                        eq.push(json!([i, k]));
                    }
                }
            }
            let zero: Vec<usize> = (0..m).filter(|i| PC::is_zero(&regs[*i].c)).collect();
            // open the last register to its value, to a different one, and another register to its value
            let last = &regs[m - 1];
            let x = F::rand(&mut seeded(7));
            let v = if last.p.coeffs.is_empty() { F::zero() } else { last.p.evaluate(&x) };
            let lp = LabeledPolynomial::new("o".into(), last.p.clone(), None, Some(1));
            let lc = LabeledCommitment::new("o".into(), last.c.clone(), None);
            let pf = PC::open(&ck, [&lp], [&lc], &x, F::one(), [&last.r], None).map_err(|e| format!("{e:?}"))?;
            let ok = PC::check(&vk, [&lc], &x, [v], &pf, F::one(), None).map_err(|e| format!("{e:?}"))?;
            let mut wrong = vec![];
            for dv in [F::one(), -v, rho] {
                if !dv.is_zero() {
                    wrong.push(PC::check(&vk, [&lc], &x, [v + dv], &pf, F::one(), None).map_err(|e| format!("{e:?}"))?);
                }
            }
            let mut other = vec![];
            for i in 0..m - 1 {
                let oc = LabeledCommitment::new("o".into(), regs[i].c.clone(), None);
                other.push(PC::check(&vk, [&oc], &x, [v], &pf, F::one(), None).map_err(|e| format!("{e:?}"))?);
            }
            // commitments of the combined polynomial without randomness, against the plain registers
            let (pc, _) = PC::commit(&ck, [&LabeledPolynomial::new("o".into(), last.p.clone(), None, None)], None).map_err(|e| format!("{e:?}"))?;
            let plain = PC::eq_cm(pc[0].commitment(), &last.c);
            Ok(json!({"ok": true, "eq": eq, "zero": zero, "opened": ok, "wrong": wrong, "other": other, "plain": plain}))
        });
        progs.push(match out {
            Out::Ok(v) => v,
            o => json!({"ok": false, "why": o.status("ok")}),
        });
    }
    json!({"res": progs})
}
fn main() {
    main_loop(job);
}
