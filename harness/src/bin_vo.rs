#![allow(dead_code)]
mod circuit;
mod common;
mod core;
mod fields;
mod hfs;
mod tpc;
use crate::core::{prove_with, seeded, Keys};
use ark_poly::univariate::DensePolynomial;
use circuit::*;
use common::*;
use fields::*;
use hfs::HFS;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use tpc::*;
use zero_over_k::data_structures::*;
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zero_over_k::turbo_plonk::TurboPlonk;
use zero_over_k::PIL;
use zero_over_k::vo::error::Error as VOError;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};

fn rnum(r: &Rotation) -> i64 {
    for k in 0..40i64 {
        if *r == Rotation::new(k as usize, Sign::Plus) {
            return k;
        }
        if *r == Rotation::new(k as usize, Sign::Minus) {
            return -k;
        }
    }
    panic!("harness: rotation {r:?}")
}
fn tcode(t: &OracleType) -> i64 {
    match t {
        OracleType::Witness => 1,
        OracleType::Instance => 2,
        OracleType::Fixed => 3,
    }
}
fn lid(l: &str) -> i64 {
    l.strip_prefix('c').and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("harness: label {l}"))
}

type F = F12289;
type PC = TPC<F>;

enum Cols {
    P(Vec<WitnessProverOracle<F>>, Vec<InstanceProverOracle<F>>, Vec<FixedProverOracle<F>>, Vec<FixedProverOracle<F>>),
    V(Vec<WitnessVerifierOracle<F, PC>>, Vec<InstanceVerifierOracle<F>>, Vec<FixedVerifierOracle<F, PC>>, Vec<FixedVerifierOracle<F, PC>>),
}
enum Vo {
    G(GenericVO<F>),
    L(GenericLookupVO<F>),
}

fn queries(v: &Value) -> Vec<VirtualQuery> {
    arr(v).iter().map(|t| VirtualQuery::new(us(&t["i"]), rot(i6(&t["r"])), ot(st(&t["t"])))).collect()
}

fn life(j: &Value) -> Value {
    let z = DensePolynomial { coeffs: vec![] };
    let par: Vec<Vec<i64>> = arr(&j["par"]).iter().map(|v| arr(v).iter().map(i6).collect()).collect();
    let mk_sets = || -> Vec<Cols> {
        arr(&j["sets"])
            .iter()
            .map(|s| {
                let l = |k: &str| -> Vec<String> { arr(&s[k]).iter().map(|x| format!("c{}", us(x))).collect() };
                if st(&s["side"]) == "p" {
                    Cols::P(
                        l("w").into_iter().map(|x| WitnessProverOracle::new(x, z.clone(), &[], false)).collect(),
                        l("i").into_iter().map(|x| InstanceProverOracle::new(x, z.clone(), &[])).collect(),
                        l("f").into_iter().map(|x| FixedProverOracle::new(x, z.clone(), &[])).collect(),
                        l("t").into_iter().map(|x| FixedProverOracle::new(x, z.clone(), &[])).collect(),
                    )
                } else {
                    Cols::V(
                        l("w").into_iter().map(|x| WitnessVerifierOracle::new(x, false)).collect(),
                        l("i").into_iter().map(|x| InstanceVerifierOracle::new(x, z.clone())).collect(),
                        l("f").into_iter().map(|x| FixedVerifierOracle::new(x, None)).collect(),
                        l("t").into_iter().map(|x| FixedVerifierOracle::new(x, None)).collect(),
                    )
                }
            })
            .collect()
    };
    let mk_vos = || -> Vec<Vo> {
        arr(&j["vos"])
            .iter()
            .map(|d| {
                let es: Vec<_> = arr(&d["exprs"]).iter().map(vexpr::<F>).collect();
                if st(&d["kind"]) == "g" {
                    Vo::G(GenericVO::init((es[0].clone(), queries(&d["decl"]))))
                } else {
                    Vo::L(GenericLookupVO::init((es, queries(&d["decl"]), queries(&d["tables"]))))
                }
            })
            .collect()
    };
    let val = |q: &OracleQuery, p: &Vec<i64>| -> F {
        let (l, r, t) = (lid(&q.label), rnum(&q.rotation), tcode(&q.oracle_type));
        fi(p[0] * l * l + p[1] * r * r * r + p[2] * t * l + p[3] * (r + 5) * l)
    };
    let ev = |e: &Expression<F>| -> Vec<F> {
        par.iter()
            .map(|p| e.evaluate(&|c| c, &|q| val(q, p), &|a: F| -a, &|a: F, b: F| a + b, &|a: F, b: F| a * b, &|a: F, s: F| a * s))
            .collect()
    };
    let er = |e: VOError| format!("{e:?}");
    let mut runs = vec![];
    for prog in arr(&j["progs"]) {
        let (mut sets, mut vos) = (mk_sets(), mk_vos());
        let mut steps = vec![];
        let mut observe = |sets: &Vec<Cols>, vos: &Vec<Vo>, status: String| {
            let us: Vec<Value> = vos
                .iter()
                .map(|v| match v {
                    Vo::G(g) => match guard(|| g.get_expression().map_err(er)) {
                        Out::Ok(e) => json!({"s": "ok", "e": [js(&ev(e))], "tb": [], "t": "ok"}),
                        o => json!({"s": o.status("ok"), "e": [], "tb": [], "t": "ok"}),
                    },
                    Vo::L(l) => {
                        let tb = guard(|| l.get_table_queries().map_err(er));
                        let (ts, tl) = match &tb {
                            Out::Ok(q) => ("ok".into(), q.iter().map(|q| json!([tcode(&q.oracle_type), lid(&q.label), rnum(&q.rotation)])).collect::<Vec<_>>()),
                            o => (o.status("ok"), vec![]),
                        };
                        match guard(|| l.get_expressions().map_err(er)) {
                            Out::Ok(e) => json!({"s": "ok", "e": e.iter().map(|x| js(&ev(x))).collect::<Vec<_>>(), "tb": tl, "t": ts}),
                            o => json!({"s": o.status("ok"), "e": [], "tb": tl, "t": ts}),
                        }
                    }
                })
                .collect();
            let regs: Vec<Value> = sets
                .iter()
                .map(|s| {
                    let n = |x: &BTreeSet<Rotation>| -> Vec<i64> { x.iter().map(rnum).collect() };
                    match s {
                        Cols::P(w, i, f, t) => json!({"w": w.iter().map(|o| n(o.get_queried_rotations())).collect::<Vec<_>>(), "i": i.iter().map(|o| n(o.get_queried_rotations())).collect::<Vec<_>>(),
                            "f": f.iter().map(|o| n(o.get_queried_rotations())).collect::<Vec<_>>(), "t": t.iter().map(|o| n(o.get_queried_rotations())).collect::<Vec<_>>()}),
                        Cols::V(w, i, f, t) => json!({"w": w.iter().map(|o| n(o.get_queried_rotations())).collect::<Vec<_>>(), "i": i.iter().map(|o| n(o.get_queried_rotations())).collect::<Vec<_>>(),
                            "f": f.iter().map(|o| n(o.get_queried_rotations())).collect::<Vec<_>>(), "t": t.iter().map(|o| n(o.get_queried_rotations())).collect::<Vec<_>>()}),
                    }
                })
                .collect();
            steps.push(json!({"status": status, "use": us, "regs": regs}));
        };
        observe(&sets, &vos, "ok".into());
        for o in arr(prog) {
            let (v, s) = (us(&o["v"]) - 1, us(&o["s"]) - 1);
            let r = guard(|| match (&mut vos[v], &mut sets[s]) {
                (Vo::G(g), Cols::P(w, i, f, _)) => Ok(g.configure(w, i, f)),
                (Vo::G(g), Cols::V(w, i, f, _)) => Ok(g.configure(w, i, f)),
                (Vo::L(l), Cols::P(w, i, f, t)) => l.configure(w, i, f, t).map_err(|e| format!("{e:?}")),
                (Vo::L(l), Cols::V(w, i, f, t)) => l.configure(w, i, f, t).map_err(|e| format!("{e:?}")),
            });
            let s = r.status("ok");
            let s = s.split('(').next().unwrap().to_string();
            observe(&sets, &vos, s);
        }
        runs.push(json!(steps));
    }
    json!({"runs": runs})
}

/// a lookup whose table queries are not what it was configured with
struct Odd<'a, F: VField> {
    l: &'a GenericLookupVO<F>,
    tq: Vec<OracleQuery>,
    no_expr: bool,
    no_tab: bool,
}
impl<'a, F: VField> LookupVirtualOracle<F> for Odd<'a, F> {
    fn get_expressions(&self) -> Result<&[Expression<F>], VOError> {
        if self.no_expr { Err(VOError::UninitializedLookupExpr) } else { self.l.get_expressions() }
    }
    fn get_table_queries(&self) -> Result<&[OracleQuery], VOError> {
        if self.no_tab { Err(VOError::UninitializedLookupTableQuery) } else { Ok(&self.tq) }
    }
}

/// One thing wrong at one stage: {"stage": index|prove|verify, "what": rename|nonfixed|unconfigured, "t": w|i|f|t, "i": index, "in": gate|lookup}
fn fault(j: &Value) -> Value {
    type F = F62;
    type P = TPC<F>;
    let c = Circ::<F>::parse(&j["circ"]);
    let k = Keys::<F, P>::new(us(&j["srs"]));
    hfs::configure(F::modulus64(), vec![], 0);
    let base = prove_with::<F, P, HFS>(&c, &k, &[5]);
    let Out::Ok(mut base) = base else { return json!({"base": base.status("ok"), "res": []}) };
    let proof = base.pop().unwrap();
    let short = |e: String| -> String { e.chars().take(120).collect() };
    let mut res = vec![];
    for flt in arr(&j["faults"]) {
        let (stage, what) = (st(&flt["stage"]), st(&flt["what"]));
        let i = us(&flt["i"]);
        let t = st(&flt["t"]);
        let blank_g = GenericVO::<F>::init((vexpr(&c.j["gates"][0]), vec![]));
        let r = if stage == "verify" || (stage == "index" && flt["side"] == "v") {
            let mut vs = VSide::<F, P>::new(&c, &k.ck).expect("harness: vside");
            let VSide { wit, inst, pp, gates, lookups } = &mut vs;
            let rename = |wit: &mut Vec<WitnessVerifierOracle<F, P>>, inst: &mut Vec<InstanceVerifierOracle<F>>, pp: &mut VerifierPreprocessedInput<F, P>| {
                let l = "zz_renamed";
                match t {
                    "w" => { let mut o = WitnessVerifierOracle::new(l, c.wit[i].perm); wit[i].get_queried_rotations().iter().for_each(|r| o.register_rotation(*r)); wit[i] = o; }
                    "i" => { let mut o = InstanceVerifierOracle::new(l, c.inst[i].poly.clone()); inst[i].get_queried_rotations().iter().for_each(|r| o.register_rotation(*r)); inst[i] = o; }
                    "f" => { let mut o = FixedVerifierOracle::new(l, Some(pp.fixed_oracles[i].get_commitment().unwrap().clone())); pp.fixed_oracles[i].get_queried_rotations().iter().for_each(|r| o.register_rotation(*r)); pp.fixed_oracles[i] = o; }
                    "t" => { let mut o = FixedVerifierOracle::new(l, Some(pp.table_oracles[i].get_commitment().unwrap().clone())); pp.table_oracles[i].get_queried_rotations().iter().for_each(|r| o.register_rotation(*r)); pp.table_oracles[i] = o; }
                    x => panic!("harness: {x}"),
                }
            };
            let mut vos: Vec<&dyn VirtualOracle<F>> = gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect();
            let odd = odd_of::<F>(lookups, flt);
            let luts: Vec<&dyn LookupVirtualOracle<F>> = match &odd {
                Some(o) => o.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect(),
                None => lookups.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect(),
            };
            if what == "rename" && stage == "index" { rename(wit, inst, pp) }
            if what == "unconfigured" && flt["in"] == "gate" && stage == "index" { vos[i] = &blank_g }
            let vk = guard(|| Indexer::<F, P>::index(&k.vk, &vos, luts, wit, inst, &pp.fixed_oracles, c.domain, &c.zh, c.perm_info(), c.usable).map_err(|e| short(format!("{e:?}"))));
            match (vk, stage) {
                (Out::Ok(_), "index") => "ok".to_string(),
                (Out::Ok(vk), _) => {
                    if what == "rename" { rename(wit, inst, pp) }
                    if what == "unconfigured" && flt["in"] == "gate" { vos[i] = &blank_g }
                    guard(|| {
                        hfs::configure(F::modulus64(), vec![], 0);
                        TurboPlonk::<F, P, HFS>::verify(&vk, pp, crate::core::cp::<F, P>(&proof), wit, inst, &vos, c.n, &c.zh).map_err(|e| short(format!("{e:?}")))
                    })
                    .status("accept")
                }
                (o, _) => format!("index:{}", o.status("ok")),
            }
        } else {
            let mut ps = PSide::new(&c).expect("harness: pside");
            let PSide { wit, inst, fix, tab, sigma, qblind, gates, lookups } = &mut ps;
            let rename = |wit: &mut Vec<WitnessProverOracle<F>>, inst: &mut Vec<InstanceProverOracle<F>>, fix: &mut Vec<FixedProverOracle<F>>, tab: &mut Vec<FixedProverOracle<F>>| {
                let l = "zz_renamed";
                match t {
                    "w" => { let mut o = WitnessProverOracle::new(l, c.wit[i].poly.clone(), &c.wit[i].evals, c.wit[i].perm); wit[i].get_queried_rotations().iter().for_each(|r| o.register_rotation(*r)); wit[i] = o; }
                    "i" => { let mut o = InstanceProverOracle::new(l, c.inst[i].poly.clone(), &c.inst[i].evals); inst[i].get_queried_rotations().iter().for_each(|r| o.register_rotation(*r)); inst[i] = o; }
                    "f" => { let mut o = FixedProverOracle::new(l, c.fix[i].poly.clone(), &c.fix[i].evals); fix[i].get_queried_rotations().iter().for_each(|r| o.register_rotation(*r)); fix[i] = o; }
                    "t" => { let mut o = FixedProverOracle::new(l, c.tab[i].poly.clone(), &c.tab[i].evals); tab[i].get_queried_rotations().iter().for_each(|r| o.register_rotation(*r)); tab[i] = o; }
                    x => panic!("harness: {x}"),
                }
            };
            let mut vos: Vec<&dyn VirtualOracle<F>> = gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect();
            let odd = odd_of::<F>(lookups, flt);
            let luts: Vec<&dyn LookupVirtualOracle<F>> = match &odd {
                Some(o) => o.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect(),
                None => lookups.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect(),
            };
            if what == "rename" && stage == "index" { rename(wit, inst, fix, tab) }
            if what == "unconfigured" && flt["in"] == "gate" && stage == "index" { vos[i] = &blank_g }
            let vk = guard(|| Indexer::<F, P>::index(&k.vk, &vos, luts, wit, inst, fix, c.domain, &c.zh, c.perm_info(), c.usable).map_err(|e| short(format!("{e:?}"))));
            match (vk, stage) {
                (Out::Ok(_), "index") => "ok".to_string(),
                (Out::Ok(vk), _) => {
                    if what == "rename" { rename(wit, inst, fix, tab) }
                    if what == "unconfigured" && flt["in"] == "gate" { vos[i] = &blank_g }
                    guard(|| {
                        hfs::configure(F::modulus64(), vec![], 0);
                        let pp = ProverPreprocessedInput::<F, P>::new(fix, sigma, tab, qblind, &vk.index_info);
                        let pk = ProverKey::from_ck_and_vk(&k.ck, &vk);
                        TurboPlonk::<F, P, HFS>::prove(&pk, &pp, wit, inst, &vos, c.n, &mut seeded(3)).map(|_| ()).map_err(|e| short(format!("{e:?}")))
                    })
                    .status("accept")
                }
                (o, _) => format!("index:{}", o.status("ok")),
            }
        };
        res.push(json!(r));
    }
    json!({"base": "ok", "res": res})
}
fn odd_of<'a, F: VField>(ls: &'a [GenericLookupVO<F>], flt: &Value) -> Option<Vec<Odd<'a, F>>> {
    let what = st(&flt["what"]);
    if what != "nonfixed" && !(what == "unconfigured" && flt["in"] == "lookup") {
        return None;
    }
    let i = us(&flt["i"]);
    Some(
        ls.iter()
            .enumerate()
            .map(|(n, l)| {
                let mut tq: Vec<OracleQuery> = l.get_table_queries().expect("harness: tab").to_vec();
                let mut o = Odd { l, tq: vec![], no_expr: false, no_tab: false };
                if n == i {
                    if what == "nonfixed" {
                        let m = us(&flt["m"]) % tq.len();
                        tq[m].oracle_type = ot(st(&flt["t"]));
                        if let Some(l) = flt["label"].as_str() {
                            tq[m].label = l.into();
                        }
                    } else {
                        o.no_expr = flt["no"] != "tab";
                        o.no_tab = flt["no"] != "expr";
                    }
                }
                o.tq = tq;
                o
            })
            .collect(),
    )
}

fn job(j: &Value) -> Value {
    match st(&j["cmd"]) {
        "life" => life(j),
        "fault" => fault(j),
        x => panic!("harness: {x}"),
    }
}
fn main() {
    main_loop(job);
}
