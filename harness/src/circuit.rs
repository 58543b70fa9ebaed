//! A circuit description (JSON, shared with the TLA+ specification) and its construction
//! through the public API of the crate.
use crate::fields::*;
use ark_ff::PrimeField;
use ark_poly::{
    univariate::DensePolynomial, EvaluationDomain, GeneralEvaluationDomain, Polynomial,
    UVPolynomial,
};
use ark_poly_commit::LabeledPolynomial;
use serde_json::Value;
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::data_structures::*;
use zero_over_k::error::Error;
use zero_over_k::indexer::Indexer;
use zero_over_k::oracles::fixed::*;
use zero_over_k::oracles::instance::*;
use zero_over_k::oracles::query::OracleType;
use zero_over_k::oracles::rotation::{Rotation, Sign};
use zero_over_k::oracles::traits::*;
use zero_over_k::oracles::witness::*;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::query::VirtualQuery;
use zero_over_k::vo::virtual_expression::VirtualExpression;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};

pub fn rot(r: i64) -> Rotation {
    if r >= 0 {
        Rotation::new(r as usize, Sign::Plus)
    } else {
        Rotation::new((-r) as usize, Sign::Minus)
    }
}

pub fn ot(s: &str) -> OracleType {
    match s {
        "w" => OracleType::Witness,
        "i" => OracleType::Instance,
        "f" => OracleType::Fixed,
        _ => panic!("harness: oracle type {s}"),
    }
}

pub fn vexpr<F: PrimeField>(e: &Value) -> VirtualExpression<F> {
    let k = e["k"].as_str().unwrap();
    match k {
        "c" => VirtualExpression::Constant(fj(&e["v"])),
        "q" => VirtualQuery::new(
            e["i"].as_u64().unwrap() as usize,
            rot(e["r"].as_i64().unwrap()),
            ot(e["t"].as_str().unwrap()),
        )
        .into(),
        "neg" => -vexpr::<F>(&e["a"]),
        "add" => vexpr::<F>(&e["a"]) + vexpr::<F>(&e["b"]),
        "sub" => vexpr::<F>(&e["a"]) - vexpr::<F>(&e["b"]),
        "mul" => vexpr::<F>(&e["a"]) * vexpr::<F>(&e["b"]),
        "scale" => vexpr::<F>(&e["a"]) * fj::<F>(&e["v"]),
        _ => panic!("harness: expr {k}"),
    }
}

pub fn vqueries(e: &Value, out: &mut Vec<VirtualQuery>) {
    if e["k"] == "q" {
        out.push(VirtualQuery::new(
            e["i"].as_u64().unwrap() as usize,
            rot(e["r"].as_i64().unwrap()),
            ot(e["t"].as_str().unwrap()),
        ));
    }
    for s in ["a", "b"] {
        if e[s].is_object() {
            vqueries(&e[s], out);
        }
    }
}

pub struct Col<F: PrimeField> {
    pub label: String,
    pub perm: bool,
    pub evals: Vec<F>,
    pub poly: DensePolynomial<F>,
}

pub fn col<F: PrimeField>(v: &Value, domain: &GeneralEvaluationDomain<F>) -> Col<F> {
    let evals: Vec<F> = v["rows"].as_array().unwrap().iter().map(fj).collect();
    assert_eq!(evals.len(), domain.size(), "harness: column length");
    Col {
        label: v["label"].as_str().unwrap().into(),
        perm: v["perm"].as_bool().unwrap_or(false),
        poly: DensePolynomial::from_coefficients_slice(&domain.ifft(&evals)),
        evals,
    }
}

pub struct Circ<F: PrimeField> {
    pub j: Value,
    pub n: usize,
    pub domain: GeneralEvaluationDomain<F>,
    pub omegas: Vec<F>,
    pub zh: DensePolynomial<F>,
    pub u: usize,
    pub usable: usize,
    pub deltas: Vec<F>,
    pub wit: Vec<Col<F>>,
    pub inst: Vec<Col<F>>,
    pub fix: Vec<Col<F>>,
    pub tab: Vec<Col<F>>,
    pub sigma: Vec<Col<F>>,
    pub qblind: Col<F>,
}

pub fn vanishing<F: PrimeField>(domain: &GeneralEvaluationDomain<F>, removed: &[usize]) -> DensePolynomial<F> {
    if removed.is_empty() {
        return domain.vanishing_polynomial().into();
    }
    let mut z = DensePolynomial::from_coefficients_slice(&[F::one()]);
    for i in 0..domain.size() {
        if !removed.contains(&i) {
            let f = DensePolynomial::from_coefficients_slice(&[-domain.element(i), F::one()]);
            z = z.naive_mul(&f);
        }
    }
    z
}

impl<F: PrimeField> Circ<F> {
    pub fn parse(j: &Value) -> Self {
        let n = j["n"].as_u64().unwrap() as usize;
        let domain = GeneralEvaluationDomain::<F>::new(n).expect("harness: domain");
        let omegas: Vec<F> = domain.elements().collect();
        let removed: Vec<usize> =
            j["removed"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        // a vanishing polynomial need not be monic
        let zh = &vanishing(&domain, &removed) * if j["zscale"].is_null() { F::one() } else { fj(&j["zscale"]) };
        let cols = |k: &str| -> Vec<Col<F>> {
            j[k].as_array().unwrap().iter().map(|v| col(v, &domain)).collect()
        };
        let deltas: Vec<F> = j["deltas"].as_array().unwrap().iter().map(fj).collect();
        let u = j["u"].as_u64().unwrap() as usize;
        let mk = |label: String, evals: Vec<F>| Col {
            label,
            perm: false,
            poly: DensePolynomial::from_coefficients_slice(&domain.ifft(&evals)),
            evals,
        };
        // sigma: list (per copied column) of target cells [column, row]
        let sigma = j["sigma"]
            .as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(c, cells)| {
                let e: Vec<F> = cells
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|t| {
                        deltas[t[0].as_u64().unwrap() as usize]
                            * omegas[t[1].as_u64().unwrap() as usize]
                    })
                    .collect();
                mk(format!("sigma_{c}"), e)
            })
            .collect();
        let qb: Vec<F> = j["qblind"].as_array().unwrap().iter().map(fj).collect();
        Circ {
            n,
            zh,
            u,
            usable: j["usable"].as_u64().unwrap() as usize,
            wit: cols("wit"),
            inst: cols("inst"),
            fix: cols("fix"),
            tab: cols("tab"),
            sigma,
            qblind: mk("q_blind".into(), qb),
            deltas,
            omegas,
            domain,
            j: j.clone(),
        }
    }
    pub fn perm_info(&self) -> PermutationInfo<F> {
        match self.j["perm_info"].as_str() {
            Some("dummy") => PermutationInfo::dummy(),
            Some("empty") => PermutationInfo::empty(),
            _ => PermutationInfo { u: self.u, deltas: self.deltas.clone() },
        }
    }
    pub fn gates(&self) -> Vec<GenericVO<F>> {
        self.j["gates"]
            .as_array()
            .unwrap()
            .iter()
            .map(|e| {
                let mut q = vec![];
                vqueries(e, &mut q);
                GenericVO::init((vexpr(e), q))
            })
            .collect()
    }
    pub fn lookups(&self) -> Vec<GenericLookupVO<F>> {
        self.j["lookups"]
            .as_array()
            .unwrap()
            .iter()
            .map(|l| {
                let mut q = vec![];
                let es = l["exprs"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|e| {
                        vqueries(e, &mut q);
                        vexpr(e)
                    })
                    .collect();
                let ts = l["tables"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|t| {
                        VirtualQuery::new(
                            t["i"].as_u64().unwrap() as usize,
                            rot(t["r"].as_i64().unwrap()),
                            ot(t["t"].as_str().unwrap_or("f")),
                        )
                    })
                    .collect();
                GenericLookupVO::init((es, q, ts))
            })
            .collect()
    }
    pub fn num_perm(&self) -> usize {
        self.wit.iter().filter(|w| w.perm).count()
    }
}

/// Prover side of a statement: oracles and configured gates.
pub struct PSide<F: PrimeField> {
    pub wit: Vec<WitnessProverOracle<F>>,
    pub inst: Vec<InstanceProverOracle<F>>,
    pub fix: Vec<FixedProverOracle<F>>,
    pub tab: Vec<FixedProverOracle<F>>,
    pub sigma: Vec<FixedProverOracle<F>>,
    pub qblind: FixedProverOracle<F>,
    pub gates: Vec<GenericVO<F>>,
    pub lookups: Vec<GenericLookupVO<F>>,
}

impl<F: PrimeField> PSide<F> {
    pub fn new(c: &Circ<F>) -> Result<Self, String> {
        let f = |cs: &Vec<Col<F>>| -> Vec<FixedProverOracle<F>> {
            cs.iter().map(|x| FixedProverOracle::new(x.label.clone(), x.poly.clone(), &x.evals)).collect()
        };
        let mut s = PSide {
            wit: c.wit.iter().map(|x| WitnessProverOracle::new(x.label.clone(), x.poly.clone(), &x.evals, x.perm)).collect(),
            inst: c.inst.iter().map(|x| InstanceProverOracle::new(x.label.clone(), x.poly.clone(), &x.evals)).collect(),
            fix: f(&c.fix),
            tab: f(&c.tab),
            sigma: f(&c.sigma),
            qblind: FixedProverOracle::new("q_blind", c.qblind.poly.clone(), &c.qblind.evals),
            gates: c.gates(),
            lookups: c.lookups(),
        };
        for g in s.gates.iter_mut() {
            g.configure(&mut s.wit, &mut s.inst, &mut s.fix);
        }
        for l in s.lookups.iter_mut() {
            l.configure(&mut s.wit, &mut s.inst, &mut s.fix, &mut s.tab)
                .map_err(|e| format!("{e:?}"))?;
        }
        Ok(s)
    }
    pub fn vos(&self) -> Vec<&dyn VirtualOracle<F>> {
        self.gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect()
    }
    pub fn luts(&self) -> Vec<&dyn LookupVirtualOracle<F>> {
        self.lookups.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect()
    }
    pub fn index<'a, PC: HomomorphicCommitment<F>>(
        &'a self,
        c: &Circ<F>,
        vk: &PC::VerifierKey,
    ) -> Result<VerifierKey<'a, F, PC>, Error<PC::Error>> {
        Indexer::<F, PC>::index(
            vk, &self.vos(), self.luts(), &self.wit, &self.inst, &self.fix, c.domain, &c.zh,
            c.perm_info(), c.usable,
        )
    }
}

/// Verifier side.
pub struct VSide<F: PrimeField, PC: HomomorphicCommitment<F>> {
    pub wit: Vec<WitnessVerifierOracle<F, PC>>,
    pub inst: Vec<InstanceVerifierOracle<F>>,
    pub pp: VerifierPreprocessedInput<F, PC>,
    pub gates: Vec<GenericVO<F>>,
    pub lookups: Vec<GenericLookupVO<F>>,
}

pub fn commit_cols<F: PrimeField, PC: HomomorphicCommitment<F>>(
    ck: &PC::CommitterKey,
    cols: &[&Col<F>],
) -> Vec<FixedVerifierOracle<F, PC>> {
    let ps: Vec<_> = cols
        .iter()
        .map(|c| LabeledPolynomial::new(c.label.clone(), c.poly.clone(), None, None))
        .collect();
    let (cs, _) = PC::commit(ck, &ps, None).expect("harness: commit fixed");
    cs.into_iter().map(FixedVerifierOracle::from_commitment).collect()
}

impl<F: PrimeField, PC: HomomorphicCommitment<F>> VSide<F, PC> {
    pub fn new(c: &Circ<F>, ck: &PC::CommitterKey) -> Result<Self, String> {
        let f = |cs: &Vec<Col<F>>| commit_cols::<F, PC>(ck, &cs.iter().collect::<Vec<_>>());
        let mut s = VSide {
            wit: c.wit.iter().map(|x| WitnessVerifierOracle::new(x.label.clone(), x.perm)).collect(),
            inst: c.inst.iter().map(|x| InstanceVerifierOracle::new(x.label.clone(), x.poly.clone())).collect(),
            pp: VerifierPreprocessedInput::new(
                f(&c.fix),
                f(&c.tab),
                f(&c.sigma),
                commit_cols::<F, PC>(ck, &[&c.qblind]).pop().unwrap(),
            ),
            gates: c.gates(),
            lookups: c.lookups(),
        };
        for g in s.gates.iter_mut() {
            g.configure(&mut s.wit, &mut s.inst, &mut s.pp.fixed_oracles);
        }
        for l in s.lookups.iter_mut() {
            l.configure(&mut s.wit, &mut s.inst, &mut s.pp.fixed_oracles, &mut s.pp.table_oracles)
                .map_err(|e| format!("{e:?}"))?;
        }
        Ok(s)
    }
    pub fn vos(&self) -> Vec<&dyn VirtualOracle<F>> {
        self.gates.iter().map(|g| g as &dyn VirtualOracle<F>).collect()
    }
    pub fn luts(&self) -> Vec<&dyn LookupVirtualOracle<F>> {
        self.lookups.iter().map(|g| g as &dyn LookupVirtualOracle<F>).collect()
    }
    /// fresh copies of everything verification may touch
    pub fn fresh_wit(&self) -> Vec<WitnessVerifierOracle<F, PC>> {
        self.wit.to_vec()
    }
    pub fn fresh_inst(&self) -> Vec<InstanceVerifierOracle<F>> {
        self.inst
            .iter()
            .map(|o| {
                let mut x = InstanceVerifierOracle::new(o.get_label(), o_poly(o));
                for r in o.get_queried_rotations() {
                    x.register_rotation(*r);
                }
                x
            })
            .collect()
    }
    pub fn index<'a>(
        &'a self,
        c: &Circ<F>,
        vk: &PC::VerifierKey,
    ) -> Result<VerifierKey<'a, F, PC>, Error<PC::Error>> {
        Indexer::<F, PC>::index(
            vk, &self.vos(), self.luts(), &self.wit, &self.inst, &self.pp.fixed_oracles, c.domain,
            &c.zh, c.perm_info(), c.usable,
        )
    }
}

/// The instance polynomial is private; recover it from evaluations.
fn o_poly<F: PrimeField>(o: &InstanceVerifierOracle<F>) -> DensePolynomial<F> {
    // interpolate on a domain that is certainly large enough
    let d = GeneralEvaluationDomain::<F>::new(128).unwrap();
    let ev: Vec<F> = d.elements().map(|x| o.query(&x).unwrap()).collect();
    DensePolynomial::from_coefficients_vec(trimmed(d.ifft(&ev)))
}
fn trimmed<F: PrimeField>(mut v: Vec<F>) -> Vec<F> {
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
    v
}

pub fn keys<F: PrimeField, PC: HomomorphicCommitment<F>>(max: usize) -> (PC::CommitterKey, PC::VerifierKey) {
    use ark_std::rand::SeedableRng;
    let mut rng = rand_chacha::ChaChaRng::from_seed([7u8; 32]);
    let srs = PC::setup(max, None, &mut rng).expect("harness: setup");
    PC::trim(&srs, max, 1, None).expect("harness: trim")
}

pub fn deg<F: PrimeField>(p: &DensePolynomial<F>) -> usize {
    p.degree()
}
