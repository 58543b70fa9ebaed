//! A transparent "commitment": the coefficients of the polynomial and of its blinding
//! polynomial.  Homomorphic, perfectly binding, and lets the harness see through it.
use ark_ff::{PrimeField, ToBytes};
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use ark_poly_commit::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, SerializationError};
use ark_std::io::{Read, Write};
use ark_std::rand::RngCore;
use std::cell::RefCell;
use std::marker::PhantomData;
use zero_over_k::commitment::HomomorphicCommitment;

#[derive(Clone, Debug)]
pub struct CommitCall {
    pub label: String,
    pub hiding: Option<usize>,
    pub had_rng: bool,
}

thread_local! {
    pub static CALLS: RefCell<Vec<CommitCall>> = RefCell::new(Vec::new());
}

#[derive(Clone, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct TKey {
    pub max: u64,
}
impl PCUniversalParams for TKey {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
}
impl PCCommitterKey for TKey {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
    fn supported_degree(&self) -> usize {
        self.max as usize
    }
}
impl PCVerifierKey for TKey {
    fn max_degree(&self) -> usize {
        self.max as usize
    }
    fn supported_degree(&self) -> usize {
        self.max as usize
    }
}
#[derive(Clone)]
pub struct TPrepKey;
impl PCPreparedVerifierKey<TKey> for TPrepKey {
    fn prepare(_: &TKey) -> Self {
        TPrepKey
    }
}

fn trim<F: PrimeField>(v: &mut Vec<F>) {
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
}
fn lin<F: PrimeField>(a: &[F], b: &[F], k: F) -> Vec<F> {
    let mut r = vec![F::zero(); a.len().max(b.len())];
    for (i, x) in a.iter().enumerate() {
        r[i] += x;
    }
    for (i, x) in b.iter().enumerate() {
        r[i] += *x * k;
    }
    trim(&mut r);
    r
}
fn ev<F: PrimeField>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::zero(), |a, k| a * x + k)
}

#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct TCom<F: PrimeField> {
    pub p: Vec<F>,
    pub r: Vec<F>,
}
impl<F: PrimeField> Default for TCom<F> {
    fn default() -> Self {
        TCom { p: vec![], r: vec![] }
    }
}
impl<F: PrimeField> ToBytes for TCom<F> {
    fn write<W: Write>(&self, mut w: W) -> ark_std::io::Result<()> {
        (self.p.len() as u32).write(&mut w)?;
        for x in &self.p {
            x.write(&mut w)?;
        }
        (self.r.len() as u32).write(&mut w)?;
        for x in &self.r {
            x.write(&mut w)?;
        }
        Ok(())
    }
}
impl<F: PrimeField> PCCommitment for TCom<F> {
    fn empty() -> Self {
        Self::default()
    }
    fn has_degree_bound(&self) -> bool {
        false
    }
    fn size_in_bytes(&self) -> usize {
        0
    }
}
impl<F: PrimeField> TCom<F> {
    pub fn poly(&self) -> DensePolynomial<F> {
        DensePolynomial::from_coefficients_slice(&self.p)
    }
}
#[derive(Clone)]
pub struct TPrepCom;
impl<F: PrimeField> PCPreparedCommitment<TCom<F>> for TPrepCom {
    fn prepare(_: &TCom<F>) -> Self {
        TPrepCom
    }
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct TRand<F: PrimeField> {
    pub r: Vec<F>,
}
impl<F: PrimeField> PCRandomness for TRand<F> {
    fn empty() -> Self {
        TRand { r: vec![] }
    }
    fn rand<R: RngCore>(q: usize, _: bool, _: Option<usize>, rng: &mut R) -> Self {
        TRand { r: (0..q + 1).map(|_| F::rand(rng)).collect() }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, CanonicalSerialize, CanonicalDeserialize)]
pub struct TProof<F: PrimeField> {
    pub rv: F,
}
impl<F: PrimeField> ToBytes for TProof<F> {
    fn write<W: Write>(&self, mut w: W) -> ark_std::io::Result<()> {
        self.rv.write(&mut w)
    }
}
impl<F: PrimeField> PCProof for TProof<F> {
    fn size_in_bytes(&self) -> usize {
        0
    }
}

#[derive(Debug)]
pub struct TErr(pub String);
impl core::fmt::Display for TErr {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl ark_std::error::Error for TErr {}
impl From<ark_poly_commit::Error> for TErr {
    fn from(e: ark_poly_commit::Error) -> Self {
        TErr(format!("{e:?}"))
    }
}

pub struct TPC<F: PrimeField>(PhantomData<F>);

impl<F: PrimeField> PolynomialCommitment<F, DensePolynomial<F>> for TPC<F> {
    type UniversalParams = TKey;
    type CommitterKey = TKey;
    type VerifierKey = TKey;
    type PreparedVerifierKey = TPrepKey;
    type Commitment = TCom<F>;
    type PreparedCommitment = TPrepCom;
    type Randomness = TRand<F>;
    type Proof = TProof<F>;
    type BatchProof = Vec<TProof<F>>;
    type Error = TErr;

    fn setup<R: RngCore>(d: usize, _: Option<usize>, _: &mut R) -> Result<TKey, TErr> {
        Ok(TKey { max: d as u64 })
    }
    fn trim(pp: &TKey, _: usize, _: usize, _: Option<&[usize]>) -> Result<(TKey, TKey), TErr> {
        Ok((pp.clone(), pp.clone()))
    }
    fn commit<'a>(
        ck: &TKey,
        polynomials: impl IntoIterator<Item = &'a LabeledPolynomial<F, DensePolynomial<F>>>,
        rng: Option<&mut dyn RngCore>,
    ) -> Result<(Vec<LabeledCommitment<TCom<F>>>, Vec<TRand<F>>), TErr> {
        let mut rng = rng;
        let (mut cs, mut rs) = (vec![], vec![]);
        for p in polynomials {
            if p.degree() > ck.max as usize {
                return Err(TErr(format!("degree {} too large", p.degree())));
            }
            CALLS.with(|c| {
                c.borrow_mut().push(CommitCall {
                    label: p.label().clone(),
                    hiding: p.hiding_bound(),
                    had_rng: rng.is_some(),
                })
            });
            let r = match p.hiding_bound() {
                Some(hb) => {
                    let rng = rng.as_mut().ok_or(TErr("MissingRng".into()))?;
                    (0..hb + 1).map(|_| F::rand(rng)).collect()
                }
                None => vec![],
            };
            let mut coeffs = p.polynomial().coeffs.clone();
            trim(&mut coeffs);
            cs.push(LabeledCommitment::new(p.label().clone(), TCom { p: coeffs, r: r.clone() }, None));
            rs.push(TRand { r });
        }
        Ok((cs, rs))
    }
    fn open_individual_opening_challenges<'a>(
        _: &TKey,
        polys: impl IntoIterator<Item = &'a LabeledPolynomial<F, DensePolynomial<F>>>,
        _: impl IntoIterator<Item = &'a LabeledCommitment<TCom<F>>>,
        point: &'a F,
        ch: &dyn Fn(u64) -> F,
        rands: impl IntoIterator<Item = &'a TRand<F>>,
        _: Option<&mut dyn RngCore>,
    ) -> Result<TProof<F>, TErr>
    where
        TRand<F>: 'a,
        TCom<F>: 'a,
    {
        let mut rv = F::zero();
        for (i, (_p, r)) in polys.into_iter().zip(rands).enumerate() {
            rv += ev(&r.r, *point) * ch(i as u64);
        }
        Ok(TProof { rv })
    }
    fn check_individual_opening_challenges<'a>(
        _: &TKey,
        coms: impl IntoIterator<Item = &'a LabeledCommitment<TCom<F>>>,
        point: &'a F,
        values: impl IntoIterator<Item = F>,
        proof: &TProof<F>,
        ch: &dyn Fn(u64) -> F,
        _: Option<&mut dyn RngCore>,
    ) -> Result<bool, TErr>
    where
        TCom<F>: 'a,
    {
        let (mut pv, mut rv, mut want) = (F::zero(), F::zero(), F::zero());
        for (i, (c, v)) in coms.into_iter().zip(values).enumerate() {
            let k = ch(i as u64);
            pv += ev(&c.commitment().p, *point) * k;
            rv += ev(&c.commitment().r, *point) * k;
            want += v * k;
        }
        Ok(pv == want && rv == proof.rv)
    }
}

impl<F: PrimeField> HomomorphicCommitment<F> for TPC<F> {
    fn msm(commitments: &[TCom<F>], scalars: &[F]) -> TCom<F> {
        let mut a = TCom::default();
        for (c, s) in commitments.iter().zip(scalars) {
            a = Self::add(&a, &Self::scale_com(c, *s));
        }
        a
    }
    fn neg_com(c: &TCom<F>) -> TCom<F> {
        Self::scale_com(c, -F::one())
    }
    fn scale_com(c: &TCom<F>, s: F) -> TCom<F> {
        TCom { p: lin(&[], &c.p, s), r: lin(&[], &c.r, s) }
    }
    fn add(a: &TCom<F>, b: &TCom<F>) -> TCom<F> {
        TCom { p: lin(&a.p, &b.p, F::one()), r: lin(&a.r, &b.r, F::one()) }
    }
    fn zero_comm() -> TCom<F> {
        TCom::default()
    }
    fn is_zero(c: &TCom<F>) -> bool {
        c.p.iter().chain(&c.r).all(|x| x.is_zero())
    }
    fn eq_cm(a: &TCom<F>, b: &TCom<F>) -> bool {
        Self::is_zero(&Self::add(a, &Self::neg_com(b)))
    }
    fn scale_rand(r: &TRand<F>, s: F) -> TRand<F> {
        TRand { r: lin(&[], &r.r, s) }
    }
    fn add_rands(a: &TRand<F>, b: &TRand<F>) -> TRand<F> {
        TRand { r: lin(&a.r, &b.r, F::one()) }
    }
    fn add_assign_rand(a: &mut TRand<F>, b: &TRand<F>) {
        a.r = lin(&a.r, &b.r, F::one());
    }
}

pub fn tcom<F: PrimeField>(p: &DensePolynomial<F>) -> TCom<F> {
    let mut c = p.coeffs.clone();
    trim(&mut c);
    TCom { p: c, r: vec![] }
}
pub fn eval<F: PrimeField>(p: &DensePolynomial<F>, x: F) -> F {
    if p.coeffs.is_empty() { F::zero() } else { p.evaluate(&x) }
}
