//! Small prime fields in which the specification can do its own arithmetic,
//! and a 62-bit one in which accidental collisions are negligible.
use ark_ff::{BigInteger64, FftParameters, Fp64, Fp64Parameters, FpParameters, PrimeField};
use serde_json::Value;

macro_rules! test_field {
    ($F:ident, $P:ident, $m:expr, $bits:expr, $shave:expr, $r:expr, $r2:expr, $inv:expr, $gen:expr, $cap:expr, $t:expr, $tm:expr, $mm:expr, $s:expr, $root:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $P;
        impl FftParameters for $P {
            type BigInt = BigInteger64;
            const TWO_ADICITY: u32 = $s;
            const TWO_ADIC_ROOT_OF_UNITY: BigInteger64 = BigInteger64([$root]);
        }
        impl FpParameters for $P {
            const MODULUS: BigInteger64 = BigInteger64([$m]);
            const MODULUS_BITS: u32 = $bits;
            const REPR_SHAVE_BITS: u32 = $shave;
            const R: BigInteger64 = BigInteger64([$r]);
            const R2: BigInteger64 = BigInteger64([$r2]);
            const INV: u64 = $inv;
            const GENERATOR: BigInteger64 = BigInteger64([$gen]);
            const CAPACITY: u32 = $cap;
            const T: BigInteger64 = BigInteger64([$t]);
            const T_MINUS_ONE_DIV_TWO: BigInteger64 = BigInteger64([$tm]);
            const MODULUS_MINUS_ONE_DIV_TWO: BigInteger64 = BigInteger64([$mm]);
        }
        impl Fp64Parameters for $P {}
        pub type $F = Fp64<$P>;
        impl VField for $F {
            fn raw(&self) -> u64 {
                self.0 .0[0]
            }
            fn modulus64() -> u64 {
                $m
            }
            fn to_json(&self) -> Value {
                let v = self.into_repr().0[0];
                if v < (1u64 << 31) {
                    Value::from(v)
                } else {
                    Value::from(v.to_string())
                }
            }
        }
    };
}

/// A field the harness can script challenges in.
pub trait VField: PrimeField {
    /// Internal (Montgomery) limb: the value a random generator has to return for
    /// `F::rand` to produce exactly this element.
    fn raw(&self) -> u64;
    fn modulus64() -> u64;
    fn to_json(&self) -> Value;
}

include!("fields_gen.rs");

impl VField for ark_bls12_381::Fr {
    fn raw(&self) -> u64 {
        0
    }
    fn modulus64() -> u64 {
        0
    }
    fn to_json(&self) -> Value {
        let r = self.into_repr();
        if r.0[1] == 0 && r.0[2] == 0 && r.0[3] == 0 && r.0[0] < (1u64 << 31) {
            Value::from(r.0[0])
        } else {
            Value::from(r.to_string())
        }
    }
}

pub fn fi<F: PrimeField>(v: i64) -> F {
    if v >= 0 {
        F::from(v as u64)
    } else {
        -F::from((-v) as u64)
    }
}

/// Numbers are integers (possibly negative); strings "r<k>" stand for fixed pseudo-random elements.
pub fn fj<F: PrimeField>(v: &Value) -> F {
    if let Some(i) = v.as_i64() {
        return fi(i);
    }
    let s = v.as_str().unwrap_or_else(|| panic!("harness: bad field literal {v}"));
    if let Some(k) = s.strip_prefix('r') {
        use ark_std::rand::SeedableRng;
        let mut seed = [0u8; 32];
        for (i, b) in k.bytes().enumerate() {
            seed[i % 32] ^= b.wrapping_add(i as u8);
        }
        let mut rng = rand_chacha::ChaChaRng::from_seed(seed);
        return F::rand(&mut rng);
    }
    F::from_str(s).unwrap_or_else(|_| panic!("harness: bad field literal {s}"))
}

pub fn js<F: VField>(v: &[F]) -> Value {
    Value::Array(v.iter().map(|x| x.to_json()).collect())
}
