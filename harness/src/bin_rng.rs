#![allow(dead_code)]
mod common;
mod fields;
use ark_bls12_381::Fr;
use ark_ff::UniformRand;
use ark_std::rand::RngCore;
use blake2::Blake2s;
use common::*;
use rand_chacha::{ChaCha20Rng, ChaCha8Rng, ChaChaRng};
use serde_json::{json, Value};
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};

fn data(v: &Value) -> Vec<u8> {
    arr(v).iter().map(|b| us(b) as u8).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn run<R: FiatShamirRng>(p: &Value) -> Value {
    let mut r = R::initialize(&data(&p["init"]));
    let mut out = vec![];
    for o in arr(&p["ops"]) {
        match st(&o["o"]) {
            "absorb" => r.absorb(&data(&o["d"])),
            "u64" => out.push(json!(format!("{:016x}", r.next_u64()))),
            "u32" => out.push(json!(format!("{:08x}", r.next_u32()))),
            "fill" => {
                let mut b = vec![0u8; us(&o["n"])];
                r.fill_bytes(&mut b);
                out.push(json!(hex(&b)));
            }
            "try" => {
                let mut b = vec![0u8; us(&o["n"])];
                r.try_fill_bytes(&mut b).expect("harness: try_fill");
                out.push(json!(hex(&b)));
            }
            "field" => out.push(json!(Fr::rand(&mut r).to_string())),
            x => panic!("harness: op {x}"),
        }
    }
    json!(out)
}
/// programs are interleaved with one another: each run starts fresh
fn job(j: &Value) -> Value {
    let f: fn(&Value) -> Value = match st(&j["rng"]) {
        "chacha" => run::<SimpleHashFiatShamirRng<Blake2s, ChaChaRng>>,
        "chacha8" => run::<SimpleHashFiatShamirRng<Blake2s, ChaCha8Rng>>,
        "chacha20" => run::<SimpleHashFiatShamirRng<Blake2s, ChaCha20Rng>>,
        x => panic!("harness: rng {x}"),
    };
    json!({"res": arr(&j["progs"]).iter().map(f).collect::<Vec<_>>()})
}
fn main() {
    main_loop(job);
}
