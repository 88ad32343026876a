//! Sequences of C-interface calls on their own, small enough to run in Miri.
//! usage: seqs <seed> <number> <calls>
#![allow(dead_code)]
#[path = "../cseq.rs"]
mod cseq;
#[path = "../rng.rs"]
mod rng;

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("number")).collect();
    let w = cseq::small(None);
    let mut n = [0u64; 16];
    for i in 0..a[1] {
        let mut r = rng::Rng::new(rng::mix(a[0], i));
        if let Err(e) = cseq::run(&w, &mut r, a[2] as usize, &mut n) { eprintln!("SEQUENCE {} FAILED: {}", i, e); std::process::exit(3) }
    }
    // what was done, for the evidence
    let mut s = format!("{{\"sequences\":{}", a[1]);
    for (i, k) in cseq::STATS.iter().enumerate() { s += &format!(",\"{}\":{}", k, n[i]) }
    eprintln!("SEQS {}}}", s);
}
