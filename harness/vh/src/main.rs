//! `vh --prop ID --seed N --tier quick|thorough --out FILE --scratch DIR [...]`
mod fw;
mod vdec;
mod pdec;
mod hostile;
mod p_vob;
mod p_pgs;
mod p_time;
mod p_img;
mod p_x;
mod p_y;
mod p_z;
#[cfg(not(miri))]
mod p_w;
#[cfg(not(miri))]
mod p_l;
#[cfg(not(miri))]
mod trace;

use fw::{Opts, StreamDef, Tier};
use std::path::PathBuf;

#[global_allocator]
static ALLOC: fw::Counting = fw::Counting;

fn defs(p: &str) -> Option<Vec<StreamDef>> {
    #[cfg(not(miri))]
    if let Some(d) = p_w::defs(p).or_else(|| p_l::defs(p)) {
        return Some(d);
    }
    p_vob::defs(p)
        .or_else(|| p_pgs::defs(p))
        .or_else(|| p_time::defs(p))
        .or_else(|| p_img::defs(p))
        .or_else(|| p_x::defs(p))
        .or_else(|| p_y::defs(p))
        .or_else(|| p_z::defs(p))
}

fn main() {
    let mut o = Opts {
        prop: String::new(),
        seed: 1,
        tier: Tier::Quick,
        threads: 8,
        scale: 1.0,
        deadline_s: 1e9,
        hang_s: 20.0,
        only: None,
        shard: (0, 1),
        streams: None,
        out: PathBuf::from("vh.out"),
        scratch: PathBuf::from("/dev/shm/vh-scratch"),
        digest: false,
        progress: None,
    };
    let mut a = std::env::args().skip(1);
    let mut worker = None;
    while let Some(k) = a.next() {
        let mut v = || a.next().unwrap_or_else(|| panic!("{k} needs a value"));
        match k.as_str() {
            "--prop" => o.prop = v(),
            "--seed" => o.seed = v().parse().unwrap(),
            "--tier" => {
                o.tier = match v().as_str() {
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    x => panic!("tier {x}"),
                }
            }
            "--threads" => o.threads = v().parse().unwrap(),
            "--scale" => o.scale = v().parse().unwrap(),
            "--deadline" => o.deadline_s = v().parse().unwrap(),
            "--hang" => o.hang_s = v().parse().unwrap(),
            "--only" => {
                let x = v();
                let (s, i) = x.split_once(':').unwrap();
                o.only = Some((s.parse().unwrap(), i.parse().unwrap()));
            }
            "--shard" => {
                let x = v();
                let (k, n) = x.split_once('/').unwrap();
                o.shard = (k.parse().unwrap(), n.parse().unwrap());
            }
            "--streams" => o.streams = Some(v().split(',').map(str::to_string).collect()),
            "--out" => o.out = v().into(),
            "--scratch" => o.scratch = v().into(),
            "--progress" => o.progress = Some(v().into()),
            "--dict" => {
                let x = v();
                let (c, f) = x.split_once(';').unwrap();
                let list = |s: &str| s.split(',').filter(|y| !y.is_empty()).map(|y| y.parse().unwrap()).collect::<Vec<u64>>();
                vhcore::rng::set_dictionary(&list(c), &list(f));
            }
            "--words" => {
                let x = v();
                let (c, f) = x.split_once('\x1e').unwrap();
                let list = |s: &str| s.split('\x1f').filter(|y| !y.is_empty()).map(str::to_string).collect::<Vec<_>>();
                vhcore::rng::set_words(list(c), list(f));
            }
            "--digest" => o.digest = true,
            "--worker" => worker = Some(v()),
            _ => panic!("unknown option {k}"),
        }
    }
    fw::install_hook();
    if let Some(w) = worker {
        std::process::exit(p_x::worker(&w, &o));
    }
    let Some(d) = defs(&o.prop) else {
        eprintln!("unknown property {}", o.prop);
        std::process::exit(2);
    };
    // process-wide limits and descriptors are changed by these
    if matches!(o.prop.as_str(), "I02" | "X05" | "X15") {
        o.threads = 1;
    }
    std::process::exit(fw::run(&o, &d));
}
