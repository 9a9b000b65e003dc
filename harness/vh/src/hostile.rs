//! Hostile inputs: mutation of well-formed streams and streams with hostile fields.
use vhcore::pgs;
use vhcore::rng::Rng;
use vhcore::vob;

const MAGIC: [&[u8]; 8] = [
    &[0, 0, 1, 0xba],
    &[0, 0, 1, 0xbd],
    &[0, 0, 1],
    b"PG",
    &[0xff],
    &[0, 0],
    &[0x80, 0, 0],
    &[0x15],
];

pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        if b.is_empty() {
            b.push(r.u8());
            continue;
        }
        let i = if r.bool() { r.below(b.len()) } else { r.below(b.len().min(100)) };
        match r.below(12) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = *r.pick(&[0u8, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0xbf, 0xc0, 0xfe, 0xff]),
            2 => b[i] = r.u8(),
            3 => b[i] = b[i].wrapping_add(1),
            4 => b[i] = b[i].wrapping_sub(1),
            5 => {
                b.remove(i);
            }
            6 => {
                let x = r.u8();
                b.insert(i, x);
            }
            7 => {
                let j = (i + r.skewed(1, 60)).min(b.len());
                b.drain(i..j);
            }
            8 => {
                let j = (i + r.skewed(1, 60)).min(b.len());
                let part = b[i..j].to_vec();
                let k = r.below(b.len() + 1);
                b.splice(k..k, part);
            }
            9 => {
                let v = r.edge_u16().to_be_bytes();
                b[i] = v[0];
                if i + 1 < b.len() {
                    b[i + 1] = v[1];
                }
            }
            10 => {
                let m = *r.pick(&MAGIC);
                let j = (i + m.len()).min(b.len());
                b.splice(i..j, m.iter().copied());
            }
            _ => {
                if r.chance(1, 4) {
                    b.truncate(i);
                } else {
                    let j = (i + r.skewed(1, 20)).min(b.len());
                    let v = r.u8();
                    b[i..j].fill(v);
                }
            }
        }
    }
}

/// A .sub stream with hostile fields behind well-formed packet headers.
pub fn vob_structured(r: &mut Rng) -> Vec<u8> {
    let mut st = vob::Stream::default();
    for _ in 0..r.range(1, 4) {
        let (s, mut p, _) = vob::gen_small_spu(r);
        let n = p.bytes.len();
        for _ in 0..r.range(1, 3) {
            let put = |b: &mut Vec<u8>, at: usize, v: u16| {
                if at + 1 < b.len() {
                    b[at] = (v >> 8) as u8;
                    b[at + 1] = v as u8;
                }
            };
            let near = |r: &mut Rng, v: usize| -> u16 {
                if r.bool() {
                    r.edge_u16()
                } else {
                    (v + r.range(0, 8)).saturating_sub(4) as u16
                }
            };
            match r.below(8) {
                0 => {
                    let v = near(r, n);
                    put(&mut p.bytes, 0, v);
                }
                1 => {
                    let v = near(r, p.ctrl);
                    put(&mut p.bytes, 2, v);
                }
                2 => {
                    let (at, _) = *r.pick(&p.seqs);
                    let v = near(r, at);
                    put(&mut p.bytes, at + 2, v);
                }
                3 => {
                    if let Some(&(_, at)) = p.cmds.iter().find(|c| c.0 == vob::C_RLE) {
                        let v = near(r, p.ctrl);
                        let k = r.below(2) * 2;
                        put(&mut p.bytes, at + 1 + k, v);
                    }
                }
                4 => {
                    if let Some(&(_, at)) = p.cmds.iter().find(|c| c.0 == vob::C_AREA) {
                        for k in 1..7 {
                            if r.bool() && at + k < p.bytes.len() {
                                p.bytes[at + k] = if r.bool() { r.u8() } else { 0xff };
                            }
                        }
                    }
                }
                5 => {
                    // random run-length data
                    let (a, b) = (4.min(p.bytes.len()), p.ctrl.min(p.bytes.len()));
                    for x in &mut p.bytes[a..b] {
                        *x = r.u8() & *[0xffu8, 0x0f, 0x3f, 0xf0].get(n % 4).unwrap();
                    }
                }
                6 => {
                    // random control bytes
                    let a = p.ctrl.min(p.bytes.len());
                    for x in &mut p.bytes[a..] {
                        if r.chance(1, 4) {
                            *x = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 0xff, 0xff, 0xfe]);
                        }
                    }
                }
                _ => {
                    let k = r.below(n);
                    p.bytes.truncate(k);
                }
            }
        }
        let f = if r.bool() { vob::whole() } else { vob::gen_frag(r, p.bytes.len()) };
        let pts = if r.chance(1, 12) { None } else { Some(s.pts) };
        st.add(r, &p.bytes, pts, &f);
    }
    st.bytes
}

/// Well-formed packets around arbitrary subtitle content.
pub fn vob_framed(r: &mut Rng, spu: &[u8]) -> Vec<u8> {
    let mut st = vob::Stream::default();
    let pts = vob::gen_pts(r);
    let f = if r.chance(1, 4) { vob::gen_frag(r, spu.len()) } else { vob::whole() };
    st.add(r, spu, Some(pts), &f);
    st.bytes
}

/// Arbitrary run-length data behind valid commands.
pub fn vob_rle(r: &mut Rng) -> Vec<u8> {
    let n = r.skewed(0, 400);
    let mut data = r.bytes(n);
    match r.below(4) {
        0 => data.iter_mut().for_each(|x| *x &= 0x0f),
        1 => data.iter_mut().for_each(|x| *x = if *x & 1 == 0 { 0 } else { *x }),
        2 => data.iter_mut().for_each(|x| *x &= 0x3f),
        _ => {}
    }
    let (w, h) = match r.below(4) {
        0 => (r.range(2, 8), r.range(2, 8)),
        1 => (r.range(2, 4096), r.range(2, 60)),
        2 => (r.range(2, 40), r.range(2, 4096)),
        _ => (r.range(2, 100), r.range(2, 30)),
    };
    let area = vob::gen_area(r, w, h);
    let ctrl = 4 + data.len();
    let a = r.range(0, ctrl + 3) as u16;
    let b = r.range(0, ctrl + 3) as u16;
    let (a, b) = if r.chance(7, 8) { (a.min(b), a.max(b)) } else { (a, b) };
    let mut p = vec![0, 0, (ctrl >> 8) as u8, ctrl as u8];
    p.extend(data);
    p.extend(r.edge_u16().to_be_bytes());
    p.extend((ctrl as u16).to_be_bytes());
    p.push(vob::C_START);
    p.push(vob::C_STOP);
    p.extend(vob::cmd_nibbles(vob::C_PAL, &[0, 1, 2, 3]));
    p.extend(vob::cmd_nibbles(vob::C_ALPHA, &[15, 14, 2, 3]));
    p.extend(vob::cmd_area(&area));
    p.extend(vob::cmd_rle([a, b]));
    p.push(0xff);
    let n = (p.len() as u16).to_be_bytes();
    p[0] = n[0];
    p[1] = n[1];
    vob_framed(r, &p)
}

/// Arbitrary control area.
pub fn vob_ctrl(r: &mut Rng) -> Vec<u8> {
    let n = r.skewed(1, 200);
    let mut p = vec![0, 0, 0, 4];
    for _ in 0..n {
        match r.below(10) {
            0..=3 => p.push(r.below(8) as u8),
            4 => p.push(0xff),
            5 => p.extend((p.len() as u16 + r.below(20) as u16).to_be_bytes()),
            6 => p.extend(vob::cmd_area(&[1, 1, 9, 9])),
            7 => p.extend(vob::cmd_rle([4, 4])),
            8 => p.extend([vob::C_START, vob::C_PAL, 1, 2, vob::C_ALPHA, 3, 4]),
            _ => p.push(r.u8()),
        }
    }
    let n = (p.len() as u16).to_be_bytes();
    p[0] = n[0];
    p[1] = n[1];
    vob_framed(r, &p)
}

pub fn vob_random(r: &mut Rng) -> Vec<u8> {
    let n = r.skewed(0, 4000);
    let mut b = r.bytes(n);
    if r.bool() {
        b.iter_mut().for_each(|x| *x = *[0u8, 0, 1, 0xba, 0xbd, 0x44, 0xff, *x].get(usize::from(*x) % 8).unwrap());
    }
    for _ in 0..r.below(8) {
        let h = vob::gen_pack_header(r);
        let at = r.below(b.len() + 1);
        b.splice(at..at, h.iter().copied());
        if r.bool() {
            let mut p = vec![0, 0, 1, 0xbd];
            p.extend(r.edge_u16().to_be_bytes());
            p.push(0x80);
            p.push(*r.pick(&[0x00u8, 0x80, 0xc0, 0x40]));
            p.push(r.skewed(0, 255) as u8);
            let at = at + h.len();
            b.splice(at..at, p);
        }
    }
    b
}

pub fn vob_valid(r: &mut Rng, max: usize) -> Vec<u8> {
    let k = r.range(1, max);
    let mut subs: Vec<_> = (0..k)
        .map(|_| {
            let (s, p, _) = if r.chance(1, 8) { vob::gen_spu(r) } else { vob::gen_small_spu(r) };
            (s, p)
        })
        .collect();
    vob::relate(r, &mut subs);
    vob::gen_stream(r, &subs, true).bytes
}

/// Any kind of .sub content.
pub fn vob_any(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vob_random(r),
        1 => vob_structured(r),
        2 => vob_rle(r),
        3 => vob_ctrl(r),
        4 | 5 => {
            let mut b = vob_valid(r, 3);
            let n = r.range(1, 8);
            mutate(r, &mut b, n);
            b
        }
        _ => vob_valid(r, 3),
    }
}

// ------------------------------------------------------------------------------------ PGS

pub fn pgs_valid(r: &mut Rng, max: usize) -> Vec<u8> {
    let k = r.range(1, max);
    let subs = pgs::gen_small_subs(r, k);
    let o = if r.bool() { pgs::VARY_SMALL } else { pgs::PLAIN };
    pgs::build(r, &subs, o).bytes
}

pub fn pgs_random(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..r.range(0, 12) {
        match r.below(4) {
            0 => {
                let n = r.skewed(0, 200);
                let x = r.bytes(n);
                b.extend(x);
            }
            _ => {
                let n = r.skewed(0, 60);
                let p = r.bytes(n);
                let t = *r.pick(&[0x14u8, 0x15, 0x15, 0x16, 0x17, 0x80, 0x80, 0, 0xff]);
                let size = if r.chance(3, 4) { n as u16 } else { r.edge_u16() };
                b.extend(pgs::seg_raw(r.u32(), r.u32(), t, size, &p));
            }
        }
    }
    b
}

/// Valid framing, hostile palettes and objects.
pub fn pgs_structured(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..r.range(1, 4) {
        let s = pgs::gen_small_sub(r);
        let mut segs = pgs::showing(r, &s, pgs::VARY_SMALL);
        segs.extend(pgs::clearing(r, &s, pgs::VARY_SMALL));
        for _ in 0..r.range(1, 3) {
            let i = r.below(segs.len());
            match r.below(6) {
                0 => {
                    segs.remove(i);
                    if segs.is_empty() {
                        break;
                    }
                }
                1 => {
                    let x = segs[i].clone();
                    segs.insert(i, x);
                }
                2 => {
                    let j = r.below(segs.len());
                    segs.swap(i, j);
                }
                3 => {
                    // hostile object head
                    if let Some(x) = segs.iter_mut().find(|x| x.0 == pgs::ODS) {
                        if x.1.len() >= 24 {
                            match r.below(4) {
                                0 => x.1[16] = *r.pick(&[0u8, 0x40, 0x80, 0xc0, 0xff, 1, 0x20]),
                                1 => {
                                    let v = match r.below(3) {
                                        0 => r.below(10) as u32,
                                        1 => 0xff_ffff,
                                        _ => r.below(300) as u32,
                                    };
                                    x.1[17..20].copy_from_slice(&v.to_be_bytes()[1..]);
                                }
                                2 => {
                                    let v = r.edge_u16().to_be_bytes();
                                    x.1[20..22].copy_from_slice(&v);
                                }
                                _ => {
                                    let v = r.edge_u16().to_be_bytes();
                                    x.1[22..24].copy_from_slice(&v);
                                }
                            }
                        }
                    }
                }
                4 => {
                    // payload resized, header consistent
                    let x = &mut segs[i].1;
                    let n = r.skewed(0, 40);
                    x.truncate(13);
                    x.extend(r.bytes(n));
                    x[11] = (n >> 8) as u8;
                    x[12] = n as u8;
                }
                _ => {
                    let x = &mut segs[i].1;
                    let k = r.below(x.len());
                    x[k] = r.u8();
                }
            }
        }
        for (_, x) in segs {
            b.extend(x);
        }
    }
    b
}

/// Arbitrary run-length data in a well-formed set.
pub fn pgs_rle(r: &mut Rng) -> Vec<u8> {
    let mut s = pgs::gen_small_sub(r);
    let n = r.skewed(0, 120);
    let mut d = r.bytes(n);
    d.iter_mut().for_each(|x| {
        if *x & 3 == 0 {
            *x = 0;
        }
    });
    s.rle = d;
    s.split = if r.chance(1, 3) { Some(r.range(0, n)) } else { None };
    s.pic.w = if r.chance(1, 4) { usize::from(r.edge_u16()) } else { r.range(0, 30) };
    s.pic.h = if r.chance(1, 4) { usize::from(r.edge_u16()) } else { r.range(0, 30) };
    pgs::build(r, &[s], pgs::VARY_SMALL).bytes
}

pub fn pgs_any(r: &mut Rng) -> Vec<u8> {
    match r.below(7) {
        0 => pgs_random(r),
        1 => pgs_structured(r),
        2 => pgs_rle(r),
        3 | 4 => {
            let mut b = pgs_valid(r, 3);
            let n = r.range(1, 8);
            mutate(r, &mut b, n);
            b
        }
        _ => pgs_valid(r, 3),
    }
}
