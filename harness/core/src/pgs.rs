//! Independent PGS (.sup) model: pictures, palettes, run-length encoder and reference decoder,
//! segment and display set writers.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub pix: Vec<u8>,
}

/// id, Y, Cr, Cb, alpha
pub type Entry = [u8; 5];

pub fn gen_palette(r: &mut Rng) -> Vec<Entry> {
    let mut ids: Vec<u8> = match r.below(7) {
        0 => (0..=r.below(255) as u8).collect(),
        1 => (1..=r.range(1, 255) as u8).collect(),
        2 => {
            let a = r.u8();
            let b = r.range(usize::from(a), 255) as u8;
            (a..=b).collect()
        }
        3 => (0..=255u8).rev().take(r.range(1, 256)).collect(),
        4 => vec![],
        _ => {
            // sparse
            let k = r.range(1, 40);
            let mut v: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut v);
            v.truncate(k);
            if r.bool() {
                v.sort_unstable();
            }
            v
        }
    };
    if r.chance(1, 4) {
        r.shuffle(&mut ids);
    }
    if !ids.is_empty() && r.chance(1, 5) {
        // ids set again: the last entry counts
        let n = match r.below(4) {
            0 => r.range(1, 400),
            1 => (256 - ids.len()) + r.range(0, 3),
            _ => r.range(1, 6),
        };
        for _ in 0..n {
            let i = *r.pick(&ids);
            if r.chance(1, 8) {
                let at = r.below(ids.len() + 1);
                ids.insert(at, i);
            } else {
                ids.push(i);
            }
        }
    }
    ids.iter().map(|&i| [i, r.u8(), r.u8(), r.u8(), r.u8()]).collect()
}

/// Luminance and transparency of a colour.
pub fn lookup(pal: &[Entry], id: u8) -> (u8, u8) {
    pal.iter().rfind(|e| e[0] == id).map_or((255, 0), |e| (e[1], e[4]))
}

pub fn gen_pic(r: &mut Rng, w: usize, h: usize, pal: &[Entry]) -> Pic {
    let colours: Vec<u8> = match r.below(4) {
        0 => vec![0, 1, 255, r.u8()],
        1 if !pal.is_empty() => pal.iter().map(|e| e[0]).collect(),
        2 if !pal.is_empty() => {
            let mut c: Vec<u8> = (0..4).map(|_| r.pick(pal)[0]).collect();
            c.push(0);
            c
        }
        _ => (0..=255).collect(),
    };
    let mut pix = vec![0u8; w * h];
    match r.below(5) {
        0 => pix.fill(*r.pick(&colours)),
        1 => {
            for p in &mut pix {
                *p = *r.pick(&colours);
            }
        }
        2 => {
            for y in 0..h {
                let c = *r.pick(&colours);
                pix[y * w..(y + 1) * w].fill(c);
            }
        }
        _ => {
            let max = *r.pick(&[2usize, 5, 63, 64, 65, 300, 16384]);
            let mut i = 0;
            while i < pix.len() {
                let n = r.range(1, max).min(pix.len() - i);
                let c = *r.pick(&colours);
                pix[i..i + n].fill(c);
                i += n;
            }
        }
    }
    Pic { w, h, pix }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RleStyle {
    Minimal,
    Random,
    Single,
    Long,
}
pub const STYLES: [RleStyle; 4] =
    [RleStyle::Minimal, RleStyle::Random, RleStyle::Single, RleStyle::Long];

/// Emission counters: single byte, 0-short, 0-long, n-short, n-long.
pub type CodeStats = [u64; 5];

pub fn encode(r: &mut Rng, p: &Pic, style: RleStyle, last_eol: bool, st: &mut CodeStats) -> Vec<u8> {
    let mut o = vec![];
    for y in 0..p.h {
        let line = &p.pix[y * p.w..(y + 1) * p.w];
        let mut x = 0;
        while x < p.w {
            let c = line[x];
            let mut run = 1;
            while x + run < p.w && line[x + run] == c {
                run += 1;
            }
            let n = match style {
                RleStyle::Minimal | RleStyle::Long => run.min(16383),
                RleStyle::Random => r.range(1, run.min(16383)),
                RleStyle::Single => run.min(*r.pick(&[1usize, 2, 63, 64])),
            };
            let long = n > 63 || style == RleStyle::Long || (style == RleStyle::Random && r.chance(1, 4));
            let explicit = match style {
                RleStyle::Minimal | RleStyle::Single => n > 2 || (n > 1 && r.bool()),
                RleStyle::Long => true,
                RleStyle::Random => n > 1 || r.chance(1, 4),
            };
            if c == 0 {
                let coloured = style == RleStyle::Random && r.chance(1, 8);
                if coloured {
                    if long {
                        o.extend([0, 0xc0 | (n >> 8) as u8, n as u8, 0]);
                        st[4] += 1;
                    } else {
                        o.extend([0, 0x80 | n as u8, 0]);
                        st[3] += 1;
                    }
                } else if long {
                    o.extend([0, 0x40 | (n >> 8) as u8, n as u8]);
                    st[2] += 1;
                } else {
                    o.extend([0, n as u8]);
                    st[1] += 1;
                }
            } else if explicit || long {
                if long {
                    o.extend([0, 0xc0 | (n >> 8) as u8, n as u8, c]);
                    st[4] += 1;
                } else {
                    o.extend([0, 0x80 | n as u8, c]);
                    st[3] += 1;
                }
            } else {
                for _ in 0..n {
                    o.push(c);
                    st[0] += 1;
                }
            }
            x += n;
        }
        if y + 1 < p.h || last_eol {
            o.extend([0, 0]);
        }
    }
    o
}

/// Reference expansion of arbitrary run-length data to at most `max` colours.
pub fn ref_expand(d: &[u8], max: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while out.len() < max {
        let Some(&a) = d.get(i) else { break };
        i += 1;
        if a != 0 {
            out.push(a);
            continue;
        }
        let Some(&b) = d.get(i) else { break };
        i += 1;
        if b == 0 {
            continue;
        }
        let mut n = usize::from(b & 0x3f);
        if b & 0x40 != 0 {
            let Some(&c) = d.get(i) else { break };
            i += 1;
            n = n << 8 | usize::from(c);
        }
        let mut col = 0;
        if b & 0x80 != 0 {
            let Some(&c) = d.get(i) else { break };
            i += 1;
            col = c;
        }
        let n = n.min(max - out.len());
        out.resize(out.len() + n, col);
    }
    out
}

pub const PDS: u8 = 0x14;
pub const ODS: u8 = 0x15;
pub const PCS: u8 = 0x16;
pub const WDS: u8 = 0x17;
pub const END: u8 = 0x80;

pub fn seg_raw(pts: u32, dts: u32, typ: u8, size: u16, payload: &[u8]) -> Vec<u8> {
    let mut b = vec![0x50, 0x47];
    b.extend(pts.to_be_bytes());
    b.extend(dts.to_be_bytes());
    b.push(typ);
    b.extend(size.to_be_bytes());
    b.extend(payload);
    b
}
pub fn seg(pts: u32, dts: u32, typ: u8, payload: &[u8]) -> Vec<u8> {
    assert!(payload.len() <= 65535);
    seg_raw(pts, dts, typ, payload.len() as u16, payload)
}

pub fn pds_payload(id: u8, version: u8, pal: &[Entry]) -> Vec<u8> {
    let mut b = vec![id, version];
    for e in pal {
        b.extend(e);
    }
    b
}

#[derive(Clone, Debug)]
pub struct ObjHead {
    pub id: u16,
    pub version: u8,
}
/// First (or only) object segment.
pub fn ods_first(h: &ObjHead, flag: u8, declared: usize, w: usize, hgt: usize, data: &[u8]) -> Vec<u8> {
    let mut b = vec![(h.id >> 8) as u8, h.id as u8, h.version, flag];
    b.extend(&(declared as u32).to_be_bytes()[1..]);
    b.extend((w as u16).to_be_bytes());
    b.extend((hgt as u16).to_be_bytes());
    b.extend(data);
    b
}
pub fn ods_last(h: &ObjHead, data: &[u8]) -> Vec<u8> {
    let mut b = vec![(h.id >> 8) as u8, h.id as u8, h.version, 0x40];
    b.extend(data);
    b
}
pub const ODS_FIRST_MAX: usize = 65535 - 11;
pub const ODS_LAST_MAX: usize = 65535 - 4;

/// What one subtitle means.
#[derive(Clone, Debug)]
pub struct Sub {
    pub start: u32,
    pub end: u32,
    pub pal: Vec<Entry>,
    pub pic: Pic,
    pub rle: Vec<u8>,
    /// Cut of the object data over two segments.
    pub split: Option<usize>,
    pub codes: CodeStats,
}
impl Sub {
    pub fn times(&self) -> (i64, i64) {
        (i64::from(self.start / 90), i64::from(self.end / 90))
    }
    pub fn pixels(&self) -> Vec<(u8, u8)> {
        let t: Vec<(u8, u8)> = (0..=255).map(|i| lookup(&self.pal, i)).collect();
        self.pic.pix.iter().map(|&c| t[usize::from(c)]).collect()
    }
}

pub fn gen_pts(r: &mut Rng) -> u32 {
    match r.below(5) {
        0 => 1u32 << r.below(32),
        1 => u32::MAX - r.below(200) as u32,
        2 => r.below(200) as u32,
        3 => (r.below(1 << 20) as u32) * 90 + *r.pick(&[0u32, 1, 45, 88, 89]),
        _ => r.u32(),
    }
}

pub fn gen_dims(r: &mut Rng) -> (usize, usize) {
    match r.below(14) {
        0 => (1, 1),
        1 => (r.range(1, 4), r.range(1, 4)),
        2 => (65535, 1),
        3 => (1, 65535),
        4 => (r.range(1, 65535), 1),
        5 => (*r.pick(&[63usize, 64, 65, 255, 256, 257, 16383, 16384, 16385]), r.range(1, 3)),
        6 => (r.range(100, 500), r.range(20, 80)),
        _ => (r.range(1, 100), r.range(1, 40)),
    }
}

pub fn gen_sub_dims(r: &mut Rng, w: usize, h: usize) -> Sub {
    let mut tries = 0;
    loop {
        tries += 1;
        let pal = gen_palette(r);
        let pic = gen_pic(r, w, h, &pal);
        let mut codes = [0; 5];
        let style = *r.pick(&STYLES);
        let last_eol = !r.chance(1, 8);
        let rle = encode(r, &pic, style, last_eol, &mut codes);
        if rle.len() > ODS_FIRST_MAX + ODS_LAST_MAX {
            if w * h > 100_000 || tries > 6 {
                return gen_sub_dims(r, w / 2 + 1, h / 2 + 1);
            }
            continue;
        }
        let lo = rle.len().saturating_sub(ODS_LAST_MAX);
        let hi = rle.len().min(ODS_FIRST_MAX);
        let split = if rle.len() > ODS_FIRST_MAX || r.chance(1, 3) {
            Some(r.range(lo, hi))
        } else {
            None
        };
        return Sub { start: gen_pts(r), end: gen_pts(r), pal, pic, rle, split, codes };
    }
}
pub fn gen_sub(r: &mut Rng) -> Sub {
    let (w, h) = gen_dims(r);
    gen_sub_dims(r, w, h)
}
pub fn gen_small_sub(r: &mut Rng) -> Sub {
    let (w, h) = (r.range(1, 20), r.range(1, 8));
    loop {
        let s = gen_sub_dims(r, w, h);
        if s.pal.len() <= 40 {
            return s;
        }
    }
}

/// Neighbours that have something in common: times, picture, everything.
pub fn relate(r: &mut Rng, subs: &mut [Sub]) {
    if !r.chance(1, 3) {
        return;
    }
    for k in 0..subs.len() {
        if r.chance(1, 3) {
            subs[k].end = subs[k].start;
        }
        if k == 0 {
            continue;
        }
        match r.below(6) {
            0 => subs[k] = subs[k - 1].clone(),
            1 => subs[k].start = subs[k - 1].end,
            2 => (subs[k].start, subs[k].end) = (subs[k - 1].start, subs[k - 1].end),
            3 => (subs[k].start, subs[k].end) = (subs[k - 1].end, subs[k - 1].end),
            4 => {
                let (a, z) = (subs[k].start, subs[k].end);
                subs[k] = subs[k - 1].clone();
                (subs[k].start, subs[k].end) = (a, z);
            }
            _ => {}
        }
    }
}
/// Several small subtitles, sometimes related ones.
pub fn gen_small_subs(r: &mut Rng, n: usize) -> Vec<Sub> {
    let mut v: Vec<Sub> = (0..n).map(|_| gen_small_sub(r)).collect();
    relate(r, &mut v);
    v
}

#[derive(Clone, Copy, Debug)]
pub struct SetOpts {
    /// Random sizes and contents of the segments that are not used, random order of them.
    pub vary: bool,
    /// Largest payload of such segments.
    pub max_skip: usize,
}

/// Content of a segment the decoders have to skip.
pub fn gen_skip(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => r.range(0, max),
        2 => max,
        _ => r.skewed(0, max),
    };
    match r.below(4) {
        0 => vec![0; n],
        1 => {
            let unit = seg(r.u32(), 0, *r.pick(&[END, PCS, PDS, ODS]), &[]);
            unit.iter().copied().cycle().take(n).collect()
        }
        _ => r.bytes(n),
    }
}

fn real_pcs(r: &mut Rng, s: &Sub, objects: u8) -> Vec<u8> {
    let mut b = vec![0x07, 0x80, 0x04, 0x38, 0x10];
    b.extend(r.u16().to_be_bytes());
    b.extend([if objects > 0 { 0x80 } else { 0 }, 0, 0, objects]);
    for _ in 0..objects {
        b.extend([0, 0, 0, 0]);
        b.extend((s.pic.w as u16).to_be_bytes());
        b.extend((s.pic.h as u16).to_be_bytes());
    }
    b
}

/// Segments of a showing set, each as bytes with its type.
pub fn showing(r: &mut Rng, s: &Sub, o: SetOpts) -> Vec<(u8, Vec<u8>)> {
    let mut v = vec![];
    let other = |r: &mut Rng| if o.vary { r.u32() } else { s.start };
    let head = ObjHead { id: if o.vary { r.u16() } else { 0 }, version: if o.vary { r.u8() } else { 0 } };
    let skipped = |r: &mut Rng, t: u8, plain: Vec<u8>| -> (u8, Vec<u8>) {
        let p = if o.vary && r.bool() { gen_skip(r, o.max_skip) } else { plain };
        (t, seg(other(r), if o.vary { r.u32() } else { 0 }, t, &p))
    };
    let pcs = real_pcs(r, s, 1);
    v.push(skipped(r, PCS, pcs));
    v.push(skipped(r, WDS, vec![1, 0, 0, 0, 0, 0, 0, 0, 10, 0, 10]));
    let pds = pds_payload(if o.vary { r.u8() } else { 0 }, if o.vary { r.u8() } else { 0 }, &s.pal);
    v.push((PDS, seg(other(r), 0, PDS, &pds)));
    if o.vary && r.chance(1, 6) {
        v.push(skipped(r, WDS, vec![]));
    }
    match s.split {
        None => {
            let p = ods_first(&head, 0xc0, s.rle.len() + 4, s.pic.w, s.pic.h, &s.rle);
            v.push((ODS, seg(other(r), 0, ODS, &p)));
        }
        Some(c) => {
            let p = ods_first(&head, 0x80, s.rle.len() + 4, s.pic.w, s.pic.h, &s.rle[..c]);
            v.push((ODS, seg(other(r), 0, ODS, &p)));
            let p = ods_last(&head, &s.rle[c..]);
            v.push((ODS, seg(other(r), 0, ODS, &p)));
        }
    }
    if o.vary && r.chance(1, 6) {
        v.push(skipped(r, PCS, vec![]));
    }
    v.push((END, seg(s.start, if o.vary { r.u32() } else { 0 }, END, &[])));
    v
}

/// Segments of a clearing set.
pub fn clearing(r: &mut Rng, s: &Sub, o: SetOpts) -> Vec<(u8, Vec<u8>)> {
    let mut v = vec![];
    let other = |r: &mut Rng| if o.vary { r.u32() } else { s.end };
    let n = if o.vary { r.below(4) } else { 2 };
    for i in 0..n {
        let t = if i == 0 { PCS } else { WDS };
        let p = if o.vary { gen_skip(r, o.max_skip) } else { real_pcs(r, s, 0) };
        let pts = other(r);
        v.push((t, seg(pts, 0, t, &p)));
    }
    v.push((END, seg(s.end, 0, END, &[])));
    v
}

#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub bytes: Vec<u8>,
    /// End of the closing END segment of each subtitle.
    pub ends: Vec<usize>,
    /// Start of each segment.
    pub segs: Vec<usize>,
}
impl Stream {
    pub fn push(&mut self, segs: &[(u8, Vec<u8>)]) {
        for (_, s) in segs {
            self.segs.push(self.bytes.len());
            self.bytes.extend(s);
        }
    }
    pub fn add(&mut self, r: &mut Rng, s: &Sub, o: SetOpts) {
        let a = showing(r, s, o);
        self.push(&a);
        let a = clearing(r, s, o);
        self.push(&a);
        self.ends.push(self.bytes.len());
    }
}
pub fn build(r: &mut Rng, subs: &[Sub], o: SetOpts) -> Stream {
    let mut st = Stream::default();
    for s in subs {
        st.add(r, s, o);
    }
    st
}
pub const VARY_SMALL: SetOpts = SetOpts { vary: true, max_skip: 60 };
pub const VARY: SetOpts = SetOpts { vary: true, max_skip: 3000 };
pub const PLAIN: SetOpts = SetOpts { vary: false, max_skip: 0 };
