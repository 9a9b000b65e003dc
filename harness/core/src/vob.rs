//! Independent VobSub model: pictures, run-length encoder and reference decoder, subtitle packet
//! (SPU) builder and MPEG-2 program stream writer.
use crate::rng::Rng;
use crate::util::count_pack_codes;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pic {
    pub w: usize,
    pub h: usize,
    pub pix: Vec<u8>,
}
impl Pic {
    pub fn line(&self, y: usize) -> &[u8] {
        &self.pix[y * self.w..(y + 1) * self.w]
    }
}

/// A picture with 2-bit pixels, in one of many textures.
pub fn gen_pic(r: &mut Rng, w: usize, h: usize) -> Pic {
    let mut pix = vec![0u8; w * h];
    let style = r.below(8);
    match style {
        0 => {
            let c = r.below(4) as u8;
            pix.fill(c);
        }
        1 => {
            for p in &mut pix {
                *p = r.below(4) as u8;
            }
        }
        2 => {
            // runs of random length
            let max = *r.pick(&[3usize, 16, 64, 256, 1024]);
            let mut i = 0;
            while i < pix.len() {
                let n = r.range(1, max).min(pix.len() - i);
                let c = r.below(4) as u8;
                pix[i..i + n].fill(c);
                i += n;
            }
        }
        3 => {
            // vertical stripes
            let p = r.range(1, 9);
            let o = r.below(4);
            for y in 0..h {
                for x in 0..w {
                    pix[y * w + x] = ((x / p + o) % 4) as u8;
                }
            }
        }
        4 => {
            // horizontal stripes, differing from line to line
            let o = r.below(4);
            for y in 0..h {
                pix[y * w..(y + 1) * w].fill(((y + o) % 4) as u8);
            }
        }
        5 => {
            // diagonal gradient
            let p = r.range(1, 5);
            for y in 0..h {
                for x in 0..w {
                    pix[y * w + x] = (((x + y) / p) % 4) as u8;
                }
            }
        }
        6 => {
            // boxes on a background, like text with an outline
            let bg = r.below(4) as u8;
            pix.fill(bg);
            for _ in 0..r.range(1, 12) {
                let x0 = r.below(w);
                let y0 = r.below(h);
                let bw = r.range(1, (w - x0).min(40));
                let bh = r.range(1, (h - y0).min(20));
                let c = r.below(4) as u8;
                for y in y0..y0 + bh {
                    pix[y * w + x0..y * w + x0 + bw].fill(c);
                }
            }
        }
        _ => {
            // single pixels on a background
            let bg = r.below(4) as u8;
            pix.fill(bg);
            for _ in 0..r.range(1, 20) {
                let i = r.below(pix.len());
                pix[i] = r.below(4) as u8;
            }
        }
    }
    Pic { w, h, pix }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RleStyle {
    /// Longest runs, shortest codes, fill codes when the rest of a line is uniform.
    Minimal,
    /// Runs cut at random, any code long enough for the count.
    Random,
    /// One pixel at a time.
    Single,
    /// Only 4-nibble codes.
    Wide,
    /// As Minimal but never a fill code.
    NoFill,
}
pub const STYLES: [RleStyle; 5] = [
    RleStyle::Minimal,
    RleStyle::Random,
    RleStyle::Single,
    RleStyle::Wide,
    RleStyle::NoFill,
];

#[derive(Default)]
pub struct Nibbles {
    pub out: Vec<u8>,
    half: bool,
}
impl Nibbles {
    pub fn push(&mut self, n: u8) {
        if self.half {
            *self.out.last_mut().unwrap() |= n & 15;
        } else {
            self.out.push(n << 4);
        }
        self.half = !self.half;
    }
    pub fn align(&mut self) {
        self.half = false;
    }
    /// A code of `nibbles` nibbles for `count` pixels (0 = fill) of colour `v`.
    pub fn code(&mut self, nibbles: usize, count: usize, v: u8) {
        let t = ((count as u32) << 2) | u32::from(v);
        for i in (0..nibbles).rev() {
            self.push(((t >> (4 * i)) & 15) as u8);
        }
    }
}

fn min_nibbles(count: usize) -> usize {
    match count {
        1..=3 => 1,
        4..=15 => 2,
        16..=63 => 3,
        _ => 4,
    }
}

/// Counters of the codes emitted, by length; index 0 = fill codes.
pub type CodeStats = [u64; 5];

pub fn encode_line(r: &mut Rng, line: &[u8], style: RleStyle, n: &mut Nibbles, st: &mut CodeStats) {
    let w = line.len();
    let mut x = 0;
    while x < w {
        let v = line[x];
        let mut run = 1;
        while x + run < w && line[x + run] == v {
            run += 1;
        }
        let to_end = x + run == w;
        let fill = to_end
            && match style {
                RleStyle::Minimal => run > 255 || min_nibbles(run) == 4,
                RleStyle::Random => r.chance(1, 3),
                RleStyle::Wide => r.bool(),
                RleStyle::Single | RleStyle::NoFill => false,
            };
        if fill {
            n.code(4, 0, v);
            st[0] += 1;
            break;
        }
        let cnt = match style {
            RleStyle::Minimal | RleStyle::NoFill | RleStyle::Wide => run.min(255),
            RleStyle::Random => r.range(1, run.min(255)),
            RleStyle::Single => run.min(3),
        };
        let k = match style {
            RleStyle::Wide => 4,
            RleStyle::Random if r.chance(1, 4) => 4,
            _ => min_nibbles(cnt),
        };
        n.code(k, cnt, v);
        st[k] += 1;
        x += cnt;
    }
    n.align();
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RefErr {
    Data,
    Overrun,
}

/// Independent decoder of one field line; `pos` is in bytes. Used to certify defects.
pub fn ref_line(data: &[u8], pos: &mut usize, w: usize) -> Result<Vec<u8>, RefErr> {
    let mut nib = *pos * 2;
    let mut get = || -> Result<u32, RefErr> {
        let b = *data.get(nib / 2).ok_or(RefErr::Data)?;
        let v = if nib % 2 == 0 { b >> 4 } else { b & 15 };
        nib += 1;
        Ok(u32::from(v))
    };
    let mut line = Vec::with_capacity(w);
    while line.len() < w {
        let mut v = 0;
        let mut t = 1;
        while v < t && t <= 0x40 {
            v = (v << 4) | get()?;
            t <<= 2;
        }
        let left = w - line.len();
        let cnt = if v < 4 { left } else { (v >> 2) as usize };
        if cnt > left {
            return Err(RefErr::Overrun);
        }
        line.resize(line.len() + cnt, (v & 3) as u8);
    }
    *pos = (nib + 1) / 2;
    Ok(line)
}

/// Independent decoder of a whole picture out of a subtitle packet.
pub fn ref_decode(
    spu: &[u8],
    off: [usize; 2],
    end: usize,
    w: usize,
    h: usize,
) -> Result<Vec<u8>, RefErr> {
    let end = end.min(spu.len());
    let f = [
        spu.get(off[0]..end).ok_or(RefErr::Data)?,
        spu.get(off[1]..end).ok_or(RefErr::Data)?,
    ];
    let mut pos = [0, 0];
    let mut out = Vec::new();
    for y in 0..h {
        out.extend(ref_line(f[y % 2], &mut pos[y % 2], w)?);
    }
    Ok(out)
}

/// What a subtitle means.
#[derive(Clone, Debug)]
pub struct Sub {
    pub pts: u64,
    /// x1, y1, x2, y2 (inclusive)
    pub area: [u16; 4],
    /// Palette index and alpha of pixel values 0..=3.
    pub palette: [u8; 4],
    pub alpha: [u8; 4],
    pub pic: Pic,
    pub start: u16,
    pub stop: Option<u16>,
}
impl Sub {
    /// Exact display times in 90 kHz ticks.
    pub fn ticks(&self) -> (u64, Option<u64>) {
        (
            self.pts + u64::from(self.start) * 900,
            self.stop.map(|s| self.pts + u64::from(s) * 900),
        )
    }
}

pub fn gen_area(r: &mut Rng, w: usize, h: usize) -> [u16; 4] {
    let place = |r: &mut Rng, n: usize| -> u16 {
        let max = 4096 - n;
        (match r.below(4) {
            0 => 0,
            1 => max,
            _ => r.below(max + 1),
        }) as u16
    };
    let x1 = place(r, w);
    let y1 = place(r, h);
    [x1, y1, x1 + (w - 1) as u16, y1 + (h - 1) as u16]
}

pub fn gen_pts(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => 1u64 << r.below(33),
        1 => (1u64 << 33) - 1 - r.below(3) as u64,
        2 => r.below(4) as u64,
        3 => r.up_to((1 << 33) - 1),
        _ => (r.below(40_000) as u64) * 9000,
    }
}

pub fn gen_dims(r: &mut Rng) -> (usize, usize) {
    match r.below(12) {
        0 => (2, 2),
        1 => (r.range(2, 5), r.range(2, 5)),
        2 => (r.range(2, 4096), 2),
        3 => (2, r.range(2, 2000)),
        4 => (4096, r.range(2, 3)),
        5 => (r.range(2, 3), 4096),
        6 => (*r.pick(&[255usize, 256, 257, 63, 64, 65, 15, 16, 17]), r.range(2, 9)),
        7 => (r.range(200, 720), r.range(20, 60)),
        _ => (r.range(2, 120), r.range(2, 40)),
    }
}

pub fn gen_sub_dims(r: &mut Rng, w: usize, h: usize) -> Sub {
    let pic = gen_pic(r, w, h);
    let nib = |r: &mut Rng| -> [u8; 4] {
        [r.below(16) as u8, r.below(16) as u8, r.below(16) as u8, r.below(16) as u8]
    };
    let date = |r: &mut Rng| -> u16 {
        match r.below(4) {
            0 => 0,
            1 => r.edge_u16(),
            _ => r.below(1000) as u16,
        }
    };
    let start = date(r);
    let stop = if r.chance(1, 5) { None } else { Some(date(r)) };
    Sub {
        pts: gen_pts(r),
        area: gen_area(r, w, h),
        palette: nib(r),
        alpha: nib(r),
        pic,
        start,
        stop,
    }
}

pub fn gen_sub(r: &mut Rng) -> Sub {
    let (w, h) = gen_dims(r);
    gen_sub_dims(r, w, h)
}

/// A small, always encodable subtitle.
pub fn gen_small_sub(r: &mut Rng) -> Sub {
    let (w, h) = (r.range(2, 24), r.range(2, 10));
    gen_sub_dims(r, w, h)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Overlap {
    None,
    /// Both fields at the same offset (odd lines equal the even ones).
    Shared,
    /// The odd field starts at the second even line.
    Suffix,
    /// The last two bytes of picture data are the (zero) date of the first control sequence.
    Tail,
}

#[derive(Clone, Copy, Debug)]
pub struct SpuOpts {
    pub style: RleStyle,
    pub overlap: Overlap,
    /// Everything in the plainest form.
    pub plain: bool,
}

pub fn gen_opts(r: &mut Rng) -> SpuOpts {
    SpuOpts {
        style: *r.pick(&STYLES),
        overlap: *r.pick(&[
            Overlap::None,
            Overlap::None,
            Overlap::None,
            Overlap::Shared,
            Overlap::Suffix,
            Overlap::Tail,
        ]),
        plain: false,
    }
}
pub const PLAIN: SpuOpts = SpuOpts {
    style: RleStyle::Minimal,
    overlap: Overlap::None,
    plain: true,
};

pub const C_FORCE: u8 = 0;
pub const C_START: u8 = 1;
pub const C_STOP: u8 = 2;
pub const C_PAL: u8 = 3;
pub const C_ALPHA: u8 = 4;
pub const C_AREA: u8 = 5;
pub const C_RLE: u8 = 6;

pub fn cmd_nibbles(code: u8, v: &[u8; 4]) -> Vec<u8> {
    vec![code, (v[3] << 4) | v[2], (v[1] << 4) | v[0]]
}
pub fn cmd_area(a: &[u16; 4]) -> Vec<u8> {
    let [x1, y1, x2, y2] = *a;
    vec![
        C_AREA,
        (x1 >> 4) as u8,
        ((x1 & 15) << 4) as u8 | (x2 >> 8) as u8,
        x2 as u8,
        (y1 >> 4) as u8,
        ((y1 & 15) << 4) as u8 | (y2 >> 8) as u8,
        y2 as u8,
    ]
}
pub fn cmd_rle(o: [u16; 2]) -> Vec<u8> {
    vec![C_RLE, (o[0] >> 8) as u8, o[0] as u8, (o[1] >> 8) as u8, o[1] as u8]
}

/// A built subtitle packet with the positions that matter for planting defects.
#[derive(Clone, Debug)]
pub struct Spu {
    pub bytes: Vec<u8>,
    pub ctrl: usize,
    pub off: [usize; 2],
    /// Offset and date of each control sequence.
    pub seqs: Vec<(usize, u16)>,
    /// Position of each first-set command: (code, offset of the code byte).
    pub cmds: Vec<(u8, usize)>,
    pub codes: CodeStats,
    pub n_cmds: usize,
}

/// Makes the picture of `s` suit the overlap mode.
pub fn adapt(s: &mut Sub, overlap: Overlap) {
    let (w, h) = (s.pic.w, s.pic.h);
    match overlap {
        Overlap::Shared => {
            for y in (1..h).step_by(2) {
                let l = s.pic.line(y - 1).to_vec();
                s.pic.pix[y * w..(y + 1) * w].copy_from_slice(&l);
            }
        }
        Overlap::Suffix => {
            for y in (1..h).step_by(2) {
                if y + 1 < h {
                    let l = s.pic.line(y + 1).to_vec();
                    s.pic.pix[y * w..(y + 1) * w].copy_from_slice(&l);
                }
            }
        }
        Overlap::Tail => {
            // the last odd line ends with a run of colour 0
            let y = if h % 2 == 0 { h - 1 } else { h - 2 };
            let x = w / 2;
            s.pic.pix[y * w + x..(y + 1) * w].fill(0);
        }
        Overlap::None => {}
    }
}

/// Encodes `s` (whose picture may be adapted to the overlap mode). None when it does not fit.
pub fn build_spu(r: &mut Rng, s: &mut Sub, o: SpuOpts) -> Option<Spu> {
    let mut overlap = o.overlap;
    if overlap == Overlap::Suffix && s.pic.h % 2 == 0 {
        // an even height needs one more line of the odd field than the suffix holds
        overlap = Overlap::None;
    }
    adapt(s, overlap);
    let h = s.pic.h;
    let mut codes = [0u64; 5];
    let junk = |r: &mut Rng, max: usize| -> Vec<u8> {
        if o.plain || r.bool() {
            vec![]
        } else {
            let n = r.range(0, max);
            r.bytes(n)
        }
    };
    let mut b = vec![0u8; 4];
    b.extend(junk(r, 6));
    let even = b.len();
    let mut second_even = even;
    {
        let mut n = Nibbles::default();
        for y in (0..h).step_by(2) {
            if y == 2 {
                second_even = even + n.out.len();
            }
            encode_line(r, s.pic.line(y), o.style, &mut n, &mut codes);
        }
        b.extend(n.out);
    }
    let odd;
    match overlap {
        Overlap::Shared => odd = even,
        Overlap::Suffix => odd = second_even,
        _ => {
            b.extend(junk(r, 6));
            odd = b.len();
            let mut n = Nibbles::default();
            for y in (1..h).step_by(2) {
                if overlap == Overlap::Tail && y + 2 >= h {
                    // the last line ends with a fill code of colour 0
                    let line = s.pic.line(y);
                    let cut = line.iter().rposition(|&v| v != 0).map_or(0, |p| p + 1);
                    encode_unaligned(&line[..cut], &mut n);
                    n.code(4, 0, 0);
                    n.align();
                    codes[0] += 1;
                } else {
                    encode_line(r, s.pic.line(y), o.style, &mut n, &mut codes);
                }
            }
            b.extend(n.out);
        }
    }
    let mut first_date_zero = false;
    if overlap == Overlap::Tail && b.ends_with(&[0, 0]) && b.len() >= odd + 2 {
        b.truncate(b.len() - 2);
        first_date_zero = true;
    } else {
        b.extend(junk(r, 5));
    }
    let ctrl = b.len();
    if ctrl > 65000 {
        return None;
    }

    // Distribute the commands over control sequences.
    struct Seq {
        date: Option<u16>,
        cmds: Vec<(bool, Vec<u8>)>,
    }
    let n = if o.plain { 2 } else { r.range(1, 6) };
    let mut seqs: Vec<Seq> = (0..n).map(|_| Seq { date: None, cmds: vec![] }).collect();
    if first_date_zero {
        seqs[0].date = Some(0);
    }
    // A sequence whose date is free or equal to d; a new one when there is none.
    let place = |r: &mut Rng, seqs: &mut Vec<Seq>, d: u16, plain_at: usize| -> usize {
        let c: Vec<usize> = (0..seqs.len())
            .filter(|&i| seqs[i].date.is_none() || seqs[i].date == Some(d))
            .collect();
        if c.is_empty() {
            seqs.push(Seq { date: None, cmds: vec![] });
            seqs.len() - 1
        } else if o.plain && c.contains(&plain_at) {
            plain_at
        } else {
            *r.pick(&c)
        }
    };
    let at_start = place(r, &mut seqs, s.start, 0);
    seqs[at_start].date = Some(s.start);
    seqs[at_start].cmds.push((true, vec![C_START]));
    let mut at_stop = usize::MAX;
    if let Some(d) = s.stop {
        at_stop = place(r, &mut seqs, d, 1);
        seqs[at_stop].date = Some(d);
        seqs[at_stop].cmds.push((true, vec![C_STOP]));
    }
    let n = seqs.len();
    let mut first = [0usize; 7];
    for (code, bytes) in [
        (C_PAL, cmd_nibbles(C_PAL, &s.palette)),
        (C_ALPHA, cmd_nibbles(C_ALPHA, &s.alpha)),
        (C_AREA, cmd_area(&s.area)),
        (C_RLE, cmd_rle([even as u16, odd as u16])),
    ] {
        let i = if o.plain { 0 } else { r.below(n) };
        first[code as usize] = i;
        seqs[i].cmds.push((true, bytes));
    }
    if !o.plain {
        for (i, q) in seqs.iter_mut().enumerate() {
            if r.chance(1, 3) {
                q.cmds.push((false, vec![C_FORCE]));
            }
            if i > at_start && r.chance(1, 3) {
                q.cmds.push((false, vec![C_START]));
            }
            if s.stop.is_some() && i > at_stop && r.chance(1, 3) {
                q.cmds.push((false, vec![C_STOP]));
            }
            if i > first[C_PAL as usize] && r.chance(1, 3) {
                let v = [r.below(16) as u8, r.below(16) as u8, r.below(16) as u8, r.below(16) as u8];
                q.cmds.push((false, cmd_nibbles(C_PAL, &v)));
            }
            if i > first[C_ALPHA as usize] && r.chance(1, 3) {
                let v = [r.below(16) as u8, r.below(16) as u8, r.below(16) as u8, r.below(16) as u8];
                q.cmds.push((false, cmd_nibbles(C_ALPHA, &v)));
            }
            if i > first[C_AREA as usize] && r.chance(1, 3) {
                let (w, h) = (r.range(2, 4096), r.range(2, 4096));
                let a = gen_area(r, w, h);
                q.cmds.push((false, cmd_area(&a)));
            }
            if i < first[C_RLE as usize] && r.chance(1, 3) {
                // the offsets that are set last count
                let v = if r.bool() { [r.edge_u16(), r.edge_u16()] } else { [even as u16, even as u16] };
                q.cmds.push((false, cmd_rle(v)));
            }
            r.shuffle(&mut q.cmds);
            if r.chance(1, 5) {
                let k = r.range(0, 6);
                let mut u = vec![r.range(7, 0xfe) as u8];
                u.extend(r.bytes(k).into_iter().map(|x| if x == 0xff { 0xfe } else { x }));
                q.cmds.push((false, u));
            }
        }
    }
    let mut out_seqs = vec![];
    let mut cmds = vec![];
    let mut n_cmds = 0;
    let mut prev_next_at: Option<usize> = None;
    for q in &seqs {
        let at = b.len();
        if let Some(p) = prev_next_at {
            b[p] = (at >> 8) as u8;
            b[p + 1] = at as u8;
        }
        let date = q.date.unwrap_or_else(|| if o.plain { 0 } else { r.edge_u16() });
        b.extend(date.to_be_bytes());
        prev_next_at = Some(b.len());
        b.extend((at as u16).to_be_bytes());
        for (is_first, c) in &q.cmds {
            n_cmds += 1;
            if *is_first {
                cmds.push((c[0], b.len()));
            }
            b.extend(c);
        }
        b.push(0xff);
        out_seqs.push((at, date));
        b.extend(junk(r, 5));
    }
    if b.len() > 65535 {
        return None;
    }
    let len = b.len() as u16;
    b[0..2].copy_from_slice(&len.to_be_bytes());
    b[2..4].copy_from_slice(&(ctrl as u16).to_be_bytes());
    Some(Spu {
        bytes: b,
        ctrl,
        off: [even, odd],
        seqs: out_seqs,
        cmds,
        codes,
        n_cmds,
    })
}

fn encode_unaligned(line: &[u8], n: &mut Nibbles) {
    let mut x = 0;
    while x < line.len() {
        let v = line[x];
        let mut run = 1;
        while x + run < line.len() && line[x + run] == v && run < 255 {
            run += 1;
        }
        n.code(min_nibbles(run), run, v);
        x += run;
    }
}

/// A subtitle and its packet, regenerated until it fits.
pub fn gen_spu(r: &mut Rng) -> (Sub, Spu, SpuOpts) {
    loop {
        let mut s = gen_sub(r);
        let o = gen_opts(r);
        if let Some(p) = build_spu(r, &mut s, o) {
            if count_pack_codes(&p.bytes) == 0 {
                return (s, p, o);
            }
        }
    }
}
pub fn gen_small_spu(r: &mut Rng) -> (Sub, Spu, SpuOpts) {
    loop {
        let mut s = gen_small_sub(r);
        let o = gen_opts(r);
        if let Some(p) = build_spu(r, &mut s, o) {
            if count_pack_codes(&p.bytes) == 0 {
                return (s, p, o);
            }
        }
    }
}

// ---------------------------------------------------------------- program stream

pub fn stamp(prefix: u8, v: u64) -> [u8; 5] {
    [
        (prefix << 4) | (((v >> 30) & 7) as u8) << 1 | 1,
        (v >> 22) as u8,
        (((v >> 15) & 0x7f) as u8) << 1 | 1,
        (v >> 7) as u8,
        ((v & 0x7f) as u8) << 1 | 1,
    ]
}

pub fn pack_header(scr: u64, ext: u16, rate: u32, reserved: u8, stuffing: &[u8]) -> Vec<u8> {
    let mut bits: u64 = 0b01;
    bits = bits << 3 | (scr >> 30 & 7);
    bits = bits << 1 | 1;
    bits = bits << 15 | (scr >> 15 & 0x7fff);
    bits = bits << 1 | 1;
    bits = bits << 15 | (scr & 0x7fff);
    bits = bits << 1 | 1;
    bits = bits << 9 | u64::from(ext & 0x1ff);
    bits = bits << 1 | 1;
    let mut b = vec![0, 0, 1, 0xba];
    b.extend(&bits.to_be_bytes()[2..]);
    let rate = (rate & 0x3f_ffff) << 2 | 3;
    b.extend(&rate.to_be_bytes()[1..]);
    b.push((reserved & 0x1f) << 3 | stuffing.len() as u8);
    b.extend(stuffing);
    b
}

#[derive(Clone, Debug)]
pub struct PesHead {
    pub flags1: u8,
    pub flags2_low: u8,
    pub pts: Option<u64>,
    pub dts: Option<u64>,
    pub extra: Vec<u8>,
    pub substream: u8,
}
pub const PLAIN_SUBSTREAM: u8 = 0x20;

pub fn pes(h: &PesHead, data: &[u8]) -> Vec<u8> {
    let mut body = vec![0x80 | h.flags1 & 0x3f];
    let code = match (h.pts, h.dts) {
        (None, _) => 0u8,
        (Some(_), None) => 2,
        (Some(_), Some(_)) => 3,
    };
    body.push(code << 6 | h.flags2_low & 0x3f);
    let mut hd = vec![];
    match (h.pts, h.dts) {
        (None, _) => {}
        (Some(p), None) => hd.extend(stamp(2, p)),
        (Some(p), Some(d)) => {
            hd.extend(stamp(3, p));
            hd.extend(stamp(1, d));
        }
    }
    hd.extend(&h.extra);
    body.push(hd.len() as u8);
    body.extend(hd);
    body.push(h.substream);
    body.extend(data);
    let mut b = vec![0, 0, 1, 0xbd];
    b.extend((body.len() as u16).to_be_bytes());
    b.extend(body);
    b
}

pub fn plain_head(pts: Option<u64>) -> PesHead {
    PesHead {
        flags1: 1,
        flags2_low: 0,
        pts,
        dts: None,
        extra: vec![],
        substream: PLAIN_SUBSTREAM,
    }
}

pub fn gen_stuffing(r: &mut Rng) -> Vec<u8> {
    let n = r.below(8);
    if r.bool() {
        vec![0xff; n]
    } else {
        r.bytes(n)
    }
}

pub fn gen_pack_header(r: &mut Rng) -> Vec<u8> {
    let st = gen_stuffing(r);
    let scr = if r.chance(1, 4) { gen_pts(r) } else { r.up_to((1 << 33) - 1) };
    pack_header(scr, r.u16() & 0x1ff, r.u32() & 0x3f_ffff, r.u8() & 0x1f, &st)
}

pub fn gen_head(r: &mut Rng, pts: Option<u64>, substream: u8) -> PesHead {
    let n = if r.bool() { 0 } else { r.range(0, 20) };
    let n = if r.chance(1, 20) { r.range(200, 240) } else { n };
    PesHead {
        flags1: r.u8() & 0x3f,
        flags2_low: r.u8() & 0x3f,
        pts,
        dts: if pts.is_some() && r.chance(1, 4) { Some(gen_pts(r)) } else { None },
        extra: if r.bool() { vec![0xff; n] } else { r.bytes(n) },
        substream,
    }
}

/// Bytes that belong to no private stream packet.
pub fn gen_filler(r: &mut Rng) -> Vec<u8> {
    let n = r.skewed(0, 300);
    let body = if r.bool() { vec![0xff; n] } else { r.bytes(n) };
    match r.below(6) {
        0 | 1 => {
            // padding stream
            let mut b = vec![0, 0, 1, 0xbe];
            b.extend((n as u16).to_be_bytes());
            b.extend(body);
            b
        }
        2 => {
            // other elementary stream in its own pack
            let mut b = gen_pack_header(r);
            b.extend([0, 0, 1, *r.pick(&[0xe0u8, 0xc0, 0xbf, 0xbe, 0xbb, 0xbc])]);
            b.extend((n as u16).to_be_bytes());
            b.extend(body);
            b
        }
        3 => {
            let mut b = vec![0, 0, 1, *r.pick(&[0xe0u8, 0xc0, 0xbf, 0xbb, 0xb9])];
            b.extend((n as u16).to_be_bytes());
            b.extend(body);
            b
        }
        4 => body,
        _ => vec![0; n % 40],
    }
}

/// How one subtitle is put into the stream.
#[derive(Clone, Debug)]
pub struct Fragmenting {
    /// Cut positions in the subtitle packet (sorted, may repeat).
    pub cuts: Vec<usize>,
    pub vary: bool,
    /// Fillers between the pieces.
    pub fillers: bool,
    pub surplus: usize,
    /// Packets of other substreams between the pieces.
    pub foreign: bool,
}
pub fn whole() -> Fragmenting {
    Fragmenting { cuts: vec![], vary: false, fillers: false, surplus: 0, foreign: false }
}

/// Largest piece that fits in one PES packet whatever the header.
pub const MAX_PIECE: usize = 65_000;

#[derive(Default, Clone, Debug)]
pub struct Stream {
    pub bytes: Vec<u8>,
    /// Start of the first and end of the last packet of each subtitle.
    pub ranges: Vec<(usize, usize)>,
    /// Pack start codes written on purpose.
    pub packs: usize,
    pub packets: usize,
}

impl Stream {
    pub fn filler(&mut self, f: &[u8]) {
        self.packs += count_pack_codes(f);
        self.bytes.extend(f);
    }
    pub fn add(&mut self, r: &mut Rng, spu: &[u8], pts: Option<u64>, f: &Fragmenting) {
        let start = self.bytes.len();
        let substream = if f.vary {
            if r.chance(3, 4) { 0x20 + r.below(32) as u8 } else { r.u8() }
        } else {
            PLAIN_SUBSTREAM
        };
        let mut cuts = f.cuts.clone();
        // keep the pieces within what a PES packet can hold
        let mut extra = vec![];
        {
            let mut prev = 0;
            for &c in cuts.iter().chain(std::iter::once(&spu.len())) {
                while c - prev > MAX_PIECE {
                    prev += MAX_PIECE;
                    extra.push(prev);
                }
                prev = c;
            }
        }
        cuts.extend(extra);
        cuts.sort_unstable();
        let mut pieces = vec![];
        let mut prev = 0;
        for &c in &cuts {
            pieces.push(spu[prev..c].to_vec());
            prev = c;
        }
        let mut last = spu[prev..].to_vec();
        let room = MAX_PIECE.saturating_sub(last.len());
        last.extend(r.bytes(f.surplus.min(room)));
        pieces.push(last);
        for (i, p) in pieces.iter().enumerate() {
            if i > 0 && f.foreign && r.bool() {
                let other = substream.wrapping_add(1 + r.below(255) as u8);
                let opt = if r.bool() { Some(gen_pts(r)) } else { None };
                let h = gen_head(r, opt, other);
                let n = r.range(0, 60);
                let d = r.bytes(n);
                let ph = gen_pack_header(r);
                self.bytes.extend(ph);
                self.bytes.extend(pes(&h, &d));
                self.packs += 1;
            }
            if i > 0 && f.fillers && r.bool() {
                let x = gen_filler(r);
                self.filler(&x);
            }
            let ts = if i == 0 {
                pts
            } else if f.vary && r.bool() {
                Some(gen_pts(r))
            } else {
                None
            };
            let (ph, h) = if f.vary {
                (gen_pack_header(r), gen_head(r, ts, substream))
            } else {
                (pack_header(pts.unwrap_or(0), 0, 25200, 0x1f, &[]), plain_head(ts))
            };
            self.bytes.extend(ph);
            self.bytes.extend(pes(&h, p));
            self.packs += 1;
            self.packets += 1;
        }
        self.ranges.push((start, self.bytes.len()));
    }
    /// No pack start code other than the intended ones.
    pub fn clean(&self) -> bool {
        count_pack_codes(&self.bytes) == self.packs
    }
}

pub fn gen_frag(r: &mut Rng, len: usize) -> Fragmenting {
    let mut cuts = vec![];
    if r.chance(2, 3) {
        for _ in 0..r.skewed(1, 12) {
            if len > 3 {
                cuts.push(r.range(2, len - 1));
            }
        }
        cuts.sort_unstable();
    }
    Fragmenting {
        cuts,
        vary: true,
        fillers: r.bool(),
        surplus: if r.chance(1, 3) { r.range(1, 30) } else { 0 },
        foreign: r.chance(1, 4),
    }
}

/// Neighbours that have something in common: time stamp, content, everything.
pub fn relate(r: &mut Rng, subs: &mut [(Sub, Spu)]) {
    if !r.chance(1, 3) {
        return;
    }
    for k in 1..subs.len() {
        let pts = subs[k].0.pts;
        match r.below(4) {
            0 => subs[k] = subs[k - 1].clone(),
            1 => subs[k].0.pts = subs[k - 1].0.pts,
            2 => {
                subs[k] = subs[k - 1].clone();
                subs[k].0.pts = pts;
            }
            _ => {}
        }
    }
}

/// A well-formed stream of several subtitles.
pub fn gen_stream(r: &mut Rng, subs: &[(Sub, Spu)], varied: bool) -> Stream {
    loop {
        let mut st = Stream::default();
        for (s, p) in subs {
            if varied && r.chance(1, 3) {
                let x = gen_filler(r);
                st.filler(&x);
            }
            let f = if varied { gen_frag(r, p.bytes.len()) } else { whole() };
            st.add(r, &p.bytes, Some(s.pts), &f);
        }
        if varied && r.chance(1, 3) {
            let x = gen_filler(r);
            st.filler(&x);
        }
        if st.clean() {
            return st;
        }
    }
}

/// Well-formed stream in the plainest form; the payload may hold a start code, in which case None.
pub fn plain_stream(r: &mut Rng, subs: &[(Sub, Spu)]) -> Option<Stream> {
    let mut st = Stream::default();
    for (s, p) in subs {
        st.add(r, &p.bytes, Some(s.pts), &whole());
    }
    st.clean().then_some(st)
}
