//! Properties V01..V08: VobSub.
use crate::fw::{st, sut, Ctx, StreamDef, Tier, R};
use crate::hostile;
use crate::vdec::{self, VItem};
use image::{Luma, LumaA, Rgb, Rgba};
use std::io::{BufReader, ErrorKind};
use std::rc::Rc;
use subtile::content::{Area, AreaValues};
use subtile::image::{ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::time::TimeSpan;
use subtile::vobsub::{
    conv_to_rgba, palette, palette_rgb_to_luminance, Index, Palette, Sub, VobSubError, VobSubIndexedImage,
    VobSubOcrImage, VobSubToImage,
};
use vhcore::io::{Plan, Probe};
use vhcore::rng::Rng;
use vhcore::util::{count_pack_codes, fnv, hex, Hasher};
use vhcore::vob::{self, Fragmenting, Overlap, RleStyle, Spu, SpuOpts, Stream};

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "V01" => vec![
            st("random", 6_000, 300_000, |c, _| v01(c, hostile::vob_random)),
            st("structured", 30_000, 1_500_000, |c, _| v01(c, hostile::vob_structured)),
            st("rle", 20_000, 1_000_000, |c, _| v01(c, hostile::vob_rle)),
            st("ctrl", 20_000, 1_000_000, |c, _| v01(c, hostile::vob_ctrl)),
            st("mutated", 20_000, 1_000_000, |c, _| v01(c, v01_mutated)),
            st("fixtures", 400, 20_000, v01_fixtures),
            st("bytes", 600, 6_000, v01_bytes),
            st("valid", 3_000, 100_000, |c, _| v01(c, |r| hostile::vob_valid(r, 4))),
            st("big", 24, 600, v01_big),
        ],
        "V02" => vec![
            st("random", 8_000, 300_000, |c, _| v02_random(c, vob::gen_spu)),
            st("small", 40_000, 1_500_000, |c, _| v02_random(c, vob::gen_small_spu)),
            st("codes", 255 * 4, 255 * 16, v02_codes),
            st("tiny", 4352, 4352 * 5, v02_tiny),
            st("fill", 2_000, 40_000, v02_fill),
            st("nibbles", 1_000, 20_000, v02_nibbles),
            st("big", 24, 400, v02_big),
        ],
        "V03" => vec![
            st("bits", 33 * 8, 33 * 64, v03_bits),
            st("dates", 1_500, 40_000, v03_dates),
            st("random", 40_000, 1_500_000, v03_random),
            st("nostop", 10_000, 300_000, v03_nostop),
        ],
        "V04" => vec![
            st("random", 12_000, 500_000, v04_random),
            st("cuts", 120, 5_000, v04_cuts),
            st("headers", 3_000, 60_000, v04_headers),
            st("bytes", 600, 20_000, v04_bytes),
            st("packs", 150, 4_000, v04_packs),
        ],
        "V05" => vec![
            st("single", 25_000, 900_000, v05_single),
            st("mixed", 15_000, 600_000, v05_mixed),
        ],
        "V06" => vec![
            st("varied", 160, 6_000, |c, _| v06(c, true)),
            st("plain", 120, 3_000, |c, _| v06(c, false)),
            st("large", 12, 200, v06_large),
        ],
        "V07" => vec![
            st("valid", 30_000, 1_000_000, v07_valid),
            st("broken", 20_000, 600_000, v07_broken),
            st("bytes", 20_000, 600_000, v07_bytes),
            st("faults", 1_500, 40_000, v07_faults),
            st("palette", 10_000, 300_000, v07_palette),
        ],
        "V08" => vec![
            st("render", 8_000, 300_000, v08_render),
            st("ocr", 8_000, 300_000, v08_ocr),
            st("luma", 600, 20_000, v08_luma),
            st("decoded", 1_500, 50_000, v08_decoded),
            st("large", 8, 160, v08_large),
        ],
        _ => return None,
    })
}

/// Name of an error, for the counters.
pub fn err_name(e: &str) -> String {
    let d = e.rsplit_once(" / ").map_or(e, |x| x.1);
    let mut s: String = d.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    if matches!(s.as_str(), "Image" | "MissingSubtitleParsing" | "Content" | "ODSParse" | "PDSParse") {
        let rest: String = d
            .chars()
            .skip(s.len() + 1)
            .take_while(|c| c.is_alphanumeric() || *c == '_')
            .collect();
        s = format!("{s}.{rest}");
    }
    s
}

// ------------------------------------------------------------------------------------ V01

pub fn v01_check(ctx: &mut Ctx, bytes: &[u8]) -> R {
    let p = ctx.file("x.sub", bytes);
    let packs = count_pack_codes(bytes);
    let max_px: u64 = if ctx.tier == Tier::Quick { 200_000 } else { 1_000_000 };
    ctx.detail(|| format!("sub file: {}", hex(bytes, 6000)));
    let pal: Palette = std::array::from_fn(|i| Rgb([i as u8 * 16, 255 - i as u8, i as u8]));
    let luma = palette_rgb_to_luminance(&pal);
    let (names, ok, rendered) = sut("decoding a .sub file", || -> Result<(Vec<String>, u64, u64), String> {
        let sub = Sub::open(&p).map_err(|e| format!("opening an existing .sub file failed: {e}"))?;
        let mut it = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>();
        let mut names = vec![];
        let (mut n, mut ok, mut rendered) = (0usize, 0, 0);
        while let Some(x) = it.next() {
            n += 1;
            if n > packs {
                return Err(format!("item {n} out of a file with {packs} pack start codes"));
            }
            match x {
                Err(e) => names.push(err_name(&vdec::err_text(&e))),
                Ok(x) => {
                    ok += 1;
                    let o = vdec::observe(&x);
                    let (w, h) = (u64::from(o.size.0), u64::from(o.size.1));
                    if o.raw.len() as u64 != w * h {
                        return Err(format!("{} raw pixels in a {w}x{h} picture", o.raw.len()));
                    }
                    if let Some(v) = o.raw.iter().find(|v| **v > 3) {
                        return Err(format!("raw pixel value {v}"));
                    }
                    if o.palette.iter().chain(&o.alpha).any(|v| *v > 15) {
                        return Err(format!("palette {:?} alpha {:?}", o.palette, o.alpha));
                    }
                    let _ = format!("{:?} {:?}", x.0, x.1);
                    if w * h <= max_px {
                        rendered += 1;
                        let i = VobSubToImage::new(&x.1, &pal, conv_to_rgba).to_image();
                        let o = VobSubOcrImage::new(&x.1, &luma).image(&ToOcrImageOpt::default());
                        if (u64::from(i.width()), u64::from(i.height())) != (w, h) || u64::from(o.width()) != w + 10 {
                            return Err(format!("rendering of a {w}x{h} picture is {:?}", i.dimensions()));
                        }
                    }
                }
            }
        }
        for k in 0..4 {
            if it.next().is_some() {
                return Err(format!("an item at call {} after the end", k + 1));
            }
        }
        Ok((names, ok, rendered))
    })??;
    ctx.ev(1);
    ctx.c("subtitles", ok);
    ctx.c("rendered", rendered);
    ctx.max("items in one file", ok + names.len() as u64);
    let mut h = Hasher::new();
    for n in &names {
        h.bytes(n.as_bytes());
        ctx.c(&format!("error {n}"), 1);
    }
    if ok + names.len() as u64 > 0 {
        ctx.nt(fnv(bytes));
    }
    ctx.digest(h.u64(ok).get());
    Ok(())
}
fn v01(ctx: &mut Ctx, g: fn(&mut Rng) -> Vec<u8>) -> R {
    let b = g(&mut ctx.r);
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 80)));
    v01_check(ctx, &b)
}
fn v01_mutated(r: &mut Rng) -> Vec<u8> {
    let k = r.range(1, 3);
    let mut b = hostile::vob_valid(r, k);
    let n = r.skewed(1, 12);
    hostile::mutate(r, &mut b, n);
    b
}
pub const FIXTURES: [&str; 3] = ["example.sub", "tiny.sub", "tiny-split.sub"];
pub fn fixture(name: &str) -> Vec<u8> {
    std::fs::read(format!("/repo/fixtures/{name}")).expect("harness: fixture")
}
fn v01_fixtures(ctx: &mut Ctx, i: u64) -> R {
    let mut b = fixture(FIXTURES[i as usize % 3]);
    // keep a window of the long one
    if b.len() > 20_000 {
        let a = ctx.r.below(b.len() - 10_000);
        b = b[a..a + 10_000].to_vec();
    }
    if i >= 3 {
        let n = ctx.r.range(1, 10);
        let r = &mut ctx.r;
        hostile::mutate(r, &mut b, n);
    }
    v01_check(ctx, &b)
}
/// Every value at one byte position of a small stream.
fn v01_bytes(ctx: &mut Ctx, i: u64) -> R {
    // The base depends on the group of 200 positions only.
    let mut r = Rng::new(ctx.seed ^ (i / 200).wrapping_mul(0x1234_5678_9abc));
    let (mut s, _, _) = vob::gen_small_spu(&mut r);
    s.pic = vob::gen_pic(&mut r, 4, 3);
    s.area = [10, 20, 13, 22];
    let o = SpuOpts { style: RleStyle::Minimal, overlap: Overlap::None, plain: i % 400 < 200 };
    let Some(p) = vob::build_spu(&mut r, &mut s, o) else { return Ok(()) };
    let mut stm = Stream::default();
    let f = if i / 200 % 3 == 2 {
        Fragmenting { cuts: vec![p.bytes.len() / 2], ..vob::whole() }
    } else {
        vob::whole()
    };
    stm.add(&mut r, &p.bytes, Some(s.pts), &f);
    let second = vob::gen_small_spu(&mut r);
    stm.add(&mut r, &second.1.bytes, Some(second.0.pts), &vob::whole());
    let pos = (i % 200) as usize;
    if pos >= stm.bytes.len() {
        return Ok(());
    }
    let mut b = stm.bytes.clone();
    for v in 0..=255u8 {
        b[pos] = v;
        v01_check(ctx, &b)?;
    }
    ctx.c("byte positions swept over all values", 1);
    Ok(())
}
fn v01_big(ctx: &mut Ctx, i: u64) -> R {
    // The largest area with hostile data of the largest packet.
    let r = &mut ctx.r;
    let mut p = vec![0xff, 0xff, 0, 0];
    let n = r.range(1, 60_000);
    let data = match i % 4 {
        0 => vec![0u8; n],
        1 => (0..n).map(|k| if k % 2 == 0 { 0 } else { 3 }).collect(),
        2 => vec![0xff; n],
        _ => r.bytes(n),
    };
    p.extend(data);
    let c = p.len();
    p[2] = (c >> 8) as u8;
    p[3] = c as u8;
    p.extend([0, 0, (c >> 8) as u8, c as u8, 1, 3, 1, 2, 4, 3, 4]);
    p.extend(vob::cmd_area(&[0, 0, 4095, 4095]));
    p.extend(vob::cmd_rle([4, if r.bool() { 4 } else { r.range(4, c) as u16 }]));
    p.push(0xff);
    p.resize(65535, 0);
    let mut b = hostile::vob_framed(r, &p);
    if r.chance(1, 4) {
        hostile::mutate(r, &mut b, 3);
    }
    v01_check(ctx, &b)
}

// ------------------------------------------------------------------------------------ V02

fn one(ctx: &mut Ctx, s: &vob::Sub, p: &Spu) -> Result<vdec::VOk, String> {
    let mut stm = Stream::default();
    stm.add(&mut ctx.r, &p.bytes, Some(s.pts), &vob::whole());
    ctx.detail(|| format!("subtitle packet: {}", hex(&p.bytes, 4000)));
    let mut v = vdec::decode(ctx, &stm.bytes)?;
    if v.len() != 1 {
        return Err(format!("{} items for one subtitle: {}", v.len(), list(&v)));
    }
    v.pop().unwrap().map_err(|e| format!("a well-formed subtitle gives the error {e}"))
}
pub fn list(v: &[VItem]) -> String {
    v.iter().take(8).map(vdec::short).collect::<Vec<_>>().join("; ")
}
fn pic_hash(s: &vob::Sub, p: &Spu) -> u64 {
    let mut h = Hasher::new();
    h.bytes(&p.bytes).u64(s.pic.w as u64).bytes(&s.pic.pix);
    h.get()
}
fn note_codes(ctx: &mut Ctx, p: &Spu) {
    for (n, k) in ["fill codes", "1-nibble codes", "2-nibble codes", "3-nibble codes", "4-nibble codes"].iter().zip(p.codes) {
        ctx.c(n, k);
    }
    ctx.c("control commands", p.n_cmds as u64);
    ctx.max("control sequences in a subtitle", p.seqs.len() as u64);
}
fn v02_one(ctx: &mut Ctx, s: &vob::Sub, p: &Spu) -> R {
    let o = one(ctx, s, p)?;
    vdec::check_picture(&o, s)?;
    ctx.ev(1);
    ctx.nt(pic_hash(s, p));
    ctx.c("pixels compared", o.raw.len() as u64);
    ctx.max("width", s.pic.w as u64);
    ctx.max("height", s.pic.h as u64);
    note_codes(ctx, p);
    Ok(())
}
fn v02_random(ctx: &mut Ctx, g: fn(&mut Rng) -> (vob::Sub, Spu, SpuOpts)) -> R {
    let (s, p, o) = g(&mut ctx.r);
    ctx.sample(|| {
        format!(
            "{}x{} area {:?} palette {:?} alpha {:?} {o:?}, {} sequences, {} commands, packet {}",
            s.pic.w, s.pic.h, s.area, s.palette, s.alpha, p.seqs.len(), p.n_cmds, hex(&p.bytes, 100)
        )
    });
    ctx.c(&format!("overlap {:?}", o.overlap), 1);
    ctx.c(&format!("style {:?}", o.style), 1);
    v02_one(ctx, &s, &p)
}
/// Every run length, in each code form, at both nibble alignments.
fn v02_codes(ctx: &mut Ctx, i: u64) -> R {
    let n = (i % 255 + 1) as usize;
    let form = i / 255;
    let lead = (form & 1) as usize;
    let style = if form & 2 == 0 { RleStyle::NoFill } else { RleStyle::Wide };
    let w = (lead + n + 1).max(2);
    let mut s = vob::gen_sub_dims(&mut ctx.r, w, 2);
    let (a, b, c) = ((n % 4) as u8, ((n / 4 + 1) % 4) as u8, ((n / 16) % 4) as u8);
    for y in 0..2 {
        let l = &mut s.pic.pix[y * w..(y + 1) * w];
        l.fill((b + y as u8) % 4);
        if lead == 1 {
            l[0] = if a == l[1] { (a + 1) % 4 } else { a };
        }
        let last = l[w - 2];
        l[w - 1] = if c == last { (c + 1) % 4 } else { c };
    }
    let o = SpuOpts { style, overlap: Overlap::None, plain: true };
    let p = vob::build_spu(&mut ctx.r, &mut s, o).expect("harness: fits");
    v02_one(ctx, &s, &p)
}
/// All pictures of 2x2 and 3x2 pixels.
fn v02_tiny(ctx: &mut Ctx, i: u64) -> R {
    let (k, style) = (i % 4352, if i < 4352 { i % 5 } else { i / 4352 });
    let (w, mut v) = if k < 256 { (2, k) } else { (3, k - 256) };
    let mut s = vob::gen_sub_dims(&mut ctx.r, w, 2);
    for x in &mut s.pic.pix {
        *x = (v & 3) as u8;
        v >>= 2;
    }
    let o = SpuOpts { style: vob::STYLES[style as usize % 5], overlap: Overlap::None, plain: k % 2 == 0 };
    let p = vob::build_spu(&mut ctx.r, &mut s, o).expect("harness: fits");
    v02_one(ctx, &s, &p)
}
/// Fill codes at every position of a line and lines of every parity.
fn v02_fill(ctx: &mut Ctx, i: u64) -> R {
    let w = 2 + (i % 70) as usize;
    let h = 2 + ctx.r.below(5);
    let mut s = vob::gen_sub_dims(&mut ctx.r, w, h);
    for y in 0..h {
        let x = ctx.r.below(w + 1);
        let (a, b) = (ctx.r.below(4) as u8, ctx.r.below(4) as u8);
        let l = &mut s.pic.pix[y * w..(y + 1) * w];
        l[..x].fill(a);
        l[x..].fill(b);
    }
    let o = SpuOpts {
        style: RleStyle::Wide,
        overlap: *ctx.r.pick(&[Overlap::None, Overlap::Tail, Overlap::Suffix]),
        plain: ctx.r.bool(),
    };
    let p = vob::build_spu(&mut ctx.r, &mut s, o).expect("harness: fits");
    v02_one(ctx, &s, &p)
}
/// Palette and alpha nibbles one at a time, coordinates one bit at a time.
fn v02_nibbles(ctx: &mut Ctx, i: u64) -> R {
    let mut s = vob::gen_sub_dims(&mut ctx.r, 2, 2);
    let k = i % 100;
    if k < 64 {
        s.palette = [0; 4];
        s.alpha = [0; 4];
        let t = if k < 32 { &mut s.palette } else { &mut s.alpha };
        t[(k / 8 % 4) as usize] = if k % 8 < 4 { 1 << (k % 4) } else { 15 };
    } else {
        let b = 1u16 << (k % 12);
        let o = if (k / 12) % 2 == 0 { 0 } else { 1 };
        let (w, h) = if b > 1 && b <= 2048 { (usize::from(b), 2) } else { (2, 2) };
        let (w, h) = if o == 0 { (w, h) } else { (h, w) };
        let (dx, dy) = (ctx.r.below(4096 - w + 1) as u16, ctx.r.below(4096 - h + 1) as u16);
        let base = *ctx.r.pick(&[(0, 0), (dx, dy), ((4096 - w) as u16, (4096 - h) as u16)]);
        s.pic = vob::gen_pic(&mut ctx.r, w, h);
        s.area = [base.0, base.1, base.0 + (w - 1) as u16, base.1 + (h - 1) as u16];
    }
    let o = SpuOpts { style: RleStyle::Minimal, overlap: Overlap::None, plain: ctx.r.bool() };
    match vob::build_spu(&mut ctx.r, &mut s, o) {
        Some(p) => v02_one(ctx, &s, &p),
        None => Ok(()),
    }
}
fn v02_big(ctx: &mut Ctx, i: u64) -> R {
    let (w, h) = [(720, 480), (720, 576), (1920, 1080), (4096, 64), (64, 4096), (4096, 1024), (4095, 511), (1024, 4095)][i as usize % 8];
    for _ in 0..20 {
        let mut s = vob::gen_sub_dims(&mut ctx.r, w, h);
        let mut o = vob::gen_opts(&mut ctx.r);
        if ctx.r.bool() {
            o.style = RleStyle::Minimal;
        }
        if let Some(p) = vob::build_spu(&mut ctx.r, &mut s, o) {
            ctx.c("big pictures", 1);
            ctx.max("packet size", p.bytes.len() as u64);
            return v02_one(ctx, &s, &p);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ V03

/// Decodes one subtitle behind a header made by the case and checks its times.
fn v03_one(ctx: &mut Ctx, s: &vob::Sub, p: &Spu, dts: Option<u64>, extra: usize) -> R {
    let mut h = vob::plain_head(Some(s.pts));
    h.dts = dts;
    h.flags2_low = if extra > 0 { ctx.r.u8() & 0x3f } else { 0 };
    h.extra = ctx.r.bytes(extra);
    let mut b = vob::pack_header(ctx.r.u64() & ((1 << 33) - 1), 0, 25200, 0x1f, &[]);
    b.extend(vob::pes(&h, &p.bytes));
    ctx.detail(|| format!("stream: {}", hex(&b, 3000)));
    let mut v = vdec::decode(ctx, &b)?;
    if v.len() != 1 {
        return Err(format!("{} items for one subtitle: {}", v.len(), list(&v)));
    }
    let o = v
        .pop()
        .unwrap()
        .map_err(|e| format!("a well-formed subtitle (time stamp {}, decode time stamp {dts:?}) gives the error {e}", s.pts))?;
    vdec::check_times(&o, s).map_err(|e| format!("{e} (decode time stamp {dts:?})"))?;
    ctx.ev(1);
    ctx.c(if dts.is_some() { "PTS and DTS" } else { "PTS only" }, 1);
    ctx.c(if s.stop.is_some() { "with stop command" } else { "without stop command" }, 1);
    let mut x = Hasher::new();
    x.u64(s.pts).u64(u64::from(s.start)).u64(s.stop.map_or(1 << 40, u64::from)).u64(dts.unwrap_or(1 << 41));
    ctx.nt(x.get());
    Ok(())
}
fn v03_sub(r: &mut Rng) -> vob::Sub {
    vob::gen_sub_dims(r, 2, 2)
}
fn v03_build(r: &mut Rng, s: &mut vob::Sub) -> Spu {
    let o = SpuOpts { style: RleStyle::Minimal, overlap: Overlap::None, plain: r.chance(1, 3) };
    vob::build_spu(r, s, o).expect("harness: fits")
}
fn v03_bits(ctx: &mut Ctx, i: u64) -> R {
    let mut s = v03_sub(&mut ctx.r);
    let bit = 1u64 << (i % 33);
    let k = i / 33;
    s.pts = if k & 1 == 0 { bit } else { ((1 << 33) - 1) ^ bit };
    if k & 2 == 0 {
        s.start = 0;
        s.stop = Some(0);
    }
    let dts = if k & 4 == 0 { None } else { Some(vob::gen_pts(&mut ctx.r)) };
    let p = v03_build(&mut ctx.r, &mut s);
    v03_one(ctx, &s, &p, dts, 0)
}
fn v03_dates(ctx: &mut Ctx, i: u64) -> R {
    let mut s = v03_sub(&mut ctx.r);
    let d = match i % 3 {
        0 => 1u16 << (i / 3 % 16),
        1 => (i / 3) as u16,
        _ => ctx.r.edge_u16(),
    };
    s.pts = if ctx.r.bool() { 0 } else { s.pts };
    match ctx.r.below(3) {
        0 => {
            s.start = d;
            s.stop = Some(ctx.r.u16());
        }
        1 => {
            s.start = 0;
            s.stop = Some(d);
        }
        _ => {
            s.start = d;
            s.stop = Some(d);
        }
    }
    let p = v03_build(&mut ctx.r, &mut s);
    v03_one(ctx, &s, &p, None, 0)
}
fn v03_random(ctx: &mut Ctx, _: u64) -> R {
    let mut s = v03_sub(&mut ctx.r);
    let p = v03_build(&mut ctx.r, &mut s);
    let dts = if ctx.r.chance(1, 3) { Some(vob::gen_pts(&mut ctx.r)) } else { None };
    let extra = if ctx.r.bool() { 0 } else { ctx.r.range(0, 20) };
    ctx.sample(|| format!("PTS {} DTS {dts:?} start date {} stop date {:?}, sequences {:?}", s.pts, s.start, s.stop, p.seqs));
    v03_one(ctx, &s, &p, dts, extra)
}
fn v03_nostop(ctx: &mut Ctx, _: u64) -> R {
    let mut s = v03_sub(&mut ctx.r);
    s.stop = None;
    let p = v03_build(&mut ctx.r, &mut s);
    let dts = if ctx.r.chance(1, 4) { Some(vob::gen_pts(&mut ctx.r)) } else { None };
    v03_one(ctx, &s, &p, dts, 0)
}

// ------------------------------------------------------------------------------------ V04

pub fn small_subs(r: &mut Rng, max: usize) -> Vec<(vob::Sub, Spu)> {
    let mut v: Vec<_> = (0..r.range(1, max))
        .map(|_| {
            let (s, p, _) = vob::gen_small_spu(r);
            (s, p)
        })
        .collect();
    vob::relate(r, &mut v);
    v
}
/// Items of the stream that sends each subtitle in one packet.
fn reference(ctx: &mut Ctx, subs: &[(vob::Sub, Spu)]) -> Result<Vec<VItem>, String> {
    let mut stm = Stream::default();
    for (s, p) in subs {
        stm.add(&mut ctx.r, &p.bytes, Some(s.pts), &vob::whole());
    }
    let v = vdec::decode(ctx, &stm.bytes)?;
    if v.len() != subs.len() {
        return Err(format!("{} items for {} unfragmented subtitles: {}", v.len(), subs.len(), list(&v)));
    }
    if let Some(i) = v.iter().position(|x| x.is_err()) {
        return Err(format!("unfragmented subtitle {i} of {}: {}", v.len(), vdec::short(&v[i])));
    }
    Ok(v)
}
pub fn same(got: &[VItem], want: &[VItem], what: &str) -> R {
    if got == want {
        return Ok(());
    }
    let i = (0..got.len().max(want.len()))
        .find(|&i| got.get(i) != want.get(i))
        .unwrap();
    let f = |v: &[VItem]| v.get(i).map_or("nothing".to_string(), vdec::short);
    let mut extra = String::new();
    if let (Some(Ok(a)), Some(Ok(b))) = (got.get(i), want.get(i)) {
        if let Some(k) = (0..a.raw.len().min(b.raw.len())).find(|&k| a.raw[k] != b.raw[k]) {
            extra = format!(", first different pixel {k}");
        }
    }
    Err(format!("{what}: item {i} is {}, expected {}{extra} ({} items, expected {})", f(got), f(want), got.len(), want.len()))
}
fn v04_random(ctx: &mut Ctx, _: u64) -> R {
    let subs = small_subs(&mut ctx.r, 3);
    let want = reference(ctx, &subs)?;
    for _ in 0..3 {
        let stm = vob::gen_stream(&mut ctx.r, &subs, true);
        ctx.detail(|| format!("stream: {}", hex(&stm.bytes, 6000)));
        ctx.sample(|| format!("{} subtitles in {} packets, {} bytes: {}", subs.len(), stm.packets, stm.bytes.len(), hex(&stm.bytes, 100)));
        let got = vdec::decode(ctx, &stm.bytes)?;
        same(&got, &want, "fragmented stream")?;
        ctx.ev(1);
        ctx.nt(fnv(&stm.bytes));
        ctx.c("packets", stm.packets as u64);
        ctx.max("packets of a stream", stm.packets as u64);
    }
    Ok(())
}
fn v04_cuts(ctx: &mut Ctx, i: u64) -> R {
    let subs = {
        let (s, p, _) = vob::gen_small_spu(&mut ctx.r);
        let (t, q, _) = vob::gen_small_spu(&mut ctx.r);
        vec![(s, p), (t, q)]
    };
    let want = reference(ctx, &subs)?;
    let n = subs[0].1.bytes.len();
    for c in 2..n {
        let cuts = if i % 2 == 0 { vec![c] } else { vec![c, ctx.r.range(c, n - 1)] };
        let f = Fragmenting { cuts, vary: ctx.r.bool(), ..vob::whole() };
        let mut stm = Stream::default();
        stm.add(&mut ctx.r, &subs[0].1.bytes, Some(subs[0].0.pts), &f);
        stm.add(&mut ctx.r, &subs[1].1.bytes, Some(subs[1].0.pts), &vob::whole());
        ctx.detail(|| format!("cuts {:?} of {n} bytes; stream: {}", f.cuts, hex(&stm.bytes, 6000)));
        let got = vdec::decode(ctx, &stm.bytes)?;
        same(&got, &want, &format!("subtitle of {n} bytes cut at {:?}", f.cuts))?;
        ctx.ev(1);
        ctx.nt(fnv(&stm.bytes));
    }
    ctx.c("subtitles cut at every position", 1);
    Ok(())
}
/// Header variations one at a time.
fn v04_headers(ctx: &mut Ctx, i: u64) -> R {
    let subs = small_subs(&mut ctx.r, 1);
    let want = reference(ctx, &subs)?;
    let (s, p) = &subs[0];
    let r = &mut ctx.r;
    let k = i % 300;
    let (mut scr, mut ext, mut rate, mut reserved, mut stuffing) = (0u64, 0u16, 25200u32, 0x1fu8, vec![]);
    let mut h = vob::plain_head(Some(s.pts));
    match k {
        0..=32 => scr = 1 << k,
        33..=41 => ext = 1 << (k - 33),
        42..=63 => rate = 1 << (k - 42),
        64..=71 => stuffing = vec![0xff; (k - 64) as usize],
        72..=79 => stuffing = r.bytes((k - 72) as usize),
        80..=87 => reserved = 1 << (k % 5),
        88..=151 => h.flags1 = (k - 88) as u8,
        152..=215 => h.flags2_low = (k - 152) as u8,
        216..=279 => {
            let n = ((k - 216) * 4) as usize;
            h.extra = if r.bool() { vec![0xff; n.min(250)] } else { r.bytes(n.min(250)) };
        }
        280..=289 => h.substream = r.u8(),
        _ => {
            h.dts = Some(vob::gen_pts(r));
            h.extra = r.bytes(3);
        }
    }
    let mut b = vob::pack_header(scr, ext, rate, reserved, &stuffing);
    b.extend(vob::pes(&h, &p.bytes));
    ctx.detail(|| format!("stream: {}", hex(&b, 4000)));
    let got = vdec::decode(ctx, &b)?;
    same(&got, &want, &format!("header variation {k}: {h:?}, clock reference {scr}, rate {rate}, stuffing {stuffing:?}"))?;
    ctx.ev(1);
    ctx.nt(fnv(&b));
    ctx.c("header variations", 1);
    Ok(())
}
/// One or a few bytes per packet.
fn v04_bytes(ctx: &mut Ctx, _: u64) -> R {
    let subs = small_subs(&mut ctx.r, 1);
    let want = reference(ctx, &subs)?;
    let n = subs[0].1.bytes.len();
    let step = ctx.r.range(1, 3);
    let mut cuts: Vec<usize> = (2..n).step_by(step).collect();
    if ctx.r.chance(1, 3) {
        // empty packets in between
        let c = *ctx.r.pick(&cuts);
        cuts.push(c);
        cuts.sort_unstable();
    }
    let f = Fragmenting { cuts, vary: true, fillers: false, surplus: 0, foreign: false };
    let mut stm = Stream::default();
    stm.add(&mut ctx.r, &subs[0].1.bytes, Some(subs[0].0.pts), &f);
    let got = vdec::decode(ctx, &stm.bytes)?;
    same(&got, &want, "a few bytes per packet")?;
    ctx.ev(1);
    ctx.nt(fnv(&stm.bytes));
    ctx.max("packets of a stream", stm.packets as u64);
    Ok(())
}
/// Large subtitles in packs of 2048 bytes, as on a DVD.
fn v04_packs(ctx: &mut Ctx, i: u64) -> R {
    let (s, p, _) = loop {
        let (w, h) = (ctx.r.range(100, 720), ctx.r.range(20, 400));
        let mut s = vob::gen_sub_dims(&mut ctx.r, w, h);
        let o = vob::gen_opts(&mut ctx.r);
        if let Some(p) = vob::build_spu(&mut ctx.r, &mut s, o) {
            break (s, p, o);
        }
    };
    let n = p.bytes.len();
    let piece = if i % 2 == 0 { 2048 - 14 - 15 } else { ctx.r.range(1, 65_000) };
    let subs = vec![(s, p)];
    let want = reference(ctx, &subs)?;
    let f = Fragmenting {
        cuts: (1..).map(|k| k * piece.max(2)).take_while(|&c| c < n).collect(),
        vary: ctx.r.bool(),
        fillers: n / piece < 200 && ctx.r.bool(),
        surplus: if ctx.r.chance(1, 4) { ctx.r.range(1, 2000) } else { 0 },
        foreign: ctx.r.chance(1, 4),
    };
    let mut stm = Stream::default();
    stm.add(&mut ctx.r, &subs[0].1.bytes, Some(subs[0].0.pts), &f);
    // only fillers matter; a start code inside a packet is consumed with it
    if f.fillers && !stm.clean() {
        return Ok(());
    }
    let got = vdec::decode(ctx, &stm.bytes)?;
    same(&got, &want, &format!("{n} bytes in pieces of {piece}"))?;
    ctx.ev(1);
    ctx.nt(fnv(&stm.bytes));
    ctx.c("large subtitles", 1);
    ctx.max("packet size", n as u64);
    Ok(())
}

// ------------------------------------------------------------------------------------ V05

/// Commands of a sequence: (code, offset, length); stops at the end or at an unknown command.
fn walk(b: &[u8], seq: usize) -> Vec<(u8, usize, usize)> {
    let mut v = vec![];
    let mut i = seq + 4;
    while i < b.len() {
        let n = match b[i] {
            0..=2 => 1,
            3 | 4 => 3,
            5 => 7,
            6 => 5,
            _ => break,
        };
        v.push((b[i], i, n));
        i += n;
    }
    v
}
fn put16(b: &mut [u8], at: usize, v: usize) {
    b[at] = (v >> 8) as u8;
    b[at + 1] = v as u8;
}
pub const DEFECTS: [&str; 19] = [
    "no start command",
    "no area command",
    "no palette command",
    "no alpha command",
    "no run-length offsets command",
    "empty area",
    "inverted area",
    "offsets out of order",
    "offset out of the packet",
    "run-length data overruns its line",
    "run-length data too short",
    "area too large for the data",
    "control offset out of the packet",
    "control sequence chain backwards",
    "control sequence chain out of the packet",
    "no time stamp",
    "packet too short for a size",
    "declared size before the control sequences",
    "unfinished control sequence",
];
/// A defective variant of the subtitle: content and time stamp. None when the defect cannot be
/// planted in this one.
pub fn plant(r: &mut Rng, kind: usize, s: &vob::Sub, p: &Spu) -> Option<(Vec<u8>, Option<u64>)> {
    let mut b = p.bytes.clone();
    let len = b.len();
    let first = |code: u8| p.cmds.iter().find(|c| c.0 == code).map(|c| c.1).unwrap();
    let mut pts = Some(s.pts);
    match kind {
        0..=4 => {
            let code = [vob::C_START, vob::C_AREA, vob::C_PAL, vob::C_ALPHA, vob::C_RLE][kind];
            for &(q, _) in &p.seqs {
                for (c, at, n) in walk(&p.bytes, q) {
                    if c == code {
                        b[at..at + n].fill(vob::C_FORCE);
                    }
                }
            }
        }
        5 | 6 => {
            let at = first(vob::C_AREA);
            let [x1, y1, x2, y2] = s.area;
            let d = if kind == 5 { 0 } else { 1 + r.below(40) as u16 };
            let a = if r.bool() {
                let x1 = x1.max(d);
                [x1, y1, x1 - d, y2]
            } else {
                let y1 = y1.max(d);
                [x1, y1, x2, y1 - d]
            };
            b[at..at + 7].copy_from_slice(&vob::cmd_area(&a));
        }
        7 => {
            let at = first(vob::C_RLE);
            let (o0, o1) = (p.off[0], p.off[1]);
            if o1 > o0 {
                put16(&mut b, at + 1, o1);
                put16(&mut b, at + 3, o0);
            } else {
                put16(&mut b, at + 1, o0 + 1);
            }
        }
        8 => {
            let at = first(vob::C_RLE);
            let v = r.range(len, 65535);
            put16(&mut b, at + 3, v);
            if r.chance(1, 3) {
                put16(&mut b, at + 1, v - r.below(2));
            }
        }
        9 | 10 => {
            let want = if kind == 9 { vob::RefErr::Overrun } else { vob::RefErr::Data };
            for _ in 0..40 {
                let mut c = b.clone();
                let (a, e) = (p.off[0], p.ctrl);
                if a >= e {
                    return None;
                }
                for _ in 0..r.range(1, 4) {
                    let i = r.range(a, e - 1);
                    c[i] = if kind == 10 && r.bool() { 0xff } else { r.u8() };
                }
                let v = vob::ref_decode(&c, p.off, p.ctrl + 2, s.pic.w, s.pic.h);
                if v == Err(want) {
                    return Some((c, pts));
                }
            }
            return None;
        }
        11 => {
            let at = first(vob::C_AREA);
            let [x1, y1, x2, y2] = s.area;
            let (x2, y2) = (
                if r.bool() { 4095 } else { x2 },
                (u32::from(y2) + r.range(1, 200) as u32).min(4095) as u16,
            );
            let a = [x1, y1, x2, y2];
            let (w, h) = (usize::from(x2 - x1) + 1, usize::from(y2 - y1) + 1);
            if vob::ref_decode(&b, p.off, p.ctrl + 2, w, h).is_ok() {
                return None;
            }
            b[at..at + 7].copy_from_slice(&vob::cmd_area(&a));
        }
        12 => {
            let v = r.range(len, 65535);
            put16(&mut b, 2, v);
        }
        13 => {
            // the last sequence points before itself, or an earlier one does
            let (q, _) = *r.pick(&p.seqs);
            put16(&mut b, q + 2, r.range(0, q - 1));
        }
        14 => {
            let (q, _) = *r.pick(&p.seqs);
            put16(&mut b, q + 2, r.range(len, 65535));
        }
        15 => pts = None,
        16 => b.truncate(r.below(2)),
        17 => {
            let v = r.range(0, p.ctrl);
            put16(&mut b, 0, v);
            if r.bool() {
                b.truncate(v.max(2));
            }
        }
        _ => {
            let (q, _) = *p.seqs.last().unwrap();
            let w = walk(&p.bytes, q);
            let mut ends: Vec<usize> = vec![q + 4];
            ends.extend(w.iter().map(|x| x.1 + x.2));
            let e = *r.pick(&ends);
            b.truncate(e);
            put16(&mut b, 0, e);
        }
    }
    Some((b, pts))
}
/// One stream with defects (by position), against the same stream without.
fn v05_run(ctx: &mut Ctx, subs: &[(vob::Sub, Spu)], bad: &[Option<usize>]) -> R {
    let want = reference(ctx, subs)?;
    let mut stm = Stream::default();
    let mut kinds: Vec<Option<usize>> = vec![];
    for ((s, p), k) in subs.iter().zip(bad) {
        let planted = k.and_then(|k| plant(&mut ctx.r, k, s, p).map(|x| (k, x)));
        match planted {
            Some((k, (b, pts))) => {
                let multi = k < 15 && ctx.r.chance(1, 3);
                let f = if multi {
                    Fragmenting { cuts: vec![ctx.r.range(2.min(b.len() - 1), b.len() - 1)], vary: ctx.r.bool(), ..vob::whole() }
                } else {
                    Fragmenting { vary: ctx.r.bool(), ..vob::whole() }
                };
                stm.add(&mut ctx.r, &b, pts, &f);
                kinds.push(Some(k));
            }
            None => {
                stm.add(&mut ctx.r, &p.bytes, Some(s.pts), &vob::whole());
                kinds.push(None);
            }
        }
    }
    ctx.detail(|| {
        format!(
            "defects {:?}; stream: {}",
            kinds.iter().map(|k| k.map(|k| DEFECTS[k])).collect::<Vec<_>>(),
            hex(&stm.bytes, 6000)
        )
    });
    ctx.sample(|| format!("defects {:?} in {} bytes", kinds.iter().map(|k| k.map(|k| DEFECTS[k])).collect::<Vec<_>>(), stm.bytes.len()));
    let got = vdec::decode(ctx, &stm.bytes)?;
    if got.len() != subs.len() {
        return Err(format!(
            "{} items for {} subtitles, defects {:?}: {}",
            got.len(),
            subs.len(),
            kinds.iter().map(|k| k.map(|k| DEFECTS[k])).collect::<Vec<_>>(),
            list(&got)
        ));
    }
    for (i, k) in kinds.iter().enumerate() {
        match k {
            Some(k) => match &got[i] {
                Ok(_) => return Err(format!("defective subtitle {i} ({}) gives {}", DEFECTS[*k], vdec::short(&got[i]))),
                Err(e) => {
                    ctx.c(&format!("defect {}", DEFECTS[*k]), 1);
                    ctx.c(&format!("error {}", err_name(e)), 1);
                }
            },
            None => {
                if got[i] != want[i] {
                    return Err(format!(
                        "intact subtitle {i} next to defects {:?} is {}, alone {}",
                        kinds.iter().map(|k| k.map(|k| DEFECTS[k])).collect::<Vec<_>>(),
                        vdec::short(&got[i]),
                        vdec::short(&want[i])
                    ));
                }
                ctx.c("intact subtitles compared", 1);
            }
        }
    }
    ctx.ev(1);
    if kinds.iter().any(Option::is_some) {
        ctx.nt(fnv(&stm.bytes));
    }
    Ok(())
}
fn v05_single(ctx: &mut Ctx, i: u64) -> R {
    let kind = i as usize % DEFECTS.len();
    let subs: Vec<_> = (0..3).map(|_| {
        let (s, p, _) = vob::gen_small_spu(&mut ctx.r);
        (s, p)
    }).collect();
    let mut bad = vec![None; 3];
    bad[ctx.r.below(3)] = Some(kind);
    v05_run(ctx, &subs, &bad)
}
fn v05_mixed(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(1, 8);
    let mut subs: Vec<_> = (0..n).map(|_| {
        let (s, p, _) = vob::gen_small_spu(&mut ctx.r);
        (s, p)
    }).collect();
    vob::relate(&mut ctx.r, &mut subs);
    let bad: Vec<_> = (0..n)
        .map(|_| if ctx.r.bool() { Some(ctx.r.below(DEFECTS.len())) } else { None })
        .collect();
    v05_run(ctx, &subs, &bad)
}

// ------------------------------------------------------------------------------------ V06

fn v06_cut(ctx: &mut Ctx, full: &[VItem], ranges: &[(usize, usize)], bytes: &[u8], cut: usize) -> R {
    let got = vdec::decode(ctx, &bytes[..cut])?;
    let k = ranges.iter().filter(|r| r.1 <= cut).count();
    let oks = got.iter().take_while(|x| x.is_ok()).count();
    let at = || format!("cut at {cut} of {} bytes ({k} complete subtitles, packets at {ranges:?})", bytes.len());
    if oks != k || got.len() > k + 1 {
        return Err(format!("{}: {} items: {}", at(), got.len(), list(&got)));
    }
    same(&got[..k], &full[..k], &at())?;
    ctx.c(if got.len() > k { "cuts ending with an error" } else { "cuts ending silently" }, 1);
    ctx.ev(1);
    let mut h = Hasher::new();
    h.u64(fnv(&bytes[..cut.min(64)])).u64(cut as u64).u64(fnv(&bytes[..cut]));
    ctx.nt(h.get());
    Ok(())
}
fn v06(ctx: &mut Ctx, varied: bool) -> R {
    let subs = small_subs(&mut ctx.r, 3);
    let stm = if varied {
        vob::gen_stream(&mut ctx.r, &subs, true)
    } else {
        match vob::plain_stream(&mut ctx.r, &subs) {
            Some(s) => s,
            None => return Ok(()),
        }
    };
    ctx.detail(|| format!("stream: {}", hex(&stm.bytes, 6000)));
    ctx.sample(|| format!("{} subtitles in {} bytes, every cut", subs.len(), stm.bytes.len()));
    let full = vdec::decode(ctx, &stm.bytes)?;
    if full.len() != subs.len() || full.iter().any(|x| x.is_err()) {
        return Err(format!("uncut stream of {} subtitles: {}", subs.len(), list(&full)));
    }
    // every position; in long fillers of long streams every third
    let n = stm.bytes.len();
    let step = if n > 1500 && ctx.tier == Tier::Quick { 3 } else { 1 };
    let mut c = ctx.r.below(step);
    while c <= n {
        v06_cut(ctx, &full, &stm.ranges, &stm.bytes, c)?;
        c += step;
    }
    for &(a, b) in &stm.ranges {
        for d in [a, a + 1, a + 4, b - 1, b, (b + 1).min(n)] {
            v06_cut(ctx, &full, &stm.ranges, &stm.bytes, d)?;
        }
    }
    if step == 1 {
        ctx.c("streams cut at every position", 1);
    }
    Ok(())
}
fn v06_large(ctx: &mut Ctx, _: u64) -> R {
    let mut subs = vec![];
    for _ in 0..ctx.r.range(1, 3) {
        let (s, p, _) = vob::gen_spu(&mut ctx.r);
        subs.push((s, p));
    }
    let stm = vob::gen_stream(&mut ctx.r, &subs, true);
    let full = vdec::decode(ctx, &stm.bytes)?;
    if full.len() != subs.len() || full.iter().any(|x| x.is_err()) {
        return Err(format!("uncut stream of {} subtitles: {}", subs.len(), list(&full)));
    }
    for _ in 0..150 {
        let c = ctx.r.below(stm.bytes.len() + 1);
        v06_cut(ctx, &full, &stm.ranges, &stm.bytes, c)?;
    }
    for &(a, b) in &stm.ranges {
        for d in (a..a + 40).chain(b.saturating_sub(12)..=b) {
            v06_cut(ctx, &full, &stm.ranges, &stm.bytes, d.min(stm.bytes.len()))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ V07

const DEFAULT: [[u8; 3]; 16] = [
    [0x00, 0x00, 0x00], [0xf0, 0xf0, 0xf0], [0xcc, 0xcc, 0xcc], [0x99, 0x99, 0x99],
    [0x33, 0x33, 0xfa], [0x11, 0x11, 0xbb], [0xfa, 0x33, 0x33], [0xbb, 0x11, 0x11],
    [0x33, 0xfa, 0x33], [0x11, 0xbb, 0x11], [0xfa, 0xfa, 0x33], [0xbb, 0xbb, 0x11],
    [0xfa, 0x33, 0xfa], [0xbb, 0x11, 0xbb], [0x33, 0xfa, 0xfa], [0x11, 0xbb, 0xbb],
];
pub(crate) type Idx = (Vec<[u8; 3]>, Option<String>);
const CALLER: &str = "caller's own error";
fn read_idx(text: &[u8], plan: Plan, seed: u64, cap: usize) -> Result<(Result<Idx, VobSubError>, vhcore::io::Log), String> {
    let (p, log) = Probe::new(Rc::new(text.to_vec()), plan, seed);
    let res = sut("Index::read_index", || {
        let mk = |e: std::io::Error| VobSubError::Parse(format!("{CALLER}: {:?}: {e}", e.kind()));
        Index::read_index(BufReader::with_capacity(cap, p), &mk).map(|i| {
            (
                i.palette().iter().map(|c| c.0).collect::<Vec<_>>(),
                i.lang().as_ref().map(|l| l.lang().to_string()),
            )
        })
    })?;
    let l = log.borrow().clone();
    Ok((res, l))
}
fn calm(r: &mut Rng) -> (Plan, usize) {
    let mut p = Plan { window: *r.pick(&[0usize, 1, 3, 17, 256]), fixed: r.bool(), ..Plan::default() };
    if r.chance(1, 4) {
        p.interrupt = 60;
    }
    (p, *r.pick(&[1usize, 2, 7, 64, 8192]))
}
fn gen_word(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
fn hexcol(r: &mut Rng, c: [u8; 3]) -> String {
    c.iter()
        .map(|v| match r.below(3) {
            0 => format!("{v:02x}"),
            1 => format!("{v:02X}"),
            _ => format!("{:x}{:X}", v >> 4, v & 15),
        })
        .collect()
}
pub fn gen_palette(r: &mut Rng) -> Vec<[u8; 3]> {
    match r.below(5) {
        0 => vec![[0; 3]; 16],
        1 => vec![[255; 3]; 16],
        2 => (0..16).map(|i| [i as u8 * 17, 255 - i as u8, 0x80 >> (i % 8)]).collect(),
        _ => (0..16).map(|_| [r.u8(), r.u8(), r.u8()]).collect(),
    }
}
/// Lines that carry neither palette nor language.
fn gen_other(r: &mut Rng) -> String {
    let w = gen_word(r, 6);
    if let Some(x) = r.word() {
        let x = x.trim();
        // (no line may start with a key that is read)
        if !x.contains(':') && x != "palette" && x != "id" {
            return match r.below(4) {
                0 => format!("# {x}: {w}"),
                1 => format!("{x}: {w}"),
                2 => format!("{x} {w}: {}", r.below(100_000)),
                _ => format!("{x}: {}", r.below(100_000)),
            };
        }
    }
    match r.below(30) {
        26 => {
            // not the keys that are read
            let k = *r.pick(&[
                " palette", "  palette", "Palette", "PALETTE", "palette ", "palettes", "pal", "palette/", "/palette", "a palette", "palettE",
                "\tpalette", "\u{a0}palette", "\u{feff}palette", "palette_", "-palette", "palette0",
            ]);
            if r.bool() {
                let c = gen_palette(r);
                format!("{k}: {}", &line_of(r, &c)["palette: ".len()..])
            } else {
                format!("{k}: {w}")
            }
        }
        27 => {
            let k = *r.pick(&[" id", "ID", "Id", "iD", "id ", "ids", "lang id", "id/", "\tid", "-id", "id0", "\u{feff}id"]);
            format!("{k}: {w}, index: {}", r.below(9))
        }
        28 => format!("{}:{}", r.pick(&["palette", "id", "palette\t", "id\t", "palette ", "id "]), r.pick(&["", "000000", "en, index: 0", "\ten, index: 0", "\t000000, 000000"])),
        29 => r.pick(&["palette", "id", ": ", ":", " : x", "palette = 000000", "id= en, index: 1", "id; en", "palette; 000000"]).to_string(),
        0 => "# VobSub index file, v7 (do not modify this line!)".into(),
        1 => "size: 720x576".into(),
        2 => "org: 0, 0".into(),
        3 => "scale: 100%, 100%".into(),
        4 => "alpha: 100%".into(),
        5 => "smooth: OFF".into(),
        6 => "fadein/out: 50, 50".into(),
        7 => "align: OFF at LEFT TOP".into(),
        8 => "time offset: 0".into(),
        9 => "forced subs: OFF".into(),
        10 => "langidx: 0".into(),
        11 => "custom colors: OFF, tridx: 0000, colors: 000000, 000000, 000000, 000000".into(),
        12 => format!("timestamp: 00:{:02}:{:02}:{:03}, filepos: {:09x}", r.below(60), r.below(60), r.below(1000), r.below(1 << 30)),
        13 => String::new(),
        14 => "#".into(),
        15 => format!("# palette: {}", vec!["010203"; 16].join(", ")),
        16 => format!("# id: {w}, index: 3"),
        17 => format!("custom palette: {}", vec!["0a0b0c"; r.range(1, 17)].join(", ")),
        18 => format!("subtitle id: {w}, index: 1"),
        19 => format!("old palettes: {w}"),
        20 => format!("{w}é: ünïcödé {w}"),
        21 => format!("{w}{w}"),
        22 => format!("// palette: {}", vec!["ffffff"; 16].join(", ")),
        23 => format!("Palette: {w}"),
        24 => format!("alt: palette: {w}"),
        _ => {
            let n = if r.chance(1, 60) { r.skewed(2_000, 70_000) } else { r.skewed(0, 600) };
            format!("{w}: {}", gen_word(r, n))
        }
    }
}
pub(crate) struct IdxText {
    pub text: Vec<u8>,
    pub want: Idx,
}
pub(crate) fn gen_idx(r: &mut Rng, palette_line: Option<String>, pal: Option<Vec<[u8; 3]>>) -> IdxText {
    let mut lines: Vec<String> = vec![];
    for _ in 0..r.skewed(0, 24) {
        lines.push(gen_other(r));
    }
    let lang = if r.chance(2, 3) {
        let n = match r.below(6) {
            0 => 1,
            1 => r.range(3, 23),
            2 => 24,
            3 => r.range(25, 80),
            _ => 2,
        };
        Some(gen_word(r, n))
    } else {
        None
    };
    if let Some(l) = &lang {
        let at = r.below(lines.len() + 1);
        lines.insert(at, format!("id: {l}, index: {}", r.below(32)));
        // the language of the last of several tracks
        while r.chance(1, 5) {
            let (at, w) = (r.below(at + 1), r.range(1, 5));
            let w = gen_word(r, w);
            lines.insert(at, if r.bool() { format!("id: {w}, index: {}", r.below(32)) } else { format!("id: {}{w}", r.pick(&["--", "", "X", "en,", "en; "])) });
        }
    }
    if let Some(p) = palette_line {
        let at = r.below(lines.len() + 1);
        lines.insert(at, p);
        // the colours that are set last
        while r.chance(1, 8) {
            let at = r.below(at + 1);
            let c = gen_palette(r);
            lines.insert(at, line_of(r, &c));
        }
    }
    if lang.is_none() {
        let mut at = lines.len();
        while r.chance(1, 4) {
            // an id line without a code, the last one
            at = r.below(at + 1);
            let l = *r.pick(&["id: , index: 0", "id: EN, index: 0", "id: --, index: 2", "id: en", "id: en,index: 0", "id: en, Index: 0", "id: en , index: 1", "id: 9, index: 9", "id:  en, index: 0", "id: pt-br, index: 0", "id: é, index: 1"]);
            lines.insert(at, l.into());
            while r.bool() {
                let (a, w) = (r.below(at + 1), r.range(1, 5));
                let w = gen_word(r, w);
                lines.insert(a, format!("id: {w}, index: {}", r.below(32)));
                at += 1;
            }
            // anything that follows has no code either
        }
    }
    let crlf = r.bool();
    let mixed = r.chance(1, 6);
    let mut text = String::new();
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        text.push_str(l);
        if i + 1 == n && r.chance(1, 4) {
            break; // no line end at the end of the file
        }
        if mixed {
            if r.chance(1, 5) {
                text.push_str("  ");
            }
            text.push_str(if r.bool() { "\r\n" } else { "\n" });
        } else {
            text.push_str(if crlf { "\r\n" } else { "\n" });
        }
    }
    IdxText { text: text.into_bytes(), want: (pal.unwrap_or_else(|| DEFAULT.to_vec()), lang) }
}
pub fn line_of(r: &mut Rng, pal: &[[u8; 3]]) -> String {
    let cols: Vec<String> = pal.iter().map(|c| hexcol(r, *c)).collect();
    format!("palette: {}", cols.join(", "))
}
fn v07_valid(ctx: &mut Ctx, i: u64) -> R {
    let pal = if i % 4 == 0 { None } else { Some(gen_palette(&mut ctx.r)) };
    let line = pal.as_ref().map(|p| line_of(&mut ctx.r, p));
    let t = gen_idx(&mut ctx.r, line, pal.clone());
    ctx.detail(|| format!("idx text: {:?}", String::from_utf8_lossy(&t.text)));
    ctx.sample(|| format!("{:?}", String::from_utf8_lossy(&t.text).chars().take(200).collect::<String>()));
    let (plan, cap) = calm(&mut ctx.r);
    let (got, _) = read_idx(&t.text, plan, i, cap)?;
    let got = got.map_err(|e| format!("a well-formed index gives the error {e:?}"))?;
    if got.0 != t.want.0 {
        return Err(format!("palette is {:?}, written {:?} ({})", got.0, t.want.0, if pal.is_some() { "line present" } else { "no palette line" }));
    }
    if got.1 != t.want.1 {
        return Err(format!("language is {:?}, written {:?}", got.1, t.want.1));
    }
    if i % 8 == 0 {
        let p = ctx.file("x.idx", &t.text);
        let o = sut("Index::open", || {
            Index::open(&p).map(|i| {
                (
                    i.palette().iter().map(|c| c.0).collect::<Vec<_>>(),
                    i.lang().as_ref().map(|l| l.lang().to_string()),
                )
            })
        })?
        .map_err(|e| format!("Index::open of a well-formed index gives {e:?}"))?;
        if o != t.want {
            return Err(format!("Index::open gives {o:?}, written {:?}", t.want));
        }
        ctx.c("opened by path", 1);
    }
    ctx.ev(1);
    ctx.nt(fnv(&t.text));
    ctx.c(if pal.is_some() { "with palette line" } else { "default palette" }, 1);
    ctx.c(if t.want.1.is_some() { "with id line" } else { "without id line" }, 1);
    ctx.max("language length", t.want.1.map_or(0, |l| l.len() as u64));
    Ok(())
}
const BROKEN: [&str; 9] = ["15 or fewer colours", "17 or more colours", "bad digit", "short colour", "long colour", "trailing text", "separator missing", "trailing separator", "non-ASCII text"];
fn broken_line(r: &mut Rng, kind: usize) -> String {
    let pal = gen_palette(r);
    let mut cols: Vec<String> = pal.iter().map(|c| hexcol(r, *c)).collect();
    let k = r.below(16);
    let bad = *r.pick(&['g', 'G', ' ', '-', '+', 'x', '.', '_', 'é', '/', ':', '@', '`', '#']);
    match kind {
        0 => cols.truncate(r.range(1, 15)),
        1 => {
            for _ in 0..r.range(1, 20) {
                cols.push("123456".into());
            }
        }
        2 => {
            let at = r.below(6);
            let mut c: Vec<char> = cols[k].chars().collect();
            c[at] = bad;
            cols[k] = c.into_iter().collect();
            if k == 15 && cols[k].ends_with(' ') {
                cols[k].push('x');
            }
            // a leading blank of the first colour stays in the value
        }
        3 => {
            cols[k].pop();
        }
        4 => cols[k].push('0'),
        5 => return format!("palette: {}{}", cols.join(", "), *r.pick(&[" x", ";", " 000000", "0", ", x", " #", "\u{a0}x"])),
        6 => {
            let s = cols.join(", ");
            let at = s.match_indices(", ").nth(r.below(15)).unwrap().0;
            let rep = *r.pick(&[",", " ", "", ",  ", "; ", " ,"]);
            return format!("palette: {}{rep}{}", &s[..at], &s[at + 2..]);
        }
        7 => return format!("palette: {},", cols.join(", ")),
        _ => return format!("palette: {}", gen_word(r, 5) + "ßç…" + &cols.join(", ")),
    }
    format!("palette: {}", cols.join(", "))
}
fn v07_broken(ctx: &mut Ctx, i: u64) -> R {
    let kind = i as usize % BROKEN.len();
    let line = broken_line(&mut ctx.r, kind);
    let t = gen_idx(&mut ctx.r, Some(line.clone()), None);
    ctx.detail(|| format!("idx text: {:?}", String::from_utf8_lossy(&t.text)));
    ctx.sample(|| format!("{}: {line:?}", BROKEN[kind]));
    let (plan, cap) = calm(&mut ctx.r);
    let (got, _) = read_idx(&t.text, plan, i, cap)?;
    match got {
        Ok(g) => Err(format!("palette line with {} ({line:?}) is accepted as {:?}", BROKEN[kind], g.0)),
        Err(e) => {
            if format!("{e}").contains(CALLER) {
                return Err(format!("palette line with {} is reported as a read failure: {e}", BROKEN[kind]));
            }
            ctx.c(&format!("rejected: {}", BROKEN[kind]), 1);
            ctx.ev(1);
            ctx.nt(fnv(&t.text));
            Ok(())
        }
    }
}
/// A well-formed index.
pub fn gen_idx_ok(r: &mut Rng) -> Vec<u8> {
    let pal = gen_palette(r);
    let line = line_of(r, &pal);
    gen_idx(r, Some(line), Some(pal)).text
}
pub fn gen_idx_bytes(r: &mut Rng) -> Vec<u8> {
    let pal = gen_palette(r);
    let line = if r.bool() {
        line_of(r, &pal)
    } else {
        let k = r.below(BROKEN.len());
        broken_line(r, k)
    };
    let mut b = gen_idx(r, Some(line), None).text;
    match r.below(4) {
        0 => {
            let n = r.skewed(0, 600);
            b = r.bytes(n);
        }
        1 => {
            let n = r.range(1, 4);
            for _ in 0..n {
                let k = r.below(8);
                let w = r.bytes(k);
                let at = r.below(b.len() + 1);
                b.splice(at..at, w);
            }
        }
        _ => {
            let n = r.range(1, 8);
            hostile::mutate(r, &mut b, n);
        }
    }
    b
}
/// Arbitrary bytes never make reading panic, and any palette returned is a complete one of the text.
fn v07_bytes(ctx: &mut Ctx, i: u64) -> R {
    let b = gen_idx_bytes(&mut ctx.r);
    ctx.detail(|| format!("idx bytes: {}", hex(&b, 4000)));
    let (plan, cap) = calm(&mut ctx.r);
    let (got, _) = read_idx(&b, plan, i, cap)?;
    let utf8 = std::str::from_utf8(&b);
    match got {
        Ok(g) => {
            ctx.c("accepted", 1);
            let Ok(s) = utf8 else {
                return Err("text that is not UTF-8 is read without an error".into());
            };
            // an accepted palette is written on some line, completely
            if g.0 != DEFAULT.to_vec() {
                let wanted = g.0.iter().map(|c| format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])).collect::<Vec<_>>().join(", ");
                if !s.to_ascii_lowercase().contains(&wanted) {
                    return Err(format!("palette {:?} is on no line of the text", g.0));
                }
            }
            if let Some(l) = &g.1 {
                if !s.contains(l.as_str()) {
                    return Err(format!("language {l:?} is not in the text"));
                }
            }
        }
        Err(e) => {
            ctx.c(&format!("error {}", err_name(&format!("{e} / {e:?}"))), 1);
        }
    }
    ctx.ev(1);
    ctx.nt(fnv(&b));
    Ok(())
}
/// A failure of every single read.
fn v07_faults(ctx: &mut Ctx, i: u64) -> R {
    let pal = gen_palette(&mut ctx.r);
    let line = line_of(&mut ctx.r, &pal);
    let t = gen_idx(&mut ctx.r, Some(line), Some(pal));
    let cap = *ctx.r.pick(&[16usize, 64, 300, 8192]);
    let plan = Plan { window: *ctx.r.pick(&[0usize, 30, 200]), ..Plan::default() };
    let (ok, log) = read_idx(&t.text, plan.clone(), i, cap)?;
    ok.map_err(|e| format!("fault-free reading gives {e:?}"))?;
    let kind = *ctx.r.pick(&[
        ErrorKind::Other,
        ErrorKind::PermissionDenied,
        ErrorKind::BrokenPipe,
        ErrorKind::TimedOut,
        ErrorKind::WouldBlock,
        ErrorKind::UnexpectedEof,
        ErrorKind::NotFound,
        ErrorKind::InvalidData,
    ]);
    for k in 0..log.ops {
        let p = Plan { fail_at: Some(k), kind, persistent: ctx.r.bool(), ..plan.clone() };
        let (got, l) = read_idx(&t.text, p, i, cap)?;
        if !l.fired {
            return Err(format!("read {k} of {} was not requested", log.ops));
        }
        match got {
            Ok(g) => return Err(format!("failure ({kind:?}) of read {k} of {} goes unnoticed: {g:?}", log.ops)),
            Err(e) => {
                let s = format!("{e}");
                if !s.contains(CALLER) || !s.contains(&format!("{kind:?}")) || !s.contains("injected failure") {
                    return Err(format!("failure ({kind:?}) of read {k} is returned as {e:?}, not as the caller's error"));
                }
            }
        }
        ctx.ev(1);
        let mut h = Hasher::new();
        h.u64(fnv(&t.text)).u64(k).u64(kind as u64);
        ctx.nt(h.get());
    }
    ctx.c("read calls failed", log.ops);
    ctx.c(&format!("kind {kind:?}"), 1);
    Ok(())
}
/// The exported palette parser.
fn v07_palette(ctx: &mut Ctx, i: u64) -> R {
    let pal = gen_palette(&mut ctx.r);
    let line = line_of(&mut ctx.r, &pal);
    let text = &line["palette: ".len()..];
    let n = if i % 2 == 0 { 16 } else { ctx.r.below(24) };
    let text = if n <= 16 {
        text.split(", ").take(n).collect::<Vec<_>>().join(", ")
    } else {
        format!("{text}{}", ", 0a0B0c".repeat(n - 16))
    };
    ctx.detail(|| format!("palette text: {text:?}"));
    let got = sut("palette", || palette(text.as_bytes()).map(|(rest, p)| (rest.to_vec(), p.map(|c| c.0))).ok())?;
    match (n, got) {
        (16, Some((rest, p))) => {
            if !rest.is_empty() || p.to_vec() != pal {
                return Err(format!("palette {text:?} gives {p:?}, rest {rest:?}"));
            }
        }
        (16, None) => return Err(format!("palette {text:?} is refused")),
        (_, Some(p)) => return Err(format!("{n} colours accepted as {p:?}")),
        (_, None) => {}
    }
    ctx.ev(1);
    ctx.nt(fnv(text.as_bytes()));
    Ok(())
}

// ------------------------------------------------------------------------------------ V08

fn v08_image(r: &mut Rng) -> (VobSubIndexedImage, vob::Pic, [u8; 4], [u8; 4]) {
    let (w, h) = match r.below(5) {
        0 => (2, 2),
        1 => (r.range(2, 200), 2),
        2 => (2, r.range(2, 200)),
        _ => (r.range(2, 40), r.range(2, 40)),
    };
    let pic = vob::gen_pic(r, w, h);
    let pal: [u8; 4] = std::array::from_fn(|_| r.below(16) as u8);
    let alpha: [u8; 4] = match r.below(3) {
        0 => [0, 15, 15, 15],
        1 => [0, 0, 1, 0],
        _ => std::array::from_fn(|_| r.below(16) as u8),
    };
    let [x1, y1, x2, y2] = vob::gen_area(r, w, h);
    let area = Area::try_from(AreaValues { x1, y1, x2, y2 }).expect("harness: area");
    (VobSubIndexedImage::new(area, pal, alpha, pic.pix.clone()), pic, pal, alpha)
}
#[derive(Clone, Copy)]
struct Tagged(u16);
fn v08_cmp<P: image::Pixel<Subpixel = u8> + PartialEq + std::fmt::Debug>(
    what: &str,
    img: &image::ImageBuffer<P, Vec<u8>>,
    pic: &vob::Pic,
    want: impl Fn(u8) -> P,
) -> R {
    if img.dimensions() != (pic.w as u32, pic.h as u32) {
        return Err(format!("{what}: rendering of a {}x{} picture is {:?}", pic.w, pic.h, img.dimensions()));
    }
    for y in 0..pic.h {
        for x in 0..pic.w {
            let v = pic.pix[y * pic.w + x];
            let g = *img.get_pixel(x as u32, y as u32);
            if g != want(v) {
                return Err(format!(
                    "{what}: pixel ({x}, {y}) of a {}x{} picture, value {v}, renders as {g:?}, expected {:?}",
                    pic.w, pic.h, want(v)
                ));
            }
        }
    }
    Ok(())
}
fn v08_render(ctx: &mut Ctx, i: u64) -> R {
    let (img, pic, pal, alpha) = v08_image(&mut ctx.r);
    let rgb: Palette = match ctx.r.below(3) {
        0 => std::array::from_fn(|k| Rgb([k as u8, 16 + k as u8, 32 + k as u8])),
        _ => std::array::from_fn(|_| Rgb([ctx.r.u8(), ctx.r.u8(), ctx.r.u8()])),
    };
    ctx.sample(|| format!("{}x{} palette {pal:?} alpha {alpha:?} colours {rgb:?}", pic.w, pic.h));
    match i % 4 {
        0 | 1 => {
            let o = sut("VobSubToImage", || VobSubToImage::new(&img, &rgb, conv_to_rgba).to_image())?;
            v08_cmp("conv_to_rgba", &o, &pic, |v| {
                let c = rgb[usize::from(pal[usize::from(v)])].0;
                Rgba([c[0], c[1], c[2], alpha[usize::from(v)]])
            })?;
        }
        2 => {
            let lum: [Luma<u8>; 16] = std::array::from_fn(|_| Luma([ctx.r.u8()]));
            let f: fn(Luma<u8>, u8) -> LumaA<u8> = |l, a| LumaA([l.0[0] ^ 0x55, a.wrapping_mul(17)]);
            let o = sut("VobSubToImage", || VobSubToImage::new(&img, &lum, f).to_image())?;
            v08_cmp("luminance palette", &o, &pic, |v| f(lum[usize::from(pal[usize::from(v)])], alpha[usize::from(v)]))?;
        }
        _ => {
            let tags: [Tagged; 16] = std::array::from_fn(|k| Tagged(k as u16 * 257));
            let f: fn(Tagged, u8) -> Rgb<u8> = |t, a| Rgb([t.0 as u8, (t.0 >> 8) as u8 ^ 0xaa, a]);
            let o = sut("VobSubToImage", || VobSubToImage::new(&img, &tags, f).to_image())?;
            v08_cmp("own palette type", &o, &pic, |v| f(tags[usize::from(pal[usize::from(v)])], alpha[usize::from(v)]))?;
        }
    }
    ctx.ev(1);
    ctx.c("pixels compared", pic.pix.len() as u64);
    let mut h = Hasher::new();
    h.bytes(&pic.pix).bytes(&pal).bytes(&alpha).u64(i % 4);
    ctx.nt(h.get());
    Ok(())
}
pub fn gen_ocr(r: &mut Rng) -> ToOcrImageOpt {
    match r.below(4) {
        0 => ToOcrImageOpt::default(),
        1 => ToOcrImageOpt { border: r.below(3) as u32, text_color: Luma([255]), background_color: Luma([0]) },
        _ => {
            let t = r.u8();
            let mut b = r.u8();
            if b == t {
                b ^= 1;
            }
            ToOcrImageOpt { border: r.skewed(0, 60) as u32, text_color: Luma([t]), background_color: Luma([b]) }
        }
    }
}
/// Compares an OCR rendering with `inner` surrounded by the background.
pub fn check_ocr(got: &image::GrayImage, w: u32, h: u32, o: &ToOcrImageOpt, inner: impl Fn(u32, u32) -> u8) -> R {
    let b = o.border;
    if got.dimensions() != (w + 2 * b, h + 2 * b) {
        return Err(format!("OCR rendering of a {w}x{h} picture with border {b} is {:?}", got.dimensions()));
    }
    for y in 0..h + 2 * b {
        for x in 0..w + 2 * b {
            let inside = x >= b && x < w + b && y >= b && y < h + b;
            let want = if inside { inner(x - b, y - b) } else { o.background_color.0[0] };
            let g = got.get_pixel(x, y).0[0];
            if g != want {
                return Err(format!(
                    "OCR pixel ({x}, {y}) of a {w}x{h} picture with border {b} is {g}, expected {want} ({})",
                    if inside { "inside" } else { "border" }
                ));
            }
        }
    }
    Ok(())
}
fn v08_ocr(ctx: &mut Ctx, i: u64) -> R {
    let (img, pic, pal, alpha) = v08_image(&mut ctx.r);
    let lum: [Luma<u8>; 16] = match i % 3 {
        0 => std::array::from_fn(|k| Luma([if k % 2 == 0 { 0 } else { 1 }])),
        1 => std::array::from_fn(|_| Luma([*ctx.r.pick(&[0u8, 0, 1, 127, 128, 255])])),
        _ => std::array::from_fn(|_| Luma([ctx.r.u8()])),
    };
    let o = gen_ocr(&mut ctx.r);
    ctx.sample(|| format!("{}x{} palette {pal:?} alpha {alpha:?} luminances {lum:?} {o:?}", pic.w, pic.h));
    let got = sut("VobSubOcrImage", || VobSubOcrImage::new(&img, &lum).image(&o))?;
    check_ocr(&got, pic.w as u32, pic.h as u32, &o, |x, y| {
        let v = usize::from(pic.pix[y as usize * pic.w + x as usize]);
        if alpha[v] > 0 && lum[usize::from(pal[v])].0[0] > 0 {
            o.text_color.0[0]
        } else {
            o.background_color.0[0]
        }
    })
    .map_err(|e| format!("{e}; palette {pal:?} alpha {alpha:?} luminances {lum:?} {o:?}"))?;
    ctx.ev(1);
    ctx.max("border", u64::from(o.border));
    ctx.c("pixels compared", u64::from(got.width()) * u64::from(got.height()));
    let mut h = Hasher::new();
    h.bytes(&pic.pix).bytes(&pal).bytes(&alpha).u64(u64::from(o.border));
    ctx.nt(h.get());
    Ok(())
}
fn v08_luma(ctx: &mut Ctx, i: u64) -> R {
    // gray axis and each channel alone first, then random colours
    let col = |r: &mut Rng, k: u64| -> [u8; 3] {
        let v = k as u8;
        match k / 256 {
            0 => [v, v, v],
            1 => [v, 0, 0],
            2 => [0, v, 0],
            3 => [0, 0, v],
            _ => [r.u8(), r.u8(), r.u8()],
        }
    };
    let cols: [[u8; 3]; 16] = std::array::from_fn(|k| col(&mut ctx.r, i * 16 + k as u64));
    let pal: Palette = cols.map(Rgb);
    let l = sut("palette_rgb_to_luminance", || palette_rgb_to_luminance(&pal))?;
    for k in 0..16 {
        let c = cols[k];
        let exact = (2126.0 * f64::from(c[0]) + 7152.0 * f64::from(c[1]) + 722.0 * f64::from(c[2])) / 10000.0;
        let g = f64::from(l[k].0[0]);
        if (g - exact).abs() >= 1.0 || (c == [255; 3] && g != 255.0) {
            return Err(format!("luminance of {c:?} is {g}, luma is {exact:.3}"));
        }
        for a in [0u8, 1, 15, 128, 255, ctx.r.u8()] {
            let p = sut("conv_to_rgba", || conv_to_rgba(Rgb(c), a))?;
            if p.0 != [c[0], c[1], c[2], a] {
                return Err(format!("conv_to_rgba({c:?}, {a}) is {:?}", p.0));
            }
        }
        ctx.ev(1);
        let mut h = Hasher::new();
        h.bytes(&c);
        ctx.nt(h.get());
    }
    Ok(())
}
/// Pictures of up to millions of pixels, and borders wider than the picture.
fn v08_large(ctx: &mut Ctx, i: u64) -> R {
    const DIMS: [(usize, usize); 8] =
        [(300, 300), (4095, 17), (17, 4095), (720, 576), (1920, 1080), (2, 4096), (4096, 2), (257, 1021)];
    let (w, h) = if i % 160 == 100 { (4096, 4096) } else { DIMS[(i % 8) as usize] };
    let r = &mut ctx.r;
    let n = w * h;
    // a random value for every pixel, so that any two places of the picture differ
    let mut pix = Vec::with_capacity(n);
    while pix.len() < n {
        let mut v = r.u64();
        for _ in 0..32 {
            pix.push((v & 3) as u8);
            v >>= 2;
        }
    }
    pix.truncate(n);
    let (pal, alpha) = ([3u8, 9, 15, 0], [15u8, 7, 1, 0]);
    let area = Area::try_from(AreaValues { x1: 0, y1: 0, x2: w as u16 - 1, y2: h as u16 - 1 }).expect("harness: area");
    let img = VobSubIndexedImage::new(area, pal, alpha, pix.clone());
    let pic = vob::Pic { w, h, pix };
    let rgb: Palette = std::array::from_fn(|k| Rgb([k as u8, 16 + k as u8, 32 + k as u8]));
    ctx.sample(|| format!("{w}x{h}"));
    let o = sut("VobSubToImage", || VobSubToImage::new(&img, &rgb, conv_to_rgba).to_image())?;
    let want: [Rgba<u8>; 4] = std::array::from_fn(|v| {
        let c = rgb[usize::from(pal[v])].0;
        Rgba([c[0], c[1], c[2], alpha[v]])
    });
    v08_cmp("conv_to_rgba", &o, &pic, |v| want[usize::from(v)])?;
    let lum: [Luma<u8>; 16] = std::array::from_fn(|k| Luma([if k == 9 { 0 } else { 1 + k as u8 }]));
    let mut o = gen_ocr(&mut ctx.r);
    if n < 100_000 {
        o.border = ctx.r.below(700) as u32;
    }
    let got = sut("VobSubOcrImage", || VobSubOcrImage::new(&img, &lum).image(&o))?;
    let text: [u8; 4] = std::array::from_fn(|v| {
        if alpha[v] > 0 && lum[usize::from(pal[v])].0[0] > 0 { o.text_color.0[0] } else { o.background_color.0[0] }
    });
    check_ocr(&got, w as u32, h as u32, &o, |x, y| text[usize::from(pic.pix[y as usize * w + x as usize])])?;
    ctx.ev(2);
    ctx.max("border", u64::from(o.border));
    ctx.max("pixels of one picture", n as u64);
    ctx.c("pixels compared", n as u64 + u64::from(got.width()) * u64::from(got.height()));
    ctx.nt(fnv(&pic.pix));
    Ok(())
}
/// Rendering of pictures that went through the decoder.
fn v08_decoded(ctx: &mut Ctx, _: u64) -> R {
    let (s, p, _) = vob::gen_small_spu(&mut ctx.r);
    let mut stm = Stream::default();
    stm.add(&mut ctx.r, &p.bytes, Some(s.pts), &vob::whole());
    let path = ctx.file("x.sub", &stm.bytes);
    let rgb: Palette = std::array::from_fn(|_| Rgb([ctx.r.u8(), ctx.r.u8(), ctx.r.u8()]));
    let o = gen_ocr(&mut ctx.r);
    let lum = palette_rgb_to_luminance(&rgb);
    let (ok, img, ocr) = sut("decoding and rendering", || -> Result<_, String> {
        let sub = Sub::open(&path).map_err(|e| format!("{e}"))?;
        let x = sub
            .subtitles::<(TimeSpan, VobSubIndexedImage)>()
            .next()
            .ok_or("no subtitle")?
            .map_err(|e| format!("a well-formed subtitle gives the error {e:?}"))?;
        let i = VobSubToImage::new(&x.1, &rgb, conv_to_rgba).to_image();
        let q = VobSubOcrImage::new(&x.1, &lum).image(&o);
        if (x.1.width(), x.1.height()) != i.dimensions() {
            return Err(format!("picture {}x{} renders as {:?}", x.1.width(), x.1.height(), i.dimensions()));
        }
        Ok((vdec::observe(&x), i, q))
    })??;
    // rendering is judged against what was decoded, so that decoding faults stay with V02
    let pic = vob::Pic { w: ok.size.0 as usize, h: ok.size.1 as usize, pix: ok.raw.clone() };
    if pic.pix.len() != pic.w * pic.h {
        return Err(format!("{} pixels in a {}x{} picture", pic.pix.len(), pic.w, pic.h));
    }
    v08_cmp("decoded picture", &img, &pic, |v| {
        let c = rgb[usize::from(ok.palette[usize::from(v)])].0;
        Rgba([c[0], c[1], c[2], ok.alpha[usize::from(v)]])
    })?;
    check_ocr(&ocr, ok.size.0, ok.size.1, &o, |x, y| {
        let v = usize::from(pic.pix[y as usize * pic.w + x as usize]);
        if ok.alpha[v] > 0 && lum[usize::from(ok.palette[v])].0[0] > 0 {
            o.text_color.0[0]
        } else {
            o.background_color.0[0]
        }
    })?;
    ctx.ev(1);
    ctx.nt(fnv(&stm.bytes));
    Ok(())
}
