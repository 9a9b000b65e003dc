//! Properties G01..G10: Presentation Graphic Streams.
use crate::fw::{st, sut, Ctx, StreamDef, Tier, R};
use crate::hostile;
use crate::p_vob::{check_ocr, err_name, gen_ocr};
use crate::pdec::{self, PItem, POk, TItem};
use image::{Luma, LumaA, Rgb, Rgba};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Cursor, ErrorKind, Seek};
use std::rc::Rc;
use subtile::image::{ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, ReadExt as _, RleEncodedImage, RleToImage, SupParser};
use subtile::time::TimeSpan;
use vhcore::io::{Log, Plan, Probe};
use vhcore::pgs::{self, SetOpts};
use vhcore::rng::Rng;
use vhcore::util::{fnv, hex, Hasher};

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "G01" => vec![
            st("random", 20_000, 800_000, |c, _| g01(c, hostile::pgs_random)),
            st("structured", 30_000, 1_200_000, |c, _| g01(c, hostile::pgs_structured)),
            st("rle", 15_000, 600_000, |c, _| g01(c, hostile::pgs_rle)),
            st("mutated", 30_000, 1_200_000, |c, _| g01(c, g01_mutated)),
            st("bytes", 400, 6_000, g01_bytes),
            st("fixtures", 200, 10_000, g01_fixtures),
            st("valid", 2_000, 80_000, |c, _| g01(c, |r| hostile::pgs_valid(r, 4))),
            st("huge", 60, 1_000, g01_huge),
        ],
        "G02" => vec![
            st("random", 4_000, 150_000, g02_random),
            st("small", 30_000, 1_200_000, g02_small),
            st("runs", 900, 16_384, g02_runs),
            st("palette", 1_500, 60_000, g02_palette),
            st("tiny", 1_296, 1_296 * 8, g02_tiny),
            st("largest", 20, 800, g04_largest),
        ],
        "G03" => vec![
            st("bits", 32 * 32, 32 * 32 * 8, g03_bits),
            st("random", 12_000, 500_000, g03_random),
            st("sizes", 600, 20_000, g03_sizes),
        ],
        "G04" => vec![
            st("every", 2_500, 100_000, g04_every),
            st("large", 60, 2_000, g04_large),
            st("largest", 40, 1_500, g04_largest),
        ],
        "G05" => vec![
            st("single", 20_000, 800_000, g05_single),
            st("mixed", 10_000, 400_000, g05_mixed),
        ],
        "G06" => vec![
            st("readers", 4_000, 150_000, g06_readers),
            st("helpers", 8_000, 300_000, g06_helpers),
            st("large", 60, 2_000, g06_large),
        ],
        "G07" => vec![
            st("ops", 500, 20_000, g07_ops),
            st("large", 24, 500, g07_large),
        ],
        "G08" => vec![
            st("varied", 350, 12_000, |c, _| g08(c, pgs::VARY_SMALL)),
            st("plain", 200, 6_000, |c, _| g08(c, pgs::PLAIN)),
            st("large", 30, 600, g08_large),
        ],
        "G09" => vec![
            st("codes", 10 * 10 * 10, 10 * 10 * 10 * 10, g09_codes),
            st("random", 8_000, 300_000, g09_random),
            st("wide", 120, 3_000, g09_wide),
            st("adaptors", 8_000, 300_000, g09_adaptors),
        ],
        "G10" => vec![
            st("image", 8_000, 300_000, g10_image),
            st("ocr", 8_000, 300_000, g10_ocr),
            st("large", 8, 160, g10_large),
        ],
        _ => return None,
    })
}

fn list(v: &[PItem]) -> String {
    v.iter().take(8).map(pdec::short).collect::<Vec<_>>().join("; ")
}
fn tlist(v: &[TItem]) -> String {
    v.iter().take(8).map(pdec::tshort).collect::<Vec<_>>().join("; ")
}

// ------------------------------------------------------------------------------------ G01

pub fn g01_check(ctx: &mut Ctx, bytes: &[u8]) -> R {
    let max_px: u64 = if ctx.tier == Tier::Quick { 200_000 } else { 1_000_000 };
    ctx.detail(|| format!("sup stream: {}", hex(bytes, 6000)));
    let mut h = Hasher::new();
    let (names, ok, px) = sut("decoding a .sup stream", || -> Result<(Vec<String>, u64, u64), String> {
        let mut it = SupParser::<_, DecodeTimeImage>::new(Cursor::new(bytes));
        let (mut n, mut ok, mut px) = (0, 0, 0u64);
        let mut names = vec![];
        while let Some(x) = it.next() {
            n += 1;
            if n > bytes.len() {
                return Err(format!("image decoder: item {n} out of a stream of {} bytes", bytes.len()));
            }
            match x {
                Err(e) => names.push(err_name(&pdec::err_text(&e))),
                Ok((t, i)) => {
                    ok += 1;
                    let _ = format!("{t:?}");
                    let area = u64::from(i.width()) * u64::from(i.height());
                    h.u64(area);
                    if area <= max_px {
                        let mut k = 0u64;
                        for p in &i {
                            k += 1;
                            h.u64(u64::from(p.0[0]) << 8 | u64::from(p.0[1]));
                            if k > area {
                                return Err(format!("more than {area} pixels"));
                            }
                        }
                        px += k;
                        let im = RleToImage::new(&i, |p| p).to_image();
                        let oc = RleToImage::new(&i, |p: LumaA<u8>| Luma([p.0[0]])).image(&ToOcrImageOpt::default());
                        if im.dimensions() != (i.width(), i.height()) || oc.width() != i.width() + 10 {
                            return Err(format!("rendering is {:?}", im.dimensions()));
                        }
                    } else {
                        // too large to expand: the first pixels only
                        px += i.iter().take(2_000).count() as u64;
                    }
                }
            }
        }
        for k in 0..4 {
            if it.next().is_some() {
                return Err(format!("image decoder: an item at call {} after the end", k + 1));
            }
        }
        Ok((names, ok, px))
    })??;
    let times = sut("decoding the times of a .sup stream", || -> Result<u64, String> {
        let mut it = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(bytes));
        let mut n = 0;
        let mut ok = 0;
        while let Some(x) = it.next() {
            n += 1;
            if n > bytes.len() {
                return Err(format!("times decoder: item {n} out of a stream of {} bytes", bytes.len()));
            }
            if let Ok(t) = x {
                ok += 1;
                let _ = format!("{t:?}");
            }
        }
        for k in 0..4 {
            if it.next().is_some() {
                return Err(format!("times decoder: an item at call {} after the end", k + 1));
            }
        }
        Ok(ok)
    })??;
    ctx.ev(2);
    ctx.c("pictures", ok);
    ctx.c("times", times);
    ctx.c("pixels iterated", px);
    ctx.max("items in one stream", ok + names.len() as u64);
    for n in &names {
        h.bytes(n.as_bytes());
        ctx.c(&format!("error {n}"), 1);
    }
    if ok + names.len() as u64 + times > 0 {
        ctx.nt(fnv(bytes));
    }
    ctx.digest(h.u64(ok).u64(times).get());
    Ok(())
}
fn g01(ctx: &mut Ctx, g: fn(&mut Rng) -> Vec<u8>) -> R {
    let b = g(&mut ctx.r);
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 80)));
    g01_check(ctx, &b)
}
fn g01_mutated(r: &mut Rng) -> Vec<u8> {
    let mut b = hostile::pgs_valid(r, 3);
    let n = r.skewed(1, 12);
    hostile::mutate(r, &mut b, n);
    b
}
/// Every value at one byte position of a small stream.
fn g01_bytes(ctx: &mut Ctx, i: u64) -> R {
    let mut r = Rng::new(ctx.seed ^ (i / 200).wrapping_mul(0x9876_5432_1234));
    let mut s = pgs::gen_sub_dims(&mut r, 5, 3);
    s.pal.truncate(4);
    if i % 400 >= 200 {
        s.split = Some(s.rle.len() / 2);
    }
    let t = pgs::gen_sub_dims(&mut r, 2, 2);
    let b = pgs::build(&mut r, &[s, t], pgs::PLAIN).bytes;
    let pos = (i % 200) as usize;
    if pos >= b.len() {
        return Ok(());
    }
    let mut c = b.clone();
    for v in 0..=255u8 {
        c[pos] = v;
        g01_check(ctx, &c)?;
    }
    ctx.c("byte positions swept over all values", 1);
    Ok(())
}
fn sup_fixture(name: &str) -> Vec<u8> {
    std::fs::read(format!("/repo/fixtures/{name}")).expect("harness: fixture")
}
fn g01_fixtures(ctx: &mut Ctx, i: u64) -> R {
    let mut b = sup_fixture(if i % 2 == 0 { "only_one.sup" } else { "sequence_without_ods.sup" });
    if i >= 2 {
        if b.len() > 20_000 {
            let n = ctx.r.range(2_000, 20_000);
            b.truncate(n);
        }
        let n = ctx.r.range(1, 12);
        hostile::mutate(&mut ctx.r, &mut b, n);
    }
    g01_check(ctx, &b)
}
/// Objects announcing the largest sizes.
fn g01_huge(ctx: &mut Ctx, i: u64) -> R {
    let r = &mut ctx.r;
    let mut s = pgs::gen_small_sub(r);
    s.split = None;
    let n = r.range(0, 60);
    let d = r.bytes(n);
    let head = pgs::ObjHead { id: 0, version: 0 };
    let declared = match i % 4 {
        0 => 0xff_ffff,
        1 => r.range(0, 0xff_ffff),
        2 => r.range(0, 20),
        _ => d.len() + 4,
    };
    let flag = *r.pick(&[0x80u8, 0xc0, 0x40]);
    let (w, h) = (*r.pick(&[0usize, 1, 65535]), *r.pick(&[0usize, 1, 65535]));
    let mut b = vec![];
    for (t, x) in pgs::showing(r, &s, pgs::PLAIN) {
        if t == pgs::ODS {
            let p = pgs::ods_first(&head, flag, declared, w, h, &d);
            b.extend(pgs::seg(0, 0, pgs::ODS, &p));
            if r.bool() {
                b.extend(pgs::seg(0, 0, pgs::ODS, &pgs::ods_last(&head, &d)));
            }
        } else {
            b.extend(x);
        }
    }
    for (_, x) in pgs::clearing(r, &s, pgs::PLAIN) {
        b.extend(x);
    }
    g01_check(ctx, &b)
}

// ------------------------------------------------------------------------------------ G02

fn one_image(ctx: &mut Ctx, s: &pgs::Sub, o: SetOpts) -> Result<(TimeSpan, RleEncodedImage), String> {
    let b = pgs::build(&mut ctx.r, std::slice::from_ref(s), o).bytes;
    ctx.detail(|| format!("sup stream: {}", hex(&b, 6000)));
    sut("decoding a .sup stream", || {
        let mut v = vec![];
        for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b)).take(5) {
            v.push(x.map_err(|e| format!("a well-formed subtitle gives the error {}", pdec::err_text(&e))));
        }
        if v.len() != 1 {
            return Err(format!("{} items for one subtitle", v.len()));
        }
        v.pop().unwrap()
    })?
}
fn g02_check(ctx: &mut Ctx, s: &pgs::Sub, o: SetOpts) -> R {
    let x = one_image(ctx, s, o)?;
    let ob = sut("iterating over a picture", || pdec::observe(&x))?;
    pdec::check_picture(&ob, s)?;
    let want = s.pixels();
    // the other ways to the pixels
    let (w, h) = (s.pic.w, s.pic.h);
    let (a, b, c) = sut("iterating over a picture", || {
        let a: Vec<(u8, u8)> = (&x.1).into_iter().take(w * h + 1).map(|p| (p.0[0], p.0[1])).collect();
        let b: Vec<(u8, u8)> = x
            .1
            .pixels::<u8>(|e| LumaA([e.luminance, e.transparency]))
            .take(w * h + 1)
            .map(|p| (p.0[0], p.0[1]))
            .collect();
        let c: Vec<(u16, u16)> = x
            .1
            .pixels::<u16>(|e| LumaA([u16::from(e.luminance) + 256, u16::from(e.transparency) + 512]))
            .take(w * h + 1)
            .map(|p| (p.0[0], p.0[1]))
            .collect();
        (a, b, c)
    })?;
    pdec::compare_pixels(&a, &want, w).map_err(|e| format!("into_iter: {e}"))?;
    pdec::compare_pixels(&b, &want, w).map_err(|e| format!("pixels::<u8>: {e}"))?;
    let known: Vec<bool> = (0..=255u8).map(|i| s.pal.iter().any(|e| e[0] == i)).collect();
    if c.len() != want.len() {
        return Err(format!("pixels::<u16>: {} pixels, encoded {}", c.len(), want.len()));
    }
    for (i, (got, wt)) in c.iter().zip(&want).enumerate() {
        let k = known[usize::from(s.pic.pix[i])];
        let e = if k { (u16::from(wt.0) + 256, u16::from(wt.1) + 512) } else { (65535, 0) };
        if *got != e {
            return Err(format!(
                "pixels::<u16>: pixel (x {}, y {}) is {got:?}, expected {e:?}",
                i % w,
                i / w
            ));
        }
    }
    ctx.ev(4);
    let mut hs = Hasher::new();
    hs.bytes(&s.rle).u64(w as u64);
    for e in &s.pal {
        hs.bytes(e);
    }
    ctx.nt(hs.get());
    ctx.c("pixels compared", want.len() as u64 * 4);
    ctx.c("pixels without palette entry", s.pic.pix.iter().filter(|p| !known[usize::from(**p)]).count() as u64);
    for (n, k) in ["single pixel codes", "short runs of colour 0", "long runs of colour 0", "short runs", "long runs"]
        .iter()
        .zip(s.codes)
    {
        ctx.c(n, k);
    }
    ctx.max("width", w as u64);
    ctx.max("height", h as u64);
    ctx.max("run-length bytes", s.rle.len() as u64);
    Ok(())
}
fn g02_random(ctx: &mut Ctx, _: u64) -> R {
    let s = pgs::gen_sub(&mut ctx.r);
    ctx.sample(|| format!("{}x{}, {} palette entries, {} bytes of data, split {:?}", s.pic.w, s.pic.h, s.pal.len(), s.rle.len(), s.split));
    let o = if ctx.r.bool() { pgs::VARY_SMALL } else { pgs::PLAIN };
    g02_check(ctx, &s, o)
}
fn g02_small(ctx: &mut Ctx, _: u64) -> R {
    let s = pgs::gen_small_sub(&mut ctx.r);
    let o = if ctx.r.bool() { pgs::VARY_SMALL } else { pgs::PLAIN };
    g02_check(ctx, &s, o)
}
fn reencode(r: &mut Rng, s: &mut pgs::Sub, style: pgs::RleStyle) {
    s.codes = [0; 5];
    s.rle = pgs::encode(r, &s.pic, style, true, &mut s.codes);
    s.split = None;
}
/// Every run length, of colour 0 and of another, in each code form.
fn g02_runs(ctx: &mut Ctx, i: u64) -> R {
    let n = if ctx.tier == Tier::Thorough {
        (i % 16383 + 1) as usize
    } else {
        // all short ones, the powers of two and their neighbours, a sample of the others
        match i {
            0..=300 => (i + 1) as usize,
            301..=420 => {
                let k = (i - 301) / 8 + 1;
                (((1u64 << k.min(14)) + (i - 301) % 8).saturating_sub(4)).clamp(1, 16383) as usize
            }
            _ => ctx.r.range(1, 16383),
        }
    };
    for (colour, style) in [
        (0u8, pgs::RleStyle::Minimal),
        (0, pgs::RleStyle::Long),
        (0, pgs::RleStyle::Random),
        (7, pgs::RleStyle::Minimal),
        (255, pgs::RleStyle::Long),
        (1, pgs::RleStyle::Random),
    ] {
        let w = n + 2;
        let mut s = pgs::gen_sub_dims(&mut ctx.r, 3, 1);
        s.pal = vec![[9, 200, 1, 2, 255], [colour, n as u8, 1, 2, (n >> 8) as u8], [colour ^ 1, 3, 4, 5, 6]];
        s.pic = pgs::Pic { w, h: 1, pix: vec![colour; w] };
        s.pic.pix[0] = 9;
        s.pic.pix[w - 1] = 9;
        reencode(&mut ctx.r, &mut s, style);
        g02_check(ctx, &s, pgs::PLAIN)?;
    }
    Ok(())
}
/// All 256 colours against palettes of every shape.
fn g02_palette(ctx: &mut Ctx, i: u64) -> R {
    let mut s = pgs::gen_sub_dims(&mut ctx.r, 16, 16);
    match i % 4 {
        0 => {
            let k = (i / 4 % 256) as u8;
            let a = ctx.r.u8();
            s.pal = vec![[k, a, 1, 2, 3]];
        }
        1 => {
            let k = (i / 4 % 257) as usize;
            s.pal = (0..k).map(|j| [j as u8, ctx.r.u8(), 0, 0, ctx.r.u8()]).collect();
        }
        _ => s.pal = pgs::gen_palette(&mut ctx.r),
    }
    let mut c: Vec<u8> = (0..=255).collect();
    ctx.r.shuffle(&mut c);
    s.pic.pix = c;
    let style = *ctx.r.pick(&pgs::STYLES);
    reencode(&mut ctx.r, &mut s, style);
    g02_check(ctx, &s, pgs::PLAIN)
}
/// All 2x2 pictures of 6 colours.
fn g02_tiny(ctx: &mut Ctx, i: u64) -> R {
    let mut s = pgs::gen_sub_dims(&mut ctx.r, 2, 2);
    let mut v = i % 1296;
    let mut pal = vec![];
    for c in [0u8, 1, 2, 254, 255] {
        if ctx.r.chance(3, 4) {
            pal.push([c, ctx.r.u8(), ctx.r.u8(), 0, ctx.r.u8()]);
        }
    }
    s.pal = pal;
    for p in &mut s.pic.pix {
        *p = [0u8, 1, 2, 3, 254, 255][(v % 6) as usize];
        v /= 6;
    }
    let style = pgs::STYLES[(i / 1296 % 4) as usize];
    reencode(&mut ctx.r, &mut s, if i < 1296 { pgs::RleStyle::Random } else { style });
    g02_check(ctx, &s, pgs::PLAIN)
}

// ------------------------------------------------------------------------------------ G03

fn g03_check(ctx: &mut Ctx, subs: &[pgs::Sub], b: &[u8]) -> R {
    ctx.detail(|| {
        format!(
            "time stamps {:?}; sup stream: {}",
            subs.iter().map(|s| (s.start, s.end)).collect::<Vec<_>>(),
            hex(b, 6000)
        )
    });
    let want: Vec<(i64, i64)> = subs.iter().map(pgs::Sub::times).collect();
    let t = pdec::only_times(b)?;
    if t.len() != want.len() || t.iter().zip(&want).any(|(g, w)| g.as_ref().ok() != Some(w)) {
        return Err(format!("times-only decoder: {}; encoded {want:?} ms", tlist(&t)));
    }
    let i = sut("decoding a .sup stream", || -> Vec<TItem> {
        SupParser::<_, DecodeTimeImage>::new(Cursor::new(b))
            .take(want.len() + 3)
            .map(|x| match x {
                Ok(x) => Ok(pdec::times(&x.0)),
                Err(e) => Err(pdec::err_text(&e)),
            })
            .collect()
    })?;
    if i.len() != want.len() || i.iter().zip(&want).any(|(g, w)| g.as_ref().ok() != Some(w)) {
        return Err(format!("image decoder: {}; encoded {want:?} ms", tlist(&i)));
    }
    ctx.ev(2);
    ctx.c("time spans compared", 2 * want.len() as u64);
    for s in subs {
        ctx.max("time stamp", u64::from(s.start.max(s.end)));
        let mut h = Hasher::new();
        h.u64(u64::from(s.start)).u64(u64::from(s.end));
        ctx.nt(h.get());
    }
    Ok(())
}
pub(crate) fn small_subs(r: &mut Rng, a: usize, b: usize) -> Vec<pgs::Sub> {
    let n = r.range(a, b);
    pgs::gen_small_subs(r, n)
}
fn g03_bits(ctx: &mut Ctx, i: u64) -> R {
    let mut s = pgs::gen_sub_dims(&mut ctx.r, 2, 2);
    let (a, b) = (i % 32, i / 32 % 32);
    let d = (i / 1024) as u32;
    s.start = (1u32 << a).wrapping_sub(d % 3);
    s.end = (1u32 << b).wrapping_add(d / 3);
    if i % 2 == 1 {
        s.end = !s.end;
    }
    let b = pgs::build(&mut ctx.r, std::slice::from_ref(&s), pgs::PLAIN).bytes;
    ctx.sample(|| format!("time stamps {} and {}", s.start, s.end));
    g03_check(ctx, &[s], &b)
}
fn g03_random(ctx: &mut Ctx, _: u64) -> R {
    let subs = small_subs(&mut ctx.r, 1, 8);
    let o = if ctx.r.chance(3, 4) { pgs::VARY_SMALL } else { pgs::PLAIN };
    let b = pgs::build(&mut ctx.r, &subs, o).bytes;
    ctx.sample(|| format!("{} subtitles in {} bytes, time stamps {:?}", subs.len(), b.len(), subs.iter().map(|s| (s.start, s.end)).collect::<Vec<_>>()));
    g03_check(ctx, &subs, &b)
}
fn g03_sizes(ctx: &mut Ctx, i: u64) -> R {
    let subs = small_subs(&mut ctx.r, 1, 3);
    let m = [3_000usize, 8_200, 65_535, 20_000][i as usize % 4];
    let b = pgs::build(&mut ctx.r, &subs, SetOpts { vary: true, max_skip: m }).bytes;
    ctx.max("stream size", b.len() as u64);
    g03_check(ctx, &subs, &b)
}

// ------------------------------------------------------------------------------------ G04

fn g04_reference(ctx: &mut Ctx, s: &pgs::Sub, t: &pgs::Sub) -> Result<Vec<PItem>, String> {
    let mut whole = s.clone();
    whole.split = None;
    let b = pgs::build(&mut ctx.r, &[whole, t.clone()], pgs::PLAIN).bytes;
    let v = pdec::images(&b)?;
    if v.len() != 2 || v.iter().any(Result::is_err) {
        return Err(format!("one segment: {}", list(&v)));
    }
    Ok(v)
}
fn g04_split(ctx: &mut Ctx, s: &pgs::Sub, t: &pgs::Sub, c: usize, want: &[PItem]) -> R {
    let mut cut = s.clone();
    cut.split = Some(c);
    let o = if ctx.r.chance(1, 3) { pgs::VARY_SMALL } else { pgs::PLAIN };
    let b = pgs::build(&mut ctx.r, &[cut, t.clone()], o).bytes;
    ctx.detail(|| format!("cut at {c} of {} bytes; sup stream: {}", s.rle.len(), hex(&b, 6000)));
    let got = pdec::images(&b)?;
    if got != want {
        return Err(format!(
            "object of {} bytes cut at {c}: {}; in one segment: {}",
            s.rle.len(),
            list(&got),
            list(want)
        ));
    }
    ctx.ev(1);
    let mut h = Hasher::new();
    h.bytes(&s.rle).u64(c as u64);
    ctx.nt(h.get());
    ctx.c("splits compared", 1);
    Ok(())
}
fn g04_every(ctx: &mut Ctx, _: u64) -> R {
    let mut s = pgs::gen_small_sub(&mut ctx.r);
    if s.split == Some(usize::MAX) {
        s.split = None;
    }
    let t = pgs::gen_small_sub(&mut ctx.r);
    let want = g04_reference(ctx, &s, &t)?;
    ctx.sample(|| format!("object of {} bytes cut at every position", s.rle.len()));
    let n = s.rle.len();
    let step = if n > 80 { n / 40 } else { 1 };
    let mut c = 0;
    while c <= n {
        g04_split(ctx, &s, &t, c, &want)?;
        c += step;
    }
    g04_split(ctx, &s, &t, n, &want)?;
    if n > 0 {
        g04_split(ctx, &s, &t, n - 1, &want)?;
        g04_split(ctx, &s, &t, 1, &want)?;
    }
    Ok(())
}
/// Objects near the largest a segment holds.
fn g04_large(ctx: &mut Ctx, i: u64) -> R {
    let target = match i % 3 {
        0 => pgs::ODS_FIRST_MAX - ctx.r.below(4),
        1 => ctx.r.range(20_000, 60_000),
        _ => pgs::ODS_FIRST_MAX,
    };
    let mut s = pgs::gen_sub_dims(&mut ctx.r, 3, 1);
    // rows of single byte codes: w + 2 bytes each
    let w = ctx.r.range(200, 400);
    let h = (target / (w + 2)).max(1);
    let pix: Vec<u8> = (0..w * h).map(|k| 1 + ((k * 7 + k / w) % 250) as u8).collect();
    s.pic = pgs::Pic { w, h, pix };
    reencode(&mut ctx.r, &mut s, pgs::RleStyle::Minimal);
    if s.rle.len() < target {
        // useless end of line markers fill the data up to the target
        while s.rle.len() + 2 <= target {
            s.rle.extend([0, 0]);
        }
    }
    let n = s.rle.len();
    if n > pgs::ODS_FIRST_MAX {
        return Ok(());
    }
    let t = pgs::gen_small_sub(&mut ctx.r);
    let want = g04_reference(ctx, &s, &t)?;
    ctx.max("object size", n as u64);
    let lo = n.saturating_sub(pgs::ODS_LAST_MAX);
    for c in [lo, lo + 1, n / 2, n - 1, n, ctx.r.range(lo, n), ctx.r.range(lo, n)] {
        g04_split(ctx, &s, &t, c, &want)?;
    }
    Ok(())
}

/// Objects too large for one segment.
fn g04_largest(ctx: &mut Ctx, i: u64) -> R {
    const TOP: usize = pgs::ODS_FIRST_MAX + pgs::ODS_LAST_MAX;
    let target = match i % 6 {
        0 => pgs::ODS_FIRST_MAX + 1 + ctx.r.below(16),
        1 => TOP - ctx.r.below(4),
        2 => TOP,
        3 => 65_535 + ctx.r.below(8) - 4,
        _ => ctx.r.range(pgs::ODS_FIRST_MAX + 1, TOP),
    };
    let mut s = pgs::gen_sub_dims(&mut ctx.r, 3, 1);
    s.pal = (0..ctx.r.range(1, 255) as u8).map(|k| [k, k.wrapping_mul(3), 0, 0, 255 - k]).collect();
    let w = ctx.r.range(200, 400);
    let h = target / (w + 2);
    let pix: Vec<u8> = (0..w * h).map(|k| 1 + ((k * 7 + k / w) % 250) as u8).collect();
    s.pic = pgs::Pic { w, h, pix };
    reencode(&mut ctx.r, &mut s, pgs::RleStyle::Minimal);
    while s.rle.len() + 2 <= target {
        s.rle.extend([0, 0]);
    }
    let n = s.rle.len();
    if n <= pgs::ODS_FIRST_MAX {
        return Ok(());
    }
    ctx.max("object size", n as u64);
    let (lo, hi) = (n.saturating_sub(pgs::ODS_LAST_MAX), n.min(pgs::ODS_FIRST_MAX));
    for c in [lo, hi, ctx.r.range(lo, hi), ctx.r.range(lo, hi)] {
        s.split = Some(c);
        let o = if ctx.r.chance(1, 3) { pgs::VARY_SMALL } else { pgs::PLAIN };
        g02_check(ctx, &s, o).map_err(|e| format!("object of {n} bytes cut at {c}: {e}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ G05

pub(crate) const DEFECTS: [&str; 16] = [
    "palette of impossible size",
    "palette of 0 or 1 byte",
    "object segment too short",
    "declared object length below 4",
    "declared object length smaller than the data",
    "declared object length larger than the data",
    "unknown sequence flag",
    "last part without first part",
    "first part twice",
    "first part without last part",
    "last part too long or too short",
    "complete object after a first part",
    "unknown segment type before the palette",
    "unknown segment type after the object",
    "no palette",
    "no object",
];
/// A showing set with the defect.
pub(crate) fn g05_plant(r: &mut Rng, kind: usize, s: &pgs::Sub, o: SetOpts) -> Vec<(u8, Vec<u8>)> {
    let mut s = s.clone();
    let need_split = matches!(kind, 7..=11);
    let head = pgs::ObjHead { id: 0, version: 0 };
    let d = s.rle.len();
    if need_split {
        s.split = Some(r.range(0, d));
    } else if matches!(kind, 2..=6) {
        s.split = None;
    }
    let mut v = pgs::showing(r, &s, o);
    let at = |v: &Vec<(u8, Vec<u8>)>, t: u8| v.iter().position(|x| x.0 == t).unwrap();
    let first_ods = at(&v, pgs::ODS);
    let pts = r.u32();
    let ods = |p: &[u8]| (pgs::ODS, pgs::seg(pts, 0, pgs::ODS, p));
    match kind {
        0 => {
            let n = 2 + 5 * r.range(0, 20) + r.range(1, 4);
            let p = r.bytes(n);
            let k = at(&v, pgs::PDS);
            v[k].1 = pgs::seg(pts, 0, pgs::PDS, &p);
        }
        1 => {
            let n = r.below(2);
            let p = r.bytes(n);
            let k = at(&v, pgs::PDS);
            v[k].1 = pgs::seg(pts, 0, pgs::PDS, &p);
        }
        2 => {
            let full = pgs::ods_first(&head, *r.pick(&[0x80, 0xc0]), d + 4, s.pic.w, s.pic.h, &s.rle);
            let n = r.below(11);
            v[first_ods] = ods(&full[..n]);
        }
        3 => {
            let p = pgs::ods_first(&head, *r.pick(&[0x80, 0xc0]), r.below(4), s.pic.w, s.pic.h, &s.rle);
            v[first_ods] = ods(&p);
        }
        4 => {
            // (at least one byte of data)
            let mut data = s.rle.clone();
            if data.is_empty() {
                data.push(1);
            }
            let n = data.len();
            let p = pgs::ods_first(&head, *r.pick(&[0x80, 0xc0]), 4 + r.below(n), s.pic.w, s.pic.h, &data);
            v[first_ods] = ods(&p);
        }
        5 => {
            let more = r.range(1, 1_000);
            let p = pgs::ods_first(&head, 0xc0, d + 4 + more, s.pic.w, s.pic.h, &s.rle);
            v[first_ods] = ods(&p);
        }
        6 => {
            let f = *r.pick(&[0x01u8, 0x20, 0x41, 0x81, 0xc1, 0xff, 0x7f, 0xe0, 0xa0]);
            let p = pgs::ods_first(&head, f, d + 4, s.pic.w, s.pic.h, &s.rle);
            v[first_ods] = ods(&p);
        }
        7 => {
            v.remove(first_ods);
        }
        8 => {
            let x = v[first_ods].clone();
            v.insert(first_ods, x);
        }
        9 => {
            v.remove(first_ods + 1);
        }
        10 => {
            let c = s.split.unwrap();
            let mut rest = s.rle[c..].to_vec();
            if !rest.is_empty() && r.bool() {
                let n = r.below(rest.len());
                rest.truncate(n);
            } else {
                let n = r.range(1, 50);
                rest.extend(r.bytes(n));
            }
            v[first_ods + 1] = ods(&pgs::ods_last(&head, &rest));
        }
        11 => {
            let p = pgs::ods_first(&head, 0xc0, d + 4, s.pic.w, s.pic.h, &s.rle);
            v[first_ods + 1] = ods(&p);
        }
        12 | 13 => {
            let t = loop {
                let t = r.u8();
                if ![pgs::PDS, pgs::ODS, pgs::PCS, pgs::WDS, pgs::END].contains(&t) {
                    break t;
                }
            };
            let p = pgs::gen_skip(r, o.max_skip.max(40));
            let x = (t, pgs::seg(pts, 0, t, &p));
            let k = if kind == 12 { r.range(0, at(&v, pgs::PDS)) } else { v.len() - 1 };
            v.insert(k, x);
        }
        14 => {
            let k = at(&v, pgs::PDS);
            v.remove(k);
        }
        _ => {
            v.retain(|x| x.0 != pgs::ODS);
        }
    }
    v
}
fn g05_run(ctx: &mut Ctx, subs: &[pgs::Sub], bad: &[Option<usize>]) -> R {
    let o = *ctx.r.pick(&[pgs::PLAIN, pgs::VARY_SMALL]);
    let mut b = pgs::Stream::default();
    for (s, k) in subs.iter().zip(bad) {
        let v = match k {
            None => pgs::showing(&mut ctx.r, s, o),
            Some(k) => g05_plant(&mut ctx.r, *k, s, o),
        };
        b.push(&v);
        let v = pgs::clearing(&mut ctx.r, s, o);
        b.push(&v);
    }
    let names: Vec<_> = bad.iter().map(|k| k.map(|k| DEFECTS[k])).collect();
    ctx.detail(|| format!("defects {names:?}; sup stream: {}", hex(&b.bytes, 6000)));
    ctx.sample(|| format!("defects {names:?} in {} bytes", b.bytes.len()));
    let want: Vec<POk> = subs
        .iter()
        .map(|s| POk { times: s.times(), size: (s.pic.w as u32, s.pic.h as u32), pix: s.pixels() })
        .collect();
    let got = pdec::images(&b.bytes)?;
    let fail = |m: String| Err(format!("{m}; defects {names:?}, items: {}", list(&got)));
    let mut i = 0;
    let mut n = 0;
    while n < bad.len() {
        let Some(_) = bad[n] else {
            match got.get(i) {
                Some(Ok(x)) if *x == want[n] => {}
                x => return fail(format!("item {i} is {}, expected the intact subtitle {n}", x.map_or("nothing".into(), pdec::short))),
            }
            i += 1;
            n += 1;
            ctx.c("intact subtitles compared", 1);
            continue;
        };
        // consecutive defective sets: at least one error for each, no picture (but an intact set
        // behind a segment of unknown type may give its own)
        let a = n;
        while n < bad.len() && bad[n].is_some() {
            n += 1;
        }
        let mut intact: Vec<usize> = (a..n).filter(|q| bad[*q] == Some(12)).collect();
        let mut errors = 0;
        loop {
            match got.get(i) {
                Some(Err(e)) => {
                    errors += 1;
                    ctx.c(&format!("error {}", err_name(e)), 1);
                }
                Some(Ok(x)) => {
                    let Some(p) = intact.iter().position(|q| *x == want[*q]) else { break };
                    intact.drain(..=p);
                }
                None => break,
            }
            i += 1;
        }
        if errors < n - a {
            return fail(format!("{errors} errors for the defective subtitles {a}..{n} (up to item {i})"));
        }
        for k in bad[a..n].iter().flatten() {
            ctx.c(&format!("defect {}", DEFECTS[*k]), 1);
        }
    }
    if i != got.len() {
        return fail(format!("{} more items", got.len() - i));
    }
    // times-only decoder: nothing but the times of the stream, all those of intact subtitles
    let t = pdec::only_times(&b.bytes)?;
    let ok: Vec<(i64, i64)> = t.iter().filter_map(|x| x.as_ref().ok().copied()).collect();
    let mut j = 0;
    for (n, k) in bad.iter().enumerate() {
        if ok.get(j) == Some(&want[n].times) {
            j += 1;
        } else if k.is_none() {
            return Err(format!(
                "times-only decoder: the times {:?} of the intact subtitle {n} are missing; defects {names:?}, items: {}",
                want[n].times,
                tlist(&t)
            ));
        }
    }
    if j != ok.len() {
        return Err(format!("times-only decoder: times of no subtitle; defects {names:?}, items: {}", tlist(&t)));
    }
    ctx.ev(2);
    ctx.nt(fnv(&b.bytes));
    Ok(())
}
pub(crate) fn distinct_times(r: &mut Rng, subs: &mut [pgs::Sub]) {
    // (so that an intact subtitle cannot pass for another)
    for (i, s) in subs.iter_mut().enumerate() {
        s.start = 90_000 * (2 * i as u32 + 1) + r.below(40_000) as u32;
        s.end = 90_000 * (2 * i as u32 + 2) + r.below(40_000) as u32;
    }
}
fn g05_single(ctx: &mut Ctx, i: u64) -> R {
    let kind = i as usize % DEFECTS.len();
    let mut subs = small_subs(&mut ctx.r, 3, 3);
    distinct_times(&mut ctx.r, &mut subs);
    let mut bad = vec![None; 3];
    bad[i as usize / DEFECTS.len() % 3] = Some(kind);
    g05_run(ctx, &subs, &bad)
}
fn g05_mixed(ctx: &mut Ctx, _: u64) -> R {
    let mut subs = small_subs(&mut ctx.r, 2, 8);
    distinct_times(&mut ctx.r, &mut subs);
    let bad: Vec<_> = subs.iter().map(|_| if ctx.r.bool() { Some(ctx.r.below(DEFECTS.len())) } else { None }).collect();
    g05_run(ctx, &subs, &bad)
}

// ------------------------------------------------------------------------------------ G06

fn same_p(got: &[PItem], want: &[PItem], what: &str) -> R {
    for k in 0..got.len().max(want.len()) {
        let ok = match (got.get(k), want.get(k)) {
            (Some(Ok(a)), Some(Ok(b))) => a == b,
            (Some(Err(a)), Some(Err(b))) => err_name(a) == err_name(b),
            _ => false,
        };
        if !ok {
            return Err(format!(
                "{what}: item {k} is {}, from memory it is {}",
                got.get(k).map_or("nothing".into(), pdec::short),
                want.get(k).map_or("nothing".into(), pdec::short)
            ));
        }
    }
    Ok(())
}
fn same_t(got: &[TItem], want: &[TItem], what: &str) -> R {
    for k in 0..got.len().max(want.len()) {
        let ok = match (got.get(k), want.get(k)) {
            (Some(Ok(a)), Some(Ok(b))) => a == b,
            (Some(Err(a)), Some(Err(b))) => err_name(a) == err_name(b),
            _ => false,
        };
        if !ok {
            return Err(format!(
                "{what}: time item {k} is {}, from memory it is {}",
                got.get(k).map_or("nothing".into(), pdec::tshort),
                want.get(k).map_or("nothing".into(), pdec::tshort)
            ));
        }
    }
    Ok(())
}
/// Decodes with readers made by `mk`.
fn through<Rd: BufRead + Seek>(what: &str, limit: usize, mk: impl Fn() -> Rd, want: (&[PItem], &[TItem])) -> R {
    let p = sut(&format!("decoding through {what}"), || pdec::images_from(mk(), limit))?;
    same_p(&p, want.0, what)?;
    let t = sut(&format!("decoding times through {what}"), || pdec::times_from(mk(), limit))?;
    same_t(&t, want.1, what)
}
const CAPS: [usize; 16] = [1, 2, 3, 5, 7, 11, 12, 13, 14, 16, 31, 64, 100, 513, 4096, 8192];
fn g06_compare(ctx: &mut Ctx, b: &[u8], rounds: usize) -> R {
    ctx.detail(|| format!("sup stream: {}", hex(b, 6000)));
    let (p, t) = (pdec::images(b)?, pdec::only_times(b)?);
    let want = (&p[..], &t[..]);
    let limit = b.len() + 2;
    let data = Rc::new(b.to_vec());
    for k in 0..rounds {
        let cap = *ctx.r.pick(&CAPS);
        through(&format!("BufReader of capacity {cap}"), limit, || BufReader::with_capacity(cap, Cursor::new(b)), want)?;
        let seed = ctx.r.u64();
        let plan = Plan {
            window: *ctx.r.pick(&[1usize, 1, 2, 3, 7, 12, 13, 14, 20, 64, 400, 5000]),
            fixed: ctx.r.bool(),
            interrupt: if k % 2 == 0 { 0 } else { *ctx.r.pick(&[10usize, 60, 128, 250]) },
            ..Plan::default()
        };
        let logs: RefCell<Vec<Rc<RefCell<Log>>>> = RefCell::default();
        let mk = || {
            let (p, l) = Probe::new(data.clone(), plan.clone(), seed);
            logs.borrow_mut().push(l);
            p
        };
        let what = format!(
            "a reader of {} {} bytes{}",
            if plan.fixed { "exactly" } else { "at most" },
            plan.window,
            if plan.interrupt > 0 { ", interrupted" } else { "" }
        );
        through(&what, limit, mk, want)?;
        let cap = *ctx.r.pick(&CAPS);
        through(&format!("BufReader of capacity {cap} over {what}"), limit, || BufReader::with_capacity(cap, mk()), want)?;
        for l in logs.borrow().iter() {
            let l = l.borrow();
            ctx.c("reads", l.reads);
            ctx.c("buffer fills", l.fills);
            ctx.c("seeks", l.seeks);
            ctx.c("interruptions", l.interrupts);
        }
        ctx.ev(6);
        let mut h = Hasher::new();
        h.bytes(b).u64(plan.window as u64).u64(seed);
        ctx.nt(h.get());
    }
    // a real file
    let f = ctx.file("x.sup", b);
    through("a file", limit, || BufReader::new(std::fs::File::open(&f).expect("harness: open")), want)?;
    ctx.ev(2);
    Ok(())
}
fn g06_readers(ctx: &mut Ctx, i: u64) -> R {
    let b = match i % 4 {
        0 | 1 => hostile::pgs_valid(&mut ctx.r, 3),
        2 => {
            let k = ctx.r.range(1, 3);
            let subs = pgs::gen_small_subs(&mut ctx.r, k);
            pgs::build(&mut ctx.r, &subs, pgs::VARY).bytes
        }
        _ => hostile::pgs_any(&mut ctx.r),
    };
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 60)));
    g06_compare(ctx, &b, 2)
}
fn g06_large(ctx: &mut Ctx, _: u64) -> R {
    let k = ctx.r.range(1, 3);
    let subs: Vec<_> = (0..k)
        .map(|_| {
            let (w, h) = (ctx.r.range(50, 300), ctx.r.range(20, 100));
            pgs::gen_sub_dims(&mut ctx.r, w, h)
        })
        .collect();
    let b = pgs::build(&mut ctx.r, &subs, SetOpts { vary: true, max_skip: 65_535 }).bytes;
    ctx.max("stream size", b.len() as u64);
    g06_compare(ctx, &b, 1)
}
fn helper_ops<Rd: BufRead + Seek>(rd: &mut Rd, data: &[u8], ops: &[(bool, usize)], what: &str) -> R {
    let mut pos = 0usize;
    for &(skip, n) in ops {
        if skip {
            sut("skip_data", || rd.skip_data(n))?.map_err(|e| format!("{what}: skipping {n} bytes at {pos} of {}: {e:?}", data.len()))?;
        } else {
            let mut b = vec![0xa5; n];
            sut("read_buffer", || rd.read_buffer(&mut b))?
                .map_err(|e| format!("{what}: reading {n} bytes at {pos} of {}: {e:?}", data.len()))?;
            if b != data[pos..pos + n] {
                return Err(format!("{what}: reading {n} bytes at {pos} gives other bytes ({:?})", ops));
            }
        }
        pos += n;
        let at = rd.stream_position().map_err(|e| format!("harness position: {e}"))?;
        if at != pos as u64 {
            return Err(format!(
                "{what}: at {at} instead of {pos} after {} of {n} bytes",
                if skip { "skipping" } else { "reading" }
            ));
        }
    }
    // what is left
    let mut rest: Vec<u8> = vec![];
    loop {
        let mut c = [0; 64];
        match rd.read(&mut c) {
            Ok(0) => break,
            Ok(n) => rest.extend(&c[..n]),
            Err(e) if e.kind() == ErrorKind::Interrupted => {}
            Err(e) => return Err(format!("harness read: {e}")),
        }
    }
    if rest != data[pos..] {
        return Err(format!("{what}: {} bytes left instead of {}", rest.len(), data.len() - pos));
    }
    Ok(())
}
fn g06_helpers(ctx: &mut Ctx, i: u64) -> R {
    let n = ctx.r.skewed(1, if i % 20 == 0 { 200_000 } else { 3_000 });
    let data = ctx.r.bytes(n);
    let mut ops = vec![];
    let mut left = n;
    for _ in 0..ctx.r.range(1, 20) {
        let k = match ctx.r.below(6) {
            0 => 0,
            1 => left,
            2 => ctx.r.range(0, left),
            _ => ctx.r.skewed(0, left),
        };
        ops.push((ctx.r.chance(2, 3), k));
        left -= k;
    }
    ctx.sample(|| format!("{n} bytes, operations (skip?, length) {ops:?}"));
    ctx.detail(|| format!("{n} bytes, operations (skip?, length) {ops:?}"));
    helper_ops(&mut Cursor::new(&data), &data, &ops, "cursor")?;
    let cap = *ctx.r.pick(&CAPS);
    helper_ops(&mut BufReader::with_capacity(cap, Cursor::new(&data)), &data, &ops, &format!("BufReader of capacity {cap}"))?;
    let plan = Plan {
        window: *ctx.r.pick(&[1usize, 2, 3, 10, 100, 1000]),
        fixed: ctx.r.bool(),
        interrupt: *ctx.r.pick(&[0usize, 30, 200]),
        ..Plan::default()
    };
    let seed = ctx.r.u64();
    let d = Rc::new(data.clone());
    let (mut p, l) = Probe::new(d.clone(), plan.clone(), seed);
    helper_ops(&mut p, &data, &ops, &format!("reader with {plan:?}"))?;
    let (p, _) = Probe::new(d, plan.clone(), seed);
    helper_ops(&mut BufReader::with_capacity(cap, p), &data, &ops, &format!("BufReader of capacity {cap} over {plan:?}"))?;
    // more than there is, more than an offset can say
    let more = n + 1 + ctx.r.below(100);
    let e = sut("read_buffer", || Cursor::new(&data).read_buffer(&mut vec![0; more]))?;
    if e.is_ok() {
        return Err(format!("reading {more} bytes of {n} succeeds"));
    }
    let e = sut("skip_data", || BufReader::new(Cursor::new(&data)).skip_data(usize::MAX - ctx.r.below(1000)))?;
    if e.is_ok() {
        return Err("skipping more than i64::MAX bytes succeeds".into());
    }
    ctx.ev(4 * ops.len() as u64 + 2);
    ctx.c("helper calls", 4 * ops.len() as u64);
    ctx.c("interruptions", l.borrow().interrupts);
    let mut h = Hasher::new();
    h.bytes(&data).u64(ops.len() as u64).u64(seed);
    ctx.nt(h.get());
    Ok(())
}

// ------------------------------------------------------------------------------------ G07

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::NotFound,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidInput,
];
/// Steps a parser until the call in which the fault fires.
fn g07_step<Rd, D, T>(rd: Rd, log: &Rc<RefCell<Log>>, want: &[Result<T, String>], obs: impl Fn(&D::Output) -> T, what: &str) -> Result<bool, String>
where
    Rd: BufRead + Seek,
    D: PgsDecoder,
    T: PartialEq + std::fmt::Debug,
{
    let mut it = SupParser::<Rd, D>::new(rd);
    let mut k = 0;
    loop {
        let x = sut("decoding with a failing reader", || it.next())?;
        if log.borrow().fired {
            return match x {
                Some(Err(_)) => Ok(true),
                None => Err(format!("{what}: taken for the end of the stream at item {k}")),
                Some(Ok(_)) => Err(format!("{what}: not reported, item {k} is a subtitle")),
            };
        }
        let got = x.map(|x| match x {
            Ok(x) => Ok(obs(&x)),
            Err(e) => Err(err_name(&pdec::err_text(&e))),
        });
        let same = match (&got, want.get(k)) {
            (None, None) => return Ok(false),
            (Some(Ok(a)), Some(Ok(b))) => a == b,
            (Some(Err(a)), Some(Err(b))) => *a == err_name(b),
            _ => false,
        };
        if !same {
            return Err(format!("{what}: item {k}, before the failure, is not the one of the fault-free stream"));
        }
        k += 1;
    }
}
fn g07_stream(ctx: &mut Ctx, b: &[u8], step: u64) -> R {
    let (p, t) = (pdec::images(b)?, pdec::only_times(b)?);
    let data = Rc::new(b.to_vec());
    ctx.detail(|| format!("sup stream: {}", hex(b, 6000)));
    let window = *ctx.r.pick(&[0usize, 1, 5, 13, 40, 200]);
    let cap = *ctx.r.pick(&[1usize, 13, 16, 40, 100, 8192]);
    let seed = ctx.r.u64();
    for variant in 0..4 {
        let direct = variant % 2 == 0;
        let image = variant < 2;
        let mut at = ctx.r.below(step as usize) as u64;
        let mut points = 0;
        loop {
            let kind = *ctx.r.pick(&KINDS);
            let plan = Plan {
                window,
                fixed: true,
                fail_at: Some(at),
                kind,
                persistent: ctx.r.bool(),
                ..Plan::default()
            };
            let (rd, log) = Probe::new(data.clone(), plan, seed);
            let what = format!(
                "{} decoder, {kind:?} at operation {at} of {}a reader of {window} bytes at a time",
                if image { "image" } else { "times" },
                if direct { String::new() } else { format!("a BufReader of {cap} bytes over ") }
            );
            let fired = match (image, direct) {
                (true, true) => g07_step::<_, DecodeTimeImage, _>(rd, &log, &p, pdec::observe, &what),
                (true, false) => g07_step::<_, DecodeTimeImage, _>(BufReader::with_capacity(cap, rd), &log, &p, pdec::observe, &what),
                (false, true) => g07_step::<_, DecodeTimeOnly, _>(rd, &log, &t, pdec::times, &what),
                (false, false) => g07_step::<_, DecodeTimeOnly, _>(BufReader::with_capacity(cap, rd), &log, &t, pdec::times, &what),
            }?;
            ctx.ev(1);
            if !fired {
                break;
            }
            points += 1;
            ctx.c("failures injected", 1);
            ctx.c(&format!("kind {kind:?}"), 1);
            let mut h = Hasher::new();
            h.bytes(b).u64(at).u64(variant).u64(window as u64);
            ctx.nt(h.get());
            at += if step == 1 { 1 } else { 1 + ctx.r.below(step as usize * 2) as u64 };
        }
        ctx.max("failure points of a stream", points);
    }
    Ok(())
}
fn g07_ops(ctx: &mut Ctx, i: u64) -> R {
    let r = &mut ctx.r;
    let b = if i % 5 == 4 {
        hostile::pgs_structured(r)
    } else {
        let subs: Vec<_> = (0..r.range(1, 3))
            .map(|_| {
                let (w, h) = (r.range(1, 8), r.range(1, 4));
                let mut s = pgs::gen_sub_dims(r, w, h);
                s.pal.truncate(12);
                s
            })
            .collect();
        let o = if r.bool() { pgs::VARY_SMALL } else { pgs::PLAIN };
        pgs::build(r, &subs, o).bytes
    };
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 60)));
    let step = if b.len() > 800 { 5 } else { 1 };
    g07_stream(ctx, &b, step)
}
fn g07_large(ctx: &mut Ctx, _: u64) -> R {
    let subs: Vec<_> = (0..2).map(|_| pgs::gen_sub_dims(&mut ctx.r, 120, 40)).collect();
    let b = pgs::build(&mut ctx.r, &subs, SetOpts { vary: true, max_skip: 20_000 }).bytes;
    let step = (b.len() as u64 / 300).max(1);
    g07_stream(ctx, &b, step)
}

// ------------------------------------------------------------------------------------ G08

fn g08_cut(ctx: &mut Ctx, st: &pgs::Stream, want: &[PItem], c: usize) -> R {
    let n = st.ends.iter().filter(|e| **e <= c).count();
    let b = &st.bytes[..c];
    let got = pdec::images(b)?;
    let t = pdec::only_times(b)?;
    let bad = |m: String| Err(format!("cut at {c} of {} bytes ({n} complete subtitles): {m}", st.bytes.len()));
    if got.len() < n || got[..n] != want[..n] {
        return bad(format!("image decoder: {}", list(&got)));
    }
    if let Some(x) = got[n..].iter().find(|x| x.is_ok()) {
        return bad(format!("image decoder invents {}", pdec::short(x)));
    }
    let wt: Vec<_> = want.iter().map(|x| x.as_ref().unwrap().times).collect();
    if t.len() < n || t[..n].iter().zip(&wt).any(|(g, w)| g.as_ref().ok() != Some(w)) {
        return bad(format!("times decoder: {}", tlist(&t)));
    }
    if let Some(x) = t[n..].iter().find(|x| x.is_ok()) {
        return bad(format!("times decoder invents {}", pdec::tshort(x)));
    }
    ctx.ev(2);
    let mut h = Hasher::new();
    h.bytes(b);
    ctx.nt(h.get());
    ctx.c(if got.len() > n { "cuts ending with an error" } else { "cuts ending silently" }, 1);
    Ok(())
}
fn g08_run(ctx: &mut Ctx, st: &pgs::Stream, subs: &[pgs::Sub], cuts: &[usize]) -> R {
    ctx.detail(|| format!("uncut sup stream: {}", hex(&st.bytes, 6000)));
    ctx.sample(|| format!("{} subtitles, {} bytes, cut at {} positions", subs.len(), st.bytes.len(), cuts.len()));
    let want: Vec<PItem> = subs
        .iter()
        .map(|s| Ok(POk { times: s.times(), size: (s.pic.w as u32, s.pic.h as u32), pix: s.pixels() }))
        .collect();
    let full = pdec::images(&st.bytes)?;
    if full != want {
        return Err(format!("uncut stream of {} subtitles: {}", subs.len(), list(&full)));
    }
    for &c in cuts {
        g08_cut(ctx, st, &want, c)?;
    }
    Ok(())
}
fn g08(ctx: &mut Ctx, o: SetOpts) -> R {
    let mut subs = small_subs(&mut ctx.r, 1, 3);
    for s in &mut subs {
        s.pal.truncate(10);
    }
    let st = pgs::build(&mut ctx.r, &subs, o);
    let cuts: Vec<usize> = (0..=st.bytes.len()).collect();
    ctx.c("streams cut at every position", 1);
    g08_run(ctx, &st, &subs, &cuts)
}
fn g08_large(ctx: &mut Ctx, _: u64) -> R {
    let subs: Vec<_> = (0..ctx.r.range(1, 4))
        .map(|_| {
            let (w, h) = (ctx.r.range(1, 200), ctx.r.range(1, 60));
            pgs::gen_sub_dims(&mut ctx.r, w, h)
        })
        .collect();
    let st = pgs::build(&mut ctx.r, &subs, pgs::VARY);
    let mut cuts = vec![];
    for &s in st.segs.iter().chain(&st.ends) {
        for d in 0..16 {
            cuts.push((s + d).min(st.bytes.len()));
            cuts.push(s.saturating_sub(d));
        }
    }
    for _ in 0..40 {
        cuts.push(ctx.r.range(0, st.bytes.len()));
    }
    cuts.sort_unstable();
    cuts.dedup();
    g08_run(ctx, &st, &subs, &cuts)
}

// ------------------------------------------------------------------------------------ G09

/// A stream of pictures with the given data; the decoder's pictures.
pub(crate) fn pictures(ctx: &mut Ctx, pal: &[pgs::Entry], list: &[(usize, usize, Vec<u8>)]) -> Result<Vec<RleEncodedImage>, String> {
    let mut st = pgs::Stream::default();
    for (w, h, rle) in list {
        let s = pgs::Sub {
            start: 0,
            end: 90,
            pal: pal.to_vec(),
            pic: pgs::Pic { w: *w, h: *h, pix: vec![] },
            rle: rle.clone(),
            split: None,
            codes: [0; 5],
        };
        st.add(&mut ctx.r, &s, pgs::PLAIN);
    }
    let v = sut("decoding a .sup stream", || {
        let mut v = vec![];
        for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(&st.bytes)).take(list.len() + 1) {
            v.push(x.map(|x| x.1).map_err(|e| format!("an object with consistent lengths gives the error {}", pdec::err_text(&e))));
        }
        v
    })?;
    if v.len() != list.len() {
        return Err(format!("{} items for {} subtitles", v.len(), list.len()));
    }
    v.into_iter().collect()
}
/// Steps over all pixels, checking the announced length before each.
fn g09_walk<P: Copy, I: ExactSizeIterator<Item = P>>(what: &str, n: usize, every: usize, mut it: I) -> Result<Vec<P>, String> {
    let mut v = Vec::with_capacity(n.min(1 << 20));
    loop {
        if v.len() % every == 0 || v.len() + 3 > n {
            let h = it.size_hint();
            let left = n.saturating_sub(v.len());
            if h != (left, Some(left)) || it.len() != left {
                return Err(format!("{what}: {} pixels returned of {n}, announced remaining {h:?}", v.len()));
            }
        }
        match it.next() {
            Some(p) => v.push(p),
            None => break,
        }
        if v.len() > n {
            return Err(format!("{what}: more than {n} pixels"));
        }
    }
    if v.len() != n {
        return Err(format!("{what}: {} pixels of {n}", v.len()));
    }
    for k in 0..4 {
        if it.next().is_some() {
            return Err(format!("{what}: a pixel at call {} after the end", k + 1));
        }
    }
    Ok(v)
}
fn g09_check(ctx: &mut Ctx, pal: &[pgs::Entry], w: usize, h: usize, rle: &[u8], img: &RleEncodedImage) -> R {
    let n = w * h;
    let ids = pgs::ref_expand(rle, n);
    let known = ids.len();
    let mut want: Vec<(u8, u8)> = ids.iter().map(|&i| pgs::lookup(pal, i)).collect();
    want.resize(n, (255, 0));
    let every = if n > 20_000 { 997 } else { 1 };
    let name = || format!("{w}x{h} picture with data {}", hex(rle, 60));
    if (img.width(), img.height()) != (w as u32, h as u32) {
        return Err(format!("{}: size is {}x{}", name(), img.width(), img.height()));
    }
    let a = sut("iterating over a picture", || g09_walk("iter()", n, every, img.iter()))
        .and_then(|x| x)
        .map_err(|e| format!("{}: {e}", name()))?;
    let a: Vec<(u8, u8)> = a.iter().map(|p| (p.0[0], p.0[1])).collect();
    pdec::compare_pixels(&a, &want, w).map_err(|e| format!("{}: {e}", name()))?;
    let b = sut("iterating over a picture", || {
        g09_walk("pixels()", n, every, img.pixels::<u8>(|e| LumaA([e.luminance, e.transparency])))
    })
    .and_then(|x| x)
    .map_err(|e| format!("{}: {e}", name()))?;
    let b: Vec<(u8, u8)> = b.iter().map(|p| (p.0[0], p.0[1])).collect();
    pdec::compare_pixels(&b, &want, w).map_err(|e| format!("{}: pixels(): {e}", name()))?;
    ctx.ev(2);
    ctx.c("pixels compared", 2 * n as u64);
    ctx.c(if known < n { "pictures with missing data" } else { "pictures with enough data" }, 1);
    let mut hs = Hasher::new();
    hs.bytes(rle).u64(w as u64).u64(h as u64);
    ctx.nt(hs.get());
    Ok(())
}
const ALPHABET: [u8; 10] = [0x00, 0x01, 0x02, 0x03, 0x40, 0x41, 0x80, 0x82, 0xc0, 0xc1];
const G09_DIMS: [(usize, usize); 7] = [(0, 0), (0, 3), (3, 0), (1, 1), (2, 2), (3, 5), (40, 7)];
/// All data of up to 4 (5) bytes of an alphabet that holds every kind of code.
fn g09_codes(ctx: &mut Ctx, i: u64) -> R {
    let digits = if ctx.tier == Tier::Quick { 3 } else { 4 };
    let mut prefix = vec![];
    let mut v = i;
    for _ in 0..digits {
        prefix.push(ALPHABET[(v % 10) as usize]);
        v /= 10;
    }
    let pal: Vec<pgs::Entry> = vec![[0, 10, 0, 0, 20], [1, 30, 0, 0, 40], [3, 50, 0, 0, 60], [0x41, 70, 0, 0, 80]];
    let mut list = vec![];
    for last in 0..=10 {
        let mut d = prefix.clone();
        if last < 10 {
            d.push(ALPHABET[last]);
        }
        for (w, h) in G09_DIMS {
            list.push((w, h, d.clone()));
        }
        if i < 10 && last == 10 {
            // the shorter ones
            for k in 0..digits {
                list.push((2, 2, prefix[..k].to_vec()));
            }
        }
    }
    ctx.detail(|| format!("data {} and one more byte", hex(&prefix, 10)));
    ctx.sample(|| format!("data {} followed by nothing or each of {ALPHABET:02x?}, in pictures of {G09_DIMS:?}", hex(&prefix, 10)));
    let im = pictures(ctx, &pal, &list)?;
    for ((w, h, d), x) in list.iter().zip(&im) {
        g09_check(ctx, &pal, *w, *h, d, x)?;
    }
    Ok(())
}
fn g09_random(ctx: &mut Ctx, i: u64) -> R {
    let pal = pgs::gen_palette(&mut ctx.r);
    let n = ctx.r.skewed(0, 300);
    let mut d = ctx.r.bytes(n);
    match i % 4 {
        0 => d.iter_mut().for_each(|x| if *x & 3 == 0 { *x = 0 }),
        1 => d.iter_mut().for_each(|x| *x &= 0xc3),
        2 => {
            let s = pgs::gen_small_sub(&mut ctx.r);
            d = s.rle;
            let k = ctx.r.range(1, 6);
            hostile::mutate(&mut ctx.r, &mut d, k);
        }
        _ => {}
    }
    let (w, h) = match ctx.r.below(4) {
        0 => (ctx.r.range(0, 4), ctx.r.range(0, 4)),
        1 => (ctx.r.range(1, 400), ctx.r.range(1, 20)),
        _ => (ctx.r.range(1, 40), ctx.r.range(1, 20)),
    };
    if d.len() > pgs::ODS_FIRST_MAX {
        return Ok(());
    }
    ctx.detail(|| format!("{w}x{h}, palette {pal:?}, data {}", hex(&d, 4000)));
    let im = pictures(ctx, &pal, &[(w, h, d.clone())])?;
    g09_check(ctx, &pal, w, h, &d, &im[0])
}
/// The largest sizes: announced lengths, and all pixels of the long thin ones.
fn g09_wide(ctx: &mut Ctx, i: u64) -> R {
    let pal = pgs::gen_palette(&mut ctx.r);
    let n = ctx.r.range(0, 40);
    let mut d = ctx.r.bytes(n);
    d.iter_mut().for_each(|x| if *x & 1 == 0 { *x = 0 });
    let dims = [(65535usize, 65535usize), (65535, 1), (1, 65535), (65535, 3), (32768, 65535), (65535, 2), (300, 300)];
    let (w, h) = dims[i as usize % dims.len()];
    ctx.detail(|| format!("{w}x{h}, palette {pal:?}, data {}", hex(&d, 4000)));
    let im = pictures(ctx, &pal, &[(w, h, d.clone())])?;
    if w * h <= 200_000 {
        return g09_check(ctx, &pal, w, h, &d, &im[0]);
    }
    sut("iterating over a picture", || -> R {
        let mut it = im[0].iter();
        let ids = pgs::ref_expand(&d, 50_000);
        for k in 0..50_000usize {
            let left = w * h - k;
            if k % 101 < 3 && (it.len() != left || it.size_hint() != (left, Some(left))) {
                return Err(format!("{w}x{h}: {k} pixels returned, announced remaining {:?}", it.size_hint()));
            }
            let Some(p) = it.next() else { return Err(format!("{w}x{h}: ends after {k} pixels")) };
            let e = ids.get(k).map_or((255, 0), |&i| pgs::lookup(&pal, i));
            if (p.0[0], p.0[1]) != e {
                return Err(format!("{w}x{h}: pixel {k} is {:?}, expected {e:?}", p.0));
            }
        }
        Ok(())
    })??;
    ctx.ev(1);
    ctx.c("pictures of billions of pixels", 1);
    ctx.nt(fnv(&d) ^ w as u64);
    Ok(())
}

/// The iterator driven by anything an iterator offers, not only `next`.
pub(crate) fn g09_adaptors(ctx: &mut Ctx, i: u64) -> R {
    let s = pgs::gen_small_sub(&mut ctx.r);
    let (w, h) = (s.pic.w, s.pic.h);
    let mut d = s.rle.clone();
    if i % 3 == 0 {
        let n = ctx.r.range(0, d.len() + 4).min(pgs::ODS_FIRST_MAX);
        d.resize(n, 0x21);
    }
    ctx.detail(|| format!("{w}x{h}, palette {:?}, data {}", s.pal, hex(&d, 4000)));
    let im = pictures(ctx, &s.pal, &[(w, h, d.clone())])?;
    let n = w * h;
    let ids = pgs::ref_expand(&d, n);
    let mut want: Vec<(u8, u8)> = ids.iter().map(|&i| pgs::lookup(&s.pal, i)).collect();
    want.resize(n, (255, 0));
    let steps: Vec<(usize, usize)> = (0..ctx.r.range(1, 12))
        .map(|_| {
            let k = if ctx.r.chance(1, 3) { ctx.r.range(0, n + 2) } else { ctx.r.range(0, 6) };
            (ctx.r.below(5), k)
        })
        .collect();
    let end = ctx.r.below(6);
    let how = format!("{w}x{h} picture with data {}, steps {steps:?} then {end}", hex(&d, 60));
    let pair = |p: LumaA<u8>| (p.0[0], p.0[1]);
    sut("iterating over a picture", || -> R {
        let mut it = im[0].iter();
        let mut at = 0usize;
        for &(op, k) in &steps {
            let left = n - at;
            match op {
                0 => {
                    let g = it.next().map(pair);
                    if g != want.get(at).copied() {
                        return Err(format!("{how}: next() at pixel {at} gives {g:?}, expected {:?}", want.get(at)));
                    }
                    at += usize::from(left > 0);
                }
                1 => {
                    let g = it.nth(k).map(pair);
                    if g != want.get(at + k).copied() {
                        return Err(format!("{how}: nth({k}) at pixel {at} gives {g:?}, expected {:?}", want.get(at + k)));
                    }
                    at += left.min(k + 1);
                }
                2 => {
                    let g: Vec<_> = it.by_ref().take(k).map(pair).collect();
                    if g != want[at..at + left.min(k)] {
                        return Err(format!("{how}: take({k}) at pixel {at} gives other pixels"));
                    }
                    at += left.min(k);
                }
                3 => {
                    let g = it.by_ref().skip(k).next().map(pair);
                    if g != want.get(at + k).copied() {
                        return Err(format!("{how}: skip({k}) at pixel {at} gives {g:?}, expected {:?}", want.get(at + k)));
                    }
                    at += left.min(k + 1);
                }
                _ => {
                    // `position` stops at the first match
                    let x = want.get(at + k / 2).copied().unwrap_or((1, 2));
                    let e = want[at..].iter().position(|p| *p == x);
                    let g = it.position(|p| pair(p) == x);
                    if g != e {
                        return Err(format!("{how}: position({x:?}) at pixel {at} gives {g:?}, expected {e:?}"));
                    }
                    at = e.map_or(n, |e| at + e + 1);
                }
            }
            let left = n - at;
            if it.len() != left || it.size_hint() != (left, Some(left)) {
                return Err(format!("{how}: {left} pixels left, announced {:?}", it.size_hint()));
            }
        }
        let rest = &want[at..];
        let ok = match end {
            0 => it.count() == rest.len(),
            1 => it.last().map(pair) == rest.last().copied(),
            2 => it.fold(vec![], |mut v, p| {
                v.push(pair(p));
                v
            }) == rest,
            3 => {
                let mut v = vec![];
                it.for_each(|p| v.push(pair(p)));
                v == rest
            }
            4 => it.step_by(3).map(pair).collect::<Vec<_>>() == rest.iter().copied().step_by(3).collect::<Vec<_>>(),
            _ => it.map(pair).collect::<Vec<_>>() == rest,
        };
        if !ok {
            return Err(format!("{how}: the remaining {} pixels differ", rest.len()));
        }
        Ok(())
    })??;
    ctx.ev(1);
    ctx.c("steps with an adaptor", steps.len() as u64 + 1);
    let mut hs = Hasher::new();
    hs.bytes(&d).u64(n as u64).u64(end as u64);
    for (a, b) in &steps {
        hs.u64(*a as u64).u64(*b as u64);
    }
    ctx.nt(hs.get());
    Ok(())
}

// ------------------------------------------------------------------------------------ G10

/// Pictures of up to millions of pixels.
fn g10_large(ctx: &mut Ctx, i: u64) -> R {
    const DIMS: [(usize, usize); 8] =
        [(300, 300), (65535, 3), (3, 65535), (1920, 1080), (1100, 1000), (0, 65535), (65535, 0), (257, 1021)];
    let (w, h) = if i % 160 == 100 { (4300, 4000) } else { DIMS[(i % 8) as usize] };
    let n = w * h;
    // runs of random lengths and colours all over the picture, without regard for its lines
    let pal: Vec<pgs::Entry> = (0..40u8).map(|k| [k, k / 2 * 3, 0, 0, 255 - k % 3]).collect();
    let mut rle = vec![];
    let mut ids: Vec<u8> = Vec::with_capacity(n);
    let mean = n / 15_000 + 1;
    while ids.len() < n {
        let left = n - ids.len();
        let k = ctx.r.range(1, 2 * mean).min(16_383).min(left);
        let c = ctx.r.range(1, 40) as u8; // 40 has no entry
        if rle.len() + 8 > pgs::ODS_FIRST_MAX {
            break;
        }
        match k {
            1 => rle.push(c),
            2..=63 => rle.extend([0, 0x80 | k as u8, c]),
            _ => rle.extend([0, 0xc0 | (k >> 8) as u8, k as u8, c]),
        }
        ids.resize(ids.len() + k, c);
    }
    let im = pictures(ctx, &pal, &[(w, h, rle.clone())])?;
    let mut px: Vec<(u8, u8)> = ids.iter().map(|&c| pgs::lookup(&pal, c)).collect();
    px.resize(n, (255, 0));
    ctx.sample(|| format!("{w}x{h}"));
    let o = sut("rendering", || RleToImage::new(&im[0], |p| p).to_image())?;
    g10_cmp("identity", w, h, o.dimensions(), o.as_raw(), &px, |p| [p.0, p.1])?;
    drop(o);
    let f = |p: LumaA<u8>| Luma([p.0[0] ^ p.0[1].rotate_left(4)]);
    let mut opt = gen_ocr(&mut ctx.r);
    if n < 100_000 && w < 1000 {
        opt.border = ctx.r.below(700) as u32;
    }
    let got = sut("rendering for OCR", || RleToImage::new(&im[0], f).image(&opt))?;
    check_ocr(&got, w as u32, h as u32, &opt, |x, y| {
        let p = px[y as usize * w + x as usize];
        f(LumaA([p.0, p.1])).0[0]
    })?;
    ctx.ev(2);
    ctx.max("pixels of one picture", n as u64);
    ctx.c("pixels compared", n as u64 + u64::from(got.width()) * u64::from(got.height()));
    ctx.nt(fnv(&rle) ^ w as u64);
    Ok(())
}

fn g10_sub(ctx: &mut Ctx) -> Result<(pgs::Sub, RleEncodedImage, Vec<(u8, u8)>), String> {
    let mut s = if ctx.r.chance(1, 12) { pgs::gen_sub(&mut ctx.r) } else { pgs::gen_small_sub(&mut ctx.r) };
    if s.pic.w * s.pic.h > 70_000 {
        s = pgs::gen_small_sub(&mut ctx.r);
    }
    if ctx.r.chance(1, 3) {
        // data that ends early or late
        let n = ctx.r.range(0, s.rle.len() + 10).min(pgs::ODS_FIRST_MAX);
        s.rle.resize(n, 0x42);
        s.split = None;
    }
    let b = pgs::build(&mut ctx.r, std::slice::from_ref(&s), pgs::PLAIN).bytes;
    ctx.detail(|| format!("sup stream: {}", hex(&b, 6000)));
    let v = sut("decoding a .sup stream", || {
        SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b)).next()
    })?;
    let img = match v {
        Some(Ok(x)) => x.1,
        Some(Err(e)) => return Err(format!("a well-formed subtitle gives the error {}", pdec::err_text(&e))),
        None => return Err("a well-formed subtitle gives nothing".into()),
    };
    let n = s.pic.w * s.pic.h;
    let ids = pgs::ref_expand(&s.rle, n);
    let mut px: Vec<(u8, u8)> = ids.iter().map(|&i| pgs::lookup(&s.pal, i)).collect();
    px.resize(n, (255, 0));
    Ok((s, img, px))
}
fn g10_cmp<const N: usize>(what: &str, w: usize, h: usize, dims: (u32, u32), raw: &[u8], px: &[(u8, u8)], f: impl Fn((u8, u8)) -> [u8; N]) -> R {
    if dims != (w as u32, h as u32) {
        return Err(format!("{what}: image of {dims:?} for a {w}x{h} picture"));
    }
    if raw.len() != w * h * N {
        return Err(format!("{what}: {} samples for a {w}x{h} picture", raw.len()));
    }
    for (i, (g, p)) in raw.chunks_exact(N).zip(px).enumerate() {
        if g != f(*p) {
            return Err(format!("{what}: pixel (x {}, y {}) is {g:?}, expected {:?}", i % w, i / w, f(*p)));
        }
    }
    Ok(())
}
fn g10_image(ctx: &mut Ctx, _: u64) -> R {
    let (s, img, px) = g10_sub(ctx)?;
    let (w, h) = (s.pic.w, s.pic.h);
    ctx.sample(|| format!("{w}x{h} rendered to luma+alpha, luma, RGB and RGBA"));
    let k = ctx.r.u8();
    let i = sut("rendering", || RleToImage::new(&img, |p| p).to_image())?;
    g10_cmp("identity", w, h, i.dimensions(), i.as_raw(), &px, |p| [p.0, p.1])?;
    let i = sut("rendering", || RleToImage::new(&img, |p: LumaA<u8>| Luma([p.0[0] ^ p.0[1].rotate_left(3) ^ k])).to_image())?;
    g10_cmp("luma", w, h, i.dimensions(), i.as_raw(), &px, |p| [p.0 ^ p.1.rotate_left(3) ^ k])?;
    let i = sut("rendering", || RleToImage::new(&img, |p: LumaA<u8>| Rgb([p.0[0], p.0[1], k])).to_image())?;
    g10_cmp("RGB", w, h, i.dimensions(), i.as_raw(), &px, |p| [p.0, p.1, k])?;
    let i = sut("rendering", || RleToImage::new(&img, |p: LumaA<u8>| Rgba([k, p.0[0], !p.0[0], p.0[1]])).to_image())?;
    g10_cmp("RGBA", w, h, i.dimensions(), i.as_raw(), &px, |p| [k, p.0, !p.0, p.1])?;
    ctx.ev(4);
    ctx.c("pixels compared", 4 * (w * h) as u64);
    let mut hs = Hasher::new();
    hs.bytes(&s.rle).u64(w as u64).u64(u64::from(k));
    ctx.nt(hs.get());
    Ok(())
}
fn g10_ocr(ctx: &mut Ctx, _: u64) -> R {
    let (s, img, px) = g10_sub(ctx)?;
    let (w, h) = (s.pic.w, s.pic.h);
    let opt = gen_ocr(&mut ctx.r);
    ctx.sample(|| format!("{w}x{h} with border {}", opt.border));
    let k = ctx.r.u8();
    let f = |p: LumaA<u8>| Luma([p.0[0].wrapping_mul(3) ^ p.0[1] ^ k]);
    let got = sut("rendering for OCR", || RleToImage::new(&img, f).image(&opt))?;
    check_ocr(&got, w as u32, h as u32, &opt, |x, y| {
        let p = px[y as usize * w + x as usize];
        f(LumaA([p.0, p.1])).0[0]
    })?;
    ctx.ev(1);
    ctx.max("border", u64::from(opt.border));
    ctx.c("pixels compared", u64::from(got.width()) * u64::from(got.height()));
    let mut hs = Hasher::new();
    hs.bytes(&s.rle).u64(w as u64).u64(u64::from(k)).u64(u64::from(opt.border));
    ctx.nt(hs.get());
    Ok(())
}
