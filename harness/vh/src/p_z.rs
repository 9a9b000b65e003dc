//! Properties X12..X14: whole conversions, decoders and readers of the caller, values.
use crate::fw::{st, sut, Ctx, StreamDef, R};
use crate::p_time::{read_srt, vtt_block};
use crate::p_vob::{self, check_ocr, gen_idx, gen_ocr, gen_palette, line_of, plant, DEFECTS};
use crate::hostile;
use crate::p_x::Shot;
use crate::p_y::by_routes;
use crate::pdec;
use crate::vdec;
use image::{DynamicImage, Luma, LumaA, Rgb};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::{self, BufRead, Cursor, ErrorKind, Seek, SeekFrom};
use std::path::Path;
use std::rc::Rc;
use subtile::content::{Area, AreaValues};
use subtile::image::{dump_images, luma_a_to_luma_convertor, ImageArea as _, ImageSize as _, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, PgsError, RleToImage, SupParser};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{
    conv_to_rgba, palette_rgb_to_luminance, Index, Palette, Sub, VobSubIndexedImage, VobSubOcrImage, VobSubToImage,
};
use subtile::{srt, webvtt};
use vhcore::io::{Plan, Probe};
use vhcore::pgs;
use vhcore::rng::Rng;
use vhcore::util::{fnv, hex, Hasher};
use vhcore::vob::{self, Fragmenting};

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "X12" => vec![
            st("vobsub", 1_500, 60_000, x12_vob),
            st("pgs", 1_500, 60_000, x12_pgs),
        ],
        "X13" => vec![
            st("resume", 8_000, 300_000, x13_resume),
            st("hostile", 6_000, 200_000, x13_hostile),
            st("decoder", 8_000, 300_000, x13_decoder),
            st("routes", 4_000, 150_000, x13_routes),
            st("ends", 20_000, 600_000, x13_ends),
            st("gate", 6_000, 200_000, x13_gate),
        ],
        "X14" => vec![
            st("pictures", 8_000, 300_000, x14_pictures),
            st("clones", 4_000, 150_000, x14_clones),
            st("times", 8_000, 300_000, x14_times),
            st("areas", 8_000, 300_000, x14_areas),
            st("defaults", 1, 1, x14_defaults),
        ],
        _ => return None,
    })
}

// ---------------------------------------------------------------- X12

/// The numbered images of a folder, which holds nothing else.
fn dumped(dir: &Path, n: usize) -> Result<Vec<DynamicImage>, String> {
    let mut names: Vec<String> = fs::read_dir(dir)
        .map_err(|e| format!("the folder of the images: {e}"))?
        .map(|e| e.expect("harness: entry").file_name().to_string_lossy().into_owned())
        .collect();
    names.sort();
    let want: Vec<String> = (0..n).map(|i| format!("{i:06}.png")).collect();
    if names != want {
        return Err(format!("{n} pictures were decoded, the folder holds {names:?}"));
    }
    names.iter().map(|f| image::open(dir.join(f)).map_err(|e| format!("{f} cannot be read: {e}"))).collect()
}
fn fresh(dir: &Path) -> String {
    let _ = fs::remove_dir_all(dir);
    dir.to_str().expect("harness: scratch").to_string()
}
/// What the text files of a conversion must say.
fn check_text(srt_file: &Path, vtt: &[u8], cues: &[(TimeSpan, String)], want: &[(i64, i64)], tol: i64) -> R {
    let b = fs::read(srt_file).map_err(|e| format!("the text file: {e}"))?;
    let got = read_srt(&b).map_err(|e| format!("SubRip text: {e}"))?;
    if got.len() != want.len() || cues.len() != want.len() {
        return Err(format!("{} subtitles give {} entries in the text ({} collected)", want.len(), got.len(), cues.len()));
    }
    let mut v = String::new();
    for (k, (n, a, z, text)) in got.iter().enumerate() {
        let near = |x: i128, y: i64| (x - i128::from(y)).abs() <= i128::from(tol);
        if *n != k + 1 || !near(*a, want[k].0) || !near(*z, want[k].1) || *text != cues[k].1 {
            return Err(format!("entry {k} of the text is {n}, {a} ms to {z} ms, {text:?}; the subtitle is {:?} ms, {:?}", want[k], cues[k].1));
        }
        let t = TimeSpan::new(TimePoint::from_msecs(*a as i64), TimePoint::from_msecs(*z as i64));
        v.push_str(&vtt_block(&t, text));
    }
    if v.as_bytes() != vtt {
        return Err(format!("WebVTT text is {:?}, SubRip times give {v:?}", String::from_utf8_lossy(vtt)));
    }
    Ok(())
}
/// `.sub` and `.idx` to coloured images, OCR images, SubRip and WebVTT.
fn x12_vob(ctx: &mut Ctx, i: u64) -> R {
    let subs = p_vob::small_subs(&mut ctx.r, 6);
    let mut stm = vob::Stream::default();
    let mut good = vec![];
    let mut bad = vec![];
    for (s, p) in &subs {
        let k = ctx.r.below(DEFECTS.len());
        let d = if i % 3 == 0 && ctx.r.chance(1, 3) { plant(&mut ctx.r, k, s, p) } else { None };
        match d {
            Some((b, pts)) => {
                stm.add(&mut ctx.r, &b, pts, &vob::whole());
                bad.push(DEFECTS[k]);
            }
            None => {
                let f = if ctx.r.bool() { vob::whole() } else { Fragmenting { foreign: false, ..vob::gen_frag(&mut ctx.r, p.bytes.len()) } };
                stm.add(&mut ctx.r, &p.bytes, Some(s.pts), &f);
                good.push(s.clone());
            }
        }
    }
    if !bad.is_empty() && !stm.clean() {
        return Ok(()); // a defective packet may hold a start code
    }
    let pal = gen_palette(&mut ctx.r);
    let pline = line_of(&mut ctx.r, &pal);
    let idx = gen_idx(&mut ctx.r, Some(pline), Some(pal.clone())).text;
    let ocr = gen_ocr(&mut ctx.r);
    ctx.detail(|| format!("defects {bad:?}; idx: {:?}; sub: {}", String::from_utf8_lossy(&idx), hex(&stm.bytes, 6000)));
    ctx.sample(|| format!("{} subtitles, {} defective, in {} bytes", subs.len(), bad.len(), stm.bytes.len()));
    let (ps, pi) = (ctx.file("film.sub", &stm.bytes), ctx.file("film.idx", &idx));
    let (d1, d2) = (fresh(&ctx.scratch.join("x12-colour/images")), fresh(&ctx.scratch.join("x12-ocr")));
    let out = ctx.scratch.join("film.srt");
    let (cues, vtt, errs) = sut("converting .sub and .idx", || -> Result<_, String> {
        let sub = Sub::open(&ps).map_err(|e| format!("opening the .sub: {e}"))?;
        let idx = Index::open(&pi).map_err(|e| format!("opening the .idx: {e}"))?;
        let lum = palette_rgb_to_luminance(idx.palette());
        let mut cues: Vec<(TimeSpan, String)> = vec![];
        let mut errs = 0;
        // decoded, rendered and dumped one by one
        dump_images(
            &d1,
            sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().filter_map(|x| match x {
                Ok((t, img)) => {
                    cues.push((t, format!("subtitle {}", cues.len())));
                    Some(VobSubToImage::new(&img, idx.palette(), conv_to_rgba).to_image())
                }
                Err(_) => {
                    errs += 1;
                    None
                }
            }),
        )
        .map_err(|e| format!("dumping: {e:?}"))?;
        // all decoded first
        let all: Vec<_> = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().filter_map(Result::ok).collect();
        dump_images(&d2, all.iter().map(|(_, img)| VobSubOcrImage::new(img, &lum).image(&ocr))).map_err(|e| format!("dumping: {e:?}"))?;
        let mut f = fs::File::create(&out).expect("harness: file");
        srt::write_srt(&mut f, &cues).map_err(|e| format!("writing SubRip: {e}"))?;
        let mut vtt = vec![];
        for ((t, _), (_, x)) in all.iter().zip(&cues) {
            webvtt::write_line(&mut vtt, t, x).map_err(|e| format!("writing WebVTT: {e}"))?;
        }
        Ok((cues, vtt, errs))
    })??;
    if errs != bad.len() {
        return Err(format!("{errs} errors for {} defective subtitles {bad:?}", bad.len()));
    }
    let want: Vec<(i64, i64)> = good
        .iter()
        .map(|s| {
            let (a, b) = s.ticks();
            ((a / 90) as i64, (b.unwrap_or(a + 450_000) / 90) as i64)
        })
        .collect();
    check_text(&out, &vtt, &cues, &want, 2)?;
    let lum = {
        let p: Palette = std::array::from_fn(|k| Rgb(pal[k]));
        palette_rgb_to_luminance(&p)
    };
    for (k, (img, s)) in dumped(Path::new(&d1), good.len())?.iter().zip(&good).enumerate() {
        let DynamicImage::ImageRgba8(img) = img else { return Err(format!("image {k} is {:?}", img.color())) };
        if img.dimensions() != (s.pic.w as u32, s.pic.h as u32) {
            return Err(format!("image {k} is {:?}, the subtitle {}x{}", img.dimensions(), s.pic.w, s.pic.h));
        }
        for (j, (g, v)) in img.pixels().zip(&s.pic.pix).enumerate() {
            let c = pal[usize::from(s.palette[usize::from(*v)])];
            let w = [c[0], c[1], c[2], s.alpha[usize::from(*v)]];
            if g.0 != w {
                return Err(format!("pixel {j} of image {k} is {:?}, encoded {w:?}", g.0));
            }
        }
    }
    for (k, (img, s)) in dumped(Path::new(&d2), good.len())?.iter().zip(&good).enumerate() {
        let DynamicImage::ImageLuma8(img) = img else { return Err(format!("OCR image {k} is {:?}", img.color())) };
        check_ocr(img, s.pic.w as u32, s.pic.h as u32, &ocr, |x, y| {
            let v = usize::from(s.pic.pix[y as usize * s.pic.w + x as usize]);
            if s.alpha[v] > 0 && lum[usize::from(s.palette[v])].0[0] > 0 {
                ocr.text_color.0[0]
            } else {
                ocr.background_color.0[0]
            }
        })
        .map_err(|e| format!("OCR image {k}: {e}"))?;
    }
    ctx.ev(2 + 2 * good.len() as u64);
    ctx.c("subtitles converted", good.len() as u64);
    ctx.c("defective subtitles left out", bad.len() as u64);
    if good.len() > 1 {
        ctx.nt(fnv(&stm.bytes) ^ fnv(&idx));
    }
    Ok(())
}
/// `.sup` to images of several kinds, SubRip and WebVTT.
fn x12_pgs(ctx: &mut Ctx, i: u64) -> R {
    let n = ctx.r.range(1, 6);
    let mut stm = pgs::Stream::default();
    let mut good = vec![];
    let mut bad = 0usize;
    for _ in 0..n {
        // (the PNG format has no empty images)
        let s = loop {
            let s = pgs::gen_small_sub(&mut ctx.r);
            if s.pic.w > 0 && s.pic.h > 0 {
                break s;
            }
        };
        if i % 3 == 0 && ctx.r.chance(1, 3) {
            // a display set that shows nothing
            let t = pgs::gen_pts(&mut ctx.r);
            for _ in 0..2 {
                let d = ctx.r.bytes(11);
                stm.push(&[(pgs::PCS, pgs::seg(t, 0, pgs::PCS, &d)), (pgs::END, pgs::seg(t, 0, pgs::END, &[]))]);
            }
            bad += 1;
        } else {
            stm.add(&mut ctx.r, &s, pgs::VARY_SMALL);
            good.push(s);
        }
    }
    let (at, lt) = (ctx.r.u8(), ctx.r.u8());
    let ocr = gen_ocr(&mut ctx.r);
    ctx.detail(|| format!("{n} sets, {bad} without picture: {}", hex(&stm.bytes, 6000)));
    ctx.sample(|| format!("{n} sets, {bad} without picture, in {} bytes", stm.bytes.len()));
    let p = ctx.file("film.sup", &stm.bytes);
    let (d1, d2, d3) =
        (fresh(&ctx.scratch.join("x12-colour/images")), fresh(&ctx.scratch.join("x12-ocr")), fresh(&ctx.scratch.join("x12-plain")));
    let out = ctx.scratch.join("film.srt");
    let (cues, vtt, errs) = sut("converting .sup", || -> Result<_, String> {
        let open = || SupParser::<Cursor<Vec<u8>>, DecodeTimeImage>::from_file(&p).map_err(|e| format!("opening the .sup: {e}"));
        let mut cues: Vec<(TimeSpan, String)> = vec![];
        let mut errs = 0;
        dump_images(
            &d1,
            open()?.filter_map(|x| match x {
                Ok((t, img)) => {
                    cues.push((t, format!("subtitle {}", cues.len())));
                    Some(RleToImage::new(&img, |p| p).to_image())
                }
                Err(_) => {
                    errs += 1;
                    None
                }
            }),
        )
        .map_err(|e| format!("dumping: {e:?}"))?;
        let all: Vec<_> = open()?.filter_map(Result::ok).collect();
        let conv = luma_a_to_luma_convertor::<u8, LumaA<u8>>(at, lt);
        dump_images(&d2, all.iter().map(|(_, img)| RleToImage::new(img, &conv).image(&ocr))).map_err(|e| format!("dumping: {e:?}"))?;
        dump_images(&d3, all.iter().map(|(_, img)| RleToImage::new(img, &conv).to_image())).map_err(|e| format!("dumping: {e:?}"))?;
        let mut f = fs::File::create(&out).expect("harness: file");
        srt::write_srt(&mut f, &cues).map_err(|e| format!("writing SubRip: {e}"))?;
        let mut vtt = vec![];
        // times alone, of those sets that show something
        let times = SupParser::<Cursor<Vec<u8>>, DecodeTimeOnly>::from_file(&p)
            .map_err(|e| format!("opening the .sup: {e}"))?
            .collect::<Result<Vec<_>, _>>()
            .map_err(|e| format!("times: {e}"))?;
        if times.len() != cues.len() + errs {
            return Err(format!("{} times, {} pictures and {errs} errors", times.len(), cues.len()));
        }
        for ((t, _), (_, x)) in all.iter().zip(&cues) {
            webvtt::write_line(&mut vtt, t, x).map_err(|e| format!("writing WebVTT: {e}"))?;
        }
        Ok((cues, vtt, errs))
    })??;
    if errs != bad {
        return Err(format!("{errs} errors for {bad} sets without picture"));
    }
    let want: Vec<(i64, i64)> = good.iter().map(pgs::Sub::times).collect();
    check_text(&out, &vtt, &cues, &want, 0)?;
    let black = |p: (u8, u8)| if p.1 >= at && p.0 >= lt { 0u8 } else { 255 };
    let (i1, i2, i3) = (
        dumped(Path::new(&d1), good.len())?,
        dumped(Path::new(&d2), good.len())?,
        dumped(Path::new(&d3), good.len())?,
    );
    for (k, s) in good.iter().enumerate() {
        let px = s.pixels();
        let (w, h) = (s.pic.w as u32, s.pic.h as u32);
        let DynamicImage::ImageLumaA8(a) = &i1[k] else { return Err(format!("image {k} is {:?}", i1[k].color())) };
        let DynamicImage::ImageLuma8(b) = &i2[k] else { return Err(format!("OCR image {k} is {:?}", i2[k].color())) };
        let DynamicImage::ImageLuma8(c) = &i3[k] else { return Err(format!("black and white image {k} is {:?}", i3[k].color())) };
        if a.dimensions() != (w, h) || c.dimensions() != (w, h) {
            return Err(format!("image {k} is {:?} and {:?}, the subtitle {w}x{h}", a.dimensions(), c.dimensions()));
        }
        let got: Vec<(u8, u8)> = a.pixels().map(|p| (p.0[0], p.0[1])).collect();
        pdec::compare_pixels(&got, &px, s.pic.w).map_err(|e| format!("image {k}: {e}"))?;
        check_ocr(b, w, h, &ocr, |x, y| black(px[y as usize * s.pic.w + x as usize])).map_err(|e| format!("OCR image {k}: {e}"))?;
        if let Some(j) = (0..px.len()).find(|&j| c.as_raw()[j] != black(px[j])) {
            return Err(format!("pixel {j} of black and white image {k} is {}, thresholds {at} {lt}, encoded {:?}", c.as_raw()[j], px[j]));
        }
    }
    ctx.ev(2 + 3 * good.len() as u64);
    ctx.c("subtitles converted", good.len() as u64);
    ctx.c("sets without picture left out", bad as u64);
    if good.len() > 1 {
        ctx.nt(fnv(&stm.bytes) ^ u64::from(at) << 8 ^ u64::from(lt));
    }
    Ok(())
}

// ---------------------------------------------------------------- X13

fn plan(r: &mut Rng) -> Plan {
    Plan {
        window: *r.pick(&[0usize, 1, 2, 5, 13, 64, 4096]),
        fixed: r.bool(),
        interrupt: *r.pick(&[0usize, 0, 40]),
        ..Plan::default()
    }
}
/// A parser per subtitle, of either kind, on one borrowed reader.
fn x13_resume(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(1, 8);
    let subs = pgs::gen_small_subs(&mut ctx.r, n);
    let stm = pgs::build(&mut ctx.r, &subs, pgs::VARY_SMALL);
    let pl = plan(&mut ctx.r);
    let (mut rd, _) = Probe::new(Rc::new(stm.bytes.clone()), pl.clone(), ctx.r.u64());
    ctx.detail(|| format!("{pl:?}: {}", hex(&stm.bytes, 6000)));
    ctx.sample(|| format!("{n} subtitles, {pl:?}"));
    for (k, s) in subs.iter().enumerate() {
        let image = ctx.r.bool();
        let how = format!("subtitle {k} of {n}, {}", if image { "picture and times" } else { "times only" });
        let t = if image {
            let x = sut("decoding one subtitle", || SupParser::<_, DecodeTimeImage>::new(&mut rd).next())?;
            match x {
                Some(Ok(x)) => {
                    let o = pdec::observe(&x);
                    pdec::check_picture(&o, s).map_err(|e| format!("{how}: {e}"))?;
                    o.times
                }
                Some(Err(e)) => return Err(format!("{how}: {}", pdec::err_text(&e))),
                None => return Err(format!("{how}: nothing")),
            }
        } else {
            match sut("decoding one subtitle", || SupParser::<_, DecodeTimeOnly>::new(&mut rd).next())? {
                Some(Ok(t)) => pdec::times(&t),
                Some(Err(e)) => return Err(format!("{how}: {}", pdec::err_text(&e))),
                None => return Err(format!("{how}: nothing")),
            }
        };
        if t != s.times() {
            return Err(format!("{how}: times {t:?}, encoded {:?}", s.times()));
        }
        let at = rd.position();
        if at != stm.ends[k] as u64 {
            return Err(format!("{how}: the reader is left at byte {at}, the subtitle ends at {}", stm.ends[k]));
        }
        ctx.c(if image { "pictures" } else { "times" }, 1);
    }
    if sut("decoding the end", || SupParser::<_, DecodeTimeImage>::new(&mut rd).next().is_some())?
        || sut("decoding the end", || SupParser::<_, DecodeTimeOnly>::new(&mut rd).next().is_some())?
    {
        return Err("something after the last subtitle".into());
    }
    // and from any subtitle on
    let k = ctx.r.below(n);
    let from = if k == 0 { 0 } else { stm.ends[k - 1] };
    rd.seek(SeekFrom::Start(from as u64)).expect("harness: seek");
    let got = sut("decoding the times", || pdec::times_from(&mut rd, n + 2))?;
    let want: Vec<pdec::TItem> = subs[k..].iter().map(|s| Ok(s.times())).collect();
    if got != want {
        return Err(format!("from subtitle {k} on: {} items, {} expected", got.len(), want.len()));
    }
    ctx.ev(n as u64 + 2);
    if n > 1 {
        ctx.nt(fnv(&stm.bytes));
    }
    Ok(())
}
/// A reader that notices when bytes behind `gate` are asked for (as a live source would wait).
struct Gated {
    rd: Probe,
    gate: Rc<RefCell<(u64, Option<String>)>>,
}
impl Gated {
    fn note(&self, what: &str) {
        let mut g = self.gate.borrow_mut();
        if self.rd.position() >= g.0 && g.1.is_none() {
            g.1 = Some(format!("{what} at byte {}", self.rd.position()));
        }
    }
}
impl io::Read for Gated {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if !b.is_empty() {
            self.note("read");
        }
        self.rd.read(b)
    }
}
impl BufRead for Gated {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.note("fill_buf");
        self.rd.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.rd.consume(n);
    }
}
impl Seek for Gated {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.rd.seek(to)
    }
}
/// A subtitle is handed out before anything behind its closing END segment is asked for.
fn x13_gate(ctx: &mut Ctx, i: u64) -> R {
    let n = ctx.r.range(1, 6);
    let subs = pgs::gen_small_subs(&mut ctx.r, n);
    let stm = pgs::build(&mut ctx.r, &subs, pgs::VARY_SMALL);
    let pl = plan(&mut ctx.r);
    let gate = Rc::new(RefCell::new((0, None)));
    let rd = Gated { rd: Probe::new(Rc::new(stm.bytes.clone()), pl.clone(), ctx.r.u64()).0, gate: gate.clone() };
    ctx.detail(|| format!("{pl:?}: {}", hex(&stm.bytes, 6000)));
    ctx.sample(|| format!("{n} subtitles, {pl:?}"));
    let image = i % 2 == 0;
    let mut pics = SupParser::<_, DecodeTimeImage>::new(rd);
    let rd = Gated { rd: Probe::new(Rc::new(stm.bytes.clone()), pl, ctx.r.u64()).0, gate: gate.clone() };
    let mut times = SupParser::<_, DecodeTimeOnly>::new(rd);
    for (k, s) in subs.iter().enumerate() {
        *gate.borrow_mut() = (stm.ends[k] as u64, None);
        let got = if image {
            sut("decoding one subtitle", || pics.next().map(|x| x.map(|x| pdec::times(&x.0)).map_err(|e| pdec::err_text(&e))))?
        } else {
            sut("decoding one subtitle", || times.next().map(|x| x.map(|x| pdec::times(&x)).map_err(|e| pdec::err_text(&e))))?
        };
        if got != Some(Ok(s.times())) {
            return Err(format!("subtitle {k} of {n}: {got:?}, encoded {:?}", s.times()));
        }
        if let Some(x) = &gate.borrow().1 {
            return Err(format!("subtitle {k} of {n} ends at byte {}, before it is handed out the reader sees: {x}", stm.ends[k]));
        }
        ctx.c(if image { "pictures in time" } else { "times in time" }, 1);
    }
    ctx.ev(n as u64);
    ctx.nt(fnv(&stm.bytes) ^ (i % 2));
    Ok(())
}
/// The decoder of times on segments in any order: every second END closes a subtitle, and the
/// reader stands behind it.
fn x13_ends(ctx: &mut Ctx, i: u64) -> R {
    let r = &mut ctx.r;
    let times: Vec<u32> = (0..r.range(1, 3)).map(|_| pgs::gen_pts(r)).collect();
    let n = r.range(0, 12);
    let often = r.range(1, 5);
    let mut b = vec![];
    let mut ends: Vec<(u32, u64)> = vec![];
    for _ in 0..n {
        let t = if r.chance(1, 6) { pgs::gen_pts(r) } else { *r.pick(&times) };
        if r.chance(often, 6) {
            b.extend(pgs::seg(t, r.u32(), pgs::END, &[]));
            ends.push((t, b.len() as u64));
        } else {
            let k = *r.pick(&[pgs::PCS, pgs::WDS, pgs::PDS, pgs::ODS]);
            let l = if r.chance(1, 20) { r.range(0, 65_535) } else { r.skewed(0, 30) };
            let d = if r.bool() { r.bytes(l) } else { b"PG\0\0".iter().copied().cycle().take(l).collect() };
            b.extend(pgs::seg(t, r.u32(), k, &d));
        }
    }
    let pl = plan(r);
    let (mut rd, _) = Probe::new(Rc::new(b.clone()), pl.clone(), r.u64());
    let (own, _) = Probe::new(Rc::new(b.clone()), pl.clone(), r.u64());
    ctx.detail(|| format!("{pl:?}: {}", hex(&b, 6000)));
    ctx.sample(|| format!("{n} segments, {} END, {pl:?}", ends.len()));
    // one parser for all, or one for each
    let mut one = if i % 2 == 0 { Some(SupParser::<_, DecodeTimeOnly>::new(own)) } else { None };
    for (k, p) in ends.chunks_exact(2).enumerate() {
        let want = (i64::from(p[0].0 / 90), i64::from(p[1].0 / 90));
        let x = match &mut one {
            Some(p) => sut("decoding times", || p.next())?,
            None => {
                let x = sut("decoding times", || SupParser::<_, DecodeTimeOnly>::new(&mut rd).next())?;
                let at = rd.position();
                if at != p[1].1 {
                    return Err(format!("pair {k} of END segments: the reader is left at byte {at}, the second one ends at {}", p[1].1));
                }
                x
            }
        };
        let got = x.ok_or_else(|| format!("pair {k} of {} END segments: nothing", ends.len()))?;
        let got = got.map_err(|e| format!("pair {k}: {}", pdec::err_text(&e)))?;
        if pdec::times(&got) != want {
            return Err(format!("pair {k} of END segments: times {:?}, encoded {want:?}", pdec::times(&got)));
        }
    }
    let rest = match &mut one {
        Some(p) => sut("decoding times", || p.next().is_some())?,
        None => sut("decoding times", || SupParser::<_, DecodeTimeOnly>::new(&mut rd).next().is_some())?,
    };
    if rest {
        return Err(format!("an item more than the pairs of {} END segments", ends.len()));
    }
    ctx.ev(1 + ends.len() as u64 / 2);
    if ends.len() > 1 {
        ctx.nt(fnv(&b));
    }
    Ok(())
}
/// On any content: a new parser per item gives what one parser gives.
fn x13_hostile(ctx: &mut Ctx, i: u64) -> R {
    let b = hostile::pgs_any(&mut ctx.r);
    let limit = b.len() + 2;
    ctx.detail(|| format!(".sup: {}", hex(&b, 6000)));
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 40)));
    let mut rd = Cursor::new(&b[..]);
    let items = if i % 2 == 0 {
        let want = pdec::images(&b)?;
        let mut got = vec![];
        while let Some(x) = sut("decoding one subtitle", || SupParser::<_, DecodeTimeImage>::new(&mut rd).next())? {
            got.push(match x {
                Ok(x) => Ok(pdec::observe(&x)),
                Err(e) => Err(pdec::err_text(&e)),
            });
            if got.len() > limit {
                break;
            }
        }
        if got != want {
            return Err(format!("a parser per item gives {} items, one parser {}", got.len(), want.len()));
        }
        got.len()
    } else {
        let want = pdec::only_times(&b)?;
        let mut got = vec![];
        while let Some(x) = sut("decoding one subtitle", || SupParser::<_, DecodeTimeOnly>::new(&mut rd).next())? {
            got.push(match x {
                Ok(x) => Ok(pdec::times(&x)),
                Err(e) => Err(pdec::err_text(&e)),
            });
            if got.len() > limit {
                break;
            }
        }
        if got != want {
            return Err(format!("a parser per item gives {} times, one parser {}", got.len(), want.len()));
        }
        got.len()
    };
    ctx.ev(1);
    if items > 0 {
        ctx.nt(fnv(&b) ^ (i % 2));
    }
    Ok(())
}

/// A decoder of the caller: frames of one length byte and as many bytes.
struct Frames;
thread_local! {
    static CALLS: RefCell<u64> = const { RefCell::new(0) };
}
impl PgsDecoder for Frames {
    /// (can be neither copied nor sent)
    type Output = Rc<Vec<u8>>;
    fn parse_next<Rd: BufRead + Seek>(rd: &mut Rd) -> Result<Option<Self::Output>, PgsError> {
        CALLS.with(|c| *c.borrow_mut() += 1);
        let io = |source: io::Error| PgsError::Io { source, path: "frames".into() };
        let b = loop {
            match rd.fill_buf() {
                Ok([]) => return Ok(None),
                Ok(b) => break b[0],
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(e) => return Err(io(e)),
            }
        };
        rd.consume(1);
        match b {
            0xff => Err(PgsError::MissingImage),
            0xfe => {
                rd.seek(SeekFrom::Current(3)).map_err(io)?;
                Err(PgsError::MissingPalette)
            }
            n => {
                let mut v = vec![0; usize::from(n)];
                rd.read_exact(&mut v).map_err(io)?;
                Ok(Some(Rc::new(v)))
            }
        }
    }
}
fn frame_shot(x: Result<Rc<Vec<u8>>, PgsError>) -> Shot {
    let t = match x {
        Ok(v) => format!("Ok({})", hex(&v, 300)),
        Err(e) => format!("Err({})", pdec::err_text(&e)),
    };
    (fnv(t.as_bytes()), t)
}
fn gen_frames(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..r.skewed(0, 30) {
        match r.below(8) {
            0 => b.push(0xff),
            1 => b.extend([0xfe, 1, 2, 3]),
            2 => {
                // bytes that look like segments
                let s = pgs::gen_small_sub(r);
                let x = pgs::build(r, &[s], pgs::PLAIN).bytes;
                for c in x.chunks(200) {
                    b.push(c.len() as u8);
                    b.extend(c);
                }
            }
            _ => {
                let n = r.skewed(0, 200);
                b.push(n as u8);
                b.extend(r.bytes(n));
            }
        }
    }
    if r.chance(1, 4) {
        let n = r.below(b.len() + 1);
        b.truncate(n);
    }
    b
}
/// `next` is one call of the caller's decoder on the caller's reader, nothing else.
fn x13_decoder(ctx: &mut Ctx, _: u64) -> R {
    let b = Rc::new(gen_frames(&mut ctx.r));
    let mut pl = plan(&mut ctx.r);
    if ctx.r.chance(1, 3) {
        pl.fail_at = Some(ctx.r.below(60) as u64);
        pl.persistent = false;
    }
    let seed = ctx.r.u64();
    ctx.detail(|| format!("{pl:?}: {}", hex(&b, 6000)));
    ctx.sample(|| format!("{} bytes, {pl:?}", b.len()));
    let (mut own, log1) = Probe::new(b.clone(), pl.clone(), seed);
    let (rd, log2) = Probe::new(b.clone(), pl.clone(), seed);
    let n0 = log2.borrow().ops;
    let mut it = sut("SupParser::new", || SupParser::<_, Frames>::new(rd))?;
    if log2.borrow().ops != n0 {
        return Err("making a parser uses the reader".into());
    }
    let (mut items, mut ends) = (0, 0);
    while ends < 1 && items < b.len() + 5 {
        let c0 = CALLS.with(|c| *c.borrow());
        let want = Frames::parse_next(&mut own).transpose().map(frame_shot);
        let c1 = CALLS.with(|c| *c.borrow());
        let got = sut("next() with a decoder of the caller", || it.next())?.map(frame_shot);
        let c2 = CALLS.with(|c| *c.borrow());
        if c1 - c0 != 1 || c2 - c1 != 1 {
            return Err(format!("item {items}: {} calls of the decoder", c2 - c1));
        }
        if got != want {
            return Err(format!("item {items} is {:?}, the decoder gives {:?}", got.map(|x| x.1), want.map(|x| x.1)));
        }
        let (l1, l2) = (log1.borrow(), log2.borrow());
        if (l1.ops, l1.bytes, l1.max_pos) != (l2.ops, l2.bytes, l2.max_pos) {
            return Err(format!("item {items}: reader used as {l2:?}, the decoder uses it as {l1:?}"));
        }
        if want.is_none() {
            ends += 1;
        } else {
            items += 1;
        }
    }
    ctx.ev(items as u64 + 1);
    ctx.c("items", items as u64);
    if items > 1 {
        ctx.nt(fnv(&b) ^ fnv(format!("{pl:?}").as_bytes()));
    }
    Ok(())
}
/// The other iterator methods skip items of the caller's decoder.
fn x13_routes(ctx: &mut Ctx, i: u64) -> R {
    let b = gen_frames(&mut ctx.r);
    let mut want = vec![];
    let mut rd = Cursor::new(&b[..]);
    while let Some(x) = Frames::parse_next(&mut rd).transpose() {
        want.push(frame_shot(x));
    }
    let n = want.len();
    let plan: Vec<(usize, usize)> = (0..ctx.r.range(0, 5)).map(|_| (ctx.r.below(5), ctx.r.range(0, 4))).collect();
    let end = ctx.r.below(6);
    ctx.detail(|| format!("plan {plan:?} then {end}: {}", hex(&b, 6000)));
    ctx.sample(|| format!("{n} items, plan {plan:?} then {end}"));
    if i % 2 == 0 {
        sut("iterating with a decoder of the caller", || {
            by_routes(SupParser::<_, Frames>::new(Cursor::new(&b[..])), frame_shot, &plan, end, &want)
        })?
    } else {
        let p = ctx.file("frames.bin", &b);
        sut("iterating with a decoder of the caller", || {
            let it = SupParser::<Cursor<Vec<u8>>, Frames>::from_file(&p).map_err(|e| format!("opening: {e}"))?;
            by_routes(it, frame_shot, &plan, end, &want)
        })?
    }
    .map_err(|e| format!("{n} items, plan {plan:?} then {end}: {e}"))?;
    ctx.ev(1 + plan.len() as u64);
    if n > 1 && !plan.is_empty() {
        ctx.nt(fnv(&b) ^ fnv(format!("{plan:?}{end}").as_bytes()));
    }
    Ok(())
}

// ---------------------------------------------------------------- X14

#[derive(Clone, PartialEq)]
struct Model {
    area: [u16; 4],
    pal: [u8; 4],
    alpha: [u8; 4],
    pix: Vec<u8>,
}
impl Model {
    fn make(&self) -> VobSubIndexedImage {
        let [x1, y1, x2, y2] = self.area;
        let a = Area::try_from(AreaValues { x1, y1, x2, y2 }).expect("harness: area");
        VobSubIndexedImage::new(a, self.pal, self.alpha, self.pix.clone())
    }
    fn gen(r: &mut Rng) -> Self {
        let (w, h) = (r.range(2, 12), r.range(2, 12));
        let pic = vob::gen_pic(r, w, h);
        Self {
            area: vob::gen_area(r, w, h),
            pal: std::array::from_fn(|_| r.below(16) as u8),
            alpha: std::array::from_fn(|_| r.below(16) as u8),
            pix: pic.pix,
        }
    }
    /// Changed in one place.
    fn vary(&self, r: &mut Rng) -> (Self, &'static str) {
        let mut m = self.clone();
        let what = match r.below(5) {
            0 => {
                // moved, same size
                let k = r.below(2);
                if m.area[k + 2] < u16::MAX {
                    m.area[k] += 1;
                    m.area[k + 2] += 1;
                } else {
                    m.area[k] -= 1;
                    m.area[k + 2] -= 1;
                }
                "position"
            }
            1 => {
                m.pal[r.below(4)] ^= 1 << r.below(4);
                "palette"
            }
            2 => {
                m.alpha[r.below(4)] ^= 1 << r.below(4);
                "alpha"
            }
            3 => {
                let k = r.below(m.pix.len());
                m.pix[k] ^= r.range(1, 3) as u8;
                "one pixel"
            }
            _ => {
                let (w, h) = (m.area[2] - m.area[0] + 1, m.area[3] - m.area[1] + 1);
                if w == h || u32::from(m.area[0]) + u32::from(h) > 65536 || u32::from(m.area[1]) + u32::from(w) > 65536 {
                    m.pal.reverse();
                    "order of the palette"
                } else {
                    // same pixels in other lines
                    m.area[2] = m.area[0] + (h - 1);
                    m.area[3] = m.area[1] + (w - 1);
                    "shape"
                }
            }
        };
        (m, what)
    }
}
/// Pictures are equal exactly when all their parts are, and give these parts back.
fn x14_pictures(ctx: &mut Ctx, i: u64) -> R {
    let m = Model::gen(&mut ctx.r);
    let (v, what) = if i % 3 == 0 {
        // also from the decoder
        (m.clone(), "nothing")
    } else {
        m.vary(&mut ctx.r)
    };
    ctx.sample(|| format!("{:?} palette {:?} alpha {:?} against one that differs in {what}", m.area, m.pal, m.alpha));
    let (a, b) = (m.make(), v.make());
    let c = sut("clone", || a.clone())?;
    let (ab, ba, ac, aa, ne) = sut("comparing pictures", || (a == b, b == a, a == c, a == a.clone(), a != b))?;
    if !ac || !aa {
        return Err("a picture is not equal to its clone".into());
    }
    if ab != (m == v) || ba != ab || ne == ab {
        return Err(format!(
            "pictures that differ in {what} compare as {ab}, {ba}, not equal {ne}: {:?} {:?} {:?} and {:?} {:?} {:?}",
            m.area, m.pal, m.alpha, v.area, v.pal, v.alpha
        ));
    }
    for (x, m) in [(&a, &m), (&b, &v), (&c, &m)] {
        let (ar, p, al, raw, w, h) =
            sut("parts of a picture", || (x.area(), *x.palette(), *x.alpha(), x.raw_image().to_vec(), x.width(), x.height()))?;
        let [x1, y1, x2, y2] = m.area;
        let want = [x1, y1, x2 - x1 + 1, y2 - y1 + 1];
        if vdec::area4(&ar) != want || (w, h) != (u32::from(want[2]), u32::from(want[3])) {
            return Err(format!("a picture made for {want:?} has the area {:?} and is {w}x{h}", vdec::area4(&ar)));
        }
        if p != m.pal || al != m.alpha || raw != m.pix {
            return Err(format!("a picture made with {:?} {:?} has {p:?} {al:?}, pixels equal: {}", m.pal, m.alpha, raw == m.pix));
        }
    }
    if sut("Debug", || format!("{a:?} {a:#?}"))?.is_empty() {
        return Err("empty debug text".into());
    }
    ctx.ev(5);
    ctx.c(&format!("differs in {what}"), 1);
    let mut h = Hasher::new();
    h.bytes(&m.pix).bytes(&m.pal).bytes(&m.alpha).u64(i % 3);
    ctx.nt(h.get());
    Ok(())
}
/// A clone shows what its original shows, and outlives it.
fn x14_clones(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(1, 4);
    let subs = pgs::gen_small_subs(&mut ctx.r, n);
    let b = pgs::build(&mut ctx.r, &subs, pgs::VARY_SMALL).bytes;
    ctx.detail(|| hex(&b, 6000));
    ctx.sample(|| format!("{n} decoded pictures, cloned"));
    let k = ctx.r.range(0, 40);
    let got = sut("decoding and cloning", || {
        let mut it = SupParser::<_, DecodeTimeImage>::new(Cursor::new(b.clone()));
        let mut kept = vec![];
        while let Some(Ok((t, img))) = it.next() {
            let c = img.clone();
            // a used original
            let used: Vec<_> = img.iter().take(k).collect();
            let d = img.clone();
            let e = RleToImage::new(&c, |p| p).to_image();
            let f = RleToImage::new(&img, |p| p).to_image();
            drop(img);
            kept.push((t, c, d, used.len(), e == f));
        }
        drop(it);
        kept
    })?;
    if got.len() != n {
        return Err(format!("{} of {n} subtitles", got.len()));
    }
    for (j, ((t, c, d, used, same), s)) in got.into_iter().zip(&subs).enumerate() {
        if used != k.min(s.pic.w * s.pic.h) {
            return Err(format!("{used} of {k} pixels of a {}x{} picture", s.pic.w, s.pic.h));
        }
        if !same {
            return Err(format!("picture {j}: its clone is rendered differently"));
        }
        for (x, what) in [(c, "clone"), (d, "clone of a used picture")] {
            let o = sut("reading a clone", || pdec::observe(&(t, x)))?;
            pdec::check_picture(&o, s).map_err(|e| format!("{what} of picture {j}: {e}"))?;
        }
    }
    // language and palette of an index
    let pal = gen_palette(&mut ctx.r);
    let line = line_of(&mut ctx.r, &pal);
    let want = gen_idx(&mut ctx.r, Some(line), Some(pal));
    let (l1, l2, p2) = sut("Index::init", || -> Result<_, String> {
        let x = Index::read_index(io::BufReader::new(Cursor::new(want.text.clone())), &|e: io::Error| {
            subtile::vobsub::VobSubError::Parse(e.to_string())
        })
        .map_err(|e| format!("reading an .idx: {e}"))?;
        let l1 = x.lang().clone();
        let y = Index::init(*x.palette(), l1.clone());
        drop(x);
        let _ = format!("{y:?}");
        let (t1, t2) = (l1.as_ref().map(|l| l.lang().to_string()), y.lang().as_ref().map(|l| l.lang().to_string()));
        Ok((t1, t2, y.palette().iter().map(|c| c.0).collect::<Vec<_>>()))
    })??;
    if l1 != want.want.1 || l2 != want.want.1 || p2 != want.want.0 {
        return Err(format!("language {l1:?}, of the new index {l2:?}, written {:?}; palette {p2:?}", want.want.1));
    }
    ctx.ev(3 * n as u64 + 1);
    ctx.nt(fnv(&b));
    Ok(())
}
/// Times sort, hash and compare as their milliseconds.
fn x14_times(ctx: &mut Ctx, i: u64) -> R {
    let r = &mut ctx.r;
    let n = r.range(2, 24);
    let mut ms: Vec<i64> = (0..n)
        .map(|k| match r.below(4) {
            0 => r.edge_i64(),
            1 => r.below(8) as i64 - 4,
            2 => (k as i64 % 3) << 32 | r.below(2) as i64,
            _ => r.below(100_000_000) as i64,
        })
        .collect();
    let d = ms[r.below(n)];
    ms.push(d);
    for _ in 0..2 {
        // differs in one bit
        let k = r.below(n);
        ms[k] = d ^ 1 << r.below(64);
    }
    ctx.sample(|| format!("{ms:?}"));
    let e = |m: String| format!("{m}; milliseconds {ms:?}");
    let ps: Vec<TimePoint> = ms.iter().map(|&m| TimePoint::from_msecs(m)).collect();
    let (sorted, set, tree, mx, mn) = sut("sorting times", || {
        let mut s = ps.clone();
        if i % 2 == 0 {
            s.sort();
        } else {
            s.sort_unstable_by(|a, b| b.partial_cmp(a).unwrap());
            s.reverse();
        }
        let set: HashSet<TimePoint> = ps.iter().copied().collect();
        let tree: BTreeMap<TimePoint, usize> = ps.iter().copied().zip(0..).collect();
        (s, set, tree, ps.iter().max().copied(), ps.iter().min().copied())
    })?;
    let mut w = ms.clone();
    w.sort_unstable();
    let got: Vec<i64> = sorted.iter().map(|t| t.msecs()).collect();
    if got != w {
        return Err(e(format!("sorted as {got:?}")));
    }
    if mx.map(TimePoint::msecs) != w.last().copied() || mn.map(TimePoint::msecs) != w.first().copied() {
        return Err(e(format!("extremes {mx:?} {mn:?}")));
    }
    w.dedup();
    let keys: Vec<i64> = tree.keys().map(|t| t.msecs()).collect();
    if set.len() != w.len() || keys != w || w.iter().any(|&m| !set.contains(&TimePoint::from_msecs(m))) {
        return Err(e(format!("{} distinct times hashed, {} sorted, {} expected", set.len(), keys.len(), w.len())));
    }
    for (a, x) in ps.iter().zip(&ms) {
        for (b, y) in ps.iter().zip(&ms) {
            let (eq, ne, lt, le, cmp) = sut("comparing times", || (a == b, a != b, a < b, a <= b, a.cmp(b)))?;
            if (eq, ne, lt, le, cmp) != (x == y, x != y, x < y, x <= y, x.cmp(y)) {
                return Err(format!("{x} ms and {y} ms compare as {eq} {ne} {lt} {le} {cmp:?}"));
            }
            // spans that share one end
            let (q, w) = (ps[0], ms[0]);
            let (ends, starts) = sut("comparing spans", || {
                (TimeSpan::new(q, *a) == TimeSpan::new(q, *b), TimeSpan::new(*a, q) == TimeSpan::new(*b, q))
            })?;
            if ends != (x == y) || starts != (x == y) {
                return Err(format!("spans of {w} ms with {x} and {y} ms as ends compare as {ends}, as starts {starts}"));
            }
            // spans
            for (c, z) in ps.iter().zip(&ms).take(4) {
                let (s, t) = (TimeSpan::new(*a, *b), TimeSpan::new(*c, *b));
                let u = TimeSpan::new(*b, *a);
                let (st, su, sc) = sut("comparing spans", || (s == t, s == u, s == { s }))?;
                if st != (x == z) || su != (x == y) || !sc || (s != t) == st {
                    return Err(format!("spans {x}..{y}, {z}..{y} and {y}..{x} compare as {st} {su} {sc}"));
                }
                if (s.start.msecs(), s.end.msecs()) != (*x, *y) {
                    return Err(format!("a span made of {x} and {y} is {}..{}", s.start.msecs(), s.end.msecs()));
                }
            }
        }
    }
    if sut("Debug", || format!("{ps:?} {:?}", TimeSpan::new(ps[0], ps[1])))?.is_empty() {
        return Err("empty debug text".into());
    }
    ctx.ev((ms.len() * ms.len()) as u64);
    let mut h = Hasher::new();
    ms.iter().for_each(|m| {
        h.u64(*m as u64);
    });
    ctx.nt(h.get());
    Ok(())
}
/// Areas are equal exactly when their four coordinates are.
fn x14_areas(ctx: &mut Ctx, _: u64) -> R {
    let r = &mut ctx.r;
    let gen = |r: &mut Rng| -> [u16; 4] {
        let (w, h) = (r.skewed(2, 65_535), r.skewed(2, 65_535));
        let (x, y) = (r.range(0, 65_536 - w), r.range(0, 65_536 - h));
        [x as u16, y as u16, (x + w - 1) as u16, (y + h - 1) as u16]
    };
    let p = gen(r);
    let q = if r.bool() {
        let mut q = p;
        let k = r.below(4);
        q[k] = match r.below(3) {
            0 => q[k].saturating_add(1),
            1 => q[k].saturating_sub(1),
            _ => q[k] ^ 1 << r.below(16),
        };
        q
    } else {
        gen(r)
    };
    ctx.sample(|| format!("{p:?} {q:?}"));
    let v = |a: [u16; 4]| AreaValues { x1: a[0], y1: a[1], x2: a[2], y2: a[3] };
    let (a, b) = sut("Area::try_from", || (Area::try_from(v(p)), Area::try_from(v(q))))?;
    let Ok(a) = a else { return Err(format!("area {p:?} is refused")) };
    let c = a;
    if sut("comparing areas", || a != c || v(p) != v(p))? {
        return Err(format!("area {p:?} differs from its copy"));
    }
    if sut("comparing coordinates", || v(p) == v(q))? != (p == q) {
        return Err(format!("coordinates {p:?} and {q:?} compare wrongly"));
    }
    if let Ok(b) = b {
        let (x, y) = sut("comparing areas", || (a == b, b == a))?;
        if x != (p == q) || y != x {
            return Err(format!("areas {p:?} and {q:?} compare as {x} {y}"));
        }
        ctx.c("pairs compared", 1);
    }
    let s = sut("size", || a.size())?;
    let want = (usize::from(p[2] - p[0]) + 1, usize::from(p[3] - p[1]) + 1);
    if (s.w, s.h) != want {
        return Err(format!("area {p:?} has the size {}x{}", s.w, s.h));
    }
    if sut("Debug", || format!("{a:?} {s:?} {:?}", v(p)))?.is_empty() {
        return Err("empty debug text".into());
    }
    ctx.ev(4);
    let mut h = Hasher::new();
    for x in p.iter().chain(&q) {
        h.u64(u64::from(*x));
    }
    ctx.nt(h.get());
    Ok(())
}
fn x14_defaults(ctx: &mut Ctx, _: u64) -> R {
    let (t, s, o) = sut("defaults", || (TimePoint::default(), TimeSpan::default(), ToOcrImageOpt::default()))?;
    if t.msecs() != 0 || s != TimeSpan::new(TimePoint::from_msecs(0), TimePoint::from_msecs(0)) {
        return Err(format!("default time is {t:?}, default span {}..{}", s.start.msecs(), s.end.msecs()));
    }
    if (o.border, o.text_color, o.background_color) != (5, Luma([0]), Luma([255])) {
        return Err(format!("default options are {o:?}, documented as a border of 5, black text on white"));
    }
    let unique: BTreeSet<i64> = [t.msecs()].into();
    ctx.ev(unique.len() as u64 + 2);
    Ok(())
}
