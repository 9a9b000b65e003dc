//! Property X18: neither the length of a film nor the place in it matters.
use crate::fw::{st, sut, Ctx, StreamDef, Tier, R};
use crate::p_time::{gen_list, srt_want, vtt_block};
use crate::p_vob::{gen_idx, gen_palette, line_of};
use crate::{pdec, vdec};
use std::collections::HashMap;
use std::fs;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom};
use std::os::unix::fs::FileExt as _;
use std::path::Path;
use subtile::image::{dump_images, GrayImage};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, SupParser};
use subtile::time::TimeSpan;
use subtile::vobsub::{Index, Sub, VobSubIndexedImage};
use subtile::{srt, webvtt};
use vhcore::pgs;
use vhcore::rng::Rng;
use vhcore::util::fnv;
use vhcore::vob;

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "X18" => vec![
            st("vob films", 48, 400, vob_long),
            st("vob packets", 24, 400, vob_packets),
            st("vob gaps", 12, 33, vob_gaps),
            st("pgs films", 48, 400, pgs_long),
            st("pgs far", 64, 800, pgs_far),
            st("texts", 16, 160, texts),
            st("index", 24, 240, index),
            st("dumps", 3, 17, dumps),
        ],
        _ => return None,
    })
}

/// How many; every eighth case is beyond what 16 bits count.
fn many(r: &mut Rng, i: u64) -> usize {
    if i % 8 == 0 {
        65_530 + r.below(5_000)
    } else {
        *r.pick(&[300usize, 1_000, 4_000, 12_000, 33_000]) + r.below(300)
    }
}
fn vob_check(got: Result<(TimeSpan, VobSubIndexedImage), subtile::vobsub::VobSubError>, s: &vob::Sub, k: usize, n: usize) -> R {
    let e = |e: String| format!("subtitle {k} of {n}: {e}");
    let x = got.map_err(|x| e(format!("gives the error {}", vdec::err_text(&x))))?;
    let o = vdec::observe(&x);
    vdec::check_picture(&o, s).map_err(e)?;
    vdec::check_times(&o, s).map_err(e)
}
fn vob_open(p: &Path) -> Result<Sub, String> {
    sut("Sub::open", || Sub::open(p))?.map_err(|e| format!("opening an existing .sub file failed: {e}"))
}
/// Films of thousands of subtitles.
fn vob_long(ctx: &mut Ctx, i: u64) -> R {
    let n = many(&mut ctx.r, i);
    let base: Vec<_> = (0..ctx.r.range(1, 8)).map(|_| vob::gen_small_spu(&mut ctx.r)).collect();
    let varied = ctx.r.bool();
    let (stm, order) = loop {
        let r = &mut ctx.r;
        let mut stm = vob::Stream::default();
        let mut order = vec![];
        let mut pts = r.below(1 << 33) as u64;
        let step = r.range(1, 400_000) as u64;
        for _ in 0..n {
            let k = r.below(base.len());
            pts = (pts + step) % (1 << 33);
            let p = &base[k].1;
            let f = if varied { vob::gen_frag(r, p.bytes.len()) } else { vob::whole() };
            stm.add(r, &p.bytes, Some(pts), &f);
            order.push((k, pts));
        }
        if stm.clean() {
            break (stm, order);
        }
        if varied || base.len() > 1 {
            // (chance start codes: leave out what was by chance)
            let mut plain = vob::Stream::default();
            for (k, pts) in &order {
                plain.add(r, &base[*k].1.bytes, Some(*pts), &vob::whole());
            }
            if plain.clean() {
                break (plain, order);
            }
        }
        return Ok(());
    };
    ctx.detail(|| format!("{n} subtitles of {} kinds, varied {varied}, {} bytes", base.len(), stm.bytes.len()));
    ctx.sample(|| format!("{n} subtitles of {} kinds, {} packets, {} bytes", base.len(), stm.packets, stm.bytes.len()));
    let p = ctx.file("long.sub", &stm.bytes);
    let sub = vob_open(&p)?;
    sut("decoding a long film", || -> R {
        let mut it = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>();
        for (j, (k, pts)) in order.iter().enumerate() {
            let mut s = base[*k].0.clone();
            s.pts = *pts;
            let got = it.next().ok_or_else(|| format!("the film ends after {j} subtitles of {n}"))?;
            vob_check(got, &s, j, n)?;
        }
        if let Some(x) = it.next() {
            return Err(format!("an item more than the {n} subtitles: {}", x.map_or_else(|e| vdec::err_text(&e), |_| "a subtitle".into())));
        }
        Ok(())
    })??;
    ctx.ev(n as u64);
    ctx.max("subtitles in a .sub", n as u64);
    ctx.c("VobSub subtitles compared", n as u64);
    ctx.nt(fnv(&stm.bytes));
    Ok(())
}
/// One subtitle in as many packets as it has bytes.
fn vob_packets(ctx: &mut Ctx, i: u64) -> R {
    let (w, h) = if i % 4 == 0 { (300, 200) } else { (ctx.r.range(20, 200), ctx.r.range(10, 80)) };
    let mut made = None;
    for _ in 0..50 {
        let mut s = vob::gen_sub_dims(&mut ctx.r, w, h);
        s.pts = vob::gen_pts(&mut ctx.r);
        if let Some(mut p) = vob::build_spu(&mut ctx.r, &mut s, vob::PLAIN) {
            if i % 4 == 1 && p.bytes.len() < 65_000 {
                // as long as can be: the rest is ignored
                p.bytes.resize(65_535, 0xff);
                p.bytes[..2].copy_from_slice(&65_535u16.to_be_bytes());
            }
            made = Some((s, p));
            break;
        }
    }
    let Some((s, p)) = made else { return Ok(()) };
    let piece = *ctx.r.pick(&[1usize, 1, 1, 2, 3]);
    let cuts: Vec<usize> = (2..p.bytes.len()).step_by(piece).collect();
    let mut stm = vob::Stream::default();
    let f = vob::Fragmenting { cuts, ..vob::whole() };
    stm.add(&mut ctx.r, &p.bytes, Some(s.pts), &f);
    let (s2, p2, _) = vob::gen_small_spu(&mut ctx.r);
    stm.add(&mut ctx.r, &p2.bytes, Some(s2.pts), &vob::whole());
    if !stm.clean() {
        return Ok(());
    }
    ctx.detail(|| format!("subtitle of {} bytes in {} packets", p.bytes.len(), stm.packets - 1));
    ctx.sample(|| format!("subtitle of {} bytes in {} packets", p.bytes.len(), stm.packets - 1));
    let f = ctx.file("packets.sub", &stm.bytes);
    let sub = vob_open(&f)?;
    sut("decoding a subtitle of many packets", || -> R {
        let mut it = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>();
        for (k, s) in [&s, &s2].into_iter().enumerate() {
            vob_check(it.next().ok_or("a subtitle is missing")?, s, k, 2)?;
        }
        if it.next().is_some() {
            return Err("an item too many".into());
        }
        Ok(())
    })??;
    ctx.ev(2);
    ctx.max("packets of a subtitle", stm.packets as u64 - 1);
    ctx.nt(fnv(&stm.bytes));
    Ok(())
}
/// Subtitles with much of nothing in between (a file with holes).
fn vob_gaps(ctx: &mut Ctx, i: u64) -> R {
    let far = if i == 32 { (1u64 << 32) + 77 } else { *ctx.r.pick(&[1u64 << 16, 1 << 20, 1 << 24, 1 << 25, 1 << 26]) };
    let subs: Vec<_> = (0..3).map(|_| vob::gen_small_spu(&mut ctx.r)).collect();
    let mut parts = vec![];
    for (s, p, _) in &subs {
        let mut stm = vob::Stream::default();
        stm.add(&mut ctx.r, &p.bytes, Some(s.pts), &vob::whole());
        if !stm.clean() {
            return Ok(());
        }
        parts.push(stm.bytes);
    }
    let p = ctx.scratch.join("gaps.sub");
    let _ = fs::remove_file(&p);
    let f = fs::File::create(&p).expect("harness: file");
    let mut at = 0;
    let mut places = vec![];
    for (k, b) in parts.iter().enumerate() {
        if k > 0 {
            at += far / 2 + ctx.r.range(0, 4000) as u64;
        }
        places.push(at);
        f.write_all_at(b, at).expect("harness: file");
        at += b.len() as u64;
    }
    drop(f);
    ctx.detail(|| format!("subtitles at {places:?}"));
    ctx.sample(|| format!("subtitles at {places:?}"));
    let res = (|| {
        let sub = vob_open(&p)?;
        sut("decoding a film with gaps", || -> R {
            let mut it = sub.subtitles::<(TimeSpan, VobSubIndexedImage)>();
            for (k, (s, _, _)) in subs.iter().enumerate() {
                vob_check(it.next().ok_or_else(|| format!("subtitle {k} (at {}) is missing", places[k]))?, s, k, 3)?;
            }
            if it.next().is_some() {
                return Err("an item too many".into());
            }
            Ok(())
        })?
    })();
    let _ = fs::remove_file(&p);
    res?;
    ctx.ev(3);
    ctx.max("place of a VobSub subtitle", places[2]);
    ctx.nt(places[2] ^ fnv(&parts[0]));
    Ok(())
}
fn pgs_long(ctx: &mut Ctx, i: u64) -> R {
    let n = many(&mut ctx.r, i);
    let r = &mut ctx.r;
    let base: Vec<_> = (0..r.range(1, 8)).map(|_| pgs::gen_small_sub(r)).collect();
    let opts = if r.bool() { pgs::VARY_SMALL } else { pgs::PLAIN };
    let mut stm = pgs::Stream::default();
    let mut order = vec![];
    let mut at = r.u32();
    let step = r.range(1, 400_000) as u32;
    for _ in 0..n {
        let k = r.below(base.len());
        let mut s = base[k].clone();
        s.start = at;
        at = at.wrapping_add(step);
        s.end = at;
        stm.add(r, &s, opts);
        order.push((k, s.times()));
    }
    ctx.detail(|| format!("{n} subtitles of {} kinds, {} bytes", base.len(), stm.bytes.len()));
    ctx.sample(|| format!("{n} subtitles of {} kinds, {} bytes", base.len(), stm.bytes.len()));
    sut("decoding a long film", || -> R {
        let mut a = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&stm.bytes[..]));
        let mut b = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&stm.bytes[..]));
        for (j, (k, times)) in order.iter().enumerate() {
            let e = |e: String| format!("subtitle {j} of {n}: {e}");
            let x = a.next().ok_or_else(|| format!("the film ends after {j} subtitles of {n}"))?;
            let x = pdec::observe(&x.map_err(|x| e(pdec::err_text(&x)))?);
            if x.times != *times {
                return Err(e(format!("times are {:?}, encoded {times:?}", x.times)));
            }
            pdec::check_picture(&x, &base[*k]).map_err(e)?;
            let y = b.next().ok_or_else(|| format!("the times end after {j} subtitles of {n}"))?;
            let y = pdec::times(&y.map_err(|x| e(pdec::err_text(&x)))?);
            if y != *times {
                return Err(e(format!("times only are {y:?}, encoded {times:?}")));
            }
        }
        if a.next().is_some() || b.next().is_some() {
            return Err(format!("an item more than the {n} subtitles"));
        }
        Ok(())
    })??;
    ctx.ev(2 * n as u64);
    ctx.max("subtitles in a .sup", n as u64);
    ctx.c("PGS subtitles compared", n as u64);
    ctx.nt(fnv(&stm.bytes));
    Ok(())
}

/// A stream with long stretches of segments to be skipped, anywhere in a larger source.
struct Far {
    base: u64,
    /// Start of each part (from the base), its bytes, and how often they are repeated.
    parts: Vec<(u64, Vec<u8>, u64)>,
    end: u64,
    pos: u64,
    window: usize,
    /// Somewhere outside was asked for.
    outside: Option<u64>,
}
impl Far {
    fn here(&mut self) -> &[u8] {
        let Some(at) = self.pos.checked_sub(self.base) else {
            self.outside = Some(self.pos);
            return &[];
        };
        if at >= self.end {
            return &[];
        }
        let k = self.parts.partition_point(|p| p.0 <= at) - 1;
        let (start, bytes, _) = &self.parts[k];
        let o = ((at - start) % bytes.len() as u64) as usize;
        &bytes[o..(o + self.window).min(bytes.len())]
    }
}
impl Read for Far {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let h = self.here();
        let n = h.len().min(b.len());
        b[..n].copy_from_slice(&h[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl BufRead for Far {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        Ok(self.here())
    }
    fn consume(&mut self, n: usize) {
        self.pos += n as u64;
    }
}
impl Seek for Far {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => self.pos.checked_add_signed(n),
            SeekFrom::End(n) => (self.base + self.end).checked_add_signed(n),
        };
        let p = p.ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "before the start"))?;
        self.pos = p;
        Ok(p)
    }
}
fn pgs_far(ctx: &mut Ctx, i: u64) -> R {
    let r = &mut ctx.r;
    let base = *r.pick(&[0u64, 1, 1 << 16, (1 << 31) - 20, 1 << 31, (1 << 32) - 20, 1 << 32, (1 << 40) + 3, 1 << 62]);
    let n = r.range(2, 4);
    let subs = pgs::gen_small_subs(r, n);
    let mut parts: Vec<(u64, Vec<u8>, u64)> = vec![];
    let mut at = 0;
    let mut add = |b: Vec<u8>, times: u64| {
        if !b.is_empty() {
            let l = b.len() as u64 * times;
            parts.push((at, b, times));
            at += l;
        }
    };
    let mut gaps = vec![];
    for s in &subs {
        let mut segs = pgs::showing(r, s, pgs::VARY_SMALL);
        // segments of the kinds that may stand anywhere but between the two halves of an object
        let show = segs.len();
        segs.extend(pgs::clearing(r, s, pgs::VARY_SMALL));
        let here = if r.chance(2, 3) {
            loop {
                let k = r.below(segs.len());
                if k == 0 || k >= show || segs[k - 1].0 != pgs::ODS || segs[k].0 != pgs::ODS {
                    break k;
                }
            }
        } else {
            usize::MAX
        };
        for (k, (_, b)) in segs.into_iter().enumerate() {
            if k == here {
                let size = *r.pick(&[65_535usize, 65_535, 40_000]);
                let typ = *r.pick(&[pgs::WDS, pgs::PCS]);
                let len = if i % 2 == 0 { (1u64 << 32) + r.below(1 << 20) as u64 } else { *r.pick(&[1u64 << 17, 1 << 24, 1 << 31]) };
                let times = len / (size as u64 + 13) + 1;
                gaps.push((k, times * (size as u64 + 13)));
                add(pgs::seg(r.u32(), 0, typ, &vec![0x50; size]), times);
            }
            add(b, 1);
        }
    }
    let end = at;
    let window = *r.pick(&[usize::MAX >> 1, 1 << 16, 8192, 1000]);
    let behind = r.bool();
    let cap = *r.pick(&[16usize, 1000, 8192, 1 << 17]);
    let want: Vec<_> = subs.iter().map(pgs::Sub::times).collect();
    ctx.detail(|| format!("{n} subtitles from {base}, gaps {gaps:?}, window {window}, behind a BufReader of {cap}: {behind}"));
    ctx.sample(|| format!("{n} subtitles from {base} to {}, gaps {gaps:?}", base + end));
    let mut rd = Far { base, parts, end, pos: base, window, outside: None };
    let pictures = sut("decoding far pictures", || {
        if behind {
            pdec::images_from(BufReader::with_capacity(cap, &mut rd), n + 2)
        } else {
            pdec::images_from(&mut rd, n + 2)
        }
    })?;
    if pictures.len() != n {
        return Err(format!("{} items for {n} subtitles: {:?}", pictures.len(), pictures.iter().map(pdec::short).collect::<Vec<_>>()));
    }
    for (k, (x, s)) in pictures.iter().zip(&subs).enumerate() {
        let x = x.as_ref().map_err(|e| format!("subtitle {k}: {e}"))?;
        if x.times != s.times() {
            return Err(format!("subtitle {k}: times are {:?}, encoded {:?}", x.times, s.times()));
        }
        pdec::check_picture(x, s).map_err(|e| format!("subtitle {k}: {e}"))?;
    }
    if let Some(p) = rd.outside {
        return Err(format!("reads at {p}, before the place {base} where the stream begins"));
    }
    rd.pos = base;
    let times = sut("decoding far times", || {
        if behind {
            pdec::times_from(BufReader::with_capacity(cap, &mut rd), n + 2)
        } else {
            pdec::times_from(&mut rd, n + 2)
        }
    })?;
    let got: Result<Vec<_>, _> = times.into_iter().collect();
    if got.as_ref() != Ok(&want) {
        return Err(format!("times are {got:?}, encoded {want:?}"));
    }
    if let Some(p) = rd.outside {
        return Err(format!("reads at {p}, before the place {base} where the stream begins"));
    }
    ctx.ev(2 * n as u64);
    ctx.max("length of a .sup", end);
    ctx.max("place of a .sup", base);
    ctx.nt(base ^ end << 1 ^ fnv(format!("{want:?}").as_bytes()));
    Ok(())
}
/// Texts of very many entries, and very long ones.
fn texts(ctx: &mut Ctx, i: u64) -> R {
    let k = ctx.r.range(3, 40);
    let base = gen_list(&mut ctx.r, k, false);
    let n = match (i % 4, ctx.tier) {
        (0, Tier::Thorough) => 1_000_000 + ctx.r.below(100_000),
        (0 | 1, _) => 65_530 + ctx.r.below(100_000),
        _ => many(&mut ctx.r, 1),
    };
    let mut list: Vec<_> = (0..n)
        .map(|_| {
            let (t, x) = ctx.r.pick(&base);
            (*t, if x.len() > 60 { String::from("short\nline") } else { x.clone() })
        })
        .collect();
    if i % 4 == 3 {
        let x = "many lines, and long ones: ÄÖÜ 字幕\n".repeat(ctx.r.range(1_000, 100_000));
        let at = ctx.r.below(list.len());
        list[at].1 = x;
    }
    ctx.detail(|| format!("{n} entries"));
    ctx.sample(|| format!("{n} entries"));
    let mut o = vec![];
    sut("write_srt", || srt::write_srt(&mut o, &list))?.map_err(|e| format!("write_srt into memory: {e}"))?;
    let want = srt_want(&list);
    if o != want {
        let at = o.iter().zip(&want).take_while(|(a, b)| a == b).count();
        let part = |b: &[u8]| String::from_utf8_lossy(&b[at.saturating_sub(40).min(b.len())..(at + 60).min(b.len())]).into_owned();
        return Err(format!("write_srt of {n} entries: differs at byte {at}: {:?}, expected {:?}", part(&o), part(&want)));
    }
    o.clear();
    sut("write_line", || list.iter().try_for_each(|(t, x)| webvtt::write_line(&mut o, t, x)))?.map_err(|e| format!("write_line into memory: {e}"))?;
    let want: String = list.iter().map(|(t, x)| vtt_block(t, x)).collect();
    if o != want.as_bytes() {
        return Err(format!("write_line of {n} entries: other text than expected"));
    }
    ctx.ev(2 * n as u64);
    ctx.max("entries of a text", n as u64);
    ctx.nt(fnv(&o));
    Ok(())
}
fn index(ctx: &mut Ctx, i: u64) -> R {
    let pal = gen_palette(&mut ctx.r);
    let line = line_of(&mut ctx.r, &pal);
    let (line, pal) = if i % 5 == 4 { (None, None) } else { (Some(line), Some(pal)) };
    let t = gen_idx(&mut ctx.r, line, pal);
    let r = &mut ctx.r;
    let kind = i % 3;
    let fill = |r: &mut Rng, n: usize| -> Vec<u8> {
        match kind {
            0 => (0..n).flat_map(|j| format!("timestamp: {:02}:{:02}:{:02}:{:03}, filepos: {:09x}\n", j / 3600 % 100, j / 60 % 60, j % 60, r.below(1000), j * 2048).into_bytes()).collect(),
            1 => {
                // one line of a megabyte
                let mut v = b"# ".to_vec();
                v.resize(n * 20 + 2, b'x');
                v.push(b'\n');
                v
            }
            _ => std::iter::repeat_n(b"\n# \r\n".to_vec(), n).flatten().collect(),
        }
    };
    let n = if i % 8 == 0 { 100_000 } else { r.range(1_000, 70_000) };
    let m = r.range(0, 70_000);
    let mut b = fill(r, n);
    b.extend(&t.text);
    b.push(b'\n');
    b.extend(fill(r, m));
    let p = ctx.file("long.idx", &b);
    ctx.detail(|| format!("{} bytes, in between {:?}", b.len(), String::from_utf8_lossy(&t.text)));
    ctx.sample(|| format!("{} bytes, {n} fillers before and {m} after", b.len()));
    let got = sut("Index::open", || {
        Index::open(&p).map(|i| (i.palette().iter().map(|c| c.0).collect::<Vec<_>>(), i.lang().as_ref().map(|l| l.lang().to_string())))
    })?
    .map_err(|e| format!("Index::open of {} bytes gives {e:?}", b.len()))?;
    if got != t.want {
        return Err(format!("Index::open of {} bytes gives {got:?}, written {:?}", b.len(), t.want));
    }
    ctx.ev(1);
    ctx.max("bytes of an .idx", b.len() as u64);
    ctx.nt(fnv(&b));
    Ok(())
}
/// Dumps of more images than usual.
fn dumps(ctx: &mut Ctx, i: u64) -> R {
    let n = match i {
        16 => 70_000,
        0 => 10_000 + ctx.r.below(4_000),
        _ => 1_000 + ctx.r.below(4_000),
    };
    let dir = ctx.scratch.join("x18");
    let _ = fs::remove_dir_all(&dir);
    let base: Vec<GrayImage> = (0..5)
        .map(|_| {
            let (w, h) = (ctx.r.range(1, 4) as u32, ctx.r.range(1, 4) as u32);
            GrayImage::from_raw(w, h, ctx.r.bytes((w * h) as usize)).expect("harness: image")
        })
        .collect();
    let order: Vec<usize> = (0..n).map(|_| ctx.r.below(base.len())).collect();
    ctx.detail(|| format!("{n} images"));
    ctx.sample(|| format!("{n} images"));
    sut("dump_images", || dump_images(dir.to_str().expect("harness: scratch"), order.iter().map(|k| &base[*k])))?
        .map_err(|e| format!("dump of {n} images: {e}"))?;
    // (equal images make equal files)
    let mut known: HashMap<Vec<u8>, usize> = HashMap::new();
    for (j, k) in order.iter().enumerate() {
        let p = dir.join(format!("{j:06}.png"));
        let b = fs::read(&p).map_err(|e| format!("image {j} of {n}: {e}"))?;
        if known.get(&b) != Some(k) {
            let x = image::load_from_memory(&b).map_err(|e| format!("image {j} of {n}: {e}"))?;
            if x.to_luma8() != base[*k] {
                return Err(format!("image {j} of {n} is another one"));
            }
            known.insert(b, *k);
        }
    }
    let count = fs::read_dir(&dir).expect("harness: listing").count();
    if count != n {
        return Err(format!("{count} files for {n} images"));
    }
    let _ = fs::remove_dir_all(&dir);
    ctx.ev(n as u64);
    ctx.max("images of a dump", n as u64);
    ctx.nt(fnv(format!("{order:?}").as_bytes()));
    Ok(())
}
