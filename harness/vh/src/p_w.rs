//! Properties X15..X18: reach of a call, depth of the stack, calls out and in again, long films.
use crate::fw::{mem, st, sut, Ctx, StreamDef, R};
use crate::hostile;
use crate::pdec;
use crate::p_time::gen_list;
use crate::p_vob::{gen_idx_bytes, gen_idx_ok, gen_ocr};
use crate::p_x::{family, idx_shot, pshot, same_shots, tshot, vh_decode_work, vshot, x04_geometry, Shot, FAMILIES};
use crate::trace::{traced, Call, State, BEYOND};
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fs;
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom, Write};
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::{Arc, Barrier};
use subtile::image::{dump_images, GrayImage, ToImage as _, ToOcrImage as _, ToOcrImageOpt};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsDecoder, PgsError, RleToImage, SupParser};
use subtile::content::{Area, AreaValues};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{conv_to_rgba, is_idx_file, is_sub_file, Index, Sub, VobSubError, VobSubIndexedImage, VobSubToImage};
use subtile::{srt, webvtt};
use vhcore::io::{Plan, Probe};
use vhcore::pgs;
use vhcore::rng::Rng;
use vhcore::util::{fnv, hex};
use vhcore::vob;

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "X15" => vec![
            st("read", 4_000, 120_000, x15_read),
            st("dump", 3_000, 90_000, x15_dump),
            st("memory", 2_000, 60_000, x15_memory),
        ],
        "X16" => vec![
            st("families", 104, 2_600, x16_families),
            st("large", 96, 2_400, x16_large),
            st("hostile", 1_500, 60_000, x16_hostile),
        ],
        "X17" => vec![
            st("panics", 6_000, 200_000, x17_panics),
            st("nested", 6_000, 200_000, x17_nested),
        ],
        _ => return None,
    })
}

// ---------------------------------------------------------------- X15

/// Whether the two paths name the same file, or, when there is none, are spelled the same.
fn same_file(a: &Path, b: &Path) -> bool {
    match (fs::canonicalize(a), fs::canonicalize(b)) {
        (Ok(x), Ok(y)) => x == y,
        (Err(_), Err(_)) => a == b || a.components().eq(b.components()),
        _ => false,
    }
}
/// (files that are the system's, not the user's)
fn of_the_system(p: &Path) -> bool {
    ["/proc", "/sys", "/dev/urandom", "/dev/random", "/etc/localtime"].iter().any(|x| p.starts_with(x))
}
fn beyond(calls: &[Call]) -> R {
    for c in calls {
        if BEYOND.contains(&c.name) {
            return Err(format!("makes the system call {} ({}) {}", c.name, c.nr, c.path.as_ref().map_or(String::new(), |p| format!("{p:?}"))));
        }
    }
    Ok(())
}
/// Only opens of the given files, for reading.
fn only_reads(calls: &[Call], given: &[&Path]) -> R {
    beyond(calls)?;
    for c in calls {
        let Some(p) = &c.path else { continue };
        if c.name != "open" {
            return Err(format!("{} of {p:?}, though it is only to read {given:?}", c.name));
        }
        let w = libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND;
        if c.flags & w != 0 {
            return Err(format!("opens {p:?} for writing (flags {:o}), though it is only to read {given:?}", c.flags));
        }
        if !given.iter().any(|g| same_file(g, p)) && !of_the_system(p) {
            return Err(format!("opens {p:?}, given was {given:?}"));
        }
    }
    Ok(())
}
fn folder(p: PathBuf) -> PathBuf {
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).expect("harness: folder");
    p
}
/// Everything below a folder: what it is and holds.
fn listing(root: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in fs::read_dir(&d).expect("harness: listing").flatten() {
            let p = e.path();
            let t = e.file_type().expect("harness: type");
            if t.is_dir() {
                todo.push(p.clone());
                out.insert(p, b"a folder".to_vec());
            } else if t.is_symlink() {
                out.insert(p.clone(), format!("a link to {:?}", fs::read_link(&p)).into_bytes());
            } else {
                out.insert(p.clone(), fs::read(&p).unwrap_or_default());
            }
        }
    }
    out
}
fn differences(before: &BTreeMap<PathBuf, Vec<u8>>, after: &BTreeMap<PathBuf, Vec<u8>>) -> Option<String> {
    for (p, b) in after {
        match before.get(p) {
            None => return Some(format!("{p:?} exists afterwards")),
            Some(x) if x != b => return Some(format!("{p:?} has other contents afterwards")),
            _ => {}
        }
    }
    before.keys().find(|p| !after.contains_key(*p)).map(|p| format!("{p:?} is gone afterwards"))
}
/// Reading entry points on files with neighbours, and on paths that cannot be read.
fn x15_read(ctx: &mut Ctx, _: u64) -> R {
    let dir = folder(ctx.scratch.join("x15-read"));
    let r = &mut ctx.r;
    let stem = r.word().map_or("film".to_string(), |w| w.replace(['/', '\0'], ""));
    let stem = if stem.is_empty() || stem.len() > 100 { "film".to_string() } else { stem };
    let ext = *r.pick(&["sub", "idx", "sup", "srt", "mks", ""]);
    let name = if ext.is_empty() { stem.clone() } else { format!("{stem}.{ext}") };
    let p = dir.join(&name);
    let content = match r.below(6) {
        0 => hostile::vob_any(r),
        1 => hostile::vob_valid(r, 3),
        2 => hostile::pgs_any(r),
        3 => hostile::pgs_valid(r, 3),
        4 => gen_idx_ok(r),
        _ => gen_idx_bytes(r),
    };
    let mut content = content;
    if r.chance(1, 5) {
        // more than buffers hold
        let more = if r.bool() { content.len() } else { 0 };
        let n = r.range(60_000, 300_000);
        let fill = if r.bool() { b'\n' } else { 0 };
        let more = content[..more].to_vec();
        content.extend(std::iter::repeat_n(fill, n).chain(more));
    }
    // neighbours a reader might be tempted by
    for e in ["sub", "idx", "sup", "srt", "ifo", "lock", "tmp", "bak", "log"] {
        if r.bool() {
            let n = if r.bool() { format!("{stem}.{e}") } else { format!("{name}.{e}") };
            let c = if r.bool() { gen_idx_ok(r) } else { hostile::vob_valid(r, 1) };
            fs::write(dir.join(n), c).expect("harness: file");
        }
    }
    let state = r.below(8);
    match state {
        0 => {
            let _ = fs::remove_file(&p);
        }
        1 => {
            let _ = fs::remove_file(&p);
            fs::create_dir(&p).expect("harness: folder");
        }
        2 => {
            let _ = fs::remove_file(&p);
            fs::write(dir.join("elsewhere"), &content).expect("harness: file");
            std::os::unix::fs::symlink("elsewhere", &p).expect("harness: link");
        }
        _ => fs::write(&p, &content).expect("harness: file"),
    }
    let given = if state == 0 && r.bool() { dir.join("no/such").join(&name) } else { p.clone() };
    let how = r.below(6);
    let take = if r.bool() { usize::MAX } else { r.below(3) };
    ctx.detail(|| format!("entry point {how} on {given:?} (state {state}), {take} items, content {}", hex(&content, 4000)));
    ctx.sample(|| format!("entry point {how}, file state {state}, {} bytes", content.len()));
    let limit = take.min(content.len() + 3);
    let before = (State::now(), listing(&dir));
    let g: &Path = &given;
    let (res, calls) = traced(&ctx.scratch, move || {
        sut("reading a file", || match how {
            0 => u64::from(is_idx_file(g).is_ok()),
            1 => u64::from(is_sub_file(g).is_ok()),
            2 => idx_shot(Index::open(g)).0,
            3 => match Sub::open(g) {
                Ok(s) => s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(limit).map(vshot).fold(1, |a, x| a ^ x.0),
                Err(_) => 0,
            },
            4 => match SupParser::<BufReader<fs::File>, DecodeTimeImage>::from_file(g) {
                Ok(s) => s.take(limit).map(pshot).fold(1, |a, x| a ^ x.0),
                Err(_) => 0,
            },
            _ => match SupParser::<BufReader<fs::File>, DecodeTimeOnly>::from_file(g) {
                Ok(s) => s.take(limit).map(tshot).fold(1, |a, x| a ^ x.0),
                Err(_) => 0,
            },
        })
    });
    let what = ["is_idx_file", "is_sub_file", "Index::open", "Sub::open", "SupParser (pictures)", "SupParser (times)"][how];
    only_reads(&calls, &[g]).map_err(|e| format!("{what}: {e}"))?;
    res?;
    if let Some(d) = before.0.changed() {
        return Err(format!("{what}: {d}"));
    }
    if let Some(d) = differences(&before.1, &listing(&dir)) {
        return Err(format!("{what}: {d}"));
    }
    ctx.ev(3);
    ctx.c("system calls judged", calls.len() as u64);
    ctx.c(&format!("{what}: calls judged"), calls.len() as u64);
    if !calls.is_empty() {
        ctx.nt(fnv(&content) ^ how as u64);
    }
    Ok(())
}
fn gen_gray(r: &mut Rng) -> GrayImage {
    let (w, h) = (r.range(1, 20) as u32, r.range(1, 20) as u32);
    let v = r.bytes((w * h) as usize);
    GrayImage::from_raw(w, h, v).expect("harness: image")
}
/// Image dumps into folders of every kind.
fn x15_dump(ctx: &mut Ctx, _: u64) -> R {
    let root = folder(ctx.scratch.join("x15-dump"));
    let r = &mut ctx.r;
    let deep = ["", "a", "a/b", "a/b c/d"][r.below(4)];
    let out = if deep.is_empty() { root.clone() } else { root.join(deep) };
    let n = r.skewed(0, 5);
    let exists = r.bool();
    let mut blocked = None;
    if exists {
        fs::create_dir_all(&out).expect("harness: folder");
        // what is there already
        for _ in 0..r.below(6) {
            let name = match r.below(7) {
                0 => format!("{:06}.png", r.below(12)),
                1 => format!("{}.png", r.below(12)),
                2 => "index.html".to_string(),
                3 => "000000.png.tmp".to_string(),
                4 => ".000001.png".to_string(),
                5 => format!("{:06}.jpg", r.below(3)),
                _ => "Thumbs.db".to_string(),
            };
            let b = r.bytes(30);
            fs::write(out.join(name), b).expect("harness: file");
        }
        if r.chance(1, 4) && n > 0 {
            let k = r.below(n);
            let p = out.join(format!("{k:06}.png"));
            let _ = fs::remove_file(&p);
            fs::create_dir(&p).expect("harness: folder");
            blocked = Some(k);
        }
    } else if r.chance(1, 6) && !deep.is_empty() {
        // a file where the folder should be
        fs::write(root.join("a"), b"x").expect("harness: file");
        blocked = Some(usize::MAX);
    }
    // a neighbour
    fs::write(root.join("film.sub"), b"other").expect("harness: file");
    let mut imgs: Vec<GrayImage> = vec![];
    for k in 0..n {
        // sometimes the one before again
        let i = if k > 0 && r.chance(1, 3) { imgs[r.below(k)].clone() } else { gen_gray(r) };
        imgs.push(i);
    }
    ctx.detail(|| format!("{n} images into {out:?}, exists: {exists}, blocked {blocked:?}"));
    ctx.sample(|| format!("{n} images into {deep:?}, exists: {exists}, blocked {blocked:?}"));
    let before = (State::now(), listing(&root));
    let o = out.to_str().expect("harness: scratch").to_string();
    let (res, calls) = traced(&ctx.scratch, || sut("dump_images", || dump_images(&o, imgs.iter()).is_ok()));
    beyond(&calls)?;
    // the images up to the first that cannot be written
    let m = match blocked {
        None => n,
        Some(usize::MAX) => 0,
        Some(k) => k + 1,
    };
    let mine: Vec<PathBuf> = (0..m).map(|k| out.join(format!("{k:06}.png"))).collect();
    for c in &calls {
        let Some(p) = &c.path else { continue };
        let ok = match c.name {
            "open" if of_the_system(p) => true,
            "open" => mine.contains(p) || *p == out,
            "mkdir" => out.starts_with(p) && p.starts_with(&root),
            _ => false,
        };
        if !ok {
            return Err(format!("{} of {p:?} (flags {:o}) while {n} images are dumped into {out:?}", c.name, c.flags));
        }
    }
    if res? == blocked.is_some() && !(n == 0 && blocked.is_some_and(|k| k != usize::MAX)) {
        return Err(format!("blocked {blocked:?}, but success is {}", blocked.is_some()));
    }
    if let Some(d) = before.0.changed() {
        return Err(format!("dump_images: {d}"));
    }
    let mut after = listing(&root);
    let mut was = before.1;
    for (k, p) in mine.iter().enumerate() {
        if blocked != Some(k) {
            was.remove(p);
            if after.remove(p).is_none() {
                return Err(format!("{p:?} is missing after {n} images were dumped into {out:?}"));
            }
        }
    }
    // folders that had to be made
    let mut d = out.as_path();
    while d != root && blocked != Some(usize::MAX) {
        was.entry(d.to_path_buf()).or_insert_with(|| b"a folder".to_vec());
        d = d.parent().expect("harness: parent");
    }
    if let Some(d) = differences(&was, &after) {
        return Err(format!("{n} images dumped into {out:?}: {d}"));
    }
    ctx.ev(3 + n as u64);
    ctx.c("system calls judged", calls.len() as u64);
    ctx.c("images dumped", m as u64);
    ctx.nt(fnv(format!("{:?} {:?}", calls.iter().map(|c| (c.name, &c.path)).collect::<Vec<_>>(), listing(&root).len()).as_bytes()));
    Ok(())
}
/// Everything that is given no file.
fn x15_memory(ctx: &mut Ctx, i: u64) -> R {
    let k = i % 5;
    let (b, l, ocr, seed) = (
        match k {
            0 => hostile::vob_any(&mut ctx.r),
            1 | 2 => hostile::pgs_any(&mut ctx.r),
            _ => gen_idx_bytes(&mut ctx.r),
        },
        gen_list(&mut ctx.r, 5, false),
        gen_ocr(&mut ctx.r),
        ctx.r.u64(),
    );
    let p = ctx.file("memory.sub", &b);
    let sub = if k == 0 { Sub::open(&p).ok() } else { None };
    ctx.detail(|| format!("kind {k}, content {}", hex(&b, 4000)));
    let before = State::now();
    let limit = b.len() + 3;
    let what = ["decoding and rendering an open .sub", "decoding and rendering a .sup", "decoding the times of a .sup", "reading an .idx text", "writing text"]
        [k as usize];
    let scratch = ctx.scratch.clone();
    let (res, calls) = traced(&scratch, || {
        sut(what, || match k {
            0 => {
                let pal = *Index::init([image::Rgb([1, 2, 3]); 16], None).palette();
                for (_, x) in sub.iter().flat_map(|s| s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(limit)).flatten() {
                    let i = VobSubToImage::new(&x, &pal, conv_to_rgba).to_image();
                    std::hint::black_box(i.len());
                }
            }
            1 => {
                for (_, x) in SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b[..])).take(limit).flatten() {
                    if x.iter().len() < 1 << 20 {
                        let i = RleToImage::new(&x, |p: image::LumaA<u8>| image::Luma([p.0[0]])).image(&ocr);
                        std::hint::black_box(i.len());
                    }
                }
            }
            2 => {
                std::hint::black_box(SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&b[..])).take(limit).count());
            }
            3 => {
                let mk = |e: std::io::Error| subtile::vobsub::VobSubError::Parse(e.to_string());
                std::hint::black_box(Index::read_index(BufReader::new(&b[..]), &mk).is_ok());
            }
            _ => {
                let mut o = vec![];
                let _ = subtile::srt::write_srt(&mut o, &l);
                for (t, x) in &l {
                    let _ = subtile::webvtt::write_line(&mut o, t, x);
                }
                std::hint::black_box(o.len());
            }
        })
    });
    only_reads(&calls, &[]).map_err(|e| format!("{what}: {e}"))?;
    res?;
    if let Some(d) = before.changed() {
        return Err(format!("{what}: {d}"));
    }
    if k == 4 {
        ctx.r = Rng::plain(seed);
        x04_geometry(ctx, i)?;
    }
    ctx.ev(2);
    ctx.c("calls without files", 1);
    ctx.nt(fnv(&b));
    Ok(())
}

// ---------------------------------------------------------------- X16

const PAINT: u64 = 0x5afe_57ac_c0de_d00d;
/// Fills the unused part of this thread's stack; the lowest address and how far it was filled.
#[inline(never)]
fn paint() -> (usize, usize) {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        assert_eq!(libc::pthread_getattr_np(libc::pthread_self(), &mut a), 0, "harness: stack");
        let (mut lo, mut size, mut guard) = (std::ptr::null_mut(), 0usize, 0usize);
        libc::pthread_attr_getstack(&a, &mut lo, &mut size);
        libc::pthread_attr_getguardsize(&a, &mut guard);
        libc::pthread_attr_destroy(&mut a);
        let here = 0u8;
        let lo = lo as usize + guard;
        let hi = (std::ptr::addr_of!(here) as usize - 512) & !7;
        let mut p = lo;
        while p < hi {
            (p as *mut u64).write_volatile(PAINT);
            p += 8;
        }
        (lo, hi)
    }
}
/// Lowest address that is painted no more.
#[inline(never)]
fn deepest(lo: usize, hi: usize) -> usize {
    let mut p = lo;
    while p < hi && unsafe { (p as *const u64).read_volatile() } == PAINT {
        p += 8;
    }
    p
}
/// Bytes of stack that `f` needs. (The stack has half a megabyte; using it up ends the process.)
fn stack_of(f: impl FnOnce() -> R + Send) -> Result<usize, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(512 << 10)
            .spawn_scoped(s, || {
                let (lo, hi) = paint();
                let r = sut("a call on a thread of its own", f);
                let used = hi - deepest(lo, hi);
                r?.map(|()| used)
            })
            .expect("harness: thread")
            .join()
            .unwrap_or_else(|_| Err("harness: thread".into()))
    })
}
/// The same contents at a length and at 32 times that length.
fn grows(ctx: &mut Ctx, what: &str, f: impl Fn(usize) -> R + Sync, n: usize) -> R {
    // once before, for what is only needed the first time
    stack_of(|| f(n))?;
    let a = stack_of(|| f(n))?;
    let b = stack_of(|| f(32 * n))?;
    ctx.ev(2);
    ctx.max(&format!("stack bytes, {what}"), a.max(b) as u64);
    ctx.max("stack bytes", a.max(b) as u64);
    if b > a + 12_000 {
        return Err(format!("{what}: length {n} needs {a} bytes of stack, length {} needs {b}", 32 * n));
    }
    if a.max(b) > 200_000 {
        return Err(format!("{what}: needs {} bytes of stack", a.max(b)));
    }
    Ok(())
}
fn x16_families(ctx: &mut Ctx, i: u64) -> R {
    let name = FAMILIES[i as usize % FAMILIES.len()];
    let n = ctx.r.range(24, 40);
    let times = i as usize / FAMILIES.len() % 2 == 1;
    let seed = ctx.r.u64();
    let contents = [family(name, n, seed), family(name, 32 * n, seed)];
    let files = [ctx.file("short", &contents[0]), ctx.file("long", &contents[1])];
    ctx.detail(|| format!("{name}, n {n}, seed {seed}, times {times}"));
    ctx.sample(|| format!("{name}: {} and {} bytes", contents[0].len(), contents[1].len()));
    ctx.nt(fnv(&contents[0]));
    let vob = name.starts_with("vob");
    let work = |k: usize| -> R {
        let k = usize::from(k != n);
        vh_decode_work(vob, &files[k], &contents[k], times);
        Ok(())
    };
    grows(ctx, &format!("{name}{}", if times { ", times" } else { "" }), work, n)
}
/// One large subtitle, picture, index, list.
fn x16_large(ctx: &mut Ctx, i: u64) -> R {
    let seed = ctx.r.u64();
    let n = ctx.r.range(8, 14);
    let k = i % 12;
    let what = [
        "control sequences", "rows of a VobSub picture", "codes in a row", "packets of a subtitle", "codes of a PGS picture", "palette entries",
        "lines of an .idx", "a long line of an .idx", "subtitles written", "lines of a text", "images dumped", "pixels rendered",
    ][k as usize];
    ctx.sample(|| format!("{what}: {n} and {}", 32 * n));
    ctx.nt(seed);
    let dir = folder(ctx.scratch.join("x16"));
    let vob_file = |spu: &[u8], cuts: Vec<usize>| {
        let mut r = Rng::plain(seed);
        let mut st = vob::Stream::default();
        st.add(&mut r, spu, Some(1000), &vob::Fragmenting { cuts, ..vob::whole() });
        st.bytes
    };
    let make: Box<dyn Fn(usize) -> Vec<u8> + Sync> = match k {
        0 => Box::new(move |n| {
            // a chain of control sequences
            let mut p = vec![0, 0, 0, 8, 0x56, 0x56, 0x56, 0x56];
            let at = |k: usize| ((8 + 6 * k) as u16).to_be_bytes();
            let mut r = Rng::plain(seed);
            // (alternately commands of any kind, or one kind only)
            let only = [None, Some(0u8), Some(0xff), Some(2), Some(0x77)][(seed >> 7) as usize % 5];
            for j in 0..n {
                p.extend([0, 1]);
                p.extend(at(j + 1));
                let c = only.unwrap_or_else(|| *r.pick(&[0, 1, 2, 0xff, 0x77, 0x08]));
                p.extend([c, 0xff]);
            }
            let here = at(n);
            p.extend([0, 2]);
            p.extend(here);
            p.extend([1, 3, 1, 2, 4, 3, 4]);
            p.extend(vob::cmd_area(&[0, 0, 3, 1]));
            p.extend(vob::cmd_rle([4, 6]));
            p.push(0xff);
            p.resize(p.len() + p.len() % 2, 0xff);
            let l = (p.len() as u16).to_be_bytes();
            p[..2].copy_from_slice(&l);
            vob_file(&p, vec![])
        }),
        1 | 2 => Box::new(move |n| {
            let (w, h) = if k == 1 { (8, n.min(1000)) } else { (2 * n.min(1000), 8) };
            let mut data = vec![];
            // single pixels: two codes of four bits per byte
            for _ in 0..w * h.div_ceil(2) / 2 {
                data.push(0x56);
            }
            let mut p = vec![0, 0, 0, 0];
            p.extend(&data);
            let f = data.len();
            p.extend(&data);
            let c = p.len();
            p[2..4].copy_from_slice(&(c as u16).to_be_bytes());
            p.extend([0, 1]);
            p.extend((c as u16).to_be_bytes());
            p.extend([1, 3, 1, 2, 4, 3, 4]);
            p.extend(vob::cmd_area(&[0, 0, w as u16 - 1, h as u16 - 1]));
            p.extend(vob::cmd_rle([4, 4 + f as u16]));
            p.push(0xff);
            p.resize(p.len() + p.len() % 2, 0xff);
            let l = (p.len() as u16).to_be_bytes();
            p[..2].copy_from_slice(&l);
            vob_file(&p, vec![])
        }),
        3 => Box::new(move |n| {
            let mut r = Rng::plain(seed);
            let (_, p, _) = vob::gen_small_spu(&mut r);
            // what follows the control sequences is ignored
            let mut b = p.bytes.clone();
            b.resize(b.len() + 40 * n, 0xff);
            let l = (b.len() as u16).to_be_bytes();
            b[..2].copy_from_slice(&l);
            vob_file(&b, (1..n).map(|j| 3 + 30 * j).collect())
        }),
        4 | 5 => Box::new(move |n| {
            let mut r = Rng::plain(seed);
            let mut s = pgs::gen_sub_dims(&mut r, 4, 4);
            if k == 4 {
                s.pic.w = n;
                s.pic.h = 8;
                s.rle = (0..8).flat_map(|_| std::iter::repeat(7u8).take(n).chain([0, 0])).collect();
                s.split = None;
            } else {
                s.pal = (0..n.min(250)).map(|j| [j as u8, 90, 128, 128, 255]).collect();
            }
            let mut t = pgs::Stream::default();
            t.add(&mut r, &s, pgs::PLAIN);
            t.bytes
        }),
        6 => Box::new(move |n| {
            let mut t = b"# VobSub index file, v7\n".to_vec();
            let line = |k: u64, j: usize| match k {
                0 => format!("timestamp: 00:00:{:02}:000, filepos: {j:09x}\n", j % 60),
                1 => format!("other key: {j}\n"),
                2 => "# a comment\n".to_string(),
                3 => "\n".to_string(),
                4 => "\r\n".to_string(),
                5 => format!("no key {j}\n"),
                6 => "id: fr, index: 3\n".to_string(),
                _ => format!("palette: {}\n", ["00ff7e"; 16].join(", ")),
            };
            let only = [None, Some(0), Some(2), Some(3), Some(5), Some(6), Some(7), Some(1), Some(4)][(seed >> 7) as usize % 9];
            for j in 0..n {
                let k = only.unwrap_or(j as u64 % 8);
                t.extend(line(k, j).bytes());
                t.extend(line(k, j).bytes());
            }
            t.extend(b"id: en, index: 0\n");
            t
        }),
        7 => Box::new(move |n| {
            let mut t = b"# VobSub index file, v7\nsize: ".to_vec();
            t.extend(std::iter::repeat(b"720x576, ").take(n * 20).flatten());
            t.extend(b"\nid: en, index: ");
            t.extend(std::iter::repeat(b'7').take(n * 20));
            t.push(b'\n');
            t
        }),
        _ => Box::new(|_| vec![]),
    };
    let files: BTreeMap<usize, (PathBuf, Vec<u8>)> = [n, 32 * n]
        .into_iter()
        .map(|m| {
            let b = make(m);
            (m, (ctx.file(&format!("x16-{m}"), &b), b))
        })
        .collect();
    let dir = dir.to_str().expect("harness: scratch").to_string();
    let seen = std::sync::Mutex::new(BTreeMap::new());
    let work = |m: usize| -> R {
        let (p, b) = &files[&m];
        let got = match k {
            0..=3 => {
                let s = Sub::open(p).map_err(|e| format!("opening: {e}"))?;
                let mut v = 0;
                for x in s.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
                    let (_, i) = x.map_err(|e| format!("{what}: {e:?}"))?;
                    let pal = [image::Rgb([9, 9, 9]); 16];
                    v += VobSubToImage::new(&i, &pal, conv_to_rgba).to_image().len();
                }
                v
            }
            4 | 5 => {
                let mut v = 0;
                for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b[..])) {
                    let (_, i) = x.map_err(|e| format!("{what}: {e:?}"))?;
                    v += RleToImage::new(&i, |p: image::LumaA<u8>| p).to_image().len();
                }
                v
            }
            6 | 7 => Index::open(p).map_err(|e| format!("{what}: {e:?}"))?.lang().as_ref().map_or(0, |l| l.lang().len()),
            8 | 9 => {
                let t = TimeSpan::new(TimePoint::from_msecs(5), TimePoint::from_msecs(6));
                let l: Vec<(TimeSpan, String)> =
                    if k == 8 { (0..m).map(|j| (t, format!("text {j}"))).collect() } else { vec![(t, "a line\n".repeat(m))] };
                let mut o = vec![];
                srt::write_srt(&mut o, &l).map_err(|e| e.to_string())?;
                for (t, x) in &l {
                    webvtt::write_line(&mut o, t, x).map_err(|e| e.to_string())?;
                }
                o.len()
            }
            10 => {
                let i = GrayImage::new(2, 2);
                dump_images(&dir, std::iter::repeat(&i).take(m / 2)).map_err(|e| e.to_string())?;
                m
            }
            _ => {
                let raw = vec![1u8; m * m];
                let a = Area::try_from(AreaValues { x1: 0, y1: 0, x2: m as u16 - 1, y2: m as u16 - 1 }).map_err(|e| e.to_string())?;
                let i = VobSubIndexedImage::new(a, [0, 1, 2, 3], [15; 4], raw);
                let pal = [image::Rgb([9, 9, 9]); 16];
                VobSubToImage::new(&i, &pal, conv_to_rgba).to_image().len()
            }
        };
        seen.lock().expect("harness: lock").insert(m, got);
        Ok(())
    };
    grows(ctx, what, work, n)?;
    let seen = seen.into_inner().expect("harness: lock");
    if seen.values().any(|v| *v == 0) {
        return Err(format!("harness: {what} gave nothing: {seen:?}"));
    }
    Ok(())
}
/// Hostile contents of moderate size.
fn x16_hostile(ctx: &mut Ctx, i: u64) -> R {
    let b = match i % 3 {
        0 => hostile::vob_any(&mut ctx.r),
        1 => hostile::pgs_any(&mut ctx.r),
        _ => gen_idx_bytes(&mut ctx.r),
    };
    let p = ctx.file("x16-hostile", &b);
    ctx.detail(|| format!("content {}", hex(&b, 6000)));
    let k = i % 3;
    let used = stack_of(|| {
        match k {
            0 | 1 => {
                vh_decode_work(k == 0, &p, &b, false);
            }
            _ => {
                let _ = Index::open(&p);
            }
        }
        Ok(())
    })?;
    ctx.ev(1);
    ctx.max("stack bytes on hostile content", used as u64);
    ctx.nt(fnv(&b));
    if used > 200_000 {
        return Err(format!("{} bytes of content need {used} bytes of stack", b.len()));
    }
    Ok(())
}

// ---------------------------------------------------------------- X17

thread_local! {
    /// Calls out of the crate so far, and the one at which something happens.
    static OUTS: Cell<u64> = const { Cell::new(0) };
    static FIRE: Cell<Option<u64>> = const { Cell::new(None) };
    /// What happens then; without it, a panic.
    static INSIDE: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
    /// Results that came out before.
    static SO_FAR: RefCell<Vec<Shot>> = const { RefCell::new(vec![]) };
    static WRITTEN: RefCell<Vec<u8>> = const { RefCell::new(vec![]) };
    static GIVEN: Cell<(usize, bool)> = const { Cell::new((0, false)) };
}
struct Marker(u64);
/// Called by everything of the caller that the crate calls.
fn out() {
    let n = OUTS.get();
    OUTS.set(n + 1);
    if FIRE.get() == Some(n) {
        FIRE.set(None);
        match INSIDE.take() {
            Some(f) => f(),
            None => std::panic::resume_unwind(Box::new(Marker(n))),
        }
    }
}
struct OutReader(Probe);
impl Read for OutReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        out();
        self.0.read(b)
    }
}
impl BufRead for OutReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        out();
        self.0.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.0.consume(n);
    }
}
impl Seek for OutReader {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        out();
        self.0.seek(to)
    }
}
struct OutWriter(usize);
impl Write for OutWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        out();
        let n = b.len().min(self.0);
        WRITTEN.with(|w| w.borrow_mut().extend(&b[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        out();
        Ok(())
    }
}
struct OutColor(image::Rgb<u8>);
impl Clone for OutColor {
    fn clone(&self) -> Self {
        out();
        Self(self.0)
    }
}
fn out_conv(c: OutColor, a: u8) -> image::Rgba<u8> {
    out();
    conv_to_rgba(c.0, a)
}
struct OutImage(GrayImage);
impl Borrow<GrayImage> for OutImage {
    fn borrow(&self) -> &GrayImage {
        out();
        &self.0
    }
}
#[derive(Clone)]
struct OutPath(PathBuf);
impl AsRef<Path> for OutPath {
    fn as_ref(&self) -> &Path {
        out();
        &self.0
    }
}
struct OutDecoder;
impl PgsDecoder for OutDecoder {
    type Output = Vec<u8>;
    fn parse_next<Rd: BufRead + Seek>(rd: &mut Rd) -> Result<Option<Vec<u8>>, PgsError> {
        out();
        let mut v = vec![0; 7];
        let mut n = 0;
        while n < v.len() {
            match rd.read(&mut v[n..]) {
                Ok(0) => break,
                Ok(k) => n += k,
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(source) => return Err(PgsError::Io { source, path: "x".into() }),
            }
        }
        v.truncate(n);
        Ok((n > 0).then_some(v))
    }
}
#[derive(Clone)]
struct Act {
    kind: usize,
    bytes: Arc<Vec<u8>>,
    path: PathBuf,
    dir: PathBuf,
    list: Vec<(TimeSpan, String)>,
    images: Vec<GrayImage>,
    ocr: ToOcrImageOpt,
    plan: Plan,
    piece: usize,
}
const ACTS: [&str; 11] = [
    "SupParser (pictures) on a reader", "SupParser (times) on a reader", "Index::read_index", "VobSubToImage", "RleToImage::to_image",
    "RleToImage::image", "SupParser with a decoder of the caller", "write_srt", "webvtt::write_line", "dump_images", "opening by path",
];
fn gen_act(ctx: &mut Ctx, kind: usize, n: usize) -> Act {
    let r = &mut ctx.r;
    let bytes = match kind {
        0 | 1 | 6 => {
            if r.chance(2, 3) {
                hostile::pgs_valid(r, 3)
            } else {
                hostile::pgs_any(r)
            }
        }
        4 | 5 => hostile::pgs_valid(r, 3),
        2 => gen_idx_ok(r),
        3 => hostile::vob_valid(r, 3),
        10 => match r.below(3) {
            0 => hostile::vob_valid(r, 2),
            1 => hostile::pgs_valid(r, 2),
            _ => gen_idx_ok(r),
        },
        _ => vec![],
    };
    let plan = Plan {
        window: *r.pick(&[0usize, 1, 5, 13, 200]),
        fixed: r.bool(),
        interrupt: *r.pick(&[0, 0, 30]),
        fail_at: if r.chance(1, 5) { Some(r.below(30) as u64) } else { None },
        ..Plan::default()
    };
    let list = if matches!(kind, 7 | 8) {
        let n = r.range(1, 6);
        gen_list(r, n, false)
    } else {
        vec![]
    };
    let images = if kind == 9 { (0..r.range(1, 4)).map(|_| gen_gray(r)).collect() } else { vec![] };
    let ocr = ToOcrImageOpt { border: r.below(4) as u32, ..gen_ocr(r) };
    let piece = *r.pick(&[1, 2, 7, 1000]);
    let path = ctx.file(&format!("act{n}"), &bytes);
    Act { kind, bytes: Arc::new(bytes), path, dir: ctx.scratch.join(format!("act-images{n}")), list, images, ocr, plan, piece }
}
fn keep(s: Shot) {
    SO_FAR.with(|v| v.borrow_mut().push(s));
}
fn raw(i: &[u8]) -> Shot {
    (fnv(i), format!("image of {} bytes", i.len()))
}
/// Runs the act; its results are in SO_FAR (and WRITTEN, and the folder).
fn act(a: &Act) {
    SO_FAR.with(|v| v.borrow_mut().clear());
    WRITTEN.with(|v| v.borrow_mut().clear());
    GIVEN.set((0, false));
    let limit = a.bytes.len() + 3;
    let reader = || OutReader(Probe::new(Rc::new(a.bytes.to_vec()), a.plan.clone(), 5).0);
    match a.kind {
        0 => SupParser::<_, DecodeTimeImage>::new(reader()).take(limit).for_each(|x| keep(pshot(x))),
        1 => SupParser::<_, DecodeTimeOnly>::new(reader()).take(limit).for_each(|x| keep(tshot(x))),
        2 => {
            let mk = |e: io::Error| {
                out();
                VobSubError::Parse(e.to_string())
            };
            keep(idx_shot(Index::read_index(BufReader::with_capacity(a.piece, reader()), &mk)));
        }
        3 => {
            let pal: [OutColor; 16] = std::array::from_fn(|k| OutColor(image::Rgb([k as u8 * 3, k as u8, 200 - k as u8])));
            let sub = Sub::open(&a.path).expect("harness: file");
            for (_, i) in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(limit).flatten() {
                keep(raw(VobSubToImage::new(&i, &pal, out_conv).to_image().as_raw()));
            }
        }
        4 | 5 => {
            for (_, i) in SupParser::<_, DecodeTimeImage>::new(Cursor::new(&a.bytes[..])).take(limit).flatten() {
                let conv = |p: image::LumaA<u8>| {
                    out();
                    image::Luma([p.0[0] ^ p.0[1]])
                };
                if a.kind == 4 {
                    keep(raw(RleToImage::new(&i, conv).to_image().as_raw()));
                } else {
                    keep(raw(RleToImage::new(&i, conv).image(&a.ocr).as_raw()));
                }
            }
        }
        6 => SupParser::<_, OutDecoder>::new(reader()).take(limit).for_each(|x| {
            let t = match x {
                Ok(v) => hex(&v, 20),
                Err(e) => pdec::err_text(&e),
            };
            keep((fnv(t.as_bytes()), t));
        }),
        7 => {
            let t = format!("{:?}", srt::write_srt(&mut OutWriter(a.piece), &a.list).map_err(|e| e.to_string()));
            keep((0, t));
        }
        8 => {
            for (t, x) in &a.list {
                keep((0, format!("{:?}", webvtt::write_line(&mut OutWriter(a.piece), t, x).map_err(|e| e.to_string()))));
            }
        }
        9 => {
            let _ = fs::remove_dir_all(&a.dir);
            let mut it = a.images.iter();
            let gives = std::iter::from_fn(|| {
                GIVEN.set((GIVEN.get().0, true));
                out();
                GIVEN.set((GIVEN.get().0, false));
                let x = it.next()?;
                GIVEN.set((GIVEN.get().0 + 1, false));
                Some(OutImage(x.clone()))
            });
            let r = dump_images(a.dir.to_str().expect("harness: scratch"), gives);
            keep((0, format!("{:?}", r.map_err(|e| e.to_string()))));
        }
        _ => {
            let p = OutPath(a.path.clone());
            keep((0, format!("{:?} {:?}", is_idx_file(p.clone()).ok(), is_sub_file(p.clone()).ok())));
            keep(idx_shot(Index::open(p.clone())));
            if let Ok(s) = Sub::open(p.clone()) {
                s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(limit).for_each(|x| keep(vshot(x)));
            }
            if let Ok(s) = SupParser::<BufReader<fs::File>, DecodeTimeOnly>::from_file(p) {
                s.take(limit).for_each(|x| keep(tshot(x)));
            }
        }
    }
}
/// The results of an act that ran to its end.
fn results(a: &Act) -> (Vec<Shot>, Vec<u8>) {
    let mut v = SO_FAR.take();
    if a.kind == 9 {
        // what a dump left
        for e in fs::read_dir(&a.dir).into_iter().flatten().flatten() {
            v.push((fnv(&fs::read(e.path()).unwrap_or_default()), e.file_name().to_string_lossy().into_owned()));
        }
        v.sort_by(|x, y| x.1.cmp(&y.1));
    }
    (v, WRITTEN.take())
}
/// Runs the act with nothing unusual: results and number of calls out.
fn usual(a: &Act) -> Result<((Vec<Shot>, Vec<u8>), u64), String> {
    FIRE.set(None);
    OUTS.set(0);
    sut(ACTS[a.kind], || act(a))?;
    Ok((results(a), OUTS.get()))
}
fn same_results(got: &(Vec<Shot>, Vec<u8>), want: &(Vec<Shot>, Vec<u8>), what: &str) -> R {
    same_shots(&got.0, &want.0, what)?;
    if got.1 != want.1 {
        return Err(format!("{what}: wrote {:?}, alone {:?}", String::from_utf8_lossy(&got.1), String::from_utf8_lossy(&want.1)));
    }
    Ok(())
}
/// Something of the caller panics: the panic comes out, and nothing stays behind.
fn x17_panics(ctx: &mut Ctx, i: u64) -> R {
    let kind = i as usize % ACTS.len();
    let a = gen_act(ctx, kind, 0);
    let (want, n) = usual(&a)?;
    let other = {
        let k = ctx.r.below(ACTS.len());
        gen_act(ctx, k, 1)
    };
    let (want2, _) = usual(&other)?;
    ctx.detail(|| format!("{} with {n} calls out, {:?}; content {}", ACTS[kind], a.plan, hex(&a.bytes, 5000)));
    ctx.sample(|| format!("{} with {n} calls out, {} results", ACTS[kind], want.0.len()));
    if n == 0 {
        return Ok(());
    }
    for round in 0..3 {
        let at = if round == 2 { ctx.r.below(n as usize) as u64 } else { ctx.r.skewed(1, n as usize) as u64 - 1 };
        let mut left = [0isize; 2];
        // (the first time something may be set up for good)
        for l in &mut left {
            SO_FAR.take();
            WRITTEN.take();
            let live = mem().live;
            OUTS.set(0);
            FIRE.set(Some(at));
            let e = std::panic::catch_unwind(AssertUnwindSafe(|| act(&a)));
            match e {
                Ok(()) => return Err(format!("{}: call out {at} of {n} panics, but the panic does not come out", ACTS[kind])),
                Err(p) => match p.downcast_ref::<Marker>() {
                    Some(m) if m.0 == at => {}
                    _ => return Err(format!("{}: call out {at} of {n} panics, but another panic comes out", ACTS[kind])),
                },
            }
            if let Some(k) = FIRE.take() {
                return Err(format!("harness: call out {k} of {n} did not happen"));
            }
            let (got, text) = (SO_FAR.take(), WRITTEN.take());
            if got.len() > want.0.len() || got[..] != want.0[..got.len()] {
                return Err(format!("{}: call out {at} of {n} panics; the {} results before it are others than usual", ACTS[kind], got.len()));
            }
            if !want.1.starts_with(&text) {
                return Err(format!("{}: call out {at} of {n} panics after {:?} was written", ACTS[kind], String::from_utf8_lossy(&text)));
            }
            drop((got, text));
            *l = mem().live - live;
        }
        if left[1] != 0 {
            return Err(format!("{}: call out {at} of {n} panics and {} bytes stay allocated", ACTS[kind], left[1]));
        }
        if kind == 9 {
            let (given, asking) = GIVEN.get();
            // the last one given may have been in work
            let done = if asking { given } else { given.saturating_sub(1) };
            for (k, w) in a.images.iter().enumerate().take(done) {
                match image::open(a.dir.join(format!("{k:06}.png"))) {
                    Ok(x) if x.to_luma8() == *w => {}
                    _ => return Err(format!("call out {at} of {n} panics with {given} images given (asking: {asking}): image {k} is not complete")),
                }
            }
            let count = fs::read_dir(&a.dir).map_or(0, Iterator::count);
            if count > given {
                return Err(format!("call out {at} of {n} panics with {given} images given: {count} files"));
            }
            ctx.c("images kept", done as u64);
        }
        ctx.c(&format!("panics in {}", ACTS[kind]), 1);
        ctx.ev(4);
    }
    // everything works as before
    let (again, _) = usual(&a)?;
    same_results(&again, &want, &format!("{} after a panic in it", ACTS[kind]))?;
    let (again, _) = usual(&other)?;
    same_results(&again, &want2, &format!("{} after a panic in {}", ACTS[other.kind], ACTS[kind]))?;
    // on another thread, too
    let r = std::thread::scope(|s| {
        let (list, bytes) = (a.list.clone(), (*a.bytes).clone());
        s.spawn(move || {
            sut("a call on another thread", || {
                let mut o = vec![];
                let _ = srt::write_srt(&mut o, &list);
                let t: Vec<Shot> = SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&bytes[..])).take(bytes.len() + 2).map(tshot).collect();
                (o, t)
            })
        })
        .join()
        .unwrap_or_else(|_| Err("harness: thread".into()))
    })?;
    if kind == 7 && r.0 != want.1 {
        return Err("write_srt writes something else on another thread after a panic".into());
    }
    ctx.ev(3);
    ctx.nt(fnv(&a.bytes) ^ fnv(&want.1) ^ n << 8 ^ kind as u64);
    Ok(())
}
/// Something of the caller uses the crate itself, in the middle of a call.
fn x17_nested(ctx: &mut Ctx, i: u64) -> R {
    let kind = i as usize % ACTS.len();
    let a = gen_act(ctx, kind, 0);
    let (want, n) = usual(&a)?;
    ctx.detail(|| format!("{} with {n} calls out, {:?}; content {}", ACTS[kind], a.plan, hex(&a.bytes, 5000)));
    if n == 0 {
        return Ok(());
    }
    for _ in 0..3 {
        let k = if ctx.r.bool() { kind } else { ctx.r.below(ACTS.len()) };
        let inner = gen_act(ctx, k, 1);
        let (want2, _) = usual(&inner)?;
        let at = ctx.r.below(n as usize) as u64;
        ctx.sample(|| format!("{} in call out {at} of {n} of {}", ACTS[k], ACTS[kind]));
        let saw = Rc::new(RefCell::new(None));
        let saw2 = saw.clone();
        let inner2 = inner.clone();
        INSIDE.set(Some(Box::new(move || {
            let (so_far, written, outs, given) = (SO_FAR.take(), WRITTEN.take(), OUTS.get(), GIVEN.get());
            act(&inner2);
            *saw2.borrow_mut() = Some(results(&inner2));
            SO_FAR.set(so_far);
            WRITTEN.set(written);
            OUTS.set(outs);
            GIVEN.set(given);
        })));
        OUTS.set(0);
        FIRE.set(Some(at));
        let what = format!("{} in call out {at} of {n} of {}", ACTS[k], ACTS[kind]);
        sut(&what, || act(&a))?;
        let got = results(&a);
        let Some(got2) = saw.take() else { return Err(format!("harness: {what} did not happen")) };
        same_results(&got2, &want2, &format!("{what}, inner"))?;
        same_results(&got, &want, &format!("{what}, outer"))?;
        ctx.ev(2);
        ctx.c(&format!("nested in {}", ACTS[kind]), 1);
        ctx.nt(fnv(&a.bytes) ^ fnv(&want.1) ^ fnv(&inner.bytes) << 1 ^ at << 8 ^ (kind * 11 + k) as u64);
    }
    Ok(())
}

// ---------------------------------------------------------------- X02

/// Calls of all kinds on several threads at once.
pub fn x02_mixed(ctx: &mut Ctx, i: u64) -> R {
    let t = ctx.r.range(2, 8);
    // sometimes all of one kind
    let only = if ctx.r.chance(1, 3) { Some(i as usize % ACTS.len()) } else { None };
    let mut acts = vec![];
    for k in 0..ctx.r.range(2, 6) {
        let kind = only.unwrap_or_else(|| ctx.r.below(ACTS.len()));
        let a = gen_act(ctx, kind, k);
        let want = usual(&a)?.0;
        acts.push((a, want));
    }
    ctx.detail(|| acts.iter().map(|(a, _)| format!("{}: {:?} {}\n", ACTS[a.kind], a.plan, hex(&a.bytes, 3000))).collect());
    ctx.sample(|| format!("{} on {t} threads", acts.iter().map(|(a, _)| ACTS[a.kind]).collect::<Vec<_>>().join(", ")));
    let n = acts.len();
    let plans: Vec<Vec<usize>> = (0..t).map(|_| (0..ctx.r.range(3, 10)).map(|_| ctx.r.below(n)).collect()).collect();
    let bar = Barrier::new(t);
    let res: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .enumerate()
            .map(|(k, p)| {
                let (bar, acts) = (&bar, &acts);
                s.spawn(move || {
                    bar.wait();
                    for d in p {
                        let (a, want) = &acts[*d];
                        // (a folder of its own)
                        let mine = Act { dir: a.dir.with_extension(format!("t{k}")), ..a.clone() };
                        let (got, _) = usual(&mine)?;
                        same_results(&got, want, &format!("{} on one of {t} threads", ACTS[a.kind]))?;
                    }
                    Ok(p.len() as u64)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("harness thread died".into()))).collect()
    });
    for r in res {
        let k = r?;
        ctx.ev(k);
        ctx.c("calls of mixed kinds on concurrent threads", k);
    }
    ctx.nt(acts.iter().fold(t as u64, |h, (a, w)| h << 1 ^ fnv(&a.bytes) ^ fnv(&w.1) ^ a.kind as u64));
    Ok(())
}
