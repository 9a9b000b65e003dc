//! Properties X01..X07: probes, purity, memory, undefined behaviour, silence, entry points, work.
use crate::fw::{mem, mem_reset_peak, st, sut, Ctx, Opts, StreamDef, Tier, R};
use crate::hostile;
use crate::p_img;
use crate::p_time::{self, gen_list};
use crate::p_vob::{self, err_name, fixture, gen_idx_bytes, gen_idx_ok, gen_ocr, plant};
use crate::pdec::{self, PItem};
use crate::vdec::{self, VItem};
use image::{LumaA, Rgb};
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::{BufReader, Cursor, ErrorKind, Write as _};
use std::os::unix::ffi::OsStrExt as _;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Barrier;
use subtile::image::{ImageArea as _, ImageSize as _, ToImage as _, ToOcrImage as _};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, RleEncodedImage, RleToImage, SupParser};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::{
    conv_to_rgba, is_idx_file, is_sub_file, palette_rgb_to_luminance, Index, Palette, Sub, VobSubError,
    VobSubIndexedImage, VobSubOcrImage, VobSubToImage,
};
use vhcore::io::{Plan, Probe, Sink};
use vhcore::pgs;
use vhcore::rng::Rng;
use vhcore::util::{count_pack_codes, fnv, hex, Hasher};
use vhcore::vob;

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "X01" => vec![
            st("prefixes", 19 + 4 + 2, 19 + 4 + 2, x01_prefixes),
            st("bytes", 19 + 4, 19 + 4, x01_bytes),
            st("contents", 4_000, 200_000, x01_contents),
            st("unreadable", 800, 20_000, x01_unreadable),
        ],
        "X02" => vec![
            st("interleaved", 4_000, 150_000, x02_interleaved),
            st("again", 2_000, 80_000, x02_again),
            st("threads", 160, 5_000, x02_threads),
            st("shared", 200, 6_000, x02_shared),
            st("repeat", 24, 160, x02_repeat),
            #[cfg(not(miri))]
            st("mixed", 400, 8_000, crate::p_w::x02_mixed),
        ],
        "X03" => vec![
            st("growth", 48, 400, x03_growth),
            st("released", 4_000, 200_000, x03_released),
            st("hostile", 6_000, 250_000, x03_hostile),
            st("sizes", 150, 4_000, x03_sizes),
        ],
        "X04" => vec![
            st("vob", 8_000, 300_000, x04_vob),
            st("pgs", 8_000, 300_000, x04_pgs),
            st("idx", 2_500, 100_000, x04_idx),
            st("output", 1_500, 40_000, x04_output),
            st("readers", 2_000, 80_000, x04_readers),
            st("geometry", 3_000, 100_000, x04_geometry),
            st("render", 160, 4_000, x04_render),
            st("small-vob", 24, 400, x04_small_vob),
            st("small-pgs", 24, 400, x04_small_pgs),
            st("small-rest", 12, 200, x04_small_rest),
        ],
        "X05" => vec![
            st("decode", 6_000, 250_000, x05_decode),
            st("faults", 3_000, 100_000, x05_faults),
            st("files", 1_500, 40_000, x05_files),
            st("output", 800, 20_000, x05_output),
        ],
        "X06" => vec![
            st("sub", 2_000, 80_000, x06_sub),
            st("idx", 2_000, 80_000, x06_idx),
            st("sup", 2_000, 80_000, x06_sup),
            st("unreadable", 1_200, 40_000, x06_unreadable),
            #[cfg(not(miri))]
            st("special", 1_500, 50_000, x06_special),
        ],
        "X07" => vec![
            st("reads", 600, 20_000, x07_reads),
            st("allocations", 2 * FAMILIES.len() as u64, 12 * FAMILIES.len() as u64, x07_allocations),
            st("time", FAMILIES.len() as u64, 4 * FAMILIES.len() as u64, x07_time),
        ],
        _ => return None,
    })
}

// ---------------------------------------------------------------- X01

const IDX_MAGIC: &[u8] = b"# VobSub index file";
const SUB_MAGIC: &[u8] = &[0, 0, 1, 0xba];

fn idx_file(p: &Path) -> Result<bool, VobSubError> {
    is_idx_file(p)
}
fn sub_file(p: &Path) -> Result<bool, VobSubError> {
    is_sub_file(p)
}
/// Names of files, which say nothing about their contents.
const NAMES: [&str; 24] = [
    "probe", "a.sub", "a.idx", "A.SUB", "A.IDX", "a.sup", "a.mpg", "a.vob", "a.VOB", "a.txt", "a.srt", "a.sub.bak", "a.idx.sub", ".sub", ".idx", ".hidden",
    "a.", "no ext", "a.\u{e9}t\u{e9}", "sub", "idx", "a.ifo", "a.png", "..a",
];
fn any_name(r: &mut Rng) -> &'static str {
    NAMES[r.below(NAMES.len())]
}
/// Another spelling of the same path: relative, or with useless parts.
fn respell(r: &mut Rng, p: PathBuf) -> PathBuf {
    let cwd = std::env::current_dir().unwrap_or_default();
    let rel = p.strip_prefix(&cwd).map(Path::to_path_buf).ok();
    match (r.below(6), rel) {
        (0, Some(q)) => q,
        (1, Some(q)) => Path::new(".").join(q),
        (2, _) => match (p.parent(), p.parent().and_then(Path::file_name), p.file_name()) {
            (Some(d), Some(n), Some(f)) => d.join("..").join(n).join(f),
            _ => p,
        },
        (3, _) => match (p.parent(), p.file_name()) {
            (Some(d), Some(f)) => {
                let mut s = d.as_os_str().to_os_string();
                s.push("//./");
                s.push(f);
                PathBuf::from(s)
            }
            _ => p,
        },
        _ => p,
    }
}
/// The path of an error is the one that was given, to the letter.
fn same_path(a: &Path, b: &Path) -> bool {
    a.as_os_str() == b.as_os_str()
}
fn probe(ctx: &mut Ctx, b: &[u8]) -> R {
    let name = any_name(&mut ctx.r);
    let p = ctx.file(name, b);
    let p = respell(&mut ctx.r, p);
    for (name, magic, f) in [
        ("is_idx_file", IDX_MAGIC, idx_file as fn(&Path) -> Result<bool, VobSubError>),
        ("is_sub_file", SUB_MAGIC, sub_file),
    ] {
        let got = sut(name, || f(&p))?;
        let what = || format!("{name} of a file of {} bytes {:?} ({})", b.len(), String::from_utf8_lossy(&b[..b.len().min(30)]), hex(b, 24));
        let want = b.starts_with(magic);
        if b.len() >= magic.len() {
            match got {
                Ok(x) if x == want => {}
                Ok(x) => return Err(format!("{} answers {x}", what())),
                Err(e) => return Err(format!("{} fails: {e:?}", what())),
            }
            ctx.c(if want { "yes" } else { "no" }, 1);
        } else {
            match got {
                Ok(true) => return Err(format!("{} answers yes", what())),
                Ok(false) => ctx.c("too short: no", 1),
                Err(VobSubError::Io { path, .. }) if same_path(&path, &p) => ctx.c("too short: error", 1),
                Err(e) => return Err(format!("{}: {e:?}, which does not carry the path", what())),
            }
        }
        ctx.ev(1);
    }
    ctx.nt(fnv(b));
    Ok(())
}
fn x01_prefixes(ctx: &mut Ctx, i: u64) -> R {
    let (m, k) = if i < 20 { (IDX_MAGIC, i as usize) } else { (SUB_MAGIC, i as usize - 20) };
    let head = &m[..k.min(m.len())];
    ctx.sample(|| format!("files that start with exactly {k} bytes of the magic"));
    probe(ctx, head)?;
    for t in 0..=255u8 {
        let mut b = head.to_vec();
        b.push(t);
        probe(ctx, &b)?;
        let n = ctx.r.range(1, 60);
        b.extend(ctx.r.bytes(n));
        probe(ctx, &b)?;
    }
    Ok(())
}
/// Every other value at every byte of the magic.
fn x01_bytes(ctx: &mut Ctx, i: u64) -> R {
    let (m, k) = if i < 19 { (IDX_MAGIC, i as usize) } else { (SUB_MAGIC, i as usize - 19) };
    for v in 0..=255u8 {
        let mut b = m.to_vec();
        b[k] = v;
        probe(ctx, &b)?;
        let n = ctx.r.skewed(1, 3000);
        b.extend(ctx.r.bytes(n));
        probe(ctx, &b)?;
    }
    ctx.c("magic bytes swept over all values", 1);
    Ok(())
}
fn x01_contents(ctx: &mut Ctx, _: u64) -> R {
    let r = &mut ctx.r;
    let mut b = match r.below(8) {
        0 => IDX_MAGIC.to_vec(),
        1 => SUB_MAGIC.to_vec(),
        2 => {
            // the magic, but not at the start
            let n = r.range(1, 5);
            let mut b = r.bytes(n);
            b.extend(*r.pick(&[IDX_MAGIC, SUB_MAGIC]));
            b
        }
        3 => (*r.pick(&["# vobsub index file", "# VobSub index File", "#VobSub index file", "\u{feff}# VobSub index file",
            "# VobSub Index file", "\n# VobSub index file", "# VobSub index fil\0"])).as_bytes().to_vec(),
        4 => gen_idx_ok(r),
        5 => hostile::vob_any(r),
        6 => {
            let mut b = r.pick(&[IDX_MAGIC, SUB_MAGIC]).to_vec();
            hostile::mutate(r, &mut b, 1);
            b
        }
        _ => vec![],
    };
    let n = r.skewed(0, 100_000);
    if r.chance(1, 2) {
        b.extend(r.bytes(n));
    }
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 30)));
    probe(ctx, &b)
}
/// Paths that cannot be read; `true` when they cannot even be opened.
fn unreadable(ctx: &mut Ctx, root: &Path) -> (PathBuf, bool, &'static str) {
    let r = &mut ctx.r;
    let _ = fs::remove_dir_all(root);
    fs::create_dir_all(root).expect("harness: folder");
    let file = root.join("file");
    fs::write(&file, SUB_MAGIC).expect("harness: file");
    match r.below(9) {
        0 => (root.join("missing"), true, "missing"),
        1 => (root.join("no/such/folder/x.sub"), true, "missing folder"),
        2 => (root.to_path_buf(), false, "a folder"),
        3 => {
            let l = root.join("dangling");
            std::os::unix::fs::symlink(root.join("nowhere"), &l).expect("harness: link");
            (l, true, "dangling link")
        }
        4 => {
            let l = root.join("loop");
            std::os::unix::fs::symlink(&l, &l).expect("harness: link");
            (l, true, "link to itself")
        }
        5 => (file.join("x"), true, "below a file"),
        6 => (root.join("n".repeat(300)), true, "name too long"),
        7 => (root.join("a\0b"), true, "NUL in the name"),
        _ => (root.join(OsStr::from_bytes(&[b'm', 0xff, 0xfe, b'x'])), true, "missing, name not UTF-8"),
    }
}
fn x01_unreadable(ctx: &mut Ctx, _: u64) -> R {
    let root = ctx.scratch.join("unreadable");
    let (p, _, kind) = unreadable(ctx, &root);
    let p = respell(&mut ctx.r, p);
    for (name, f) in [
        ("is_idx_file", idx_file as fn(&Path) -> Result<bool, VobSubError>),
        ("is_sub_file", sub_file),
    ] {
        match sut(name, || f(&p))? {
            Err(VobSubError::Io { path, .. }) if same_path(&path, &p) => {}
            Err(e) => return Err(format!("{name} of {p:?} ({kind}): {e:?}, which does not carry the path")),
            Ok(x) => return Err(format!("{name} of {p:?} ({kind}) answers {x}")),
        }
        ctx.ev(1);
    }
    ctx.c(&format!("unreadable: {kind}"), 2);
    ctx.nt(fnv(p.as_os_str().as_bytes()));
    let _ = fs::remove_dir_all(&root);
    Ok(())
}

// ---------------------------------------------------------------- X02

/// What one item looked like.
pub(crate) type Shot = (u64, String);
pub(crate) fn vshot(x: Result<(TimeSpan, VobSubIndexedImage), VobSubError>) -> Shot {
    let i: VItem = match x {
        Ok(x) => Ok(vdec::observe(&x)),
        Err(e) => Err(vdec::err_text(&e)),
    };
    (vdec::hash_items(std::slice::from_ref(&i)), vdec::short(&i))
}
pub(crate) fn pshot(x: Result<(TimeSpan, RleEncodedImage), PgsError>) -> Shot {
    let i: PItem = match x {
        Ok(x) => {
            // partially used pixel iterators must not disturb each other
            let mut a = x.1.iter();
            let _ = a.next();
            let o = pdec::observe(&x);
            let rest = a.take(o.pix.len()).count();
            if rest + 1 != o.pix.len() && !o.pix.is_empty() {
                Err(format!("a second pixel iterator disturbed the first one: {rest} of {}", o.pix.len()))
            } else {
                Ok(o)
            }
        }
        Err(e) => Err(pdec::err_text(&e)),
    };
    (pdec::hash_items(std::slice::from_ref(&i)), pdec::short(&i))
}
pub(crate) fn tshot(x: Result<TimeSpan, PgsError>) -> Shot {
    let i = match x {
        Ok(x) => Ok(pdec::times(&x)),
        Err(e) => Err(pdec::err_text(&e)),
    };
    (pdec::hash_times(std::slice::from_ref(&i)), pdec::tshort(&i))
}
pub(crate) fn idx_shot(r: Result<Index, VobSubError>) -> Shot {
    match r {
        Ok(i) => {
            let p: Vec<u8> = i.palette().iter().flat_map(|c| c.0).collect();
            let l = i.lang().as_ref().map(|l| l.lang().to_string());
            (fnv(&p) ^ fnv(format!("{l:?}").as_bytes()), format!("palette {} lang {l:?}", hex(&p, 48)))
        }
        Err(e) => {
            let s = vdec::err_text(&e);
            // the path is the scratch file's
            let k = if s.starts_with("Io") { err_name(&s) } else { s.clone() };
            (fnv(k.as_bytes()), s)
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub(crate) enum Kind {
    Vob,
    Pgs,
    Times,
    Idx,
}
#[derive(Clone)]
pub(crate) struct Doc {
    pub(crate) kind: Kind,
    pub(crate) bytes: Vec<u8>,
    pub(crate) path: PathBuf,
    pub(crate) want: Vec<Shot>,
    pub(crate) limit: usize,
}
pub(crate) fn gen_doc(ctx: &mut Ctx, n: usize, kind: Kind) -> Doc {
    let r = &mut ctx.r;
    let bytes = match kind {
        // now and then something with large packets or segments
        Kind::Vob if r.chance(1, 24) => {
            let subs: Vec<_> = (0..r.range(1, 3))
                .map(|_| {
                    let (s, p, _) = vob::gen_spu(r);
                    (s, p)
                })
                .collect();
            vob::gen_stream(r, &subs, true).bytes
        }
        Kind::Pgs | Kind::Times if r.chance(1, 24) => {
            let subs: Vec<_> = (0..r.range(1, 2))
                .map(|_| {
                    let (w, h) = (r.range(1, 200), r.range(1, 60));
                    pgs::gen_sub_dims(r, w, h)
                })
                .collect();
            let max_skip = *r.pick(&[3_000usize, 9_000, 33_000, 65_535]);
            pgs::build(r, &subs, pgs::SetOpts { vary: true, max_skip }).bytes
        }
        Kind::Vob => {
            let mut b = if r.chance(2, 3) { hostile::vob_valid(r, 4) } else { hostile::vob_any(r) };
            if r.chance(1, 3) {
                b.extend(hostile::vob_any(r));
            }
            b
        }
        Kind::Pgs | Kind::Times => {
            let mut b = if r.chance(2, 3) { hostile::pgs_valid(r, 4) } else { hostile::pgs_any(r) };
            if r.chance(1, 3) {
                b.extend(hostile::pgs_any(r));
            }
            b
        }
        Kind::Idx => {
            if r.bool() {
                gen_idx_ok(r)
            } else {
                gen_idx_bytes(r)
            }
        }
    };
    let path = ctx.file(&format!("doc{n}"), &bytes);
    let limit = bytes.len() + 3;
    Doc { kind, bytes, path, want: vec![], limit }
}
pub(crate) type Steps<'a> = Box<dyn FnMut() -> Option<Shot> + 'a>;
/// A decoder of `d`, advanced one item per call.
pub(crate) fn decoder<'a>(d: &'a Doc, shared: Option<&'a Sub>, own: &'a mut Option<Sub>) -> Result<Steps<'a>, String> {
    Ok(match d.kind {
        Kind::Vob => {
            let s: &'a Sub = match shared {
                Some(s) => s,
                None => own.insert(Sub::open(&d.path).map_err(|e| format!("opening failed: {e}"))?),
            };
            let mut it = s.subtitles::<(TimeSpan, VobSubIndexedImage)>();
            Box::new(move || it.next().map(vshot))
        }
        Kind::Pgs => {
            let mut it = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d.bytes[..]));
            Box::new(move || it.next().map(pshot))
        }
        Kind::Times => {
            let mut it = SupParser::<BufReader<fs::File>, DecodeTimeOnly>::from_file(&d.path)
                .map_err(|e| format!("opening failed: {e}"))?;
            Box::new(move || it.next().map(tshot))
        }
        Kind::Idx => {
            let mut done = false;
            Box::new(move || {
                if std::mem::replace(&mut done, true) {
                    None
                } else {
                    Some(idx_shot(Index::open(&d.path)))
                }
            })
        }
    })
}
pub(crate) fn alone(d: &Doc) -> Result<Vec<Shot>, String> {
    sut("decoding", || {
        let mut own = None;
        let mut f = decoder(d, None, &mut own)?;
        let mut v = vec![];
        while v.len() < d.limit {
            match f() {
                Some(x) => v.push(x),
                None => break,
            }
        }
        Ok(v)
    })?
}
pub(crate) fn same_shots(got: &[Shot], want: &[Shot], what: &str) -> R {
    if got == want {
        return Ok(());
    }
    let i = (0..got.len().max(want.len())).find(|&i| got.get(i) != want.get(i)).unwrap();
    let f = |v: &[Shot]| v.get(i).map_or("nothing".to_string(), |x| x.1.clone());
    Err(format!("{what}: item {i} is {}, alone it is {} ({} and {} items)", f(got), f(want), got.len(), want.len()))
}
pub(crate) const KINDS: [Kind; 8] =
    [Kind::Vob, Kind::Vob, Kind::Vob, Kind::Pgs, Kind::Pgs, Kind::Pgs, Kind::Times, Kind::Idx];
pub(crate) fn gen_docs(ctx: &mut Ctx, n: usize) -> Result<Vec<Doc>, String> {
    let mut docs = vec![];
    for k in 0..n {
        let kind = *ctx.r.pick(&KINDS);
        let mut d = gen_doc(ctx, k, kind);
        d.want = alone(&d)?;
        docs.push(d);
    }
    Ok(docs)
}
fn x02_interleaved(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(1, 4);
    let docs = gen_docs(ctx, n)?;
    let m = ctx.r.range(2, 7);
    let pick: Vec<usize> = (0..m).map(|_| ctx.r.below(n)).collect();
    let share: Vec<bool> = (0..m).map(|_| ctx.r.bool()).collect();
    let drop_early: Vec<bool> = (0..m).map(|_| ctx.r.chance(1, 6)).collect();
    ctx.detail(|| {
        docs.iter().map(|d| format!("{:?}: {}\n", d.kind, hex(&d.bytes, 3000))).collect::<String>()
            + &format!("decoders of {pick:?}, sharing {share:?}")
    });
    ctx.sample(|| format!("{m} decoders over {n} files: {:?}", pick.iter().map(|k| docs[*k].kind).collect::<Vec<_>>()));
    let mut sched = Hasher::new();
    let (mut steps, mut switches) = (0u64, 0u64);
    let r = &mut ctx.r;
    let out: Vec<(usize, bool, Vec<Shot>)> = sut("interleaved decoding", || {
        let subs: Vec<Option<Sub>> =
            docs.iter().map(|d| if d.kind == Kind::Vob { Sub::open(&d.path).ok() } else { None }).collect();
        let mut own: Vec<Option<Sub>> = (0..m).map(|_| None).collect();
        let mut act: Vec<Option<Steps>> = vec![];
        for (k, o) in own.iter_mut().enumerate() {
            let d = &docs[pick[k]];
            let s = if share[k] { subs[pick[k]].as_ref() } else { None };
            act.push(Some(decoder(d, s, o)?));
        }
        let mut got: Vec<Vec<Shot>> = vec![vec![]; m];
        let mut ended = vec![false; m];
        let mut live: Vec<usize> = (0..m).collect();
        let mut last = usize::MAX;
        while !live.is_empty() {
            let j = r.below(live.len());
            let k = live[j];
            steps += 1;
            switches += u64::from(k != last);
            last = k;
            sched.u64(k as u64);
            let quit = drop_early[k] && r.chance(1, 4);
            let x = if quit { None } else { act[k].as_mut().unwrap()() };
            match x {
                Some(x) if got[k].len() < docs[pick[k]].limit => got[k].push(x),
                _ => {
                    ended[k] = !quit;
                    act[k] = None;
                    live.swap_remove(j);
                }
            }
        }
        Ok::<_, String>(pick.iter().zip(ended).zip(got).map(|((p, e), g)| (*p, e, g)).collect())
    })??;
    for (k, (p, ended, got)) in out.iter().enumerate() {
        let want = &docs[*p].want;
        let w = if *ended { &want[..] } else { &want[..got.len().min(want.len())] };
        same_shots(got, w, &format!("decoder {k} of {m} interleaved ones ({:?})", docs[*p].kind))?;
    }
    for d in &docs {
        same_shots(&alone(d)?, &d.want, &format!("decoding the same {:?} content once more", d.kind))?;
        ctx.ev(1);
    }
    ctx.ev(m as u64);
    ctx.c("interleaved steps", steps);
    ctx.c("switches between decoders", switches);
    ctx.nt(sched.u64(docs.iter().fold(0, |a, d| a ^ fnv(&d.bytes))).get());
    Ok(())
}
/// Other content in between, rendering included, changes nothing.
fn x02_again(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(2, 6);
    let docs = gen_docs(ctx, n)?;
    ctx.detail(|| docs.iter().map(|d| format!("{:?}: {}\n", d.kind, hex(&d.bytes, 3000))).collect());
    for _ in 0..ctx.r.range(4, 20) {
        let k = ctx.r.below(n);
        if ctx.r.chance(1, 4) {
            // unrelated work
            let b = hostile::vob_any(&mut ctx.r);
            p_vob::v01_check(ctx, &b)?;
            let b = hostile::pgs_any(&mut ctx.r);
            crate::p_pgs::g01_check(ctx, &b)?;
        }
        same_shots(&alone(&docs[k])?, &docs[k].want, &format!("decoding {:?} content again", docs[k].kind))?;
        ctx.ev(1);
    }
    ctx.nt(docs.iter().fold(1, |a, d| a ^ fnv(&d.bytes)));
    Ok(())
}
fn x02_threads(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(2, 6);
    let docs = gen_docs(ctx, n)?;
    ctx.detail(|| docs.iter().map(|d| format!("{:?}: {}\n", d.kind, hex(&d.bytes, 3000))).collect());
    let t = ctx.r.range(2, 8);
    let plans: Vec<Vec<usize>> = (0..t)
        .map(|_| {
            let k = ctx.r.range(3, 12);
            (0..k).map(|_| ctx.r.below(n)).collect()
        })
        .collect();
    let bar = Barrier::new(t);
    let res: Vec<Result<u64, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                let (bar, docs) = (&bar, &docs);
                s.spawn(move || {
                    bar.wait();
                    let mut k = 0;
                    for &d in p {
                        same_shots(&alone(&docs[d])?, &docs[d].want, &format!("{:?} content on {t} threads at once", docs[d].kind))?;
                        k += 1;
                    }
                    Ok(k)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("harness thread died".into()))).collect()
    });
    for r in res {
        let k = r?;
        ctx.ev(k);
        ctx.c("documents decoded on concurrent threads", k);
    }
    ctx.max("threads at once", t as u64);
    ctx.nt(docs.iter().fold(2, |a, d| a ^ fnv(&d.bytes)));
    Ok(())
}
/// The same small work, very many times in one process.
fn x02_repeat(ctx: &mut Ctx, i: u64) -> R {
    const WORK: [&str; 8] =
        ["iterating a file", "times of a .sup", "pictures of a .sup", "reading an .idx", "writing text", "rendering", "opening by path", "defective contents"];
    let k = i as usize % WORK.len();
    let r = &mut ctx.r;
    let small = |r: &mut Rng, f: fn(&mut Rng) -> Vec<u8>, max: usize| -> Vec<u8> {
        let mut best = f(r);
        for _ in 0..60 {
            if best.len() <= max {
                break;
            }
            let b = f(r);
            if b.len() < best.len() {
                best = b;
            }
        }
        best
    };
    let bytes = match k {
        0 | 5 | 6 => small(r, |r| hostile::vob_valid(r, 1), 2_200),
        1 | 2 => small(r, |r| hostile::pgs_valid(r, 1), 300),
        3 => small(r, gen_idx_ok, 400),
        4 => vec![],
        _ => {
            if i % 16 < 8 {
                small(r, hostile::pgs_any, 300)
            } else {
                small(r, hostile::vob_any, 2_500)
            }
        }
    };
    let n = r.range(1, 3);
    let list = gen_list(r, n, false);
    let ocr = gen_ocr(r);
    let pal: Palette = std::array::from_fn(|k| Rgb([k as u8 * 16, 255 - k as u8, 7 * k as u8]));
    let lum = palette_rgb_to_luminance(&pal);
    let path = ctx.file("again.sub", &bytes);
    let sup = ctx.file("again.sup", &bytes);
    ctx.detail(|| format!("{}: {} {list:?}", WORK[k], hex(&bytes, 4000)));
    ctx.sample(|| format!("{}, {} bytes", WORK[k], bytes.len()));
    let limit = bytes.len() + 3;
    let sub = if matches!(k, 0 | 5 | 7) { sut("Sub::open", || Sub::open(&path).ok())? } else { None };
    let is_sup = k == 7 && i % 16 < 8;
    let vob = |s: &Sub, h: &mut Hasher| {
        for x in s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(limit) {
            match x {
                Ok((t, im)) => {
                    h.u64(t.start.msecs() as u64).u64(t.end.msecs() as u64).bytes(im.raw_image()).bytes(im.palette()).bytes(im.alpha());
                    vdec::area4(&im.area()).iter().for_each(|v| {
                        h.u64(u64::from(*v));
                    });
                }
                Err(e) => {
                    h.bytes(e.to_string().as_bytes());
                }
            }
        }
    };
    let images = |h: &mut Hasher| {
        for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(&bytes[..])).take(limit) {
            match x {
                Ok((t, im)) => {
                    h.u64(t.start.msecs() as u64).u64(t.end.msecs() as u64).u64(u64::from(im.width()) << 32 | u64::from(im.height()));
                    for p in im.iter() {
                        h.bytes(&p.0);
                    }
                }
                Err(e) => {
                    h.bytes(e.to_string().as_bytes());
                }
            }
        }
    };
    let idx = |x: Result<Index, VobSubError>, h: &mut Hasher| match x {
        Ok(x) => {
            x.palette().iter().for_each(|c| {
                h.bytes(&c.0);
            });
            h.bytes(x.lang().as_ref().map_or("-", |l| l.lang()).as_bytes());
        }
        Err(_) => {
            h.u64(1);
        }
    };
    let work = || -> u64 {
        let mut h = Hasher::new();
        match k {
            0 => sub.as_ref().into_iter().for_each(|s| vob(s, &mut h)),
            7 if !is_sup => sub.as_ref().into_iter().for_each(|s| vob(s, &mut h)),
            1 => SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&bytes[..])).take(limit).for_each(|x| {
                let (a, b) = x.map_or((7, 7), |t| (t.start.msecs(), t.end.msecs()));
                h.u64(a as u64).u64(b as u64);
            }),
            2 | 7 => images(&mut h),
            3 => idx(Index::read_index(BufReader::new(Cursor::new(&bytes[..])), &|e: std::io::Error| VobSubError::Parse(e.to_string())), &mut h),
            4 => {
                let mut o = vec![];
                h.u64(u64::from(subtile::srt::write_srt(&mut o, &list).is_ok()));
                for (t, x) in &list {
                    h.u64(u64::from(subtile::webvtt::write_line(&mut o, t, x).is_ok()));
                }
                h.bytes(&o).bytes(format!("{:?}", list[0].0).as_bytes());
                for (t, _) in &list {
                    h.u64(t.start.to_secs().to_bits()).u64(TimePoint::from_secs(t.end.to_secs()).msecs() as u64).u64((-t.end).msecs() as u64);
                }
            }
            5 => {
                for x in sub.iter().flat_map(|s| s.subtitles::<(TimeSpan, VobSubIndexedImage)>()).take(limit).flatten() {
                    h.bytes(VobSubToImage::new(&x.1, &pal, conv_to_rgba).to_image().as_raw());
                    h.bytes(VobSubOcrImage::new(&x.1, &lum).image(&ocr).as_raw());
                }
            }
            _ => {
                h.u64(u64::from(is_sub_file(&path).ok() == Some(true)) << 1 | u64::from(is_idx_file(&path).ok() == Some(true)));
                if let Ok(s) = Sub::open(&path) {
                    vob(&s, &mut h);
                }
                if let Ok(p) = SupParser::<BufReader<fs::File>, DecodeTimeImage>::from_file(&sup) {
                    h.u64(p.take(limit).count() as u64);
                }
                idx(Index::open(&path), &mut h);
            }
        }
        h.get()
    };
    // (past every counter of 16 bits, when time allows)
    let (most, secs) = if cfg!(miri) {
        (3, 1e9)
    } else if ctx.tier == Tier::Quick {
        (70_000u64, 2.0)
    } else {
        (140_000, 8.0)
    };
    let first = sut(WORK[k], work)?;
    let t0 = std::time::Instant::now();
    let mut done = 1;
    while done < most && (done % 64 != 0 || t0.elapsed().as_secs_f64() < secs) {
        let x = sut(WORK[k], work)?;
        done += 1;
        if x != first {
            return Err(format!("{}: time {done} in one process gives other results than the first", WORK[k]));
        }
    }
    ctx.ev(done);
    ctx.max(&format!("times in one process: {}", WORK[k]), done);
    ctx.nt(fnv(&bytes) ^ k as u64);
    Ok(())
}
/// Calls `f` from several threads when `T` can be shared, from one otherwise.
struct Share<'a, T>(&'a T);
impl<T: Sync> Share<'_, T> {
    fn each<O: Send>(&self, n: usize, f: impl Fn(&T) -> O + Sync) -> (Vec<O>, bool) {
        let bar = Barrier::new(n);
        let x = self.0;
        let v = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|_| {
                    let (f, bar) = (&f, &bar);
                    s.spawn(move || {
                        bar.wait();
                        f(x)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
        });
        (v, true)
    }
}
/// Taken when the value cannot be shared between threads.
#[allow(dead_code)]
trait ShareNot<T> {
    fn each<O: Send>(&self, n: usize, f: impl Fn(&T) -> O + Sync) -> (Vec<O>, bool);
}
impl<T> ShareNot<T> for &Share<'_, T> {
    fn each<O: Send>(&self, n: usize, f: impl Fn(&T) -> O + Sync) -> (Vec<O>, bool) {
        ((0..n).map(|_| f(self.0)).collect(), false)
    }
}
/// One opened file and one image used from several threads at once.
#[allow(clippy::needless_borrow)]
fn x02_shared(ctx: &mut Ctx, i: u64) -> R {
    let t = ctx.r.range(2, 6);
    let pal: Palette = std::array::from_fn(|k| Rgb([k as u8 * 16, 255 - k as u8, 7 * k as u8]));
    let lum = palette_rgb_to_luminance(&pal);
    let (outs, shared, n) = if i % 2 == 0 {
        let b = hostile::vob_valid(&mut ctx.r, 4);
        ctx.detail(|| format!("sub file: {}", hex(&b, 4000)));
        let p = ctx.file("shared.sub", &b);
        let sub = sut("Sub::open", || Sub::open(&p))?.map_err(|e| format!("opening failed: {e}"))?;
        let f = |s: &Sub| -> Result<u64, String> {
            sut("decoding a shared file", || {
                let mut h = Hasher::new();
                for x in s.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
                    if let Ok(x) = &x {
                        let im = VobSubToImage::new(&x.1, &pal, conv_to_rgba).to_image();
                        h.bytes(im.as_raw());
                        let im = VobSubOcrImage::new(&x.1, &lum).image(&Default::default());
                        h.bytes(im.as_raw());
                    }
                    h.u64(vshot(x).0);
                }
                h.get()
            })
        };
        let first = f(&sub)?;
        let (mut v, sh) = (&Share(&sub)).each(t, f);
        v.insert(0, Ok(first));
        (v, sh, fnv(&b))
    } else {
        let s = pgs::gen_small_sub(&mut ctx.r);
        let b = pgs::build(&mut ctx.r, &[s], pgs::VARY_SMALL).bytes;
        ctx.detail(|| format!("sup stream: {}", hex(&b, 4000)));
        let img = sut("decoding", || SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b[..])).next())?;
        let Some(Ok((_, img))) = img else { return Err("a well-formed picture does not decode".into()) };
        let f = |x: &RleEncodedImage| -> Result<u64, String> {
            sut("using a shared picture", || {
                let mut h = Hasher::new();
                for p in x.iter() {
                    h.u64(u64::from(p.0[0]) << 8 | u64::from(p.0[1]));
                }
                let im = RleToImage::new(x, |p: LumaA<u8>| p).to_image();
                h.bytes(im.as_raw());
                h.get()
            })
        };
        let first = f(&img)?;
        let (mut v, sh) = (&Share(&img)).each(t, f);
        v.insert(0, Ok(first));
        (v, sh, fnv(&b))
    };
    let first = outs[0].clone()?;
    for o in outs {
        if o? != first {
            return Err(format!("{} used by {t} threads at once gives different results", if i % 2 == 0 { "an opened file" } else { "a picture" }));
        }
        ctx.ev(1);
    }
    ctx.c(if shared { "shared between threads" } else { "not shareable" }, 1);
    ctx.nt(n);
    Ok(())
}

// ---------------------------------------------------------------- families of growing streams

pub const FAMILIES: [&str; 26] = [
    "vob plain", "vob fragmented", "vob foreign packets", "vob unfinished", "vob zeros", "vob junk", "vob false codes",
    "vob bad pack headers", "vob other streams", "vob defects", "vob no time stamp", "vob long packets", "vob one byte packets",
    "pgs plain", "pgs varied", "pgs long segments", "pgs unknown types", "pgs junk", "pgs zeros", "pgs ends", "pgs palettes",
    "pgs first parts", "pgs no image", "pgs bad objects", "pgs wide runs", "pgs windows",
];
/// A stream of the family, proportional to `n` (about 100 bytes each).
pub fn family(name: &str, n: usize, seed: u64) -> Vec<u8> {
    let mut r = Rng::plain(seed);
    let r = &mut r;
    // a few distinct subtitles, repeated
    let vsubs: Vec<_> = (0..8)
        .map(|_| loop {
            let (s, p, _) = vob::gen_small_spu(r);
            if p.bytes.len() < 300 {
                break (s, p);
            }
        })
        .collect();
    let psubs: Vec<_> = (0..8)
        .map(|_| {
            let mut s = pgs::gen_sub_dims(r, 6, 4);
            s.pal.truncate(20);
            s
        })
        .collect();
    let mut st = vob::Stream::default();
    let mut b = vec![];
    let ph = |r: &mut Rng| vob::pack_header(u64::from(r.u32()), 0, 25200, 0x1f, &[]);
    match name {
        "vob plain" => {
            for i in 0..n {
                let (s, p) = &vsubs[i % 8];
                st.add(r, &p.bytes, Some(s.pts), &vob::whole());
            }
        }
        "vob fragmented" => {
            for i in 0..n {
                let (s, p) = &vsubs[i % 8];
                let f = vob::gen_frag(r, p.bytes.len());
                st.add(r, &p.bytes, Some(s.pts), &f);
            }
        }
        "vob foreign packets" => {
            // one subtitle in two pieces with all the other packets between them
            let (s, p) = &vsubs[0];
            let h = vob::plain_head(Some(s.pts));
            st.bytes.extend(ph(r));
            st.bytes.extend(vob::pes(&h, &p.bytes[..10]));
            for _ in 0..n {
                let h = vob::gen_head(r, None, 0x25);
                st.bytes.extend(ph(r));
                st.bytes.extend(vob::pes(&h, &[0x11; 60]));
            }
            let h = vob::plain_head(None);
            st.bytes.extend(ph(r));
            st.bytes.extend(vob::pes(&h, &p.bytes[10..]));
        }
        "vob unfinished" => {
            for _ in 0..n {
                let (s, p) = &vsubs[0];
                let h = vob::plain_head(Some(s.pts));
                let k = p.bytes.len() - 1;
                st.bytes.extend(ph(r));
                st.bytes.extend(vob::pes(&h, &p.bytes[..k]));
            }
        }
        "vob zeros" => st.bytes.resize(n * 100, 0),
        "vob junk" => {
            st.bytes = r.bytes(n * 100);
            st.bytes.iter_mut().for_each(|x| *x |= 1);
        }
        "vob false codes" => {
            for _ in 0..n * 20 {
                st.bytes.extend([0, 0, 1, 0xb9, 0]);
            }
        }
        "vob bad pack headers" => {
            for _ in 0..n * 10 {
                st.bytes.extend([0, 0, 1, 0xba, 0, 0, 0, 0, 0, 7]);
            }
        }
        "vob other streams" => {
            for i in 0..n {
                st.bytes.extend(ph(r));
                st.bytes.extend([0, 0, 1, if i % 2 == 0 { 0xbe } else { 0xe0 }, 0, 80]);
                st.bytes.extend([0xff; 80]);
            }
        }
        "vob defects" => {
            let mut v = vec![];
            for k in 0..15 {
                let (s, p) = &vsubs[k % 8];
                if let Some(x) = plant(r, k, s, p) {
                    if x.0.len() > 12 {
                        v.push(x);
                    }
                }
            }
            for i in 0..n {
                let (x, pts) = &v[i % v.len()];
                st.add(r, x, *pts, &vob::whole());
            }
        }
        "vob no time stamp" => {
            for i in 0..n {
                let (_, p) = &vsubs[i % 8];
                st.add(r, &p.bytes, None, &vob::whole());
            }
        }
        "vob long packets" => {
            // few subtitles with large unused data
            for i in 0..n / 20 + 1 {
                let (s, p) = &vsubs[i % 8];
                let f = vob::Fragmenting { surplus: 2000, ..vob::whole() };
                st.add(r, &p.bytes, Some(s.pts), &f);
            }
        }
        "vob one byte packets" => {
            for i in 0..n / 8 + 1 {
                let (s, p) = &vsubs[i % 8];
                let f = vob::Fragmenting { cuts: (2..p.bytes.len()).collect(), ..vob::whole() };
                st.add(r, &p.bytes, Some(s.pts), &f);
            }
        }
        "pgs plain" | "pgs varied" | "pgs long segments" => {
            let o = match name {
                "pgs plain" => pgs::PLAIN,
                "pgs varied" => pgs::VARY_SMALL,
                _ => pgs::VARY,
            };
            let k = if name == "pgs long segments" { n / 20 + 1 } else { n / 4 + 1 };
            let subs: Vec<_> = (0..k).map(|i| psubs[i % 8].clone()).collect();
            b = pgs::build(r, &subs, o).bytes;
        }
        "pgs unknown types" => {
            for _ in 0..n * 4 {
                b.extend(pgs::seg(1, 0, 0x33, &[0; 12]));
            }
        }
        "pgs junk" => {
            b = r.bytes(n * 100);
            b.iter_mut().for_each(|x| *x |= 0x80);
        }
        "pgs zeros" => b = vec![0; n * 100],
        "pgs ends" => {
            for _ in 0..n * 8 {
                b.extend(pgs::seg(1, 0, pgs::END, &[]));
            }
        }
        "pgs palettes" => {
            for i in 0..n {
                b.extend(pgs::seg(1, 0, pgs::PDS, &pgs::pds_payload(0, 0, &psubs[i % 8].pal)));
            }
        }
        "pgs first parts" => {
            let h = pgs::ObjHead { id: 0, version: 0 };
            for _ in 0..n {
                b.extend(pgs::seg(1, 0, pgs::ODS, &pgs::ods_first(&h, 0x80, 500, 10, 10, &[1; 80])));
            }
        }
        "pgs no image" => {
            for i in 0..n {
                let s = &psubs[i % 8];
                b.extend(pgs::seg(1, 0, pgs::PDS, &pgs::pds_payload(0, 0, &s.pal)));
                b.extend(pgs::seg(s.start, 0, pgs::END, &[]));
                b.extend(pgs::seg(s.end, 0, pgs::END, &[]));
            }
        }
        "pgs bad objects" => {
            let h = pgs::ObjHead { id: 0, version: 0 };
            for i in 0..n {
                let d = if i % 2 == 0 { 3 } else { 500 };
                b.extend(pgs::seg(1, 0, pgs::ODS, &pgs::ods_first(&h, 0xc0, d, 10, 10, &[1; 80])));
            }
        }
        "pgs wide runs" => {
            // long runs: much picture for few bytes
            for i in 0..n / 40 + 1 {
                let mut s = psubs[i % 8].clone();
                s.pic.w = 2000;
                s.pic.h = 2;
                s.rle = vec![0, 0xff, 0xd0, 1, 0, 0];
                s.split = None;
                let mut t = pgs::Stream::default();
                t.add(r, &s, pgs::PLAIN);
                b.extend(t.bytes);
            }
        }
        "pgs windows" => {
            for _ in 0..n * 3 {
                b.extend(pgs::seg(1, 0, pgs::WDS, &[1; 20]));
            }
        }
        x => panic!("harness: family {x}"),
    }
    if name.starts_with("vob") {
        st.bytes
    } else {
        b
    }
}
fn is_vob(name: &str) -> bool {
    name.starts_with("vob")
}
/// Iterates everything, dropping each item at once. Returns (ok, err).
#[inline(never)]
#[no_mangle]
pub fn vh_decode_work(vob: bool, path: &Path, bytes: &[u8], times: bool) -> (u64, u64) {
    let (mut ok, mut bad) = (0, 0);
    if vob {
        let Ok(sub) = Sub::open(path) else { return (0, 0) };
        for x in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
            match x {
                Ok(_) => ok += 1,
                Err(_) => bad += 1,
            }
        }
    } else if times {
        for x in SupParser::<_, DecodeTimeOnly>::new(Cursor::new(bytes)) {
            match x {
                Ok(_) => ok += 1,
                Err(_) => bad += 1,
            }
        }
    } else {
        for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(bytes)) {
            match x {
                Ok((_, i)) => {
                    ok += 1;
                    for p in i.iter().take(8000) {
                        std::hint::black_box(p);
                    }
                }
                Err(_) => bad += 1,
            }
        }
    }
    (ok, bad)
}

// ---------------------------------------------------------------- X03

/// Peak live bytes above the start while iterating, items dropped one by one.
fn peak_of(vob: bool, path: &Path, bytes: &[u8], times: bool) -> Result<(isize, isize, u64), String> {
    sut("iterating", || {
        if vob {
            let before = mem().live;
            let Ok(sub) = Sub::open(path) else { return Err("opening failed".to_string()) };
            mem_reset_peak();
            let base = mem().live;
            let mut n = 0;
            for x in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
                drop(x);
                n += 1;
            }
            let peak = mem().peak - base;
            drop(sub);
            Ok((peak, mem().live - before, n))
        } else {
            mem_reset_peak();
            let base = mem().live;
            let (a, b) = vh_decode_work(false, path, bytes, times);
            Ok((mem().peak - base, mem().live - base, a + b))
        }
    })?
}
fn x03_growth(ctx: &mut Ctx, i: u64) -> R {
    let name = FAMILIES[i as usize % FAMILIES.len()];
    let n = if i < 26 { 400 } else { ctx.r.range(200, 1500) };
    let times = ctx.r.bool();
    let seed = ctx.r.u64();
    let small = family(name, n, seed);
    let large = family(name, n * 4, seed);
    let (ps, pl) = (ctx.file("small", &small), ctx.file("large", &large));
    let vob = is_vob(name);
    // once before, for lazily initialised parts
    peak_of(vob, &ps, &small, times)?;
    let (a, la, na) = peak_of(vob, &ps, &small, times)?;
    let (b, lb, nb) = peak_of(vob, &pl, &large, times)?;
    ctx.sample(|| format!("{name}: {na} items with a peak of {a} bytes, {nb} items with {b} bytes"));
    ctx.ev(2);
    ctx.c("items", na + nb);
    ctx.max("peak bytes while iterating", b.max(a) as u64);
    ctx.max("bytes in one stream", large.len() as u64);
    ctx.nt(fnv(&small));
    // fixed slack for differing sizes of single subtitles
    if b > a + a / 4 + 8192 {
        return Err(format!(
            "{name}{}: {na} items peak at {a} bytes of live memory, {nb} items at {b} bytes",
            if times { ", times only" } else { "" }
        ));
    }
    if la != 0 || lb != 0 {
        return Err(format!("{name}: {la} and {lb} bytes are still allocated after the iteration"));
    }
    Ok(())
}
/// Runs everything on the content and drops all results; returns what stays allocated.
fn left_after(kind: Kind, path: &Path, bytes: &[u8]) -> Result<(isize, isize), String> {
    mem_reset_peak();
    let base = mem().live;
    sut("decoding", || match kind {
        Kind::Vob => {
            if let Ok(s) = Sub::open(path) {
                let mut keep = vec![];
                for x in s.subtitles::<(TimeSpan, VobSubIndexedImage)>() {
                    // keep some of the results for a while
                    keep.push(x);
                    if keep.len() > 3 {
                        drop(keep.remove(0));
                    }
                }
            }
        }
        Kind::Pgs => {
            let mut keep = vec![];
            for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(bytes)) {
                if let Ok((_, i)) = &x {
                    let mut it = i.iter();
                    for _ in 0..100 {
                        it.next();
                    }
                }
                keep.push(x);
                if keep.len() > 3 {
                    drop(keep.remove(0));
                }
            }
        }
        Kind::Times => for _ in SupParser::<_, DecodeTimeOnly>::new(Cursor::new(bytes)) {},
        Kind::Idx => {
            let _ = Index::open(path);
        }
    })?;
    let m = mem();
    Ok((m.live - base, m.peak - base))
}
fn x03_released(ctx: &mut Ctx, _: u64) -> R {
    let kind = *ctx.r.pick(&KINDS);
    let d = gen_doc(ctx, 0, kind);
    ctx.detail(|| format!("{kind:?}: {}", hex(&d.bytes, 6000)));
    left_after(kind, &d.path, &d.bytes)?;
    for k in 0..2 {
        let (left, _) = left_after(kind, &d.path, &d.bytes)?;
        ctx.ev(1);
        if left != 0 {
            return Err(format!("{left} bytes stay allocated after decoding {kind:?} content (run {})", k + 2));
        }
    }
    ctx.sample(|| format!("{kind:?} content of {} bytes", d.bytes.len()));
    ctx.c(&format!("documents {kind:?}"), 1);
    ctx.nt(fnv(&d.bytes));
    Ok(())
}
fn hostile_peak(ctx: &mut Ctx, kind: Kind, path: &Path, bytes: &[u8]) -> R {
    let (_, peak) = left_after(kind, path, bytes)?;
    let limit = (64 << 20) + 8 * bytes.len() as isize;
    ctx.ev(1);
    ctx.max("peak bytes on hostile content", peak as u64);
    ctx.nt(fnv(bytes));
    if peak > limit {
        return Err(format!("{} bytes of {kind:?} content need {peak} bytes of memory", bytes.len()));
    }
    Ok(())
}
fn x03_hostile(ctx: &mut Ctx, _: u64) -> R {
    let kind = *ctx.r.pick(&KINDS);
    let b = match kind {
        Kind::Vob => hostile::vob_any(&mut ctx.r),
        Kind::Pgs | Kind::Times => hostile::pgs_any(&mut ctx.r),
        Kind::Idx => gen_idx_bytes(&mut ctx.r),
    };
    let p = ctx.file("hostile", &b);
    ctx.detail(|| format!("{kind:?}: {}", hex(&b, 6000)));
    hostile_peak(ctx, kind, &p, &b)
}
/// Size fields at their limits, repeated.
fn x03_sizes(ctx: &mut Ctx, i: u64) -> R {
    let r = &mut ctx.r;
    let n = r.range(1, 12);
    let mut b = vec![];
    let kind = match i % 5 {
        0 => {
            // objects that announce 16 MiB
            for _ in 0..n {
                let h = pgs::ObjHead { id: 0, version: 0 };
                b.extend(pgs::seg(1, 0, pgs::ODS, &pgs::ods_first(&h, *r.pick(&[0x80, 0xc0]), 0xff_ffff, 65535, 65535, &[1; 30])));
                if r.bool() {
                    b.extend(pgs::seg(1, 0, pgs::ODS, &pgs::ods_last(&h, &[2; 60])));
                }
            }
            Kind::Pgs
        }
        1 => {
            // headers that announce 64 KiB
            for _ in 0..n {
                b.extend(pgs::seg_raw(1, 0, *r.pick(&[pgs::PDS, pgs::ODS, pgs::PCS, pgs::END, 0x55]), 0xffff, &[1; 20]));
            }
            Kind::Pgs
        }
        2 => {
            // picture of 65535 x 65535
            let mut s = pgs::gen_small_sub(r);
            s.pic.w = 65535;
            s.pic.h = 65535;
            s.rle = vec![0, 0xff, 0xff, 9];
            s.split = None;
            for _ in 0..n {
                let mut t = pgs::Stream::default();
                t.add(r, &s, pgs::PLAIN);
                b.extend(t.bytes);
            }
            Kind::Pgs
        }
        _ => {
            // largest areas over little data
            for _ in 0..n.min(3) {
                let mut p = vec![0xff, 0xff, 0, 0];
                let m = r.range(10, 4000);
                p.extend(if r.bool() { vec![0; m] } else { r.bytes(m) });
                let c = p.len() as u16;
                p[2..4].copy_from_slice(&c.to_be_bytes());
                p.extend([0, 0, (c >> 8) as u8, c as u8, 1, 3, 1, 2, 4, 3, 4]);
                p.extend(vob::cmd_area(&[0, 0, 4095, 4095]));
                p.extend(vob::cmd_rle([4, 4]));
                p.push(0xff);
                let l = (p.len() as u16).to_be_bytes();
                p[..2].copy_from_slice(&l);
                b.extend(hostile::vob_framed(r, &p));
            }
            Kind::Vob
        }
    };
    let p = ctx.file("sizes", &b);
    ctx.detail(|| format!("{kind:?}: {}", hex(&b, 2000)));
    ctx.sample(|| format!("{kind:?} content of {} bytes with size fields at their limits", b.len()));
    hostile_peak(ctx, kind, &p, &b)?;
    // and nothing stays
    let (left, _) = left_after(kind, &p, &b)?;
    if left != 0 {
        return Err(format!("{left} bytes stay allocated after {kind:?} content with size fields at their limits"));
    }
    Ok(())
}

// ---------------------------------------------------------------- X04

pub(crate) fn all_vob(ctx: &mut Ctx, b: &[u8], px: u64) -> R {
    let p = ctx.file("x.sub", b);
    ctx.detail(|| format!("sub file: {}", hex(b, 6000)));
    let pal: Palette = std::array::from_fn(|i| Rgb([i as u8 * 16, 255 - i as u8, i as u8]));
    let lum = palette_rgb_to_luminance(&pal);
    let opt = gen_ocr(&mut ctx.r);
    let limit = count_pack_codes(b) + 4;
    let (h, n) = sut("decoding a .sub file", || -> Result<(u64, u64), String> {
        let sub = Sub::open(&p).map_err(|e| format!("opening failed: {e}"))?;
        let mut h = Hasher::new();
        let mut n = 0;
        for x in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(limit) {
            n += 1;
            if let Ok(x) = &x {
                if u64::from(x.1.width()) * u64::from(x.1.height()) <= px {
                    h.bytes(VobSubToImage::new(&x.1, &pal, conv_to_rgba).to_image().as_raw());
                    h.bytes(VobSubOcrImage::new(&x.1, &lum).image(&opt).as_raw());
                }
                h.bytes(format!("{:?}", x.0).as_bytes());
            }
            let s = vshot(x);
            h.u64(s.0);
        }
        Ok((h.get(), n))
    })??;
    ctx.digest(h);
    ctx.ev(1);
    ctx.c("subtitles or errors", n);
    ctx.nt(h);
    Ok(())
}
pub(crate) fn all_pgs(ctx: &mut Ctx, b: &[u8], px: u64) -> R {
    ctx.detail(|| format!("sup stream: {}", hex(b, 6000)));
    let opt = gen_ocr(&mut ctx.r);
    let (h, n) = sut("decoding a .sup stream", || {
        let mut h = Hasher::new();
        let mut n = 0;
        for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(b)).take(b.len() + 2) {
            n += 1;
            match x {
                Ok((t, i)) => {
                    h.bytes(format!("{t:?} {}x{}", i.width(), i.height()).as_bytes());
                    let a = u64::from(i.width()) * u64::from(i.height());
                    for p in i.iter().take(px.min(a + 2) as usize) {
                        h.u64(u64::from(p.0[0]) << 8 | u64::from(p.0[1]));
                    }
                    if a <= px {
                        h.bytes(RleToImage::new(&i, |p: LumaA<u8>| p).to_image().as_raw());
                        h.bytes(RleToImage::new(&i, subtile::image::luma_a_to_luma_convertor(100, 60)).image(&opt).as_raw());
                    }
                }
                Err(e) => {
                    h.bytes(pdec::err_text(&e).as_bytes());
                }
            }
        }
        for x in SupParser::<_, DecodeTimeOnly>::new(Cursor::new(b)).take(b.len() + 2) {
            n += 1;
            h.u64(tshot(x).0);
        }
        (h.get(), n)
    })?;
    ctx.digest(h);
    ctx.ev(2);
    ctx.c("subtitles or errors", n);
    ctx.nt(h);
    Ok(())
}
pub(crate) fn all_idx(ctx: &mut Ctx, b: &[u8]) -> R {
    let p = ctx.file("x.idx", b);
    ctx.detail(|| format!("idx file: {}", hex(b, 6000)));
    let s = sut("reading an .idx file", || {
        let a = idx_shot(Index::open(&p));
        let c = subtile::vobsub::palette(b);
        (a.0 ^ fnv(format!("{c:?}").as_bytes()), a.1)
    })?;
    ctx.digest(s.0);
    ctx.ev(1);
    ctx.nt(fnv(b));
    Ok(())
}
fn x04_vob(ctx: &mut Ctx, i: u64) -> R {
    let b = match i % 8 {
        0 => fixture(p_vob::FIXTURES[1 + i as usize / 8 % 2]),
        1 => {
            let (s, p, _) = vob::gen_spu(&mut ctx.r);
            let mut st = vob::Stream::default();
            let f = vob::gen_frag(&mut ctx.r, p.bytes.len());
            st.add(&mut ctx.r, &p.bytes, Some(s.pts), &f);
            st.bytes
        }
        2 => {
            let (s, p, _) = vob::gen_small_spu(&mut ctx.r);
            let k = ctx.r.below(19);
            match plant(&mut ctx.r, k, &s, &p) {
                Some((b, _)) => hostile::vob_framed(&mut ctx.r, &b),
                None => return Ok(()),
            }
        }
        _ => hostile::vob_any(&mut ctx.r),
    };
    let b = if i % 8 == 0 && i > 16 {
        let mut b = b;
        let n = ctx.r.range(1, 6);
        hostile::mutate(&mut ctx.r, &mut b, n);
        b
    } else {
        b
    };
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 60)));
    all_vob(ctx, &b, 60_000)
}
fn x04_pgs(ctx: &mut Ctx, i: u64) -> R {
    let b = match i % 10 {
        0 => {
            let mut b = fixture("only_one.sup");
            if i > 0 {
                let n = ctx.r.range(1, 6);
                hostile::mutate(&mut ctx.r, &mut b, n);
            }
            b
        }
        1 => {
            let s = pgs::gen_sub(&mut ctx.r);
            pgs::build(&mut ctx.r, &[s], pgs::VARY_SMALL).bytes
        }
        _ => hostile::pgs_any(&mut ctx.r),
    };
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 60)));
    all_pgs(ctx, &b, 60_000)
}
fn x04_idx(ctx: &mut Ctx, _: u64) -> R {
    let b = if ctx.r.chance(1, 3) { gen_idx_ok(&mut ctx.r) } else { gen_idx_bytes(&mut ctx.r) };
    ctx.sample(|| format!("{:?}", String::from_utf8_lossy(&b).chars().take(100).collect::<String>()));
    all_idx(ctx, &b)
}
pub(crate) fn text_output(ctx: &mut Ctx, n: usize, limit: usize) -> R {
    let l = p_time::gen_list(&mut ctx.r, n, false);
    let mut s = Sink::new(limit, ErrorKind::Other, 7);
    s.piece = 13;
    let res = sut("write_srt", || {
        let a = subtile::srt::write_srt(&mut s, &l).is_ok();
        let b = l.first().map(|(t, x)| subtile::webvtt::write_line(&mut s, t, x).is_ok());
        let c = l.iter().map(|(t, _)| format!("{t:?} {}", subtile::vobsub::TimePointIdx::from(t.start))).collect::<String>();
        (a, b, c)
    })?;
    ctx.digest(fnv(&s.got) ^ fnv(format!("{res:?}").as_bytes()));
    ctx.ev(1);
    Ok(())
}
fn x04_output(ctx: &mut Ctx, i: u64) -> R {
    if i % 2 == 0 {
        let n = ctx.r.skewed(0, 20);
        let limit = if ctx.r.bool() { usize::MAX } else { ctx.r.skewed(1, 2000) };
        text_output(ctx, n, limit)?;
        ctx.nt(i);
        Ok(())
    } else {
        p_img::defs("I01").unwrap().into_iter().next().map_or(Ok(()), |d| (d.f)(ctx, i))
    }
}
fn x04_readers(ctx: &mut Ctx, i: u64) -> R {
    let b = hostile::pgs_any(&mut ctx.r);
    let len = b.len();
    let plan = Plan {
        window: *ctx.r.pick(&[0usize, 1, 2, 7, 64]),
        fixed: ctx.r.bool(),
        interrupt: *ctx.r.pick(&[0, 40]),
        fail_at: if ctx.r.bool() { Some(ctx.r.below(60) as u64) } else { None },
        persistent: false,
        ..Plan::default()
    };
    let (p, _) = Probe::new(Rc::new(b.clone()), plan, i);
    ctx.detail(|| format!("sup stream: {}", hex(&b, 6000)));
    let v = sut("decoding from a reader", || pdec::images_from(p, len + 70))?;
    ctx.digest(pdec::hash_items(&v));
    ctx.ev(1);
    ctx.nt(fnv(&b));
    Ok(())
}
pub(crate) fn x04_geometry(ctx: &mut Ctx, i: u64) -> R {
    // arithmetic on extreme values, debug formatting included
    let r = &mut ctx.r;
    let (a, b) = (r.edge_i64(), r.edge_i64());
    let v = [r.edge_u16(), r.edge_u16(), r.edge_u16(), r.edge_u16()];
    let s = sut("time and area arithmetic", || {
        let t = TimePoint::from_msecs(a);
        let u = TimeSpan::new(t, TimePoint::from_msecs(b));
        let x = subtile::content::Area::try_from(subtile::content::AreaValues { x1: v[0], y1: v[1], x2: v[2], y2: v[3] });
        let g = x.as_ref().ok().map(|x| (x.width(), x.height(), x.size().w));
        let back = if a.unsigned_abs() < 1 << 60 { TimePoint::from_secs(t.to_secs()).msecs() } else { 0 };
        format!(
            "{u:?} {} {} {} {x:?} {g:?} {back}",
            subtile::srt::TimePointSrt::from(t),
            subtile::webvtt::TimePointVtt::from(t),
            subtile::vobsub::TimePointIdx::from(t)
        )
    })?;
    ctx.digest(fnv(s.as_bytes()));
    ctx.ev(1);
    ctx.nt(i);
    Ok(())
}
/// Pictures of extreme proportions with wide borders.
fn x04_render(ctx: &mut Ctx, i: u64) -> R {
    let r = &mut ctx.r;
    let long = |r: &mut Rng| match r.below(4) {
        0 => 65_535,
        1 => 65_535 - r.below(5),
        2 => r.range(32_760, 32_775),
        _ => r.range(1, 65_535),
    };
    let (mut w, mut h) = (long(r), r.range(1, 4));
    if r.bool() {
        (w, h) = (h, w);
    }
    let mut opt = gen_ocr(r);
    opt.border = r.below(6) as u32;
    if w * h < 20_000 && r.bool() {
        opt.border = r.below(300) as u32;
    }
    let n = w * h;
    let b = opt.border;
    let s = if i % 2 == 0 {
        let pal = vec![[1u8, 200, 1, 2, 255], [2, 16, 1, 2, 0], [3, 90, 3, 4, 128]];
        let mut rle = vec![];
        let mut left = n;
        while left > 0 && rle.len() + 4 <= pgs::ODS_FIRST_MAX {
            let k = r.range(1, 40_000).min(16_383).min(left);
            rle.extend([0, 0xc0 | (k >> 8) as u8, k as u8, r.range(1, 4) as u8]);
            left -= k;
        }
        let im = crate::p_pgs::pictures(ctx, &pal, &[(w, h, rle)])?;
        sut("rendering", || {
            let mut h = Hasher::new();
            let o = RleToImage::new(&im[0], |p: LumaA<u8>| p).to_image();
            h.u64(u64::from(o.width())).u64(u64::from(o.height())).bytes(o.as_raw());
            let o = RleToImage::new(&im[0], subtile::image::luma_a_to_luma_convertor(100, 60)).image(&opt);
            h.u64(u64::from(o.width())).u64(u64::from(o.height())).bytes(o.as_raw());
            h.get()
        })?
    } else {
        let (w, h) = (w.max(2), h.max(2));
        let pix: Vec<u8> = (0..w * h).map(|k| ((k / 7 + k * k / 11) & 3) as u8).collect();
        let area = subtile::content::AreaValues { x1: 0, y1: 0, x2: (w - 1) as u16, y2: (h - 1) as u16 };
        sut("rendering", || {
            let area = subtile::content::Area::try_from(area).expect("an area of at least 2x2");
            let img = VobSubIndexedImage::new(area, [0, 5, 10, 15], [0, 5, 10, 15], pix);
            let rgb: subtile::vobsub::Palette = std::array::from_fn(|k| image::Rgb([k as u8, 3, 255 - k as u8]));
            let lum: [image::Luma<u8>; 16] = std::array::from_fn(|k| image::Luma([17 * k as u8]));
            let mut h = Hasher::new();
            let o = subtile::vobsub::VobSubToImage::new(&img, &rgb, subtile::vobsub::conv_to_rgba).to_image();
            h.u64(u64::from(o.width())).u64(u64::from(o.height())).bytes(o.as_raw());
            let o = subtile::vobsub::VobSubOcrImage::new(&img, &lum).image(&opt);
            h.u64(u64::from(o.width())).u64(u64::from(o.height())).bytes(o.as_raw());
            h.get()
        })?
    };
    ctx.digest(s);
    ctx.sample(|| format!("{w}x{h} with border {b}"));
    ctx.max("longest side with border", w.max(h) as u64 + 2 * u64::from(b));
    ctx.ev(2);
    ctx.nt(s);
    Ok(())
}
pub(crate) fn x04_small_vob(ctx: &mut Ctx, i: u64) -> R {
    let b = loop {
        let b = match i % 3 {
            0 => hostile::vob_valid(&mut ctx.r, 1),
            1 => hostile::vob_any(&mut ctx.r),
            _ => {
                let (s, p, _) = vob::gen_small_spu(&mut ctx.r);
                let k = ctx.r.below(19);
                plant(&mut ctx.r, k, &s, &p).map_or(vec![], |x| hostile::vob_framed(&mut ctx.r, &x.0))
            }
        };
        if b.len() < 900 {
            break b;
        }
    };
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 60)));
    all_vob(ctx, &b, 600)
}
pub(crate) fn x04_small_pgs(ctx: &mut Ctx, i: u64) -> R {
    let b = loop {
        let b = match i % 3 {
            0 => hostile::pgs_valid(&mut ctx.r, 1),
            _ => hostile::pgs_any(&mut ctx.r),
        };
        if b.len() < 900 {
            break b;
        }
    };
    ctx.sample(|| format!("{} bytes: {}", b.len(), hex(&b, 60)));
    all_pgs(ctx, &b, 600)
}
fn x04_small_rest(ctx: &mut Ctx, i: u64) -> R {
    match i % 3 {
        0 => {
            let mut b = gen_idx_bytes(&mut ctx.r);
            b.truncate(500);
            all_idx(ctx, &b)
        }
        1 => text_output(ctx, 2, 90),
        _ => x04_geometry(ctx, i),
    }
}

// ---------------------------------------------------------------- X05

/// Runs `f` with descriptors 1 and 2 going to files; whatever arrives there is a violation.
fn silent(ctx: &mut Ctx, what: &str, f: impl FnOnce(&mut Ctx) -> R) -> R {
    let path = ctx.scratch.join("captured");
    let mut fds = [0; 2];
    let open = |k: usize| -> fs::File {
        fs::OpenOptions::new()
            .create(true)
            .append(true)
            .read(true)
            .open(path.with_extension(k.to_string()))
            .expect("harness: capture file")
    };
    let files = [open(1), open(2)];
    let before: Vec<u64> = files.iter().map(|f| f.metadata().expect("harness: capture").len()).collect();
    let _ = std::io::stdout().flush();
    use std::os::fd::AsRawFd as _;
    unsafe {
        for k in 0..2 {
            fds[k] = libc::dup(k as i32 + 1);
            assert!(fds[k] >= 0, "harness: dup");
            assert!(libc::dup2(files[k].as_raw_fd(), k as i32 + 1) >= 0, "harness: dup2");
        }
    }
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(ctx)));
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    unsafe {
        for k in 0..2 {
            libc::dup2(fds[k], k as i32 + 1);
            libc::close(fds[k]);
        }
    }
    for k in 0..2 {
        let now = files[k].metadata().expect("harness: capture").len();
        if now != before[k] {
            let b = fs::read(path.with_extension((k + 1).to_string())).unwrap_or_default();
            let new = &b[(before[k] as usize).min(b.len())..];
            let _ = fs::remove_file(path.with_extension((k + 1).to_string()));
            return Err(format!(
                "{what} wrote {} bytes to the standard {}: {:?}",
                new.len(),
                if k == 0 { "output" } else { "error" },
                String::from_utf8_lossy(&new[..new.len().min(200)])
            ));
        }
    }
    ctx.ev(2);
    match res {
        // results are judged by other properties; panics of the code under test as well
        Ok(_) => Ok(()),
        Err(p) => std::panic::resume_unwind(p),
    }
}
fn x05_decode(ctx: &mut Ctx, i: u64) -> R {
    let (b, what): (Vec<u8>, &str) = match i % 5 {
        0 | 1 => (hostile::vob_any(&mut ctx.r), "decoding a .sub file"),
        2 | 3 => (hostile::pgs_any(&mut ctx.r), "decoding a .sup stream"),
        _ => (gen_idx_bytes(&mut ctx.r), "reading an .idx file"),
    };
    ctx.nt(fnv(&b));
    ctx.sample(|| format!("{what}: {}", hex(&b, 60)));
    ctx.detail(|| format!("{what}: {}", hex(&b, 6000)));
    silent(ctx, what, |ctx| match i % 5 {
        0 | 1 => all_vob(ctx, &b, 20_000),
        2 | 3 => all_pgs(ctx, &b, 20_000),
        _ => all_idx(ctx, &b),
    })
}
fn x05_faults(ctx: &mut Ctx, i: u64) -> R {
    let (b, idx) = if i % 3 == 0 { (gen_idx_bytes(&mut ctx.r), true) } else { (hostile::pgs_any(&mut ctx.r), false) };
    let kind = *ctx.r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::PermissionDenied, ErrorKind::TimedOut]);
    let plan = Plan {
        window: *ctx.r.pick(&[0usize, 1, 9]),
        fail_at: Some(ctx.r.skewed(1, 80) as u64 - 1),
        kind,
        persistent: ctx.r.bool(),
        ..Plan::default()
    };
    ctx.nt(fnv(&b) ^ plan.fail_at.unwrap());
    ctx.detail(|| format!("{plan:?}, content {}", hex(&b, 6000)));
    silent(ctx, "reading from a failing reader", |_| {
        sut("reading", || {
            let (p, log) = Probe::new(Rc::new(b.clone()), plan, i);
            if idx {
                let mk = |e: std::io::Error| VobSubError::Parse(e.to_string());
                let _ = Index::read_index(BufReader::new(p), &mk);
            } else if i % 2 == 0 {
                let _ = pdec::images_from(p, 40);
            } else {
                let _ = pdec::times_from(p, 40);
            }
            let f = log.borrow().fired;
            f
        })
        .map(|_| ())
    })
}
fn x05_files(ctx: &mut Ctx, _: u64) -> R {
    let root = ctx.scratch.join("nofile");
    let (p, _, kind) = unreadable(ctx, &root);
    let p = respell(&mut ctx.r, p);
    let b = if ctx.r.bool() { gen_idx_ok(&mut ctx.r) } else { hostile::vob_any(&mut ctx.r) };
    let q = ctx.file("some", &b);
    ctx.nt(fnv(&b));
    silent(ctx, &format!("opening ({kind})"), |_| {
        sut("opening", || {
            for p in [&p, &q] {
                let _ = is_idx_file(p);
                let _ = is_sub_file(p);
                let _ = Index::open(p);
                if let Ok(s) = Sub::open(p) {
                    let _ = s.subtitles::<TimeSpan>().take(100).count();
                }
                if let Ok(mut s) = SupParser::<BufReader<fs::File>, DecodeTimeOnly>::from_file(p) {
                    let _ = s.next();
                }
            }
        })
    })
}
fn x05_output(ctx: &mut Ctx, i: u64) -> R {
    ctx.nt(i);
    match i % 4 {
        0 => {
            let n = ctx.r.skewed(0, 20);
            let limit = ctx.r.skewed(1, 2000);
            silent(ctx, "writing subtitles", |ctx| text_output(ctx, n, limit))
        }
        1 => silent(ctx, "dumping images", |ctx| (p_img::defs("I01").unwrap()[0].f)(ctx, i / 4)),
        2 => {
            let k = ctx.r.range(3, 6);
            silent(ctx, "a failing image dump", |ctx| (p_img::defs("I02").unwrap()[k].f)(ctx, i / 4))
        }
        _ => silent(ctx, "time and area arithmetic", |ctx| x04_geometry(ctx, i)),
    }
}

// ---------------------------------------------------------------- X06

fn gen_name(r: &mut Rng, ext: &str) -> OsString {
    let mut b: Vec<u8> = match r.below(10) {
        0 => "日本語 字幕".as_bytes().to_vec(),
        1 => vec![0xff, 0xfe, b'a', 0x80],
        2 => vec![b'n'; r.range(200, 250)],
        3 => b"-".to_vec(),
        4 => b" ".to_vec(),
        5 => b"%s%n{}".to_vec(),
        6 => b"a.b.c".to_vec(),
        7 => b"new\nline".to_vec(),
        8 => b"~".to_vec(),
        _ => r.word().unwrap_or("movie").replace('/', "").into_bytes(),
    };
    if r.chance(3, 4) {
        b.push(b'.');
        b.extend(if r.chance(3, 4) { ext.as_bytes() } else { b"xyz" });
    }
    OsString::from_vec_(b)
}
trait FromVec {
    fn from_vec_(b: Vec<u8>) -> OsString;
}
impl FromVec for OsString {
    fn from_vec_(b: Vec<u8>) -> OsString {
        std::os::unix::ffi::OsStringExt::from_vec(b)
    }
}
/// The file under an unusual name, and the way its path is given.
fn place(ctx: &mut Ctx, ext: &str, b: &[u8]) -> (PathBuf, &'static str) {
    let root = ctx.scratch.join("names");
    let _ = fs::remove_dir_all(&root);
    let dir = if ctx.r.bool() { root.join("sub dir") } else { root.clone() };
    fs::create_dir_all(&dir).expect("harness: folder");
    let name = gen_name(&mut ctx.r, ext);
    let p = dir.join(name);
    fs::write(&p, b).expect("harness: file");
    match ctx.r.below(6) {
        0 => {
            let l = root.join("a-link");
            std::os::unix::fs::symlink(&p, &l).expect("harness: link");
            (l, "link")
        }
        1 => {
            let cwd = std::env::current_dir().unwrap_or_default();
            match p.strip_prefix(&cwd) {
                Ok(q) => (q.to_path_buf(), "relative"),
                Err(_) => (p, "absolute"),
            }
        }
        2 => (dir.join("..").join(dir.file_name().unwrap()).join(p.file_name().unwrap()), "with .."),
        _ => (p, "absolute"),
    }
}
/// Calls `f` with the path as one of the types callers use.
macro_rules! as_type {
    ($r:expr, $p:expr, $f:ident $(, $g:ty)*) => {{
        let p: &PathBuf = $p;
        match ($r.below(6), p.to_str()) {
            (0, Some(s)) => $f(s),
            (1, Some(s)) => $f(s.to_string()),
            (2, _) => $f(p.clone()),
            (3, _) => $f(p.as_os_str()),
            (4, _) => $f(p.as_os_str().to_os_string()),
            _ => $f(p.as_path()),
        }
    }};
}
fn x06_sub(ctx: &mut Ctx, i: u64) -> R {
    let n = (i % 5) as usize;
    // what the bytes say: known from the model
    let (subs, st) = loop {
        let subs: Vec<_> = if n == 0 { vec![] } else { p_vob::small_subs(&mut ctx.r, n) };
        match vob::plain_stream(&mut ctx.r, &subs) {
            Some(s) => break (subs, s),
            None => continue,
        }
    };
    let (p, how) = place(ctx, "sub", &st.bytes);
    ctx.sample(|| format!("{} subtitles at {p:?} ({how})", subs.len()));
    ctx.detail(|| format!("{p:?} ({how}): {}", hex(&st.bytes, 4000)));
    fn go<P: AsRef<Path> + Clone>(p: P) -> Result<Result<Vec<VItem>, VobSubError>, String> {
        sut("Sub::open", || {
            let s = Sub::open(p)?;
            Ok(s.subtitles::<(TimeSpan, VobSubIndexedImage)>()
                .take(50)
                .map(|x| match x {
                    Ok(x) => Ok(vdec::observe(&x)),
                    Err(e) => Err(vdec::err_text(&e)),
                })
                .collect())
        })
    }
    let v = as_type!(ctx.r, &p, go)?.map_err(|e| format!("opening {p:?} ({how}) failed: {e:?}"))?;
    if v.len() != subs.len() {
        return Err(format!("{p:?} ({how}): {} items of {} subtitles: {}", v.len(), subs.len(), p_vob::list(&v)));
    }
    for (k, (x, (s, _))) in v.iter().zip(&subs).enumerate() {
        let x = x.as_ref().map_err(|e| format!("{p:?}: subtitle {k}: {e}"))?;
        vdec::check_picture(x, s).map_err(|e| format!("{p:?} ({how}): subtitle {k}: {e}"))?;
        vdec::check_times(x, s).map_err(|e| format!("{p:?} ({how}): subtitle {k}: {e}"))?;
    }
    ctx.ev(1);
    ctx.c(&format!("path {how}"), 1);
    ctx.nt(fnv(&st.bytes) ^ fnv(p.as_os_str().as_bytes()));
    Ok(())
}
fn x06_idx(ctx: &mut Ctx, i: u64) -> R {
    let b = if i % 3 == 0 { gen_idx_bytes(&mut ctx.r) } else { gen_idx_ok(&mut ctx.r) };
    let (p, how) = place(ctx, "idx", &b);
    ctx.detail(|| format!("{p:?} ({how}): {}", hex(&b, 4000)));
    fn go<P: AsRef<Path>>(p: P) -> Result<Shot, String> {
        sut("Index::open", || {
            let r = Index::open(p);
            match r {
                Err(VobSubError::Io { source, .. }) => {
                    let s = format!("io {:?} {source}", source.kind());
                    (fnv(s.as_bytes()), s)
                }
                r => idx_shot(r),
            }
        })
    }
    let got = as_type!(ctx.r, &p, go)?;
    let want = sut("Index::read_index", || {
        let mk = |e: std::io::Error| VobSubError::Io { source: e, path: PathBuf::new() };
        match Index::read_index(BufReader::new(fs::File::open(&p).expect("harness: file")), &mk) {
            Err(VobSubError::Io { source, .. }) => {
                let s = format!("io {:?} {source}", source.kind());
                (fnv(s.as_bytes()), s)
            }
            r => idx_shot(r),
        }
    })?;
    if got != want {
        return Err(format!("{p:?} ({how}) opened by path: {}, its bytes: {}", got.1, want.1));
    }
    ctx.ev(1);
    ctx.c(&format!("path {how}"), 1);
    ctx.nt(fnv(&b) ^ fnv(p.as_os_str().as_bytes()));
    Ok(())
}
fn x06_sup(ctx: &mut Ctx, i: u64) -> R {
    let b = if i % 3 == 0 { hostile::pgs_any(&mut ctx.r) } else { hostile::pgs_valid(&mut ctx.r, 4) };
    let b = if i % 40 == 0 { vec![] } else { b };
    let (p, how) = place(ctx, "sup", &b);
    ctx.detail(|| format!("{p:?} ({how}): {}", hex(&b, 4000)));
    let n = b.len() + 2;
    let go_i = {
        fn f<P: AsRef<Path>>(p: P, n: usize) -> Result<Result<Vec<Shot>, PgsError>, String> {
            sut("SupParser::from_file", || {
                let s = SupParser::<BufReader<fs::File>, DecodeTimeImage>::from_file(p)?;
                Ok(s.take(n).fold(vec![], |mut v, x| {
                    v.push(pshot(x));
                    v
                }))
            })
        }
        f(p.as_path(), n)
    };
    fn go_t<P: AsRef<Path>>(p: P) -> Result<Result<Vec<Shot>, PgsError>, String> {
        sut("SupParser::from_file", || {
            let s = SupParser::<BufReader<fs::File>, DecodeTimeOnly>::from_file(p)?;
            let mut v = vec![];
            for x in s {
                v.push(tshot(x));
                if v.len() > 200_000 {
                    break;
                }
            }
            Ok(v)
        })
    }
    let got = go_i?.map_err(|e| format!("opening {p:?} ({how}) failed: {e:?}"))?;
    let want = sut("decoding from memory", || {
        SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b[..])).take(n).fold(vec![], |mut v, x| {
            v.push(pshot(x));
            v
        })
    })?;
    same_shots(&got, &want, &format!("{p:?} ({how}) opened by path"))?;
    let got = as_type!(ctx.r, &p, go_t)?.map_err(|e| format!("opening {p:?} ({how}) failed: {e:?}"))?;
    let want = sut("decoding from memory", || {
        let mut v = vec![];
        for x in SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&b[..])).take(200_001) {
            v.push(tshot(x));
        }
        v
    })?;
    same_shots(&got, &want, &format!("{p:?} ({how}) opened by path, times only"))?;
    ctx.ev(2);
    ctx.c(&format!("path {how}"), 1);
    ctx.nt(fnv(&b) ^ fnv(p.as_os_str().as_bytes()));
    Ok(())
}
/// Pipes, open files without a name, files that lose their name after the opening.
#[cfg(not(miri))]
fn x06_special(ctx: &mut Ctx, i: u64) -> R {
    use std::os::fd::{AsRawFd as _, FromRawFd as _, OwnedFd};
    const KINDS: [&str; 5] = ["a full pipe", "a slow pipe", "an open file without a name", "an open file", "a file that loses its name"];
    let kind = i as usize % KINDS.len();
    let entry = (i / 5) % 5;
    let b = loop {
        let r = &mut ctx.r;
        let b = match entry {
            0 => hostile::vob_valid(r, 4),
            1 => {
                if r.bool() {
                    gen_idx_ok(r)
                } else {
                    gen_idx_bytes(r)
                }
            }
            2 => hostile::pgs_valid(r, 4),
            3 => gen_idx_ok(r),
            _ => hostile::vob_any(r),
        };
        if b.len() < 60_000 {
            break b;
        }
    };
    // (the .sup decoders may seek, which pipes cannot)
    let kind = if entry == 2 && kind < 2 { kind + 2 } else { kind };
    ctx.detail(|| format!("{}, entry point {entry}: {}", KINDS[kind], hex(&b, 6000)));
    ctx.sample(|| format!("{}, entry point {entry}, {} bytes", KINDS[kind], b.len()));
    let file = ctx.file("special", &b);
    let mut held: Vec<OwnedFd> = vec![];
    let mut writer = None;
    let path = match kind {
        0 | 1 => {
            let mut fd = [0; 2];
            assert_eq!(unsafe { libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "harness: pipe");
            let (rd, wr) = unsafe { (OwnedFd::from_raw_fd(fd[0]), OwnedFd::from_raw_fd(fd[1])) };
            let mut wr = fs::File::from(wr);
            if kind == 0 {
                wr.write_all(&b).expect("harness: pipe");
                drop(wr);
            } else {
                let pieces: Vec<Vec<u8>> = b.chunks(b.len() / 3 + 1).map(<[u8]>::to_vec).collect();
                writer = Some(std::thread::spawn(move || {
                    for p in pieces {
                        std::thread::sleep(std::time::Duration::from_micros(200));
                        wr.write_all(&p).expect("harness: pipe");
                    }
                }));
            }
            let p = format!("/proc/self/fd/{}", rd.as_raw_fd());
            held.push(rd);
            PathBuf::from(p)
        }
        2 | 3 => {
            let f = OwnedFd::from(fs::File::open(&file).expect("harness: file"));
            if kind == 2 {
                fs::remove_file(&file).expect("harness: file");
            }
            let p = format!("/proc/self/fd/{}", f.as_raw_fd());
            held.push(f);
            PathBuf::from(p)
        }
        _ => file.clone(),
    };
    let after = || {
        if kind == 4 {
            fs::remove_file(&file).expect("harness: file");
        }
    };
    let by_path = |p: &Path| match Index::open(p) {
        Err(VobSubError::Io { source, .. }) => {
            let s = format!("io {:?} {source}", source.kind());
            (fnv(s.as_bytes()), s)
        }
        r => idx_shot(r),
    };
    let n = b.len() + 2;
    let what = format!("{} ({path:?})", KINDS[kind]);
    let got: Vec<Shot> = match entry {
        0 => {
            let s = sut("Sub::open", || Sub::open(&path))?.map_err(|e| format!("opening {what}: {e:?}"))?;
            after();
            sut("decoding", || s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(n).map(vshot).fold(vec![], |mut v, x| {
                v.push(x);
                v
            }))?
        }
        1 => vec![sut("Index::open", || by_path(&path))?],
        2 => {
            let s = sut("SupParser::from_file", || SupParser::<BufReader<fs::File>, DecodeTimeImage>::from_file(&path))?
                .map_err(|e| format!("opening {what}: {e:?}"))?;
            after();
            sut("decoding", || s.take(n).map(pshot).fold(vec![], |mut v, x| {
                v.push(x);
                v
            }))?
        }
        _ => {
            let r = if entry == 3 { sut("is_idx_file", || is_idx_file(&path))? } else { sut("is_sub_file", || is_sub_file(&path))? };
            // (files shorter than the magic may be an error)
            vec![(u64::from(r.as_ref().is_ok_and(|x| *x)), format!("{:?}", r.is_ok_and(|x| x)))]
        }
    };
    if let Some(w) = writer {
        w.join().map_err(|_| "harness: writer".to_string())?;
    }
    drop(held);
    let want: Vec<Shot> = match entry {
        0 => {
            let p = ctx.file("usual", &b);
            let s = sut("Sub::open", || Sub::open(&p))?.map_err(|e| format!("opening failed: {e:?}"))?;
            sut("decoding", || s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(n).map(vshot).fold(vec![], |mut v, x| {
                v.push(x);
                v
            }))?
        }
        1 => {
            let p = ctx.file("usual", &b);
            vec![sut("Index::open", || by_path(&p))?]
        }
        2 => sut("decoding from memory", || SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b[..])).take(n).map(pshot).fold(vec![], |mut v, x| {
            v.push(x);
            v
        }))?,
        3 => vec![(u64::from(b.starts_with(IDX_MAGIC)), format!("{:?}", b.starts_with(IDX_MAGIC)))],
        _ => vec![(u64::from(b.starts_with(&[0, 0, 1, 0xba])), format!("{:?}", b.starts_with(&[0, 0, 1, 0xba])))],
    };
    if got.len() != want.len() {
        return Err(format!("{what}: {} items, an ordinary file of the same bytes has {}", got.len(), want.len()));
    }
    if let Some(k) = (0..got.len()).find(|&k| got[k] != want[k]) {
        return Err(format!("{what}: item {k} is {}, that of an ordinary file of the same bytes {}", got[k].1, want[k].1));
    }
    ctx.ev(got.len() as u64);
    ctx.c(KINDS[kind], 1);
    ctx.nt(fnv(&b) ^ i % 25);
    Ok(())
}
fn x06_unreadable(ctx: &mut Ctx, i: u64) -> R {
    let root = ctx.scratch.join("unreadable");
    let (p, closed, kind) = unreadable(ctx, &root);
    let p = respell(&mut ctx.r, p);
    let what = format!("{p:?} ({kind})");
    ctx.sample(|| what.clone());
    fn sub<P: AsRef<Path> + Clone>(p: P) -> Result<Result<usize, VobSubError>, String> {
        sut("Sub::open", || {
            let s = Sub::open(p)?;
            let n = s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(10).map(|x| x.map(|_| ())).collect::<Result<Vec<_>, _>>()?;
            Ok(n.len())
        })
    }
    fn idx<P: AsRef<Path>>(p: P) -> Result<Result<usize, VobSubError>, String> {
        sut("Index::open", || Index::open(p).map(|_| 1))
    }
    let res = if i % 2 == 0 { ("Sub::open", as_type!(ctx.r, &p, sub)?) } else { ("Index::open", as_type!(ctx.r, &p, idx)?) };
    match res.1 {
        Err(VobSubError::Io { path, .. }) if same_path(&path, &p) => {}
        Err(e) => return Err(format!("{} of {what}: {e:?}, which does not carry the path", res.0)),
        Ok(n) => return Err(format!("{} of {what} succeeds with {n} items", res.0)),
    }
    fn sup<P: AsRef<Path>>(p: P) -> Result<Result<Option<Result<TimeSpan, PgsError>>, PgsError>, String> {
        sut("SupParser::from_file", || {
            let mut s = SupParser::<BufReader<fs::File>, DecodeTimeOnly>::from_file(p)?;
            Ok(s.next())
        })
    }
    match as_type!(ctx.r, &p, sup)? {
        Err(PgsError::Io { path, .. }) if same_path(&path, &p) => {}
        Err(e) => return Err(format!("SupParser::from_file of {what}: {e:?}, which does not carry the path")),
        Ok(x) if closed => return Err(format!("SupParser::from_file of {what} succeeds; first item {x:?}")),
        Ok(Some(Err(_))) => {}
        Ok(x) => return Err(format!("SupParser::from_file of {what}: first item {x:?}")),
    }
    ctx.ev(2);
    ctx.c(&format!("unreadable: {kind}"), 1);
    ctx.nt(fnv(p.as_os_str().as_bytes()) ^ i % 2);
    let _ = fs::remove_dir_all(&root);
    Ok(())
}

// ---------------------------------------------------------------- X07

/// Bytes and calls requested from the reader.
fn x07_reads(ctx: &mut Ctx, i: u64) -> R {
    let b = match i % 4 {
        0 => hostile::pgs_any(&mut ctx.r),
        1 => {
            let n = ctx.r.range(1, 6);
            let subs = pgs::gen_small_subs(&mut ctx.r, n);
            pgs::build(&mut ctx.r, &subs, pgs::VARY).bytes
        }
        2 => {
            let k = 13 + ctx.r.below(13);
            let n = ctx.r.range(1, 60);
            let s = ctx.r.u64();
            family(FAMILIES[k], n, s)
        }
        _ => hostile::pgs_valid(&mut ctx.r, 6),
    };
    let plan = Plan { window: *ctx.r.pick(&[0usize, 0, 16, 200, 8192]), fixed: true, ..Plan::default() };
    let w = plan.window;
    let len = b.len();
    ctx.detail(|| format!("sup stream: {}", hex(&b, 6000)));
    let rc = Rc::new(b);
    for times in [false, true] {
        let (p, log) = Probe::new(rc.clone(), plan.clone(), i);
        let n = if times {
            sut("decoding", || pdec::times_from(p, len + 2).len())?
        } else {
            sut("decoding", || pdec::images_from(p, len + 2).len())?
        };
        let l = log.borrow();
        let what = || format!("{} of a stream of {len} bytes, {n} items, window {w}", if times { "times" } else { "pictures" });
        if l.bytes > len as u64 + 64 {
            return Err(format!("{}: {} bytes were read", what(), l.bytes));
        }
        let windows = if w == 0 { 1 } else { len / w + 1 };
        let limit = 64 + 4 * len as u64 + 4 * windows as u64;
        if l.ops > limit {
            return Err(format!("{}: {} reader calls", what(), l.ops));
        }
        ctx.ev(1);
        ctx.max("reader bytes per 1000 stream bytes", l.bytes * 1000 / (len as u64).max(1000));
    }
    // the same behind a standard buffered reader: no part of the source is fetched twice
    for times in [false, true] {
        let (p, log) = Probe::new(rc.clone(), Plan { window: 0, fixed: true, ..Plan::default() }, i);
        let cap = *ctx.r.pick(&[1usize, 13, 64, 200, 8192, 8192]);
        let p = BufReader::with_capacity(cap, p);
        let n = if times {
            sut("decoding", || pdec::times_from(p, len + 2).len())?
        } else {
            sut("decoding", || pdec::images_from(p, len + 2).len())?
        };
        let l = log.borrow();
        if l.bytes > len as u64 + 64 {
            let what = if times { "times" } else { "pictures" };
            return Err(format!("{what} of a stream of {len} bytes, {n} items, behind a buffer of {cap} bytes: {} bytes were fetched", l.bytes));
        }
        ctx.ev(1);
        ctx.max("bytes fetched by a buffered reader per 1000 stream bytes", l.bytes * 1000 / (len as u64).max(1000));
    }
    ctx.nt(fnv(&rc));
    Ok(())
}
struct Cost {
    total: u64,
    count: u64,
    cpu: f64,
    items: u64,
}
fn cpu() -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}
fn cost(name: &str, path: &Path, bytes: &[u8], times: bool) -> Result<Cost, String> {
    let m = mem();
    let t = cpu();
    let (a, b) = sut("decoding", || vh_decode_work(is_vob(name), path, bytes, times))?;
    let cpu = cpu() - t;
    let n = mem();
    Ok(Cost { total: n.total - m.total, count: n.count - m.count, cpu, items: a + b })
}
/// Bytes allocated over the whole run grow with the length.
fn x07_allocations(ctx: &mut Ctx, i: u64) -> R {
    let name = FAMILIES[i as usize % FAMILIES.len()];
    let n = if i < 26 { 1000 } else { ctx.r.range(300, 2500) };
    let seed = ctx.r.u64();
    let times = ctx.r.bool();
    let (a, b) = (family(name, n, seed), family(name, 4 * n, seed));
    let (pa, pb) = (ctx.file("a", &a), ctx.file("b", &b));
    cost(name, &pa, &a, times)?;
    let (x, y) = (cost(name, &pa, &a, times)?, cost(name, &pb, &b, times)?);
    ctx.sample(|| format!("{name}: {} bytes, {} items, {} bytes allocated; {} bytes, {} items, {}", a.len(), x.items, x.total, b.len(), y.items, y.total));
    let k = b.len() as f64 / a.len() as f64;
    for (what, p, q, slack) in [("bytes allocated", x.total, y.total, 65_536.0), ("allocations", x.count, y.count, 1000.0)] {
        if q as f64 > p as f64 * k * 1.3 + slack {
            return Err(format!("{name}: {p} {what} for a stream of {} bytes, {q} for one of {} bytes", a.len(), b.len()));
        }
    }
    if y.items as f64 > x.items as f64 * k * 1.3 + 20.0 {
        return Err(format!("{name}: {} items of {} bytes, {} of {} bytes", x.items, a.len(), y.items, b.len()));
    }
    ctx.ev(1);
    ctx.nt(fnv(&a));
    ctx.c("streams compared with one four times as long", 1);
    Ok(())
}
/// Processor time of streams large enough for superlinear work to dominate.
fn x07_time(ctx: &mut Ctx, i: u64) -> R {
    let name = FAMILIES[i as usize % FAMILIES.len()];
    let n = if ctx.tier == Tier::Quick { 5_000 } else { 20_000 };
    let seed = ctx.r.u64();
    let times = i as usize / FAMILIES.len() % 2 == 1;
    let (a, b) = (family(name, n, seed), family(name, 8 * n, seed));
    let (pa, pb) = (ctx.file("a", &a), ctx.file("b", &b));
    let k = b.len() as f64 / a.len() as f64;
    // superlinear work would show as a factor of up to k * k; allow three times the linear factor
    let mut best: (f64, f64) = (f64::MAX, f64::MAX);
    for _ in 0..6 {
        best.0 = best.0.min(cost(name, &pa, &a, times)?.cpu);
        best.1 = best.1.min(cost(name, &pb, &b, times)?.cpu);
        if best.1 <= best.0 * k * 2.0 + 0.05 {
            break;
        }
    }
    ctx.sample(|| format!("{name}: {} bytes in {:.4} s, {} bytes in {:.4} s", a.len(), best.0, b.len(), best.1));
    ctx.ev(1);
    ctx.max("bytes in one stream", b.len() as u64);
    ctx.c("streams timed against one eight times as long", 1);
    ctx.nt(fnv(&a) ^ 3);
    if best.1 > best.0 * k * 3.0 + 0.1 {
        return Err(format!(
            "{name}{}: {} bytes are decoded in {:.3} s of processor time, {} bytes in {:.3} s",
            if times { ", times only" } else { "" },
            a.len(),
            best.0,
            b.len(),
            best.1
        ));
    }
    Ok(())
}

/// Helper modes: `gen:FAMILY:N:PATH` writes a stream, `work:FAMILY:TIMES:PATH` decodes it.
pub fn worker(w: &str, o: &Opts) -> i32 {
    let v: Vec<&str> = w.split(':').collect();
    match v[..] {
        ["families"] => {
            for f in FAMILIES {
                println!("{f}");
            }
            0
        }
        ["gen", f, n, p] => {
            fs::write(p, family(f, n.parse().unwrap(), o.seed)).expect("harness: write");
            0
        }
        ["work", f, times, p] => {
            let b = fs::read(p).expect("harness: read");
            let (a, e) = vh_decode_work(is_vob(f), Path::new(p), &b, times == "1");
            println!("items {a} errors {e} bytes {}", b.len());
            0
        }
        _ => 2,
    }
}
