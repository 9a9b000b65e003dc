//! Properties X08..X11: iterator contracts, logging, error reports, platforms.
use crate::fw::{st, sut, Ctx, StreamDef, R};
use crate::hostile;
use crate::p_pgs;
use crate::p_vob::{self, gen_idx_bytes, gen_idx_ok, plant};
use crate::p_x::{
    all_idx, all_pgs, all_vob, alone, gen_doc, idx_shot, pshot, same_shots, text_output, tshot, vshot, x04_geometry,
    x04_small_pgs, x04_small_vob, Kind, Shot, KINDS,
};
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt::Write as _;
use std::io::{self, BufReader, Cursor, ErrorKind, Read};
use std::rc::Rc;
use std::sync::{Condvar, Mutex};
use subtile::content::{Area, AreaValues};
use subtile::image::{GrayImage, Luma};
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, SupParser};
use subtile::time::TimeSpan;
use subtile::vobsub::{is_idx_file, is_sub_file, ErrorMissing, Index, Sub, VobSubError, VobSubIndexedImage};
use subtile::SubtileError;
use vhcore::io::{Plan, Probe};
use vhcore::pgs;
use vhcore::util::{count_pack_codes, fnv, hex, Hasher};
use vhcore::vob;

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "X08" => vec![
            st("adaptors", 8_000, 300_000, x08_adaptors),
            st("pixels", 8_000, 300_000, p_pgs::g09_adaptors),
            st("ended", 4_000, 150_000, x08_ended),
        ],
        "X09" => vec![
            st("documents", 6_000, 250_000, x09_documents),
            st("defects", 4_000, 150_000, x09_defects),
            st("output", 800, 20_000, x09_output),
        ],
        "X10" => vec![
            st("hostile", 8_000, 300_000, x10_hostile),
            st("vob-defects", 6_000, 200_000, x10_vob),
            st("pgs-defects", 6_000, 200_000, x10_pgs),
            st("idx", 4_000, 150_000, x10_idx),
            st("readers", 3_000, 100_000, x10_readers),
            st("files", 400, 10_000, x10_files),
            st("cut", 4_000, 120_000, x10_cut),
        ],
        "X11" => vec![
            st("vob", 40, 600, x11_vob),
            st("pgs", 40, 600, x11_pgs),
            st("idx", 16, 200, x11_idx),
            st("text", 16, 200, x11_text),
            st("readers", 24, 300, x11_readers),
            st("images", 8, 80, x11_images),
            st("geometry", 40, 600, x04_geometry),
        ],
        _ => return None,
    })
}

// ---------------------------------------------------------------- X08

/// Takes items by every route an iterator offers; each (position, shot) seen
/// and the position reached.  `plan` is a list of (operation, count).
pub fn by_routes<T>(
    mut it: impl Iterator<Item = T>,
    shot: impl Fn(T) -> Shot + Copy,
    plan: &[(usize, usize)],
    end: usize,
    want: &[Shot],
) -> R {
    let n = want.len();
    let mut at = 0usize;
    let eq = |g: Option<Shot>, p: usize, how: &str| -> R {
        if g.as_ref() == want.get(p) {
            return Ok(());
        }
        Err(format!(
            "{how} gives {} instead of item {p} of the plain iteration, {}",
            g.map_or("nothing".into(), |x| x.1),
            want.get(p).map_or("nothing".into(), |x| x.1.clone())
        ))
    };
    let hint = |h: (usize, Option<usize>), at: usize| -> R {
        let left = n - at;
        if h.0 > left || h.1.is_some_and(|u| u < left) {
            return Err(format!("size hint {h:?} with {left} items left"));
        }
        Ok(())
    };
    for &(op, k) in plan {
        hint(it.size_hint(), at)?;
        match op {
            0 => {
                eq(it.next().map(shot), at, "next()")?;
                at = n.min(at + 1);
            }
            1 => {
                eq(it.nth(k).map(shot), at + k, &format!("nth({k}) after {at} items"))?;
                at = n.min(at + k + 1);
            }
            2 => {
                let g: Vec<Shot> = it.by_ref().take(k).map(shot).collect();
                same_shots(&g, &want[at..n.min(at + k)], &format!("take({k}) after {at} items"))?;
                at = n.min(at + k);
            }
            3 => {
                let g: Vec<Shot> = it.by_ref().step_by(k + 1).take(2).map(shot).collect();
                let w: Vec<Shot> = want[at..].iter().step_by(k + 1).take(2).cloned().collect();
                same_shots(&g, &w, &format!("step_by({}).take(2) after {at} items", k + 1))?;
                // the second one comes from nth(k)
                at = n.min(at + k + 2);
            }
            _ => {
                let mut p = it.by_ref().peekable();
                let g = p.peek().is_some();
                if g != (at < n) {
                    return Err(format!("peek() says {g} after {at} of {n} items"));
                }
                eq(p.next().map(shot), at, "next() after peek()")?;
                at = n.min(at + 1);
            }
        }
    }
    let left = &want[at..];
    match end {
        0 => {
            let c = it.count();
            if c != left.len() {
                return Err(format!("count() gives {c} with {} items left", left.len()));
            }
        }
        1 => {
            let g = it.last().map(shot);
            if g.as_ref() != left.last() {
                return Err(format!("last() gives {:?} instead of {:?}", g, left.last()));
            }
        }
        2 => {
            let g = it.fold(vec![], |mut v, x| {
                v.push(shot(x));
                v
            });
            same_shots(&g, left, &format!("fold() after {at} items"))?;
        }
        3 => {
            let mut g = vec![];
            it.for_each(|x| g.push(shot(x)));
            same_shots(&g, left, &format!("for_each() after {at} items"))?;
        }
        4 => {
            let mut f = it.fuse();
            let g: Vec<Shot> = f.by_ref().map(shot).collect();
            same_shots(&g, left, &format!("fuse() after {at} items"))?;
            if f.next().is_some() {
                return Err("an item after the end of fuse()".into());
            }
        }
        _ => {
            let g: Vec<Shot> = it.map(shot).collect();
            same_shots(&g, left, &format!("collect() after {at} items"))?;
        }
    }
    Ok(())
}
/// Skipping, counting, stepping... give the items that plain iteration gives.
fn x08_adaptors(ctx: &mut Ctx, i: u64) -> R {
    let kind = *ctx.r.pick(&[Kind::Vob, Kind::Pgs, Kind::Times]);
    let mut d = gen_doc(ctx, 0, kind);
    if i % 2 == 0 {
        let more = gen_doc(ctx, 1, kind);
        d.bytes.extend(more.bytes);
        d.limit = d.bytes.len() + 3;
        d.path = ctx.file("doc0", &d.bytes);
    }
    d.want = alone(&d)?;
    let n = d.want.len();
    let plan: Vec<(usize, usize)> = (0..ctx.r.range(0, 5))
        .map(|_| (ctx.r.below(5), if ctx.r.chance(1, 5) { ctx.r.range(0, n + 2) } else { ctx.r.range(0, 3) }))
        .collect();
    let end = ctx.r.below(6);
    ctx.detail(|| format!("{kind:?}: {}\nplan {plan:?} then {end}", hex(&d.bytes, 6000)));
    sut("using an iterator's methods", || match kind {
        Kind::Vob => {
            let s = Sub::open(&d.path).map_err(|e| format!("opening failed: {e}"))?;
            by_routes(s.subtitles::<(TimeSpan, VobSubIndexedImage)>(), vshot, &plan, end, &d.want)
        }
        Kind::Pgs => by_routes(SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d.bytes[..])), pshot, &plan, end, &d.want),
        _ => by_routes(SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&d.bytes[..])), tshot, &plan, end, &d.want),
    })?
    .map_err(|e| format!("{kind:?}, {n} items, plan {plan:?} then {end}: {e}"))?;
    ctx.ev(1 + plan.len() as u64);
    ctx.c("items reached by other iterator methods", n as u64);
    if n > 1 && !plan.is_empty() {
        ctx.nt(fnv(&d.bytes) ^ fnv(format!("{plan:?}{end}").as_bytes()));
    }
    Ok(())
}
/// An ended iterator stays ended, however often it is asked and in whatever way.
fn x08_ended(ctx: &mut Ctx, _: u64) -> R {
    let kind = *ctx.r.pick(&[Kind::Vob, Kind::Pgs, Kind::Times]);
    let d = gen_doc(ctx, 0, kind);
    let asks: Vec<usize> = (0..ctx.r.range(2, 8)).map(|_| ctx.r.below(4)).collect();
    ctx.detail(|| format!("{kind:?}: {}\nthen {asks:?}", hex(&d.bytes, 6000)));
    fn past<T>(mut it: impl Iterator<Item = T>, limit: usize, asks: &[usize]) -> Result<usize, String> {
        let mut n = 0;
        while it.next().is_some() {
            n += 1;
            if n > limit {
                return Err(format!("item {n} out of a content that can hold {limit}"));
            }
        }
        for (k, &a) in asks.iter().enumerate() {
            let h = it.size_hint();
            if h.0 != 0 {
                return Err(format!("size hint {h:?} after the end"));
            }
            let some = match a {
                0 => it.next().is_some(),
                1 => it.nth(k).is_some(),
                2 => it.by_ref().count() > 0,
                _ => it.by_ref().last().is_some(),
            };
            if some {
                return Err(format!("an item at call {} after the end ({asks:?})", k + 1));
            }
        }
        Ok(n)
    }
    let n = sut("asking an ended iterator", || match kind {
        Kind::Vob => {
            let s = Sub::open(&d.path).map_err(|e| format!("opening failed: {e}"))?;
            past(s.subtitles::<(TimeSpan, VobSubIndexedImage)>(), d.limit, &asks)
        }
        Kind::Pgs => past(SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d.bytes[..])), d.limit, &asks),
        _ => past(SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&d.bytes[..])), d.limit, &asks),
    })??;
    ctx.ev(asks.len() as u64);
    ctx.c("calls after the end", asks.len() as u64);
    ctx.nt(fnv(&d.bytes).wrapping_add(n as u64));
    Ok(())
}

// ---------------------------------------------------------------- X09

thread_local! {
    /// Level that is on for this thread, the text so far and its records.
    static LEVEL: Cell<log::LevelFilter> = const { Cell::new(log::LevelFilter::Off) };
    static TEXT: RefCell<(u64, u64, Hasher)> = RefCell::new((0, 0, Hasher::new()));
}
struct Formats;
impl log::Log for Formats {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.level() <= LEVEL.get()
    }
    fn log(&self, r: &log::Record) {
        if r.level() > LEVEL.get() {
            return;
        }
        // what a logger does with a record: everything in it becomes text
        let mut s = String::new();
        let _ = write!(s, "{} {} {:?} {:?}: {}", r.level(), r.target(), r.file(), r.line(), r.args());
        TEXT.with(|t| {
            let mut t = t.borrow_mut();
            t.0 += 1;
            t.1 += s.len() as u64;
        });
    }
    fn flush(&self) {}
}
/// The level of the process, and how many calls rely on it.
static MODE: Mutex<(log::LevelFilter, usize)> = Mutex::new((log::LevelFilter::Off, 0));
static FREE: Condvar = Condvar::new();
/// While it lives, the level of the process is the one asked for.
struct Mode;
impl Mode {
    fn of(level: log::LevelFilter) -> Self {
        static LOGGER: Formats = Formats;
        // (only the first call can succeed)
        let _ = log::set_logger(&LOGGER);
        let mut m = MODE.lock().unwrap_or_else(|e| e.into_inner());
        while m.0 != level && m.1 > 0 {
            m = FREE.wait(m).unwrap_or_else(|e| e.into_inner());
        }
        log::set_max_level(level);
        *m = (level, m.1 + 1);
        Self
    }
}
impl Drop for Mode {
    fn drop(&mut self) {
        let mut m = MODE.lock().unwrap_or_else(|e| e.into_inner());
        m.1 -= 1;
        if m.1 == 0 {
            FREE.notify_all();
        }
    }
}
/// `f` with logging off, so that not even the arguments of a record are evaluated.
fn plain<T>(f: impl FnOnce() -> T) -> T {
    let _m = Mode::of(log::LevelFilter::Off);
    f()
}
/// `f` with records up to `level` formatted; also the number of records and the size of their text.
fn logged<T>(level: log::LevelFilter, f: impl FnOnce() -> T) -> (T, u64, u64) {
    let _m = Mode::of(level);
    TEXT.with(|t| *t.borrow_mut() = (0, 0, Hasher::new()));
    LEVEL.set(level);
    let x = f();
    LEVEL.set(log::LevelFilter::Off);
    TEXT.with(|t| (x, t.borrow().0, t.borrow().1))
}
/// The level of a case: many cases in a row have the same, as it is one per process.
fn level_of(i: u64) -> log::LevelFilter {
    const LEVELS: [log::LevelFilter; 5] = [
        log::LevelFilter::Trace,
        log::LevelFilter::Debug,
        log::LevelFilter::Trace,
        log::LevelFilter::Warn,
        log::LevelFilter::Error,
    ];
    LEVELS[(i / 200 % 5) as usize]
}
fn note_log(ctx: &mut Ctx, records: u64, text: u64, len: usize) {
    ctx.c("log records formatted", records);
    ctx.c("bytes of log text", text);
    ctx.max("log text per 1000 bytes of content", text * 1000 / (len as u64 + 1000));
    ctx.ev(1);
}
fn x09_documents(ctx: &mut Ctx, i: u64) -> R {
    let kind = *ctx.r.pick(&KINDS);
    let mut d = gen_doc(ctx, 0, kind);
    let level = level_of(i);
    ctx.sample(|| format!("{kind:?} of {} bytes with log level {level}: {}", d.bytes.len(), hex(&d.bytes, 40)));
    ctx.detail(|| format!("{kind:?} with log level {level}: {}", hex(&d.bytes, 6000)));
    d.want = plain(|| alone(&d))?;
    let (got, n, text) = logged(level, || alone(&d));
    same_shots(&got.map_err(|e| format!("with log level {level}: {e}"))?, &d.want, &format!("{kind:?} content with log level {level}"))?;
    note_log(ctx, n, text, d.bytes.len());
    // and through a reader that gives little at a time
    if matches!(kind, Kind::Pgs) {
        let plan = Plan { window: ctx.r.range(1, 40), fail_at: if ctx.r.bool() { Some(ctx.r.below(80) as u64) } else { None }, ..Plan::default() };
        let run = || {
            let (p, _) = Probe::new(Rc::new(d.bytes.clone()), plan.clone(), i);
            sut("decoding from a reader", || SupParser::<_, DecodeTimeImage>::new(p).take(d.limit).map(pshot).collect::<Vec<_>>())
        };
        let want = plain(&run)?;
        let (got, n, text) = logged(level, run);
        same_shots(&got?, &want, &format!("sup stream from a reader with log level {level}"))?;
        note_log(ctx, n, text, d.bytes.len());
    }
    if n > 0 {
        ctx.nt(fnv(&d.bytes) ^ level as u64);
    }
    Ok(())
}
/// Contents with a defect: the branches that report something.
fn x09_defects(ctx: &mut Ctx, i: u64) -> R {
    let level = level_of(i);
    if i % 2 == 0 {
        let (s, p, _) = vob::gen_small_spu(&mut ctx.r);
        let k = i as usize / 2 % p_vob::DEFECTS.len();
        let Some((b, pts)) = plant(&mut ctx.r, k, &s, &p) else { return Ok(()) };
        let mut m = vob::Stream::default();
        let f = vob::gen_frag(&mut ctx.r, b.len().max(3));
        let f = if b.len() < 4 { vob::whole() } else { f };
        m.add(&mut ctx.r, &b, pts, &f);
        // surplus bytes, a foreign packet in between
        m.bytes.extend(hostile::vob_any(&mut ctx.r));
        let path = ctx.file("log.sub", &m.bytes);
        ctx.sample(|| format!("{}, log level {level}, {} bytes", p_vob::DEFECTS[k], m.bytes.len()));
        ctx.detail(|| format!("log level {level}, sub file: {}", hex(&m.bytes, 6000)));
        let limit = count_pack_codes(&m.bytes) + 4;
        let run = || {
            sut("decoding a .sub file", || {
                Sub::open(&path).map(|s| s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(limit).map(vshot).collect::<Vec<_>>())
            })
        };
        let open = |e: VobSubError| format!("opening failed: {e}");
        let want = plain(&run)?.map_err(open)?;
        let (got, n, text) = logged(level, run);
        same_shots(&got.map_err(|e| format!("with log level {level}: {e}"))?.map_err(open)?, &want, &format!("sub file with log level {level}"))?;
        note_log(ctx, n, text, m.bytes.len());
        ctx.nt(fnv(&m.bytes) ^ level as u64);
    } else {
        let mut subs = p_pgs::small_subs(&mut ctx.r, 2, 2);
        p_pgs::distinct_times(&mut ctx.r, &mut subs);
        let k = i as usize / 2 % p_pgs::DEFECTS.len();
        let mut b = pgs::Stream::default();
        let v = p_pgs::g05_plant(&mut ctx.r, k, &subs[0], pgs::VARY_SMALL);
        b.push(&v);
        let v = pgs::clearing(&mut ctx.r, &subs[0], pgs::VARY_SMALL);
        b.push(&v);
        b.add(&mut ctx.r, &subs[1], pgs::PLAIN);
        ctx.sample(|| format!("{}, log level {level}, {} bytes", p_pgs::DEFECTS[k], b.bytes.len()));
        ctx.detail(|| format!("log level {level}, sup stream: {}", hex(&b.bytes, 6000)));
        let limit = b.bytes.len() + 2;
        let run = || {
            sut("decoding a .sup stream", || {
                let mut v: Vec<Shot> =
                    SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b.bytes[..])).take(limit).map(pshot).collect();
                v.extend(SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&b.bytes[..])).take(limit).map(tshot));
                v
            })
        };
        let want = plain(&run)?;
        let (got, n, text) = logged(level, run);
        same_shots(&got.map_err(|e| format!("with log level {level}: {e}"))?, &want, &format!("sup stream with log level {level}"))?;
        note_log(ctx, n, text, b.bytes.len());
        ctx.nt(fnv(&b.bytes) ^ level as u64);
    }
    Ok(())
}
/// Text output, image dumps, probes and index reading with a logger.
fn x09_output(ctx: &mut Ctx, i: u64) -> R {
    let level = level_of(i);
    match i % 3 {
        0 => {
            let n = ctx.r.skewed(0, 12);
            let limit = if ctx.r.bool() { usize::MAX } else { ctx.r.skewed(1, 800) };
            let l = crate::p_time::gen_list(&mut ctx.r, n, false);
            let run = || {
                let mut s = vhcore::io::Sink::new(limit, ErrorKind::Other, 3);
                sut("write_srt", || {
                    let a = subtile::srt::write_srt(&mut s, &l).map_err(|e| e.to_string());
                    let b = l.first().map(|(t, x)| subtile::webvtt::write_line(&mut s, t, x).map_err(|e| e.to_string()));
                    format!("{a:?} {b:?} {:?}", String::from_utf8_lossy(&s.got))
                })
            };
            let want = plain(&run)?;
            let (got, n, text) = logged(level, run);
            if got? != want {
                return Err(format!("text output differs with log level {level}"));
            }
            note_log(ctx, n, text, want.len());
            ctx.nt(fnv(want.as_bytes()));
        }
        1 => {
            let imgs: Vec<GrayImage> = (0..ctx.r.range(0, 3))
                .map(|_| {
                    let (w, h) = (ctx.r.range(1, 20) as u32, ctx.r.range(1, 20) as u32);
                    let v = ctx.r.bytes((w * h) as usize);
                    GrayImage::from_raw(w, h, v).unwrap()
                })
                .collect();
            let bad = ctx.r.chance(1, 4);
            let dir = if bad {
                ctx.file("afile", b"x").join("dir")
            } else {
                ctx.scratch.join(format!("logdump{i}"))
            };
            let (got, n, text) = logged(level, || {
                sut("dump_images", || subtile::image::dump_images(dir.to_str().unwrap(), imgs.iter()).is_ok())
            });
            let got = got?;
            let mut h = Hasher::new();
            for (k, g) in imgs.iter().enumerate() {
                h.bytes(g.as_raw());
                if bad {
                    continue;
                }
                let p = dir.join(format!("{k:06}.png"));
                match image::open(&p) {
                    Ok(x) if x.to_luma8().as_raw() == g.as_raw() => {}
                    x => return Err(format!("image {k} dumped with log level {level} reads back as {:?}", x.map(|x| x.into_luma8().dimensions()))),
                }
            }
            if got == bad {
                return Err(format!("dump_images with log level {level} returns ok = {got}"));
            }
            if !bad {
                let _ = std::fs::remove_dir_all(&dir);
            }
            note_log(ctx, n, text, 1000);
            ctx.nt(h.get());
        }
        _ => {
            let b = if ctx.r.bool() { gen_idx_ok(&mut ctx.r) } else { gen_idx_bytes(&mut ctx.r) };
            let p = ctx.file("log.idx", &b);
            let run = || {
                sut("reading an .idx file", || {
                    let x = idx_shot(Index::open(&p));
                    let y = format!("{:?} {:?}", is_idx_file(&p).ok(), is_sub_file(&p).ok());
                    let z = format!("{:?}", subtile::vobsub::palette(&b));
                    (x, y, z)
                })
            };
            let want = plain(&run)?;
            let (got, n, text) = logged(level, run);
            if got? != want {
                return Err(format!("an .idx file reads differently with log level {level}"));
            }
            note_log(ctx, n, text, b.len());
            ctx.nt(fnv(&b));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- X10

/// Everything a program does to report an error; the texts from the error to its root.
fn explain(ctx: &mut Ctx, e: Box<dyn Error + Send + Sync + 'static>, input: usize) -> Result<Vec<String>, String> {
    let v = sut("showing an error", || {
        // (as a program that handles it elsewhere)
        let mut v = vec![];
        let mut at: Option<&(dyn Error + 'static)> = Some(&*e);
        let mut total = 0;
        while let Some(x) = at {
            let s = x.to_string();
            let d = format!("{x:?}");
            total += s.len() + d.len() + format!("{x:#?} {x:#}").len();
            v.push((s, d));
            if v.len() > 16 {
                return Err(format!("more than 16 causes below {:?}", v[0]));
            }
            at = x.source();
        }
        Ok((v, total))
    })??;
    let (v, total) = v;
    for (s, d) in &v {
        if s.trim().is_empty() || d.trim().is_empty() {
            return Err(format!("the error {:?} or one of its causes has an empty text", v[0]));
        }
    }
    ctx.max("causes below one error", v.len() as u64 - 1);
    ctx.max("bytes of text for one error", total as u64);
    ctx.max("error text per 1000 bytes of content", total as u64 * 1000 / (input as u64 + 1000));
    ctx.c("errors shown", 1);
    Ok(v.into_iter().map(|x| x.0).collect())
}
/// The causes are the same through the common error type.
fn explain_vob(ctx: &mut Ctx, e: VobSubError, input: usize) -> Result<Vec<String>, String> {
    let own: Vec<String> = {
        let mut v = vec![];
        let mut at: Option<&(dyn Error + 'static)> = Some(&e);
        while let Some(x) = at {
            v.push(x.to_string());
            at = x.source();
            if v.len() > 16 {
                break;
            }
        }
        v
    };
    let s = sut("converting an error", || SubtileError::from(e))?;
    let all = explain(ctx, Box::new(s), input)?;
    if all.len() != own.len() + 1 || all[1..] != own[..] {
        return Err(format!("an error with the causes {own:?} has the causes {all:?} as SubtileError"));
    }
    Ok(own)
}
/// The I/O error at the root of `e`.
fn io_root<'a>(e: &'a (dyn Error + 'static)) -> Option<&'a io::Error> {
    let mut at = Some(e);
    let mut n = 0;
    while let Some(x) = at {
        if let Some(i) = x.downcast_ref::<io::Error>() {
            return Some(i);
        }
        if let Some(image::ImageError::IoError(i)) = x.downcast_ref::<image::ImageError>() {
            return Some(i);
        }
        at = x.source();
        n += 1;
        if n > 16 {
            return None;
        }
    }
    None
}
fn x10_hostile(ctx: &mut Ctx, _: u64) -> R {
    let kind = *ctx.r.pick(&KINDS);
    let d = gen_doc(ctx, 0, kind);
    ctx.detail(|| format!("{kind:?}: {}", hex(&d.bytes, 6000)));
    let mut errs: Vec<Box<dyn Error + Send + Sync>> = vec![];
    let mut vobs: Vec<VobSubError> = vec![];
    sut("decoding", || {
        match kind {
            Kind::Vob => {
                if let Ok(s) = Sub::open(&d.path) {
                    vobs.extend(s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(d.limit).filter_map(Result::err));
                }
            }
            Kind::Pgs => {
                for x in SupParser::<_, DecodeTimeImage>::new(Cursor::new(&d.bytes[..])).take(d.limit) {
                    errs.extend(x.err().map(|e| Box::new(e) as _));
                }
            }
            Kind::Times => {
                for x in SupParser::<_, DecodeTimeOnly>::new(Cursor::new(&d.bytes[..])).take(d.limit) {
                    errs.extend(x.err().map(|e| Box::new(e) as _));
                }
            }
            Kind::Idx => vobs.extend(Index::open(&d.path).err()),
        };
    })?;
    let n = errs.len() + vobs.len();
    for e in errs {
        explain(ctx, e, d.bytes.len())?;
    }
    for e in vobs {
        explain_vob(ctx, e, d.bytes.len())?;
    }
    ctx.ev(n as u64);
    if n > 0 {
        ctx.nt(fnv(&d.bytes));
    }
    Ok(())
}
fn x10_vob(ctx: &mut Ctx, i: u64) -> R {
    let (s, p, _) = vob::gen_small_spu(&mut ctx.r);
    let k = i as usize % 17;
    let Some((b, pts)) = plant(&mut ctx.r, k, &s, &p) else { return Ok(()) };
    let mut m = vob::Stream::default();
    m.add(&mut ctx.r, &b, pts, &vob::whole());
    ctx.detail(|| format!("{}: {}", p_vob::DEFECTS[k], hex(&m.bytes, 6000)));
    let path = ctx.file("x.sub", &m.bytes);
    let mut v = sut("decoding a .sub file", || -> Result<_, String> {
        let s = Sub::open(&path).map_err(|e| format!("opening failed: {e}"))?;
        Ok(s.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(4).collect::<Vec<_>>())
    })??;
    if v.len() != 1 {
        return Err(format!("{} items for one defective subtitle ({})", v.len(), p_vob::DEFECTS[k]));
    }
    let Err(e) = v.remove(0) else {
        return Err(format!("a subtitle with {} is decoded", p_vob::DEFECTS[k]));
    };
    use VobSubError as V;
    let at = |o: usize| usize::from(u16::from_be_bytes([b[o], b[o + 1]]));
    let rle = || {
        let o = p.cmds.iter().find(|c| c.0 == vob::C_RLE).unwrap().1;
        (at(o + 1), at(o + 3))
    };
    let ok = match (k, &e) {
        (0, V::MissingSubtitleParsing(ErrorMissing::StartTime))
        | (1, V::MissingSubtitleParsing(ErrorMissing::Area))
        | (2, V::MissingSubtitleParsing(ErrorMissing::Palette))
        | (3, V::MissingSubtitleParsing(ErrorMissing::AlphaPalette))
        | (4, V::MissingSubtitleParsing(ErrorMissing::RleOffset))
        | (5 | 6, V::Content(_))
        | (9 | 10 | 11, V::Image(_))
        | (13, V::ControlOffsetWentBackwards)
        | (15, V::MissingTimingForSubtitle)
        | (16, V::PacketTooShort) => true,
        (7 | 8, V::InvalidScanLineOffsets { start_0, start_1, end }) => {
            // (the data end at the control sequences, whose two first bytes may count)
            (*start_0, *start_1) == rle() && (*end == at(2) || *end == at(2) + 2)
        }
        (12, V::ControlOffsetBiggerThanPacket { offset, packet }) => (*offset, *packet) == (at(2), b.len()),
        (14, V::ControlOffsetBiggerThanPacket { offset, packet }) => {
            *packet == b.len() && p.seqs.iter().any(|q| at(q.0 + 2) == *offset)
        }
        _ => false,
    };
    if !ok {
        return Err(format!("{} is reported as {e} / {e:?}", p_vob::DEFECTS[k]));
    }
    // numbers in the text are those of the content
    let all = explain_vob(ctx, e, m.bytes.len())?.join(": ");
    let needed: Vec<String> = match k {
        7 | 8 => vec![rle().0.to_string(), rle().1.to_string()],
        12 => vec![format!("{:x}", at(2)), format!("{:x}", b.len())],
        14 => vec![format!("{:x}", b.len())],
        _ => vec![],
    };
    for x in needed {
        if !all.to_ascii_lowercase().contains(&x) {
            return Err(format!("the text for {} does not give {x}: {all}", p_vob::DEFECTS[k]));
        }
    }
    ctx.c(&format!("defect named: {}", p_vob::DEFECTS[k]), 1);
    ctx.ev(1);
    ctx.nt(fnv(&m.bytes));
    Ok(())
}
fn x10_pgs(ctx: &mut Ctx, i: u64) -> R {
    let kinds = [0usize, 1, 6, 12, 13, 14, 15, 2, 3];
    let k = kinds[i as usize % kinds.len()];
    let s = pgs::gen_small_sub(&mut ctx.r);
    let v = p_pgs::g05_plant(&mut ctx.r, k, &s, pgs::PLAIN);
    let mut b = pgs::Stream::default();
    b.push(&v);
    let c = pgs::clearing(&mut ctx.r, &s, pgs::PLAIN);
    b.push(&c);
    ctx.detail(|| format!("{}: {}", p_pgs::DEFECTS[k], hex(&b.bytes, 6000)));
    let e = sut("decoding a .sup stream", || {
        SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b.bytes[..])).take(b.bytes.len()).find_map(Result::err)
    })?;
    let Some(e) = e else {
        return Err(format!("no error for {}", p_pgs::DEFECTS[k]));
    };
    let payload = |t: u8| v.iter().find(|x| x.0 == t).map(|x| x.1[13..].to_vec()).unwrap_or_default();
    let mut needed = None;
    let ok = match (k, &e) {
        (0 | 1, PgsError::PDSParse(_)) => {
            needed = Some(payload(pgs::PDS).len().to_string());
            true
        }
        (2 | 3, PgsError::ODSParse(_)) | (14, PgsError::MissingPalette) | (15, PgsError::MissingImage) => true,
        (6, PgsError::ODSParse(_)) => {
            needed = Some(format!("{:02x}", payload(pgs::ODS)[3]));
            true
        }
        (12 | 13, PgsError::SegmentInvalidTypeCode { value }) => {
            let t = v.iter().find(|x| ![pgs::PDS, pgs::ODS, pgs::PCS, pgs::WDS, pgs::END].contains(&x.0)).unwrap().0;
            needed = Some(format!("{t:x}"));
            *value == t
        }
        _ => false,
    };
    if !ok {
        return Err(format!("{} is reported as {e} / {e:?}", p_pgs::DEFECTS[k]));
    }
    let all = explain(ctx, Box::new(e), b.bytes.len())?.join(": ");
    if let Some(n) = needed {
        if !all.to_ascii_lowercase().contains(&n) {
            return Err(format!("the text for {} does not give {n}: {all}", p_pgs::DEFECTS[k]));
        }
    }
    ctx.c(&format!("defect named: {}", p_pgs::DEFECTS[k]), 1);
    ctx.ev(1);
    ctx.nt(fnv(&b.bytes));
    Ok(())
}
/// A picture cut off within a segment: named with the size of that segment.
fn x10_cut(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(1, 3);
    let subs = pgs::gen_small_subs(&mut ctx.r, n);
    let mut b = pgs::build(&mut ctx.r, &subs, pgs::VARY_SMALL).bytes;
    let mut objects = vec![];
    let mut p = 0;
    while p + 13 <= b.len() {
        let size = usize::from(u16::from_be_bytes([b[p + 11], b[p + 12]]));
        if b[p + 10] == pgs::ODS && size > 0 {
            objects.push((p, size));
        }
        p += 13 + size;
    }
    let (at, size) = *ctx.r.pick(&objects);
    b.truncate(at + 13 + ctx.r.below(size));
    ctx.detail(|| format!("cut in an ODS of {size} bytes: {}", hex(&b, 6000)));
    ctx.sample(|| format!("cut in an ODS of {size} bytes at byte {} of it", b.len() - at - 13));
    let items = sut("decoding a cut .sup stream", || {
        let mut v: Vec<_> = SupParser::<_, DecodeTimeImage>::new(Cursor::new(&b[..])).take(b.len() + 2).collect();
        (v.pop(), v.iter().all(Result::is_ok))
    })?;
    let (Some(Err(e)), true) = items else {
        return Err(format!("a stream cut in an ODS of {size} bytes does not end with its only error"));
    };
    let ok = match &e {
        PgsError::SegmentRead { source: subtile::pgs::ReadError::FailedReadBuffer { source, buffer_size }, type_code } => {
            source.kind() == ErrorKind::UnexpectedEof && *buffer_size == size && type_code.to_string() == "ODS"
        }
        _ => false,
    };
    if !ok {
        return Err(format!("an ODS of {size} bytes, cut at byte {} of it, is reported as {e:?}", b.len() - at - 13));
    }
    let all = explain(ctx, Box::new(e), b.len())?.join(": ");
    if !all.contains(&size.to_string()) {
        return Err(format!("the text for an ODS of {size} bytes that is cut does not give its size: {all}"));
    }
    ctx.ev(1);
    ctx.c("cut objects named", 1);
    ctx.nt(fnv(&b));
    Ok(())
}
/// A reader that fails once it has given some bytes.
struct Failing {
    data: Cursor<Vec<u8>>,
    left: usize,
    kind: ErrorKind,
}
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.left == 0 {
            return Err(io::Error::new(self.kind, "injected failure"));
        }
        let n = b.len().min(self.left);
        let n = self.data.read(&mut b[..n])?;
        self.left -= n;
        Ok(n)
    }
}
const IO_KINDS: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::InvalidData,
];
fn x10_idx(ctx: &mut Ctx, i: u64) -> R {
    if i % 2 == 0 {
        // a number of colours that is not 16
        let n = loop {
            let n = ctx.r.range(1, 40);
            if n != 16 {
                break n;
            }
        };
        let l: Vec<String> = (0..n).map(|_| format!("{:06x}", ctx.r.u32() & 0xff_ffff)).collect();
        let t = format!("# VobSub index file, v7\nsize: 720x576\npalette: {}\nid: en, index: 0\n", l.join(", "));
        ctx.detail(|| t.clone());
        let e = sut("reading an .idx text", || {
            Index::read_index(BufReader::new(t.as_bytes()), &|source| VobSubError::Io { source, path: "nowhere".into() }).err()
        })?;
        let Some(e) = e else {
            return Err(format!("a palette of {n} colours is accepted"));
        };
        explain_vob(ctx, e, t.len())?;
        ctx.c("palettes refused", 1);
        ctx.nt(fnv(t.as_bytes()));
    } else {
        let b = gen_idx_ok(&mut ctx.r);
        let kind = *ctx.r.pick(&IO_KINDS);
        let f = Failing { left: ctx.r.below(b.len()), data: Cursor::new(b.clone()), kind };
        let at = f.left;
        let e = sut("reading an .idx text", || {
            Index::read_index(BufReader::new(f), &|source| VobSubError::Io { source, path: "nowhere".into() }).err()
        })?;
        let Some(e) = e else {
            return Err(format!("a failure ({kind:?}) after {at} bytes goes unnoticed"));
        };
        match io_root(&e) {
            Some(x) if x.kind() == kind && x.to_string() == "injected failure" => {}
            x => return Err(format!("the failure {kind:?} has become {x:?} in {e:?}")),
        }
        explain_vob(ctx, e, b.len())?;
        ctx.c("failures found at the root", 1);
        let mut h = Hasher::new();
        h.bytes(&b).u64(at as u64);
        ctx.nt(h.get());
    }
    ctx.ev(1);
    Ok(())
}
/// Types of the segments whose content is being read when the reader is at byte `at`.
fn types_at(b: &[u8], at: u64) -> Vec<&'static str> {
    let at = at as usize;
    let mut v = vec![];
    let mut p = 0;
    while p + 13 <= b.len() {
        let (from, to) = (p + 13, p + 13 + usize::from(u16::from_be_bytes([b[p + 11], b[p + 12]])));
        if from <= at && (at < to || at == from) {
            v.push(match b[p + 10] {
                pgs::PDS => "PDS",
                pgs::ODS => "ODS",
                pgs::PCS => "PCS",
                pgs::WDS => "WDS",
                _ => "END",
            });
        }
        p = to;
    }
    v
}
/// The error of the call in which the injected failure happened.
fn first_failing<T>(
    mut it: impl Iterator<Item = Result<T, PgsError>>,
    log: &Rc<RefCell<vhcore::io::Log>>,
    limit: usize,
) -> Option<PgsError> {
    for _ in 0..limit {
        let was = log.borrow().fired;
        let x = it.next();
        if !was && log.borrow().fired {
            return x.and_then(Result::err);
        }
        x.as_ref()?;
    }
    None
}
/// Failing .sup readers: the failure is the root of the error, except for one in a segment header.
fn x10_readers(ctx: &mut Ctx, i: u64) -> R {
    let b = Rc::new(hostile::pgs_valid(&mut ctx.r, 3));
    let kind = *ctx.r.pick(&IO_KINDS);
    let plan = Plan { window: *ctx.r.pick(&[0usize, 1, 5, 30, 500]), kind, persistent: false, ..Plan::default() };
    let (p, log) = Probe::new(b.clone(), plan.clone(), i);
    sut("decoding from a reader", || SupParser::<_, DecodeTimeImage>::new(p).take(b.len()).count())?;
    let ops = log.borrow().ops;
    for _ in 0..6 {
        let k = ctx.r.below(ops as usize) as u64;
        let (p, log) = Probe::new(b.clone(), Plan { fail_at: Some(k), ..plan.clone() }, i);
        let log_at = log.clone();
        let times = ctx.r.chance(1, 3);
        let e = sut("decoding from a failing reader", || {
            if times {
                first_failing(SupParser::<_, DecodeTimeOnly>::new(p), &log, b.len())
            } else {
                first_failing(SupParser::<_, DecodeTimeImage>::new(p), &log, b.len())
            }
        })?;
        if !log_at.borrow().fired {
            continue;
        }
        let Some(e) = e else {
            return Err(format!("failure {kind:?} of operation {k} of {ops} is no error"));
        };
        let header = matches!(e, PgsError::SegmentFailReadHeader);
        // a type named in the error is that of the segment being read
        let here = log_at.borrow().fired_at;
        let named = match &e {
            PgsError::SegmentRead { type_code, .. } | PgsError::SegmentSkip { type_code, .. } => Some(type_code.to_string()),
            PgsError::ODSParse(_) => Some("ODS".to_string()),
            PgsError::PDSParse(_) => Some("PDS".to_string()),
            _ => None,
        };
        if let Some(t) = named {
            if !types_at(&b, here).contains(&t.as_str()) {
                return Err(format!(
                    "the failure at byte {here}, in a segment of type {:?}, is reported as one of type {t}: {e} / {e:?}",
                    types_at(&b, here)
                ));
            }
            ctx.c("types of segments named", 1);
        }
        if !header {
            match io_root(&e) {
                Some(x) if x.kind() == kind && x.to_string() == "injected failure" => {}
                x => return Err(format!("the failure {kind:?} of operation {k} of {ops} has become {x:?} in {e:?}")),
            }
        }
        explain(ctx, Box::new(e), b.len())?;
        ctx.c(if header { "failures in a segment header" } else { "failures found at the root" }, 1);
        ctx.ev(1);
        let mut h = Hasher::new();
        h.bytes(&b).u64(k);
        ctx.nt(h.get());
    }
    Ok(())
}
/// Errors of entry points that take paths, of the dump, and of areas.
fn x10_files(ctx: &mut Ctx, i: u64) -> R {
    let file = ctx.file("plain", b"x");
    let (p, kind) = match ctx.r.below(3) {
        0 => (ctx.scratch.join("no such file"), ErrorKind::NotFound),
        1 => (file.join("below"), ErrorKind::NotADirectory),
        _ => (ctx.scratch.join("x".repeat(300)), ErrorKind::InvalidFilename),
    };
    let same = |e: &(dyn Error + 'static), what: &str| -> R {
        match io_root(e) {
            Some(x) if x.kind() == kind => Ok(()),
            x => Err(format!("{what} of {p:?}: the failure {kind:?} has become {x:?} in {e:?}")),
        }
    };
    let mut all: Vec<(&str, Box<dyn Error + Send + Sync>)> = vec![];
    sut("opening what cannot be opened", || {
        let mut add = |w: &'static str, e: Option<Box<dyn Error + Send + Sync>>| match e {
            Some(e) => {
                all.push((w, e));
                Ok(())
            }
            None => Err(format!("{w} of {p:?} succeeds")),
        };
        add("Sub::open", Sub::open(&p).err().map(|e| Box::new(e) as _))?;
        add("Index::open", Index::open(&p).err().map(|e| Box::new(e) as _))?;
        add("is_idx_file", is_idx_file(&p).err().map(|e| Box::new(e) as _))?;
        add("is_sub_file", is_sub_file(&p).err().map(|e| Box::new(e) as _))?;
        add(
            "SupParser::from_file",
            SupParser::<BufReader<std::fs::File>, DecodeTimeImage>::from_file(&p).err().map(|e| Box::new(e) as _),
        )?;
        Ok::<_, String>(())
    })??;
    let img: image::ImageBuffer<Luma<u8>, Vec<u8>> = GrayImage::from_pixel(3, 3, Luma([7]));
    if kind != ErrorKind::NotFound {
        let d = sut("dump_images", || subtile::image::dump_images(p.to_str().unwrap(), [&img]))?;
        match d {
            Ok(()) => return Err(format!("dumping into {p:?} succeeds")),
            Err(e) => {
                if !matches!(&e, SubtileError::ImageDump(_)) {
                    return Err(format!("a failed dump is reported as {e:?}"));
                }
                all.push(("dump_images", Box::new(e)));
            }
        }
    } else {
        // a folder where a file should go
        let dir = ctx.scratch.join(format!("taken{i}"));
        std::fs::create_dir_all(dir.join("000000.png")).expect("harness: folder");
        let e = sut("dump_images", || subtile::image::dump_images(dir.to_str().unwrap(), [&img]))?.err();
        std::fs::remove_dir_all(&dir).expect("harness: folder");
        let Some(e) = e else {
            return Err("dumping onto a folder succeeds".into());
        };
        match io_root(&e) {
            Some(x) if x.kind() == ErrorKind::IsADirectory => {}
            x => return Err(format!("dumping onto a folder: the failure has become {x:?} in {e:?}")),
        }
        explain(ctx, Box::new(e), 0)?;
    }
    for (w, e) in all {
        same(&*e, w)?;
        let t = explain(ctx, e, 0)?;
        ctx.c(&format!("failures of {w}"), 1);
        ctx.ev(1);
        // the text names the file
        let name = p.file_name().unwrap().to_str().unwrap();
        if !t.join(": ").contains(name) {
            return Err(format!("the text of {w} does not name {p:?}: {t:?}"));
        }
    }
    let v = [ctx.r.edge_u16(), ctx.r.edge_u16(), ctx.r.edge_u16(), ctx.r.edge_u16()];
    let e = sut("Area::try_from", || Area::try_from(AreaValues { x1: v[0], y1: v[1], x2: v[2], y2: v[3] }).err())?;
    if let Some(e) = e {
        explain(ctx, Box::new(e), 0)?;
        ctx.ev(1);
    }
    ctx.nt(i);
    Ok(())
}

// ---------------------------------------------------------------- X11

fn x11_vob(ctx: &mut Ctx, i: u64) -> R {
    match i % 4 {
        0 => {
            // long stamps and late dates
            let (mut s, p, _) = vob::gen_small_spu(&mut ctx.r);
            s.pts = (1 << 33) - 1 - ctx.r.below(1000) as u64;
            let mut m = vob::Stream::default();
            m.add(&mut ctx.r, &p.bytes, Some(s.pts), &vob::whole());
            all_vob(ctx, &m.bytes, 400)
        }
        _ => x04_small_vob(ctx, i),
    }
}
fn x11_pgs(ctx: &mut Ctx, i: u64) -> R {
    match i % 4 {
        0 => {
            let mut s = pgs::gen_sub_dims(&mut ctx.r, 3, 2);
            s.start = u32::MAX - ctx.r.below(1000) as u32;
            s.end = u32::MAX - ctx.r.below(1000) as u32;
            let b = pgs::build(&mut ctx.r, &[s], pgs::PLAIN).bytes;
            all_pgs(ctx, &b, 400)
        }
        1 => {
            // sizes and counts at their limits
            let mut s = pgs::gen_sub_dims(&mut ctx.r, 2, 2);
            let big = *ctx.r.pick(&[255usize, 256, 16383, 16384, 32767, 32768, 65535]);
            (s.pic.w, s.pic.h) = if ctx.r.bool() { (big, 1) } else { (big, 65535) };
            s.rle = vec![0, 0xff, 0xff, 3, 0, 0x7f, 0xff, 0, 0, 0x80, 3];
            s.split = None;
            let mut m = pgs::Stream::default();
            m.add(&mut ctx.r, &s, pgs::PLAIN);
            all_pgs(ctx, &m.bytes, 300)
        }
        _ => x04_small_pgs(ctx, i),
    }
}
fn x11_idx(ctx: &mut Ctx, i: u64) -> R {
    let mut b = if i % 2 == 0 { gen_idx_ok(&mut ctx.r) } else { gen_idx_bytes(&mut ctx.r) };
    b.truncate(400);
    all_idx(ctx, &b)
}
fn x11_text(ctx: &mut Ctx, i: u64) -> R {
    text_output(ctx, 2, if i % 2 == 0 { usize::MAX } else { 90 })?;
    ctx.nt(i);
    Ok(())
}
fn x11_readers(ctx: &mut Ctx, i: u64) -> R {
    let b = loop {
        let b = if ctx.r.bool() { hostile::pgs_valid(&mut ctx.r, 1) } else { hostile::pgs_any(&mut ctx.r) };
        if b.len() < 500 {
            break b;
        }
    };
    let plan = Plan {
        window: *ctx.r.pick(&[0usize, 1, 7, 64]),
        interrupt: *ctx.r.pick(&[0, 40]),
        fail_at: if ctx.r.chance(1, 3) { Some(ctx.r.below(60) as u64) } else { None },
        persistent: false,
        ..Plan::default()
    };
    ctx.detail(|| format!("{plan:?}, sup stream: {}", hex(&b, 6000)));
    let h = sut("decoding from a reader", || {
        let mut h = Hasher::new();
        let (p, _) = Probe::new(Rc::new(b.clone()), plan.clone(), i);
        // (an error's text may hold sizes and offsets, which must be the same too)
        for x in SupParser::<_, DecodeTimeImage>::new(p).take(b.len() + 3) {
            match x {
                Ok((t, m)) => {
                    h.bytes(format!("{t:?}").as_bytes());
                    for p in m.iter().take(300) {
                        h.bytes(&p.0);
                    }
                }
                Err(e) => {
                    h.bytes(e.to_string().as_bytes());
                }
            }
        }
        let (p, _) = Probe::new(Rc::new(b.clone()), plan.clone(), i);
        for x in SupParser::<_, DecodeTimeOnly>::new(p).take(b.len() + 3) {
            h.bytes(x.map_or_else(|e| e.to_string(), |t| format!("{t:?}")).as_bytes());
        }
        h.get()
    })?;
    ctx.digest(h);
    ctx.ev(2);
    ctx.nt(fnv(&b));
    Ok(())
}
/// Thresholds and a small dump, read back byte by byte.
fn x11_images(ctx: &mut Ctx, i: u64) -> R {
    let (w, h) = (ctx.r.range(1, 4) as u32, ctx.r.range(1, 3) as u32);
    let v = ctx.r.bytes((w * h * 2) as usize);
    let (a, l) = (ctx.r.u16(), ctx.r.u16());
    let px: Vec<u16> = v.chunks(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect();
    let dir = ctx.scratch.join(format!("dump{i}"));
    let (imgs, out) = sut("thresholds and a dump", || {
        let conv = subtile::image::luma_a_to_luma_convertor::<u16, image::LumaA<u16>>(a, l);
        let out: Vec<u16> = px.windows(2).map(|p| conv(image::LumaA([p[0], p[1]])).0[0]).collect();
        let img = image::ImageBuffer::<Luma<u16>, Vec<u16>>::from_raw(w, h, px.clone()).unwrap();
        let r = subtile::image::dump_images(dir.to_str().unwrap(), [&img]).map_err(|e| e.to_string());
        (r, out)
    })?;
    imgs.map_err(|e| format!("the dump fails: {e}"))?;
    let b = std::fs::read(dir.join("000000.png")).map_err(|e| format!("the dumped file: {e}"))?;
    let _ = std::fs::remove_dir_all(&dir);
    ctx.digest(fnv(&b) ^ fnv(format!("{out:?}").as_bytes()));
    ctx.ev(2);
    ctx.nt(fnv(&v));
    Ok(())
}
