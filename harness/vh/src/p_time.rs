//! Properties T01..T04: time points, SubRip and WebVTT output.
use crate::fw::{st, sut, Ctx, StreamDef, R};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash as _, Hasher as _};
use std::io::{ErrorKind, Write};
use subtile::srt::{self, TimePointSrt};
use subtile::time::{TimePoint, TimeSpan};
use subtile::vobsub::TimePointIdx;
use subtile::webvtt::{self, TimePointVtt};
use vhcore::io::{Sink, MARK};
use vhcore::rng::Rng;
use vhcore::util::fnv;

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "T01" => vec![
            st("edges", 1, 1, t01_edges),
            st("dense", 3_000, 60_000, t01_dense),
            st("random", 3_000, 60_000, t01_random),
        ],
        "T02" => vec![
            st("msecs", 4_000, 200_000, t02_msecs),
            st("secs", 4_000, 200_000, t02_secs),
            st("refused", 2_000, 60_000, t02_refused),
            st("limits", 1, 1, t02_limits),
            st("dense", 2_000, 60_000, t02_dense),
            st("spans", 1_000, 20_000, t02_spans),
        ],
        "T03" => vec![
            st("lists", 8_000, 300_000, t03_lists),
            st("long", 6, 60, t03_long),
            st("lines", 8_000, 300_000, t03_lines),
            st("big", 40, 400, t03_big),
        ],
        "T04" => vec![
            st("every", 500, 12_000, t04_every),
            st("short", 4_000, 150_000, t04_short),
            st("large", 40, 1_000, t04_large),
        ],
        _ => return None,
    })
}

// ---------------------------------------------------------------- T01

/// Reads a displayed time back, strictly.
pub fn parse_time(s: &str, sep: u8) -> Result<i128, String> {
    let b = s.as_bytes();
    let neg = b.first() == Some(&b'-');
    let b = &b[usize::from(neg)..];
    let bad = || format!("{s:?} is not a time stamp with {:?}", sep as char);
    // hh:mm:ss<sep>mmm from the right: 3 + 1 + 2 + 1 + 2 + 1
    if b.len() < 12 {
        return Err(bad());
    }
    let n = b.len();
    if b[n - 4] != sep || b[n - 7] != b':' || b[n - 10] != b':' {
        return Err(bad());
    }
    let num = |x: &[u8]| -> Result<i128, String> {
        if x.is_empty() || !x.iter().all(u8::is_ascii_digit) {
            return Err(bad());
        }
        Ok(x.iter().fold(0i128, |a, d| a * 10 + i128::from(d - b'0')))
    };
    let hours = &b[..n - 10];
    if hours.len() > 2 && hours[0] == b'0' {
        return Err(format!("{s:?} pads the hours with more than two digits"));
    }
    let (h, m, sec, ms) = (num(hours)?, num(&b[n - 9..n - 7])?, num(&b[n - 6..n - 4])?, num(&b[n - 3..])?);
    if m >= 60 || sec >= 60 {
        return Err(format!("{s:?}: minutes or seconds of 60 or more"));
    }
    let v = ((h * 60 + m) * 60 + sec) * 1000 + ms;
    Ok(if neg { -v } else { v })
}
/// The expected display, computed in 128 bits.
pub fn show(t: i64, sep: char) -> String {
    let a = i128::from(t).abs();
    format!(
        "{}{:02}:{:02}:{:02}{sep}{:03}",
        if t < 0 { "-" } else { "" },
        a / 3_600_000,
        a / 60_000 % 60,
        a / 1000 % 60,
        a % 1000
    )
}

fn t01_one(t: i64) -> R {
    let p = TimePoint::from_msecs(t);
    let all = sut("displaying a time", || {
        [
            (TimePointSrt::from(p).to_string(), b','),
            (TimePointVtt::from(p).to_string(), b'.'),
            (TimePointIdx::from(p).to_string(), b':'),
        ]
    })
    .map_err(|e| format!("{t} ms: {e}"))?;
    for (s, sep) in all {
        let v = parse_time(&s, sep).map_err(|e| format!("{t} ms: {e}"))?;
        if v != i128::from(t) {
            return Err(format!("{t} ms is displayed as {s:?}, which denotes {v} ms"));
        }
        if t == 0 && s.starts_with('-') {
            return Err(format!("0 ms is displayed as {s:?}"));
        }
    }
    Ok(())
}
const UNITS: [i64; 12] = [
    1, 10, 100, 1000, 10_000, 60_000, 600_000, 3_600_000, 36_000_000, 86_400_000, 360_000_000, 3_600_000_000,
];
fn t01_edges(ctx: &mut Ctx, _: u64) -> R {
    let mut v = vec![];
    for d in -1100i64..=1100 {
        for b in [0i64, i64::MAX, i64::MIN, 1 << 31, 1 << 32, 1 << 53] {
            v.push(b.wrapping_add(d));
            v.push(b.wrapping_neg().wrapping_add(d));
        }
    }
    for k in 0..63 {
        for d in -3..=3 {
            v.push((1i64 << k).wrapping_add(d));
            v.push((1i64 << k).wrapping_add(d).wrapping_neg());
        }
    }
    for u in UNITS {
        for k in 0..=130 {
            for d in -2..=2 {
                v.push(u * k + d);
                v.push(-(u * k + d));
            }
        }
    }
    for t in v {
        ctx.ev(3);
        ctx.nt(t as u64);
        t01_one(t)?;
    }
    Ok(())
}
/// A dense range: every millisecond of a window.
fn t01_dense(ctx: &mut Ctx, i: u64) -> R {
    let base = if i < 400 {
        (i as i64 - 200) * 1000
    } else if ctx.r.bool() {
        ctx.r.below(90_000_000) as i64
    } else {
        ctx.r.edge_i64()
    };
    ctx.sample(|| format!("every millisecond of {base}..{base}+1000, e.g. {}", TimePointSrt::from(TimePoint::from_msecs(base))));
    for d in 0..1000 {
        let t = base.wrapping_add(d);
        t01_one(t)?;
    }
    ctx.ev(3000);
    ctx.c("times displayed", 1000);
    ctx.nt(base as u64);
    Ok(())
}
fn t01_random(ctx: &mut Ctx, _: u64) -> R {
    for k in 0..200 {
        let t = ctx.r.edge_i64();
        if k == 0 {
            ctx.sample(|| format!("{t} ms shown as {}", TimePointVtt::from(TimePoint::from_msecs(t))));
        }
        t01_one(t)?;
        ctx.nt(t as u64);
    }
    ctx.ev(600);
    ctx.c("times displayed", 200);
    Ok(())
}

// ---------------------------------------------------------------- T02

fn hash_of(t: TimePoint) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn t02_pair(a: i64, b: i64) -> R {
    let (p, q) = (TimePoint::from_msecs(a), TimePoint::from_msecs(b));
    if p.msecs() != a || q.msecs() != b {
        return Err(format!("from_msecs({a}).msecs() is {}", p.msecs()));
    }
    if p.cmp(&q) != a.cmp(&b) || p.partial_cmp(&q) != Some(a.cmp(&b)) || (p == q) != (a == b) || (p < q) != (a < b)
        || (p <= q) != (a <= b) || p.max(q).msecs() != a.max(b) || p.min(q).msecs() != a.min(b)
    {
        return Err(format!("time points of {a} and {b} ms compare {:?}", p.cmp(&q)));
    }
    if a == b && hash_of(p) != hash_of(q) {
        return Err(format!("equal time points of {a} ms hash differently"));
    }
    if a != i64::MIN {
        let n = sut("negation", || -p)?;
        if n.msecs() != -a || (-n) != p {
            return Err(format!("-({a} ms) is {} ms", n.msecs()));
        }
        if b != i64::MIN && (-p).cmp(&-q) != b.cmp(&a) {
            return Err(format!("negating {a} and {b} ms does not mirror their order"));
        }
    }
    if a <= b && p.to_secs() > q.to_secs() {
        return Err(format!("{a} ms = {} s is more than {b} ms = {} s", p.to_secs(), q.to_secs()));
    }
    Ok(())
}
/// Allowed rounding of a floating-point number of milliseconds.
fn ulps(x: f64) -> f64 {
    x.abs() * 4.0 * f64::EPSILON
}
/// `to_secs` and back.
fn t02_back(t: i64) -> R {
    let s = TimePoint::from_msecs(t).to_secs();
    let want = t as f64 / 1000.0;
    if !s.is_finite() || (s - want).abs() > ulps(want) {
        return Err(format!("{t} ms is converted to {s:?} s"));
    }
    // 2^63 ms as seconds is not representable again.
    if t.unsigned_abs() < (1 << 63) - (1 << 14) {
        let u = sut("from_secs(to_secs)", || TimePoint::from_secs(s))?.msecs();
        let d = (i128::from(u) - i128::from(t)).unsigned_abs();
        if d > 1 + ulps(t as f64) as u128 {
            return Err(format!("{t} ms -> {s:?} s -> {u} ms"));
        }
    }
    Ok(())
}
/// `seconds` well inside the range.
fn t02_from(s: f64) -> Result<i64, String> {
    let t = sut(&format!("from_secs({s:?})"), || TimePoint::from_secs(s))?.msecs();
    // exact seconds * 1000 as integer and fraction is not needed: compare in i128 micro-units
    let x = s * 1000.0;
    let tol = ulps(x);
    // distance and direction, in floating point when small and in integers when large
    let (dist, beyond) = if x.abs() < 1e15 {
        let d = x - t as f64;
        (d.abs(), (t as f64).abs() - x.abs())
    } else {
        let xi = x as i128;
        ((xi - i128::from(t)).unsigned_abs() as f64, (i128::from(t).abs() - xi.abs()) as f64)
    };
    if dist >= 1.0 + tol || (x.abs() < 1e15 && dist >= 1.0 + tol.max(1e-9)) {
        return Err(format!("from_secs({s:?}) is {t} ms"));
    }
    if beyond > tol + 1e-9 {
        return Err(format!("from_secs({s:?}) is {t} ms, farther from zero than the given time"));
    }
    let b = TimePoint::from_msecs(t).to_secs();
    if (b - s).abs() > 0.001 + ulps(s) + 1e-12 {
        return Err(format!("from_secs({s:?}).to_secs() is {b:?}"));
    }
    Ok(t)
}
fn t02_msecs(ctx: &mut Ctx, _: u64) -> R {
    for _ in 0..50 {
        let a = ctx.r.edge_i64();
        let b = match ctx.r.below(4) {
            0 => a,
            1 => a.wrapping_add(ctx.r.range(0, 4) as i64 - 2),
            _ => ctx.r.edge_i64(),
        };
        t02_pair(a, b)?;
        t02_back(a)?;
        ctx.nt(a as u64 ^ (b as u64).rotate_left(17));
    }
    ctx.sample(|| "pairs of time points from all magnitudes: order, equality, hash, negation, seconds".into());
    ctx.ev(100);
    ctx.c("pairs compared", 50);
    Ok(())
}
fn gen_secs(r: &mut Rng) -> f64 {
    let s = match r.below(8) {
        0 => r.below(100_000_000) as f64 / 1000.0,
        1 => r.below(100_000_000) as f64 / 10_000.0,
        2 => (r.edge_i64() as f64) / 1000.0,
        3 => r.u64() as f64 / u64::MAX as f64 * 10f64.powi(r.range(0, 15) as i32),
        4 => f64::from_bits(r.u64()),
        5 => r.below(1_000_000) as f64,
        6 => f64::from_bits((r.below(1_000_000) as f64 / 1000.0).to_bits() + r.range(0, 4) as u64),
        _ => *r.pick(&[0.0, f64::MIN_POSITIVE, 1e-320, 0.0005, 0.001, 0.000_999_999, 0.999_999_999, 59.999_999, 1e-9]),
    };
    if r.bool() {
        -s
    } else {
        s
    }
}
/// Largest magnitude that certainly fits.
const FITS: f64 = 9_223_372_036_854_770.0;
fn t02_secs(ctx: &mut Ctx, _: u64) -> R {
    let mut v: Vec<(f64, i64)> = vec![];
    let mut n = 0;
    while n < 40 {
        let s = gen_secs(&mut ctx.r);
        if !(s.abs() <= FITS) {
            continue;
        }
        n += 1;
        let t = t02_from(s)?;
        v.push((s, t));
        ctx.nt(s.to_bits());
    }
    // the next representable number of seconds too
    for k in 0..v.len() {
        let (s, _) = v[k];
        let u = f64::from_bits(s.to_bits() + 1);
        if u.abs() <= FITS {
            v.push((u, t02_from(u)?));
        }
    }
    v.sort_by(|a, b| a.0.total_cmp(&b.0));
    for w in v.windows(2) {
        if w[0].0 <= w[1].0 && TimePoint::from_msecs(w[0].1) > TimePoint::from_msecs(w[1].1) {
            return Err(format!("{:?} s is {} ms but {:?} s is {} ms", w[0].0, w[0].1, w[1].0, w[1].1));
        }
    }
    // exact binary fractions denote their milliseconds exactly
    for _ in 0..20 {
        let eighths = (ctx.r.u64() >> 24) as i64 - (1 << 39);
        let s = eighths as f64 / 8.0;
        let t = t02_from(s)?;
        if t != eighths * 125 {
            return Err(format!("from_secs({s:?}) is {t} ms, exactly {} ms", eighths * 125));
        }
    }
    ctx.sample(|| format!("{:?}", &v[..3]));
    ctx.ev(60 + v.len() as u64);
    ctx.c("seconds converted", v.len() as u64 + 20);
    Ok(())
}
fn refused(s: f64) -> R {
    match sut("from_secs", || TimePoint::from_secs(s)) {
        Err(_) => Ok(()),
        Ok(t) => Err(format!("from_secs({s:?}) is accepted as {} ms", t.msecs())),
    }
}
fn t02_refused(ctx: &mut Ctx, _: u64) -> R {
    let limit = 9_223_372_036_854_776_000.0f64 / 1000.0;
    let s = match ctx.r.below(6) {
        0 => f64::from_bits(0x7ff8_0000_0000_0000 | ctx.r.u64() >> 13),
        1 => f64::INFINITY,
        2 => f64::MAX,
        3 => limit * (1.0 + ctx.r.below(1000) as f64 / 1000.0 + 1e-9),
        4 => limit + 10.0 + ctx.r.below(100_000) as f64,
        _ => {
            let e = ctx.r.range(17, 308) as i32;
            10f64.powi(e)
        }
    };
    let s = if ctx.r.bool() { -s } else { s };
    refused(s)?;
    ctx.nt(s.to_bits());
    ctx.sample(|| format!("{s:?} s refused"));
    ctx.ev(1);
    Ok(())
}
fn t02_limits(ctx: &mut Ctx, _: u64) -> R {
    for s in [f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, 9_223_372_036_854_776.0,
        9_223_372_036_854_778.0, -9_223_372_036_854_780.0, -9_223_372_036_854_778.0, 1e16, -1e16, 1e300]
    {
        refused(s)?;
        ctx.ev(1);
    }
    for s in [0.0, -0.0, FITS, -FITS, 9_223_372_036_854_774.0, -9_223_372_036_854_774.0, 0.001, -0.001, 1e15, 4_294_967.296,
        2_147_483.648, -2_147_483.649]
    {
        t02_from(s)?;
        ctx.ev(1);
    }
    if TimePoint::default().msecs() != 0 {
        return Err("the default time point is not 0".into());
    }
    for t in [0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1] {
        for u in [0, 1, -1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1] {
            t02_pair(t, u)?;
            ctx.ev(1);
        }
        t02_back(t)?;
    }
    Ok(())
}
/// Every millisecond of a window goes through seconds and back.
fn t02_dense(ctx: &mut Ctx, i: u64) -> R {
    let base = if i < 200 { (i as i64 - 100) * 1000 } else { ctx.r.edge_i64() / 2 };
    let mut last: Option<i64> = None;
    for d in 0..1000 {
        let t = base.wrapping_add(d);
        t02_back(t)?;
        t02_pair(t, t.wrapping_add(1))?;
        if t.unsigned_abs() < 1 << 62 {
            let u = t02_from(t as f64 / 1000.0)?;
            if let Some(l) = last {
                if u < l {
                    return Err(format!("{} ms comes after {} ms but its seconds are read as {u} after {l}", t, t - 1));
                }
            }
            last = Some(u);
        }
    }
    ctx.nt(base as u64);
    ctx.sample(|| format!("every millisecond of {base}..{base}+1000"));
    ctx.ev(3000);
    Ok(())
}
fn t02_spans(ctx: &mut Ctx, _: u64) -> R {
    for _ in 0..20 {
        let v: Vec<i64> = (0..4).map(|_| ctx.r.edge_i64()).collect();
        let k = ctx.r.below(4);
        let (c, d) = match k {
            0 => (v[0], v[1]),
            1 => (v[0], v[3]),
            2 => (v[2], v[1]),
            _ => (v[2], v[3]),
        };
        let t = |x| TimePoint::from_msecs(x);
        let (x, y) = (TimeSpan::new(t(v[0]), t(v[1])), TimeSpan::new(t(c), t(d)));
        if x.start.msecs() != v[0] || x.end.msecs() != v[1] {
            return Err(format!("TimeSpan::new({}, {}) holds {} and {}", v[0], v[1], x.start.msecs(), x.end.msecs()));
        }
        if (x == y) != (v[0] == c && v[1] == d) {
            return Err(format!("time spans {x:?} and {y:?} equal: {}", x == y));
        }
        ctx.nt(v[0] as u64 ^ (v[1] as u64).rotate_left(9));
        ctx.ev(1);
    }
    Ok(())
}

// ---------------------------------------------------------------- T03

const WORDS: [&str; 24] = [
    "a", "Hello", "-->", "00:00:01,000 --> 00:00:02,000", "1", "42", "é", "日本語字幕", "😀👩‍👩‍👧", "\u{feff}", "\t", " ",
    "<i>x</i>", "{\\an8}", "%s", "{}", "\\n", "\u{200f}עברית", "WEBVTT", "\u{0}", "\u{2028}", "-", "\"q\"", "NOTE",
];
fn gen_text(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        return String::new();
    }
    let mut s = String::new();
    for _ in 0..r.skewed(1, 12) {
        match r.below(8) {
            0 => s.push('\n'),
            1 => s.push_str("\r\n"),
            2 => {
                let c = char::from_u32(r.u32() % 0x11_0000).unwrap_or('x');
                s.push(c);
            }
            3 => s.push_str("\n\n"),
            4 => s.push_str(r.word().unwrap_or("x")),
            _ => s.push_str(*r.pick(&WORDS)),
        }
    }
    s
}
/// A text a block parser can read back: no empty line inside, no leading or trailing line break.
fn gen_plain_text(r: &mut Rng) -> String {
    let n = r.skewed(1, 4);
    let mut lines = vec![];
    for _ in 0..n {
        let mut l = String::new();
        for _ in 0..r.range(1, 4) {
            l.push_str(*r.pick(&["a", "Hello", "é", "日本語", "😀", "-->", "7", " x ", "<i>", "00:00:01,000"]));
        }
        lines.push(l);
    }
    lines.join("\n")
}
fn gen_span(r: &mut Rng) -> TimeSpan {
    let (a, b) = if r.chance(3, 4) {
        let a = r.below(100_000_000) as i64;
        (a, a + r.below(10_000) as i64)
    } else {
        (r.edge_i64(), r.edge_i64())
    };
    TimeSpan::new(TimePoint::from_msecs(a), TimePoint::from_msecs(b))
}
pub fn gen_list(r: &mut Rng, n: usize, plain: bool) -> Vec<(TimeSpan, String)> {
    (0..n).map(|_| (gen_span(r), if plain { gen_plain_text(r) } else { gen_text(r) })).collect()
}
fn srt_block(n: usize, t: &TimeSpan, x: &str) -> String {
    format!("{n}\n{} --> {}\n{x}\n\n", show(t.start.msecs(), ','), show(t.end.msecs(), ','))
}
pub fn vtt_block(t: &TimeSpan, x: &str) -> String {
    format!("{} --> {}\n{x}\n\n", show(t.start.msecs(), '.'), show(t.end.msecs(), '.'))
}
pub fn srt_want(l: &[(TimeSpan, String)]) -> Vec<u8> {
    l.iter().enumerate().map(|(i, (t, x))| srt_block(i + 1, t, x)).collect::<String>().into_bytes()
}
fn differ(got: &[u8], want: &[u8], what: &str) -> R {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let cut = |b: &[u8]| String::from_utf8_lossy(&b[i.saturating_sub(30)..(i + 60).min(b.len())]).into_owned();
    Err(format!(
        "{what}: {} bytes written, {} expected, first difference at byte {i}: got {:?}, expected {:?}",
        got.len(),
        want.len(),
        cut(got),
        cut(want)
    ))
}
/// An independent reader of SubRip text.
pub fn read_srt(b: &[u8]) -> Result<Vec<(usize, i128, i128, String)>, String> {
    let s = std::str::from_utf8(b).map_err(|e| e.to_string())?;
    let mut v = vec![];
    let mut it = s.split('\n').peekable();
    loop {
        let Some(n) = it.next() else { break };
        if n.is_empty() {
            if it.peek().is_none() {
                break;
            }
            return Err("empty line instead of a number".into());
        }
        let n = n.parse::<usize>().map_err(|e| format!("number {n:?}: {e}"))?;
        let t = it.next().ok_or("no time line")?;
        let (a, z) = t.split_once(" --> ").ok_or_else(|| format!("time line {t:?}"))?;
        let mut text = vec![];
        loop {
            match it.next() {
                Some("") => break,
                Some(l) => text.push(l),
                None => return Err("no empty line after the text".into()),
            }
        }
        v.push((n, parse_time(a, b',')?, parse_time(z, b',')?, text.join("\n")));
    }
    Ok(v)
}
fn t03_check(ctx: &mut Ctx, l: &[(TimeSpan, String)], plain: bool) -> R {
    let mut out = vec![];
    sut("write_srt", || srt::write_srt(&mut out, l))?.map_err(|e| format!("write_srt into memory failed: {e}"))?;
    ctx.ev(1);
    differ(&out, &srt_want(l), "write_srt")?;
    if plain {
        let got = read_srt(&out).map_err(|e| format!("SubRip text read back: {e}"))?;
        if got.len() != l.len() {
            return Err(format!("{} subtitles read back of {}", got.len(), l.len()));
        }
        for (k, (g, (t, x))) in got.iter().zip(l).enumerate() {
            if g.0 != k + 1 || g.1 != i128::from(t.start.msecs()) || g.2 != i128::from(t.end.msecs()) || g.3 != *x {
                return Err(format!("subtitle {} read back as {g:?}, written {t:?} {x:?}", k + 1));
            }
        }
        ctx.ev(1);
        ctx.c("lists read back by the parser", 1);
    }
    ctx.c("subtitles written", l.len() as u64);
    ctx.max("subtitles in one list", l.len() as u64);
    if !l.is_empty() {
        ctx.nt(fnv(&out));
    }
    Ok(())
}
fn t03_lists(ctx: &mut Ctx, i: u64) -> R {
    let plain = ctx.r.bool();
    let n = if i < 20 { i as usize } else { ctx.r.skewed(0, 40) };
    let l = gen_list(&mut ctx.r, n, plain);
    ctx.sample(|| format!("{:?}", l.iter().take(3).collect::<Vec<_>>()));
    ctx.detail(|| format!("{l:?}"));
    t03_check(ctx, &l, plain)
}
fn t03_long(ctx: &mut Ctx, i: u64) -> R {
    let n = *[1_000usize, 1_001, 9_999, 10_001, 70_000, 100_001].get(i as usize).unwrap_or(&20_000);
    let plain = ctx.r.bool();
    let l = gen_list(&mut ctx.r, n, plain);
    t03_check(ctx, &l, plain)
}
fn t03_lines(ctx: &mut Ctx, _: u64) -> R {
    let r = &mut ctx.r;
    let t = gen_span(r);
    let x = gen_text(r);
    let n = match r.below(4) {
        0 => *r.pick(&[0, 1, 9, 10, 99, 100, 999, 1000, 65535, 65536, usize::MAX, usize::MAX - 1, (1u64 << 32) as usize]),
        1 => (r.up_to(u64::MAX) >> r.below(64)) as usize,
        2 => r.up_to(u64::MAX) as usize,
        _ => r.below(100_000),
    };
    let pre = if r.bool() { r.skewed(1, 30) } else { 0 };
    let pre = r.bytes(pre);
    ctx.sample(|| format!("number {n}, {t:?}, {x:?}"));
    ctx.detail(|| format!("number {n}, {t:?}, {x:?}"));
    let mut a = pre.clone();
    sut("srt::write_line", || srt::write_line(&mut a, n, &t, &x))?.map_err(|e| format!("write_line into memory failed: {e}"))?;
    if a[..pre.len()] != pre {
        return Err("write_line changed what the writer already held".into());
    }
    differ(&a[pre.len()..], srt_block(n, &t, &x).as_bytes(), "srt::write_line")?;
    let mut b = pre.clone();
    sut("webvtt::write_line", || webvtt::write_line(&mut b, &t, &x))?.map_err(|e| format!("write_line into memory failed: {e}"))?;
    differ(&b[pre.len()..], vtt_block(&t, &x).as_bytes(), "webvtt::write_line")?;
    // a second line follows the first one directly
    webvtt::write_line(&mut b, &t, &x).map_err(|e| e.to_string())?;
    let w = vtt_block(&t, &x);
    differ(&b[pre.len()..], format!("{w}{w}").as_bytes(), "two lines of webvtt::write_line")?;
    ctx.ev(3);
    ctx.nt(fnv(&a) ^ 1);
    ctx.nt(fnv(&b) ^ 2);
    Ok(())
}
fn t03_big(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.skewed(10_000, 1_000_000);
    let unit = gen_plain_text(&mut ctx.r);
    let x = unit.repeat(n / unit.len() + 1);
    let l = vec![(gen_span(&mut ctx.r), x.clone()), (gen_span(&mut ctx.r), "end".into())];
    ctx.max("bytes in one text", x.len() as u64);
    t03_check(ctx, &l, true)?;
    let mut b = vec![];
    webvtt::write_line(&mut b, &l[0].0, &x).map_err(|e| e.to_string())?;
    ctx.ev(1);
    differ(&b, vtt_block(&l[0].0, &x).as_bytes(), "webvtt::write_line")
}

// ---------------------------------------------------------------- T04

enum Call<'a> {
    Srt(&'a [(TimeSpan, String)]),
    SrtLine(usize, &'a TimeSpan, &'a str),
    VttLine(&'a TimeSpan, &'a str),
}
impl Call<'_> {
    fn run(&self, w: &mut impl Write) -> std::io::Result<()> {
        match self {
            Call::Srt(l) => srt::write_srt(w, l),
            Call::SrtLine(n, t, x) => srt::write_line(w, *n, t, x),
            Call::VttLine(t, x) => webvtt::write_line(w, t, x),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Call::Srt(_) => "write_srt",
            Call::SrtLine(..) => "srt::write_line",
            Call::VttLine(..) => "webvtt::write_line",
        }
    }
}
const KINDS: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::WriteZero,
    ErrorKind::PermissionDenied,
    ErrorKind::StorageFull,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
];
/// One faulty run: the error is the injected one, the bytes are a prefix.
fn t04_fault(ctx: &mut Ctx, c: &Call, want: &[u8], limit: usize) -> R {
    let kind = *ctx.r.pick(&KINDS);
    let seed = ctx.r.u64();
    let mut s = Sink::new(limit, kind, seed);
    s.zero = ctx.r.chance(1, 5);
    s.once = ctx.r.chance(1, 3);
    s.piece = *ctx.r.pick(&[0, 0, 1, 3, 40]);
    s.random = ctx.r.bool();
    s.interrupt = *ctx.r.pick(&[0, 0, 60]);
    let name = c.name();
    let res = sut(name, || c.run(&mut s))?;
    ctx.ev(1);
    ctx.c("failures injected", 1);
    let what = format!(
        "{name}, writer failing after {limit} of {} bytes ({}, {})",
        want.len(),
        if s.zero { "accepting nothing".to_string() } else { format!("{kind:?}") },
        if s.once { "once" } else { "for good" }
    );
    match res {
        Ok(()) => return Err(format!("{what}: success reported, {} bytes accepted", s.got.len())),
        Err(e) => {
            let same = if s.zero { e.kind() == ErrorKind::WriteZero } else { e.kind() == kind && e.to_string() == MARK };
            if !same {
                return Err(format!("{what}: the reported error is {:?} {e}", e.kind()));
            }
        }
    }
    if s.got != want[..limit] {
        return Err(format!("{what}: {}", differ(&s.got, &want[..limit], "bytes accepted").unwrap_err()));
    }
    Ok(())
}
/// A fault-free run over a writer with short writes and interruptions.
fn t04_fair(ctx: &mut Ctx, c: &Call, want: &[u8]) -> R {
    let seed = ctx.r.u64();
    let mut s = Sink::new(usize::MAX, ErrorKind::Other, seed);
    s.piece = *ctx.r.pick(&[1, 2, 5, 17, 1000]);
    s.random = ctx.r.bool();
    s.interrupt = *ctx.r.pick(&[0, 30, 128, 200]);
    // exactly enough room is enough
    if ctx.r.bool() {
        s.limit = want.len();
    }
    let res = sut(c.name(), || c.run(&mut s))?;
    ctx.ev(1);
    ctx.c("interruptions", s.interrupts);
    ctx.c("short writes", s.calls);
    if let Err(e) = res {
        return Err(format!("{} over a slow writer failed: {e}", c.name()));
    }
    differ(&s.got, want, c.name())
}
fn t04_every(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(1, 4);
    let l = gen_list(&mut ctx.r, n, false);
    ctx.detail(|| format!("{l:?}"));
    let (t, x) = &l[0];
    let k = ctx.r.below(100_000);
    for (c, want) in [
        (Call::Srt(&l), srt_want(&l)),
        (Call::SrtLine(k, t, x), srt_block(k, t, x).into_bytes()),
        (Call::VttLine(t, x), vtt_block(t, x).into_bytes()),
    ] {
        for i in 0..want.len() {
            t04_fault(ctx, &c, &want, i)?;
        }
        t04_fair(ctx, &c, &want)?;
        ctx.nt(fnv(&want));
    }
    ctx.sample(|| format!("a failure after every byte of {l:?}"));
    ctx.c("documents with every failure point", 3);
    Ok(())
}
fn t04_short(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.skewed(0, 12);
    let l = gen_list(&mut ctx.r, n, false);
    let want = srt_want(&l);
    t04_fair(ctx, &Call::Srt(&l), &want)?;
    if let Some((t, x)) = l.first() {
        t04_fair(ctx, &Call::SrtLine(n, t, x), srt_block(n, t, x).as_bytes())?;
        t04_fair(ctx, &Call::VttLine(t, x), vtt_block(t, x).as_bytes())?;
        ctx.nt(fnv(&want));
    }
    ctx.sample(|| format!("short writes and interruptions: {l:?}"));
    Ok(())
}
fn t04_large(ctx: &mut Ctx, _: u64) -> R {
    let n = ctx.r.range(200, 2_000);
    let l = gen_list(&mut ctx.r, n, false);
    let want = srt_want(&l);
    for _ in 0..4 {
        let at = match ctx.r.below(4) {
            0 => want.len() - 1,
            1 => want.len() - 1 - ctx.r.below(100),
            2 => (8192 * ctx.r.range(1, 3)).min(want.len() - 1),
            _ => ctx.r.below(want.len()),
        };
        t04_fault(ctx, &Call::Srt(&l), &want, at)?;
    }
    ctx.nt(fnv(&want));
    t04_fair(ctx, &Call::Srt(&l), &want)
}
