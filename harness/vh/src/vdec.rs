//! Observation of the VobSub decoder through its public interface.
use crate::fw::{sut, Ctx};
use subtile::content::Area;
use subtile::image::{ImageArea as _, ImageSize as _};
use subtile::time::TimeSpan;
use subtile::vobsub::{Sub, VobSubError, VobSubIndexedImage};
use vhcore::util::{count_pack_codes, Hasher};
use vhcore::vob;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct VOk {
    pub start: i64,
    pub end: i64,
    /// left, top, width, height
    pub area: [u16; 4],
    pub size: (u32, u32),
    pub palette: [u8; 4],
    pub alpha: [u8; 4],
    pub raw: Vec<u8>,
}
pub type VItem = Result<VOk, String>;

pub fn area4(a: &Area) -> [u16; 4] {
    [a.left(), a.top(), a.width(), a.height()]
}

pub fn observe(x: &(TimeSpan, VobSubIndexedImage)) -> VOk {
    let (t, i) = x;
    VOk {
        start: t.start.msecs(),
        end: t.end.msecs(),
        area: area4(&i.area()),
        size: (i.width(), i.height()),
        palette: *i.palette(),
        alpha: *i.alpha(),
        raw: i.raw_image().to_vec(),
    }
}
pub fn err_text(e: &VobSubError) -> String {
    format!("{e} / {e:?}")
}

/// All items of a `.sub` content. More items than start codes, or a restart after the end, is an
/// error of the returned kind only when `strict`.
pub fn decode(ctx: &Ctx, bytes: &[u8]) -> Result<Vec<VItem>, String> {
    let p = ctx.file("x.sub", bytes);
    let limit = count_pack_codes(bytes) + 4;
    sut("decoding a .sub file", || -> Result<Vec<VItem>, String> {
        let sub = Sub::open(&p).map_err(|e| format!("opening an existing .sub file failed: {e}"))?;
        let mut v = vec![];
        for it in sub.subtitles::<(TimeSpan, VobSubIndexedImage)>().take(limit) {
            v.push(match it {
                Ok(x) => Ok(observe(&x)),
                Err(e) => Err(err_text(&e)),
            });
        }
        Ok(v)
    })?
}

pub fn hash_items(v: &[VItem]) -> u64 {
    let mut h = Hasher::new();
    for i in v {
        match i {
            Ok(o) => {
                h.u64(o.start as u64).u64(o.end as u64);
                for a in o.area {
                    h.u64(u64::from(a));
                }
                h.bytes(&o.palette).bytes(&o.alpha).bytes(&o.raw);
            }
            Err(e) => {
                h.u64(0xdead).bytes(e.as_bytes());
            }
        }
    }
    h.get()
}

pub fn short(i: &VItem) -> String {
    match i {
        Ok(o) => format!(
            "Ok({}..{} ms, area {:?}, palette {:?}, alpha {:?}, {} px)",
            o.start,
            o.end,
            o.area,
            o.palette,
            o.alpha,
            o.raw.len()
        ),
        Err(e) => format!("Err({})", e.chars().take(150).collect::<String>()),
    }
}

/// Compares everything but the times with the model.
pub fn check_picture(o: &VOk, s: &vob::Sub) -> Result<(), String> {
    let [x1, y1, x2, y2] = s.area;
    let want = [x1, y1, x2 - x1 + 1, y2 - y1 + 1];
    if o.area != want {
        return Err(format!("area (left, top, width, height) is {:?}, encoded {want:?}", o.area));
    }
    if o.size != (s.pic.w as u32, s.pic.h as u32) {
        return Err(format!("size is {:?}, encoded {}x{}", o.size, s.pic.w, s.pic.h));
    }
    if o.palette != s.palette {
        return Err(format!("palette is {:?}, encoded {:?}", o.palette, s.palette));
    }
    if o.alpha != s.alpha {
        return Err(format!("alpha is {:?}, encoded {:?}", o.alpha, s.alpha));
    }
    if o.raw != s.pic.pix {
        if o.raw.len() != s.pic.pix.len() {
            return Err(format!("{} pixels decoded, {} encoded", o.raw.len(), s.pic.pix.len()));
        }
        let i = (0..o.raw.len()).find(|&i| o.raw[i] != s.pic.pix[i]).unwrap();
        return Err(format!(
            "pixel (x {}, y {}) of a {}x{} picture is {}, encoded {}",
            i % s.pic.w,
            i / s.pic.w,
            s.pic.w,
            s.pic.h,
            o.raw[i],
            s.pic.pix[i]
        ));
    }
    Ok(())
}

/// Compares the times with the model (exact times in 90 kHz ticks).
pub fn check_times(o: &VOk, s: &vob::Sub) -> Result<(), String> {
    let (a, b) = s.ticks();
    let near = |got: i64, ticks: u64, tol_ms: i64| -> bool {
        (i128::from(got) * 90 - i128::from(ticks)).abs() <= i128::from(tol_ms * 90)
    };
    if !near(o.start, a, 1) {
        return Err(format!(
            "start is {} ms, time stamp {} + date {} is {:.3} ms",
            o.start,
            s.pts,
            s.start,
            a as f64 / 90.0
        ));
    }
    match b {
        Some(b) => {
            if !near(o.end, b, 1) {
                return Err(format!(
                    "end is {} ms, time stamp {} + stop date {:?} is {:.3} ms",
                    o.end,
                    s.pts,
                    s.stop,
                    b as f64 / 90.0
                ));
            }
        }
        None => {
            if !near(o.end, a + 450_000, 2) || (o.end - o.start - 5000).abs() > 2 {
                return Err(format!(
                    "no stop command: end is {} ms, start {} ms (time stamp {}, date {}), expected 5 s later",
                    o.end, o.start, s.pts, s.start
                ));
            }
        }
    }
    Ok(())
}
