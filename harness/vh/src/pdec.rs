//! Observation of the PGS decoders through their public interface.
use crate::fw::sut;
use std::io::{BufRead, Cursor, Seek};
use subtile::image::ImageSize as _;
use subtile::pgs::{DecodeTimeImage, DecodeTimeOnly, PgsError, RleEncodedImage, SupParser};
use subtile::time::TimeSpan;
use vhcore::pgs;
use vhcore::util::Hasher;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct POk {
    pub times: (i64, i64),
    pub size: (u32, u32),
    /// luminance, transparency
    pub pix: Vec<(u8, u8)>,
}
pub type PItem = Result<POk, String>;
pub type TItem = Result<(i64, i64), String>;

/// Pictures larger than this are not expanded.
pub const MAX_PX: u64 = 1 << 22;

pub fn times(t: &TimeSpan) -> (i64, i64) {
    (t.start.msecs(), t.end.msecs())
}
pub fn observe(x: &(TimeSpan, RleEncodedImage)) -> POk {
    let (t, i) = x;
    let size = (i.width(), i.height());
    let n = (u64::from(size.0) * u64::from(size.1)).min(MAX_PX) as usize;
    // (never more than the picture should hold: exactness is a property of its own)
    let mut pix = Vec::with_capacity(n);
    pix.extend(i.iter().take(n).map(|p| (p.0[0], p.0[1])));
    POk { times: times(t), size, pix }
}
pub fn err_text(e: &PgsError) -> String {
    format!("{e} / {e:?}")
}

pub fn images_from<Rd: BufRead + Seek>(rd: Rd, limit: usize) -> Vec<PItem> {
    SupParser::<Rd, DecodeTimeImage>::new(rd)
        .take(limit)
        .map(|x| match x {
            Ok(x) => Ok(observe(&x)),
            Err(e) => Err(err_text(&e)),
        })
        .collect2()
}
pub fn times_from<Rd: BufRead + Seek>(rd: Rd, limit: usize) -> Vec<TItem> {
    SupParser::<Rd, DecodeTimeOnly>::new(rd)
        .take(limit)
        .map(|x| match x {
            Ok(x) => Ok(times(&x)),
            Err(e) => Err(err_text(&e)),
        })
        .collect2()
}

/// `collect` without trusting the size hint (a property of its own).
trait Collect2: Iterator + Sized {
    fn collect2(self) -> Vec<Self::Item> {
        let mut v = vec![];
        for x in self {
            v.push(x);
        }
        v
    }
}
impl<I: Iterator> Collect2 for I {}

pub fn images(bytes: &[u8]) -> Result<Vec<PItem>, String> {
    sut("decoding a .sup stream", || images_from(Cursor::new(bytes), bytes.len() + 2))
}
pub fn only_times(bytes: &[u8]) -> Result<Vec<TItem>, String> {
    sut("decoding the times of a .sup stream", || times_from(Cursor::new(bytes), bytes.len() + 2))
}

pub fn short(i: &PItem) -> String {
    match i {
        Ok(o) => format!("Ok({:?} ms, {}x{}, {} px)", o.times, o.size.0, o.size.1, o.pix.len()),
        Err(e) => format!("Err({})", e.chars().take(150).collect::<String>()),
    }
}
pub fn tshort(i: &TItem) -> String {
    match i {
        Ok(o) => format!("Ok({:?} ms)", o),
        Err(e) => format!("Err({})", e.chars().take(150).collect::<String>()),
    }
}

pub fn hash_items(v: &[PItem]) -> u64 {
    let mut h = Hasher::new();
    for i in v {
        match i {
            Ok(o) => {
                h.u64(o.times.0 as u64).u64(o.times.1 as u64);
                h.u64(u64::from(o.size.0)).u64(u64::from(o.size.1));
                for p in &o.pix {
                    h.u64(u64::from(p.0) << 8 | u64::from(p.1));
                }
            }
            Err(e) => {
                h.u64(0xdead).bytes(e.as_bytes());
            }
        }
    }
    h.get()
}
pub fn hash_times(v: &[TItem]) -> u64 {
    let mut h = Hasher::new();
    for i in v {
        match i {
            Ok(o) => h.u64(o.0 as u64).u64(o.1 as u64),
            Err(e) => h.u64(0xdead).bytes(e.as_bytes()),
        };
    }
    h.get()
}

/// Compares size and pixels with the model.
pub fn check_picture(o: &POk, s: &pgs::Sub) -> Result<(), String> {
    if o.size != (s.pic.w as u32, s.pic.h as u32) {
        return Err(format!("size is {:?}, encoded {}x{}", o.size, s.pic.w, s.pic.h));
    }
    compare_pixels(&o.pix, &s.pixels(), s.pic.w)
}
pub fn compare_pixels(got: &[(u8, u8)], want: &[(u8, u8)], w: usize) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        return Err(format!("{} pixels decoded, {} encoded", got.len(), want.len()));
    }
    let i = (0..got.len()).find(|&i| got[i] != want[i]).unwrap();
    Err(format!(
        "pixel (x {}, y {}) is luminance/transparency {:?}, encoded {:?}",
        i % w,
        i / w,
        got[i],
        want[i]
    ))
}
