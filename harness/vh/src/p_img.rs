//! Properties I01..I04: image dumps, thresholds, area geometry.
use crate::fw::{st, sut, Ctx, StreamDef, R};
use image::{DynamicImage, EncodableLayout, ImageBuffer, Luma, LumaA, Pixel, PixelWithColorType, Primitive, Rgb, Rgba};
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use subtile::content::{Area, AreaValues};
use subtile::image::{dump_images, luma_a_to_luma, luma_a_to_luma_convertor, DumpError, ImageArea, ImageSize as _};
use subtile::SubtileError;
use vhcore::rng::Rng;
use vhcore::util::{fnv, Hasher};

pub fn defs(p: &str) -> Option<Vec<StreamDef>> {
    Some(match p {
        "I01" => vec![
            st("dumps", 4_000, 80_000, i01_dumps),
            st("again", 1_500, 30_000, i01_again),
            st("long", 6, 40, i01_long),
            st("large", 16, 200, i01_large),
        ],
        "I02" => vec![
            st("limits", 60, 2_000, i02_limits),
            st("every", 12, 200, i02_every),
            st("large", 12, 120, i02_large),
            st("device", 600, 10_000, i02_device),
            st("files", 1_200, 20_000, i02_files),
            st("folders", 600, 10_000, i02_folders),
            st("images", 300, 5_000, i02_images),
        ],
        "I03" => vec![
            st("near", 65_536, 65_536, i03_near),
            st("full", 2_048, 65_536, i03_full),
            st("consts", 256, 256, i03_consts),
            st("types", 4_000, 200_000, i03_types),
        ],
        "I04" => vec![
            st("grid", GRID_CASES, GRID_CASES, i04_grid),
            st("random", 4_000, 400_000, i04_random),
            st("pairs", 256, 65_536, i04_pairs),
        ],
        _ => return None,
    })
}

// ---------------------------------------------------------------- images

pub trait Sample: Primitive {
    fn gen(r: &mut Rng) -> Self;
    fn wide(self) -> u16;
}
impl Sample for u8 {
    fn gen(r: &mut Rng) -> Self {
        *r.pick(&[r.clone().u8(), 0, 255, 1, 128])
    }
    fn wide(self) -> u16 {
        u16::from(self)
    }
}
impl Sample for u16 {
    fn gen(r: &mut Rng) -> Self {
        *r.pick(&[r.clone().u16(), 0, 65535, 255, 256])
    }
    fn wide(self) -> u16 {
        self
    }
}
fn gen_img<P>(r: &mut Rng, w: u32, h: u32) -> ImageBuffer<P, Vec<P::Subpixel>>
where
    P: Pixel,
    P::Subpixel: Sample,
{
    let n = w as usize * h as usize * usize::from(P::CHANNEL_COUNT);
    let style = r.below(4);
    let mut run = 0usize;
    let mut cur = P::Subpixel::gen(r);
    let v: Vec<P::Subpixel> = (0..n)
        .map(|_| match style {
            0 => cur,
            1 => {
                if run == 0 {
                    run = r.skewed(1, 200);
                    cur = P::Subpixel::gen(r);
                }
                run -= 1;
                cur
            }
            _ => {
                r.u64();
                P::Subpixel::gen(r)
            }
        })
        .collect();
    ImageBuffer::from_raw(w, h, v).expect("harness: image")
}
fn gen_size(r: &mut Rng, max: u32) -> (u32, u32) {
    let m = max as usize;
    match r.below(6) {
        0 => (1, 1),
        1 => (1, r.skewed(1, m * 4) as u32),
        2 => (r.skewed(1, m * 4) as u32, 1),
        _ => (r.skewed(1, m) as u32, r.skewed(1, m) as u32),
    }
}
/// Kind and samples of a decoded file.
fn kind_and_samples(d: &DynamicImage) -> Result<(&'static str, Vec<u16>), String> {
    let w = |v: &[u8]| v.iter().map(|x| u16::from(*x)).collect();
    Ok(match d {
        DynamicImage::ImageLuma8(i) => ("L8", w(i)),
        DynamicImage::ImageLumaA8(i) => ("La8", w(i)),
        DynamicImage::ImageRgb8(i) => ("Rgb8", w(i)),
        DynamicImage::ImageRgba8(i) => ("Rgba8", w(i)),
        DynamicImage::ImageLuma16(i) => ("L16", i.to_vec()),
        DynamicImage::ImageLumaA16(i) => ("La16", i.to_vec()),
        DynamicImage::ImageRgb16(i) => ("Rgb16", i.to_vec()),
        DynamicImage::ImageRgba16(i) => ("Rgba16", i.to_vec()),
        o => return Err(format!("a file decodes to {:?}", o.color())),
    })
}
pub trait Kind: Pixel {
    const NAME: &'static str;
}
impl Kind for Luma<u8> {
    const NAME: &'static str = "L8";
}
impl Kind for LumaA<u8> {
    const NAME: &'static str = "La8";
}
impl Kind for Rgb<u8> {
    const NAME: &'static str = "Rgb8";
}
impl Kind for Rgba<u8> {
    const NAME: &'static str = "Rgba8";
}
impl Kind for Luma<u16> {
    const NAME: &'static str = "L16";
}
impl Kind for LumaA<u16> {
    const NAME: &'static str = "La16";
}
impl Kind for Rgb<u16> {
    const NAME: &'static str = "Rgb16";
}
impl Kind for Rgba<u16> {
    const NAME: &'static str = "Rgba16";
}
pub trait Full: Kind + PixelWithColorType + 'static
where
    Self::Subpixel: Sample,
{
}
impl<T: Kind + PixelWithColorType + 'static> Full for T where T::Subpixel: Sample {}

/// The file holds exactly this picture.
fn check_file<P>(path: &Path, img: &ImageBuffer<P, Vec<P::Subpixel>>) -> R
where
    P: Kind,
    P::Subpixel: Sample,
{
    let bytes = fs::read(path).map_err(|e| format!("{}: {e}", path.display()))?;
    if !bytes.starts_with(b"\x89PNG\r\n\x1a\n") {
        return Err(format!("{} is not a PNG file", path.display()));
    }
    // the end marker is there and nothing follows it
    if !bytes.ends_with(b"\0\0\0\0IEND\xaeB`\x82") {
        return Err(format!("{} ({} bytes) does not end with the end marker", path.display(), bytes.len()));
    }
    let d = image::load_from_memory_with_format(&bytes, image::ImageFormat::Png)
        .map_err(|e| format!("{} does not decode: {e}", path.display()))?;
    let (kind, s) = kind_and_samples(&d)?;
    if kind != P::NAME || (d.width(), d.height()) != img.dimensions() {
        return Err(format!(
            "{} is {kind} {}x{}, dumped {} {}x{}",
            path.display(),
            d.width(),
            d.height(),
            P::NAME,
            img.width(),
            img.height()
        ));
    }
    let want: Vec<u16> = img.as_raw().iter().map(|x| x.wide()).collect();
    if s != want {
        let i = s.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("{}: sample {i} is {:?}, dumped {:?}", path.display(), s.get(i), want.get(i)));
    }
    Ok(())
}

fn name(i: usize) -> String {
    // six digits, written independently of the library's format string
    let mut s = i.to_string();
    while s.len() < 6 {
        s.insert(0, '0');
    }
    s + ".png"
}
/// All paths below a folder with their content (None = folder).
fn tree(p: &Path) -> BTreeMap<PathBuf, Option<u64>> {
    fn walk(base: &Path, p: &Path, m: &mut BTreeMap<PathBuf, Option<u64>>) {
        let Ok(rd) = fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let q = e.path();
            let rel = q.strip_prefix(base).unwrap().to_path_buf();
            if fs::symlink_metadata(&q).is_ok_and(|x| x.is_dir()) {
                m.insert(rel, None);
                walk(base, &q, m);
            } else {
                m.insert(rel, Some(fs::read(&q).map_or(1, |b| fnv(&b))));
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(p, p, &mut m);
    m
}
fn wipe(p: &Path) {
    let _ = fs::remove_dir_all(p);
}

/// Ways of giving the images to the library.
fn dump<P>(how: usize, path: &str, v: &[ImageBuffer<P, Vec<P::Subpixel>>]) -> Result<Result<(), SubtileError>, String>
where
    P: Full,
    P::Subpixel: Sample,
    [P::Subpixel]: EncodableLayout,
{
    sut("dump_images", || match how % 4 {
        0 => dump_images(path, v.iter()),
        1 => dump_images(path, v.to_vec()),
        2 => {
            // borrowed samples
            let b: Vec<ImageBuffer<P, &[P::Subpixel]>> =
                v.iter().map(|i| ImageBuffer::from_raw(i.width(), i.height(), i.as_raw().as_slice()).unwrap()).collect();
            dump_images(path, b.iter())
        }
        _ => {
            // generated lazily
            let mut k = 0;
            dump_images(
                path,
                std::iter::from_fn(|| {
                    k += 1;
                    v.get(k - 1).cloned()
                }),
            )
        }
    })
}
fn base(ctx: &Ctx) -> PathBuf {
    let p = ctx.scratch.join("dump");
    wipe(&p);
    fs::create_dir_all(&p).expect("harness: folder");
    p
}
/// Calls `f` with one of the pixel types.
macro_rules! any_kind {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k % 8 {
            0 => $f::<Luma<u8>>($($a),*),
            1 => $f::<LumaA<u8>>($($a),*),
            2 => $f::<Rgb<u8>>($($a),*),
            3 => $f::<Rgba<u8>>($($a),*),
            4 => $f::<Luma<u16>>($($a),*),
            5 => $f::<LumaA<u16>>($($a),*),
            6 => $f::<Rgb<u16>>($($a),*),
            _ => $f::<Rgba<u16>>($($a),*),
        }
    };
}
fn gen_imgs<P>(r: &mut Rng, n: usize, max: u32) -> Vec<ImageBuffer<P, Vec<P::Subpixel>>>
where
    P: Full,
    P::Subpixel: Sample,
{
    (0..n)
        .map(|_| {
            let (w, h) = gen_size(r, max);
            gen_img::<P>(r, w, h)
        })
        .collect()
}
fn img_hash<P: Full>(v: &[ImageBuffer<P, Vec<P::Subpixel>>]) -> u64
where
    P::Subpixel: Sample,
{
    let mut h = Hasher::new();
    h.bytes(P::NAME.as_bytes());
    for i in v {
        h.u64(u64::from(i.width()));
        for s in i.as_raw() {
            h.u64(u64::from(s.wide()));
        }
    }
    h.get()
}

// ---------------------------------------------------------------- I01

/// Folder name variants; returns the path to give and the real folder.
fn gen_folder(ctx: &mut Ctx, root: &Path) -> (String, PathBuf, bool) {
    let r = &mut ctx.r;
    let leaf = *r.pick(&["out", "o u t", "öut-日本", "a.png", "000000.png", "-x", "out.d", "%s{}"]);
    let (mut real, mut exists) = match r.below(6) {
        0 => (root.join(leaf), false),
        1 => (root.join("missing/parents/of").join(leaf), false),
        2 | 3 => (root.join(leaf), true),
        4 => (root.join("deep").join(leaf), true),
        _ => (root.join("x".repeat(r.range(1, 255))), r.bool()),
    };
    if exists {
        fs::create_dir_all(&real).expect("harness: folder");
    }
    let mut given = real.to_str().unwrap().to_string();
    match r.below(8) {
        0 => given.push('/'),
        1 => given = format!("{}/.", root.display()) + &given[root.to_str().unwrap().len()..],
        2 => {
            // through a symbolic link
            let to = root.join("real-folder");
            let link = root.join("link");
            fs::create_dir_all(&to).expect("harness: folder");
            std::os::unix::fs::symlink(&to, &link).expect("harness: link");
            given = link.to_str().unwrap().to_string();
            real = to;
            exists = true;
        }
        3 | 4 => {
            // relative to the current folder
            let cwd = std::env::current_dir().unwrap_or_default();
            if let Ok(p) = real.strip_prefix(&cwd) {
                let s = p.to_str().unwrap().to_string();
                given = if r.bool() { format!("./{s}") } else { s };
                ctx.c("relative paths", 1);
            }
        }
        _ => {}
    }
    (given, real, exists)
}
fn i01_case<P>(ctx: &mut Ctx, n: usize, max: u32) -> R
where
    P: Full,
    P::Subpixel: Sample,
    [P::Subpixel]: EncodableLayout,
{
    let root = base(ctx);
    let (given, real, exists) = gen_folder(ctx, &root);
    let imgs = gen_imgs::<P>(&mut ctx.r, n, max);
    // strangers and left-overs
    let mut keep: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    if exists {
        for _ in 0..ctx.r.below(6) {
            let k = if ctx.r.bool() { ctx.r.below(n.max(1)) } else { ctx.r.below(n + 4) };
            let nm = match ctx.r.below(11) {
                0 => format!("{}.png", k),
                1 => format!("{k:06}.PNG"),
                2 => format!("{k:06}"),
                3 => "notes.txt".to_string(),
                4 => format!("{k:07}.png"),
                5 => format!("{k:05}.png"),
                _ => name(k),
            };
            let len = ctx.r.skewed(0, 20_000);
            let b = ctx.r.bytes(len);
            let p = real.join(&nm);
            let to = root.join("zz-links").join(format!("to {nm}"));
            if !root.starts_with(&real) && fs::symlink_metadata(&p).is_err() && ctx.r.chance(1, 4) {
                // a link to a file elsewhere, which may not be there yet
                fs::create_dir_all(to.parent().unwrap()).expect("harness: folder");
                let there = ctx.r.bool() || !(0..n).any(|i| name(i) == nm);
                if there {
                    fs::write(&to, &b).expect("harness: file");
                }
                std::os::unix::fs::symlink(&to, &p).expect("harness: link");
                ctx.c(if there { "links to files" } else { "links to nothing" }, 1);
            } else {
                fs::write(&p, &b).expect("harness: file");
            }
            if (0..n).any(|i| name(i) == nm) {
                ctx.c("files to replace", 1);
                keep.remove(Path::new(&nm));
            } else {
                ctx.c("files to leave alone", 1);
                keep.insert(PathBuf::from(nm), b);
            }
        }
    }
    let how = ctx.r.below(4);
    ctx.sample(|| format!("{n} {} images of {:?} into {given:?} (exists: {exists})", P::NAME, imgs.first().map(|i| i.dimensions())));
    ctx.detail(|| format!("{n} {} images into {given:?} (exists: {exists}), given as {how}", P::NAME));
    dump(how, &given, &imgs)?.map_err(|e| format!("dump of {n} {} images into {given:?} failed: {e:?}", P::NAME))?;
    i01_check(ctx, &real, &imgs, &keep)?;
    ctx.c(&format!("images {}", P::NAME), n as u64);
    if n > 0 {
        ctx.nt(img_hash(&imgs));
    }
    wipe(&root);
    Ok(())
}
fn i01_check<P>(
    ctx: &mut Ctx,
    real: &Path,
    imgs: &[ImageBuffer<P, Vec<P::Subpixel>>],
    keep: &BTreeMap<PathBuf, Vec<u8>>,
) -> R
where
    P: Full,
    P::Subpixel: Sample,
{
    if !real.is_dir() {
        return Err(format!("{} is not a folder after the dump", real.display()));
    }
    for (i, img) in imgs.iter().enumerate() {
        check_file(&real.join(name(i)), img)?;
    }
    for (p, b) in keep {
        if fs::read(real.join(p)).ok().as_ref() != Some(b) {
            return Err(format!("the dump of {} images changed {}", imgs.len(), p.display()));
        }
    }
    let t = tree(real);
    for p in t.keys() {
        let s = p.to_str().unwrap_or("");
        if !keep.contains_key(p) && !(0..imgs.len()).any(|i| name(i) == s) {
            return Err(format!("unexpected {s:?} after the dump of {} images", imgs.len()));
        }
    }
    ctx.ev(1 + imgs.len() as u64);
    ctx.c("files read back", imgs.len() as u64);
    Ok(())
}
fn i01_dumps(ctx: &mut Ctx, i: u64) -> R {
    let n = if i < 64 { (i / 8) as usize } else { ctx.r.skewed(0, 24) };
    any_kind!(i, i01_case, ctx, n, 40)
}
/// Several dumps of different lengths into one folder, in sequence.
fn i01_again(ctx: &mut Ctx, i: u64) -> R {
    fn go<P, Q>(ctx: &mut Ctx) -> R
    where
        P: Full,
        P::Subpixel: Sample,
        [P::Subpixel]: EncodableLayout,
        Q: Full,
        Q::Subpixel: Sample,
        [Q::Subpixel]: EncodableLayout,
    {
        let root = base(ctx);
        let real = root.join("a/b");
        let given = real.to_str().unwrap();
        let n = ctx.r.range(1, 8);
        let m = ctx.r.range(1, 8);
        let first = gen_imgs::<P>(&mut ctx.r, n, 60);
        let second = gen_imgs::<Q>(&mut ctx.r, m, 10);
        dump(0, given, &first)?.map_err(|e| format!("first dump failed: {e:?}"))?;
        i01_check(ctx, &real, &first, &BTreeMap::new())?;
        let keep: BTreeMap<PathBuf, Vec<u8>> =
            (m..n).map(|i| (PathBuf::from(name(i)), fs::read(real.join(name(i))).unwrap())).collect();
        dump(1, given, &second)?.map_err(|e| format!("second dump failed: {e:?}"))?;
        i01_check(ctx, &real, &second, &keep)?;
        ctx.c("dumps over a dump", 1);
        ctx.nt(img_hash(&first) ^ img_hash(&second));
        wipe(&root);
        Ok(())
    }
    ctx.sample(|| "a dump over an earlier dump of another length, size and type".into());
    match i % 4 {
        0 => go::<Rgba<u8>, Luma<u8>>(ctx),
        1 => go::<Luma<u8>, Rgba<u16>>(ctx),
        2 => go::<Rgb<u16>, LumaA<u8>>(ctx),
        _ => go::<LumaA<u16>, Rgb<u8>>(ctx),
    }
}
fn i01_long(ctx: &mut Ctx, i: u64) -> R {
    let n = *[101usize, 1_001, 1_200, 100, 999, 1_000].get(i as usize).unwrap_or(&10_050);
    ctx.max("images in one dump", n as u64);
    any_kind!(i, i01_case, ctx, n, 4)
}
fn i01_large(ctx: &mut Ctx, i: u64) -> R {
    any_kind!(i, i01_case, ctx, 2, 1200)
}

// ---------------------------------------------------------------- I02

fn fsize(limit: Option<u64>) {
    unsafe {
        let mut l: libc::rlimit = std::mem::zeroed();
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut l), 0, "harness: getrlimit");
        l.rlim_cur = limit.map_or(l.rlim_max, |x| (x as libc::rlim_t).min(l.rlim_max));
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &l), 0, "harness: setrlimit");
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}
enum Where {
    Folder(PathBuf),
    File(PathBuf),
}
fn place(e: &SubtileError) -> Result<Where, String> {
    match e {
        SubtileError::ImageDump(d) => {
            let (p, w) = match d {
                DumpError::Folder { path, .. } => (path.clone(), Where::Folder(path.clone())),
                DumpError::DumpImage { filename, .. } => (filename.clone(), Where::File(filename.clone())),
                o => return Err(format!("another dump error: {o:?}")),
            };
            let s = d.to_string();
            if !s.contains(&p.display().to_string()) {
                return Err(format!("the message {s:?} does not name {}", p.display()));
            }
            if std::error::Error::source(d).is_none() {
                return Err(format!("{d:?} has no cause"));
            }
            Ok(w)
        }
        o => Err(format!("an error of another kind: {o:?}")),
    }
}
/// Expects a failure at image `k`: named, the images before complete, the ones after untouched.
fn failed_at<P>(
    real: &Path,
    given: &Path,
    imgs: &[ImageBuffer<P, Vec<P::Subpixel>>],
    before: &BTreeMap<PathBuf, Option<u64>>,
    res: Result<(), SubtileError>,
    k: usize,
    what: &str,
) -> R
where
    P: Full,
    P::Subpixel: Sample,
{
    let e = match res {
        Ok(()) => return Err(format!("{what}: success reported although image {k} cannot be written")),
        Err(e) => e,
    };
    match place(&e).map_err(|m| format!("{what}: {m}"))? {
        Where::File(f) if f == given.join(name(k)) => {}
        Where::File(f) => return Err(format!("{what}: image {k} failed, the error names {}", f.display())),
        Where::Folder(f) => return Err(format!("{what}: image {k} failed, the error names the folder {}", f.display())),
    }
    for (i, img) in imgs.iter().enumerate().take(k) {
        check_file(&real.join(name(i)), img).map_err(|m| format!("{what}: image {k} failed; before it: {m}"))?;
    }
    let after = tree(real);
    for i in k + 1..imgs.len() {
        let p = PathBuf::from(name(i));
        if after.get(&p) != before.get(&p) {
            return Err(format!("{what}: image {k} failed and image {i} was attempted"));
        }
    }
    Ok(())
}
/// A limit of `limit` bytes per file: the first larger file fails.
fn i02_limit<P>(ctx: &mut Ctx, imgs: &[ImageBuffer<P, Vec<P::Subpixel>>], sizes: &[u64], limit: u64, fresh: bool) -> R
where
    P: Full,
    P::Subpixel: Sample,
    [P::Subpixel]: EncodableLayout,
{
    let real = ctx.scratch.join("dump/limited");
    if fresh {
        wipe(&real);
    }
    let given = real.to_str().unwrap();
    let before = tree(&real);
    fsize(Some(limit));
    let res = dump(ctx.r.below(4), given, imgs);
    fsize(None);
    let res = res?;
    ctx.ev(1);
    ctx.c("failures injected: file size", 1);
    let what = format!("{} images of {sizes:?} bytes, at most {limit} bytes per file", imgs.len());
    match sizes.iter().position(|s| *s > limit) {
        Some(k) => failed_at(&real, &real, imgs, &before, res, k, &what),
        None => {
            res.map_err(|e| format!("{what}: {e:?}"))?;
            for (i, img) in imgs.iter().enumerate() {
                check_file(&real.join(name(i)), img)?;
            }
            Ok(())
        }
    }
}
fn sizes_of<P>(ctx: &Ctx, imgs: &[ImageBuffer<P, Vec<P::Subpixel>>]) -> Result<Vec<u64>, String>
where
    P: Full,
    P::Subpixel: Sample,
    [P::Subpixel]: EncodableLayout,
{
    let p = base(ctx).join("whole");
    dump(0, p.to_str().unwrap(), imgs)?.map_err(|e| format!("a dump failed: {e:?}"))?;
    (0..imgs.len())
        .map(|i| fs::metadata(p.join(name(i))).map(|m| m.len()).map_err(|e| format!("image {i}: {e}")))
        .collect()
}
fn i02_limits(ctx: &mut Ctx, i: u64) -> R {
    fn go<P>(ctx: &mut Ctx) -> R
    where
        P: Full,
        P::Subpixel: Sample,
        [P::Subpixel]: EncodableLayout,
    {
        let n = ctx.r.range(1, 5);
        let imgs = gen_imgs::<P>(&mut ctx.r, n, 40);
        let sizes = sizes_of(ctx, &imgs)?;
        ctx.sample(|| format!("files of {sizes:?} bytes"));
        let mut limits = vec![];
        for s in &sizes {
            limits.extend([*s - 1, *s, s + 1, s / 2, s.saturating_sub(12), s - s.min(&20)]);
        }
        limits.extend([0, 1, 8, 33, 8191, 8192, 8193]);
        limits.sort_unstable();
        limits.dedup();
        for l in limits {
            let fresh = ctx.r.bool();
            i02_limit(ctx, &imgs, &sizes, l, fresh)?;
        }
        ctx.nt(img_hash(&imgs));
        Ok(())
    }
    any_kind!(i, go, ctx)
}
/// Every single byte position of small files.
fn i02_every(ctx: &mut Ctx, i: u64) -> R {
    fn go<P>(ctx: &mut Ctx) -> R
    where
        P: Full,
        P::Subpixel: Sample,
        [P::Subpixel]: EncodableLayout,
    {
        let imgs = gen_imgs::<P>(&mut ctx.r, 2, 6);
        let sizes = sizes_of(ctx, &imgs)?;
        let top = *sizes.iter().max().unwrap();
        ctx.sample(|| format!("every limit up to {top} bytes for files of {sizes:?} bytes"));
        for l in 0..=top.min(1500) {
            i02_limit(ctx, &imgs, &sizes, l, true)?;
        }
        ctx.c("image pairs with every failure point", 1);
        ctx.nt(img_hash(&imgs));
        Ok(())
    }
    any_kind!(i, go, ctx)
}
/// Files larger than any write buffer.
fn i02_large(ctx: &mut Ctx, i: u64) -> R {
    fn go<P>(ctx: &mut Ctx) -> R
    where
        P: Full,
        P::Subpixel: Sample,
        [P::Subpixel]: EncodableLayout,
    {
        let mut imgs = gen_imgs::<P>(&mut ctx.r, 1, 4);
        for _ in 0..3 {
            let (w, h) = (ctx.r.range(100, 400) as u32, ctx.r.range(100, 300) as u32);
            imgs.push(gen_img::<P>(&mut ctx.r, w, h));
        }
        let sizes = sizes_of(ctx, &imgs)?;
        let top = *sizes.iter().max().unwrap();
        ctx.max("bytes in one file", top);
        for _ in 0..8 {
            let s = *ctx.r.pick(&sizes);
            let l = match ctx.r.below(5) {
                0 => s - 1,
                1 => s - 1 - (ctx.r.below(16) as u64).min(s - 1),
                2 => s / 8192 * 8192,
                3 => s,
                _ => ctx.r.below(top as usize) as u64,
            };
            i02_limit(ctx, &imgs, &sizes, l, true)?;
        }
        ctx.nt(img_hash(&imgs));
        Ok(())
    }
    any_kind!(i, go, ctx)
}
/// One of the files is on a full device.
fn i02_device(ctx: &mut Ctx, i: u64) -> R {
    fn go<P>(ctx: &mut Ctx) -> R
    where
        P: Full,
        P::Subpixel: Sample,
        [P::Subpixel]: EncodableLayout,
    {
        let real = base(ctx).join("dev");
        fs::create_dir_all(&real).expect("harness: folder");
        let n = ctx.r.range(1, 6);
        let k = ctx.r.below(n);
        let max = *ctx.r.pick(&[3, 30, 150]);
        let imgs = gen_imgs::<P>(&mut ctx.r, n, max);
        std::os::unix::fs::symlink("/dev/full", real.join(name(k))).expect("harness: link");
        let mut links = k;
        for j in k + 1..n {
            // later files may fail as well: the first one is reported
            if ctx.r.chance(1, 3) {
                std::os::unix::fs::symlink("/dev/full", real.join(name(j))).expect("harness: link");
                links += 1;
            } else if ctx.r.chance(1, 3) {
                fs::write(real.join(name(j)), b"old").expect("harness: file");
            }
        }
        let _ = links;
        // a link to a device must not be read: describe the later plain files only
        let snapshot = |real: &Path| -> BTreeMap<PathBuf, Option<u64>> {
            (0..n)
                .filter(|j| fs::symlink_metadata(real.join(name(*j))).is_ok_and(|m| m.is_file()))
                .map(|j| (PathBuf::from(name(j)), Some(fnv(&fs::read(real.join(name(j))).unwrap()))))
                .collect()
        };
        let before = snapshot(&real);
        let how = ctx.r.below(4);
        let res = dump(how, real.to_str().unwrap(), &imgs)?;
        let what = format!("image {k} of {n} on a full device");
        ctx.ev(1);
        ctx.c("failures injected: full device", 1);
        ctx.nt(img_hash(&imgs) ^ k as u64);
        let e = match res {
            Ok(()) => return Err(format!("{what}: success reported")),
            Err(e) => e,
        };
        match place(&e).map_err(|m| format!("{what}: {m}"))? {
            Where::File(f) if f == real.join(name(k)) => {}
            Where::File(f) | Where::Folder(f) => return Err(format!("{what}: the error names {}", f.display())),
        }
        for (j, img) in imgs.iter().enumerate().take(k) {
            check_file(&real.join(name(j)), img).map_err(|m| format!("{what}: before it: {m}"))?;
        }
        let after = snapshot(&real);
        for j in k + 1..n {
            let p = PathBuf::from(name(j));
            if after.get(&p) != before.get(&p) {
                return Err(format!("{what}: image {j} was attempted"));
            }
        }
        wipe(&real);
        Ok(())
    }
    any_kind!(i, go, ctx)
}
/// One of the files cannot be created.
fn i02_files(ctx: &mut Ctx, i: u64) -> R {
    fn go<P>(ctx: &mut Ctx) -> R
    where
        P: Full,
        P::Subpixel: Sample,
        [P::Subpixel]: EncodableLayout,
    {
        let root = base(ctx);
        let real = root.join("f");
        fs::create_dir_all(&real).expect("harness: folder");
        let n = ctx.r.range(1, 8);
        let k = ctx.r.below(n);
        let imgs = gen_imgs::<P>(&mut ctx.r, n, 12);
        let bad = real.join(name(k));
        let kind = ctx.r.below(4);
        match kind {
            0 => fs::create_dir(&bad).expect("harness: folder"),
            1 => {
                fs::create_dir(&bad).expect("harness: folder");
                fs::write(bad.join("inside"), b"x").expect("harness: file");
            }
            2 => std::os::unix::fs::symlink(root.join("missing/target.png"), &bad).expect("harness: link"),
            _ => std::os::unix::fs::symlink(&bad, &bad).expect("harness: link"),
        }
        for j in 0..n {
            if j != k && ctx.r.chance(1, 3) {
                let len = ctx.r.skewed(0, 3000);
                let b = ctx.r.bytes(len);
                fs::write(real.join(name(j)), b).expect("harness: file");
            }
        }
        let before = tree(&real);
        let how = ctx.r.below(4);
        let res = dump(how, real.to_str().unwrap(), &imgs)?;
        ctx.ev(1);
        ctx.c("failures injected: uncreatable file", 1);
        ctx.nt(img_hash(&imgs) ^ k as u64);
        ctx.sample(|| format!("image {k} of {n} cannot be created (kind {kind})"));
        failed_at(&real, &real, &imgs, &before, res, k, &format!("image {k} of {n} cannot be created (kind {kind})"))?;
        wipe(&root);
        Ok(())
    }
    any_kind!(i, go, ctx)
}
/// The folder cannot be created.
fn i02_folders(ctx: &mut Ctx, i: u64) -> R {
    fn go<P>(ctx: &mut Ctx) -> R
    where
        P: Full,
        P::Subpixel: Sample,
        [P::Subpixel]: EncodableLayout,
    {
        let root = base(ctx);
        let n = ctx.r.range(0, 4);
        let imgs = gen_imgs::<P>(&mut ctx.r, n, 8);
        let file = root.join("file");
        fs::write(&file, b"content").expect("harness: file");
        let kind = ctx.r.below(6);
        let path: PathBuf = match kind {
            0 => file.clone(),
            1 => file.join("below"),
            2 => file.join("far/below"),
            3 => root.join("n".repeat(256)),
            4 => {
                let l = root.join("loop");
                std::os::unix::fs::symlink(&l, &l).expect("harness: link");
                l.join("x")
            }
            _ => root.join("nul\0byte"),
        };
        let before = tree(&root);
        let res = dump(ctx.r.below(4), path.to_str().unwrap(), &imgs)?;
        ctx.ev(1);
        ctx.c("failures injected: uncreatable folder", 1);
        ctx.nt(img_hash(&imgs) ^ kind as u64);
        let what = format!("folder {path:?} (kind {kind}), {n} images");
        ctx.sample(|| what.clone());
        let e = match res {
            Ok(()) => return Err(format!("{what}: success reported")),
            Err(e) => e,
        };
        match place(&e).map_err(|m| format!("{what}: {m}"))? {
            Where::Folder(f) if f == path => {}
            Where::Folder(f) | Where::File(f) => return Err(format!("{what}: the error names {f:?}")),
        }
        if tree(&root) != before {
            return Err(format!("{what}: something was written"));
        }
        wipe(&root);
        Ok(())
    }
    any_kind!(i, go, ctx)
}
/// An image without pixels cannot be stored as PNG.
fn i02_images(ctx: &mut Ctx, i: u64) -> R {
    fn go<P>(ctx: &mut Ctx) -> R
    where
        P: Full,
        P::Subpixel: Sample,
        [P::Subpixel]: EncodableLayout,
    {
        let root = base(ctx);
        let real = root.join("f");
        let n = ctx.r.range(1, 6);
        let k = ctx.r.below(n);
        let mut imgs = gen_imgs::<P>(&mut ctx.r, n, 12);
        let (w, h) = *ctx.r.pick(&[(0, 0), (0, 5), (7, 0)]);
        imgs[k] = gen_img::<P>(&mut ctx.r, w, h);
        let before = tree(&real);
        let res = dump(ctx.r.below(4), real.to_str().unwrap(), &imgs)?;
        ctx.ev(1);
        ctx.c("failures injected: image that PNG cannot hold", 1);
        ctx.nt(img_hash(&imgs) ^ k as u64);
        failed_at(&real, &real, &imgs, &before, res, k, &format!("image {k} of {n} is {w}x{h}"))?;
        wipe(&root);
        Ok(())
    }
    any_kind!(i, go, ctx)
}

// ---------------------------------------------------------------- I03

fn bw(l: u8, a: u8, at: u8, lt: u8) -> u8 {
    if u16::from(a) >= u16::from(at) && u16::from(l) >= u16::from(lt) {
        0
    } else {
        255
    }
}
fn i03_fail(l: u8, a: u8, at: u8, lt: u8, got: u8, what: &str) -> String {
    format!("{what}: luma {l} alpha {a} with thresholds alpha {at} luma {lt} gives {got}")
}
fn i03_near(ctx: &mut Ctx, i: u64) -> R {
    let (at, lt) = ((i >> 8) as u8, i as u8);
    let f = luma_a_to_luma_convertor::<u8, LumaA<u8>>(at, lt);
    let pts = |t: u8| [0, 1, t.wrapping_sub(1), t, t.wrapping_add(1), 127, 128, 254, 255];
    let mut n = 0;
    for a in pts(at) {
        for l in pts(lt) {
            let p = LumaA([l, a]);
            let w = bw(l, a, at, lt);
            if f(p).0[0] != w {
                return Err(i03_fail(l, a, at, lt, f(p).0[0], "closure"));
            }
            let got = luma_a_to_luma_convertor::<u8, &LumaA<u8>>(at, lt)(&p).0[0];
            if got != w {
                return Err(i03_fail(l, a, at, lt, got, "closure, borrowed pixel"));
            }
            n += 2;
        }
    }
    if i < 2 {
        ctx.sample(|| format!("thresholds alpha {at}, luma {lt}: pixels at and next to every boundary"));
    }
    ctx.ev(n);
    ctx.nt(i);
    ctx.c("threshold pairs", 1);
    Ok(())
}
fn i03_full(ctx: &mut Ctx, i: u64) -> R {
    // all pairs in the thorough tier, spread over the square otherwise
    let k = i.wrapping_mul(0x9e37).wrapping_add(if i < 65_536 { 0 } else { 1 }) & 0xffff;
    let (at, lt) = ((k >> 8) as u8, k as u8);
    let f = luma_a_to_luma_convertor::<u8, LumaA<u8>>(at, lt);
    for a in 0..=255u8 {
        for l in 0..=255u8 {
            let got = f(LumaA([l, a])).0[0];
            if got != bw(l, a, at, lt) {
                return Err(i03_fail(l, a, at, lt, got, "closure"));
            }
        }
    }
    ctx.ev(65_536);
    ctx.nt(k);
    ctx.c("threshold pairs with every pixel", 1);
    Ok(())
}
fn i03_consts(ctx: &mut Ctx, i: u64) -> R {
    fn one<const A: u8, const L: u8>(a: u8) -> Result<u64, String> {
        let f = luma_a_to_luma_convertor::<u8, LumaA<u8>>(A, L);
        for l in 0..=255u8 {
            let p = LumaA([l, a]);
            let w = bw(l, a, A, L);
            let x = luma_a_to_luma::<LumaA<u8>, u8, A, L>(p).0[0];
            let y = luma_a_to_luma::<&LumaA<u8>, u8, A, L>(&p).0[0];
            if x != w || y != w {
                return Err(i03_fail(l, a, A, L, x, "constant thresholds"));
            }
            if f(p).0[0] != x {
                return Err(i03_fail(l, a, A, L, f(p).0[0], "closure differs from the constant thresholds"));
            }
            // the same pixel with wider samples
            let q = LumaA([u16::from(l), u16::from(a)]);
            let z = luma_a_to_luma::<LumaA<u16>, u16, A, L>(q).0[0];
            if z != if w == 0 { 0 } else { u16::MAX } {
                return Err(i03_fail(l, a, A, L, (z >> 8) as u8, "constant thresholds, 16-bit samples"));
            }
            let q = LumaA([f32::from(l), f32::from(a)]);
            let z = luma_a_to_luma::<&LumaA<f32>, f32, A, L>(&q).0[0];
            if z != if w == 0 { 0.0 } else { 1.0 } {
                return Err(i03_fail(l, a, A, L, z as u8, "constant thresholds, floating-point samples"));
            }
        }
        Ok(256 * 4)
    }
    fn sample<P: Primitive + std::fmt::Debug, const A: u8, const L: u8>(l: P, a: P, min: P, max: P) -> R {
        let (Some(at), Some(lt)) = (P::from(A), P::from(L)) else { return Ok(()) };
        let w = if a >= at && l >= lt { min } else { max };
        let q = LumaA([l, a]);
        let x = luma_a_to_luma::<LumaA<P>, P, A, L>(q).0[0];
        let y = luma_a_to_luma::<&LumaA<P>, P, A, L>(&q).0[0];
        let z = luma_a_to_luma_convertor::<P, LumaA<P>>(at, lt)(q).0[0];
        if x != w || y != w || z != w {
            return Err(format!(
                "luma {l:?} alpha {a:?} of type {} with thresholds alpha {A} luma {L}: constant thresholds {x:?} / {y:?}, closure {z:?}, expected {w:?}",
                std::any::type_name::<P>()
            ));
        }
        Ok(())
    }
    // values the 8-bit thresholds do not reach, of every sample type
    fn wide<const A: u8, const L: u8>(r: &mut Rng) -> Result<u64, String> {
        let pick = |r: &mut Rng, t: u8| match r.below(8) {
            0 => i64::from(t),
            1 => i64::from(t) + 1,
            2 => i64::from(t) - 1,
            3 => 256 + i64::from(t),
            4 => (i64::from(t) - 1).max(0) << 8,
            5 => r.edge_i64(),
            6 => -(r.below(70_000) as i64),
            _ => r.up_to(u64::MAX >> r.clone().range(1, 63)) as i64,
        };
        for _ in 0..6 {
            let (l, a) = (pick(r, L), pick(r, A));
            sample::<u16, A, L>(l as u16, a as u16, 0, u16::MAX)?;
            sample::<u32, A, L>(l as u32, a as u32, 0, u32::MAX)?;
            sample::<u64, A, L>(l as u64, a as u64, 0, u64::MAX)?;
            sample::<i16, A, L>(l as i16, a as i16, i16::DEFAULT_MIN_VALUE, i16::MAX)?;
            sample::<i32, A, L>(l as i32, a as i32, i32::DEFAULT_MIN_VALUE, i32::MAX)?;
            sample::<i64, A, L>(l, a, i64::DEFAULT_MIN_VALUE, i64::MAX)?;
            sample::<f32, A, L>(l as f32 / 2.0, a as f32 / 2.0, 0.0, 1.0)?;
            sample::<f64, A, L>(l as f64 + 0.5, a as f64 - 0.25, 0.0, 1.0)?;
            sample::<f64, A, L>(f64::from(L) - 1e-9, l as f64, 0.0, 1.0)?;
        }
        Ok(6 * 9)
    }
    let a = i as u8;
    let mut n = 0;
    macro_rules! grid {
        ($($at:literal),*) => {$( grid!(@ $at, 0, 1, 2, 50, 100, 127, 128, 129, 200, 253, 254, 255); )*};
        (@ $at:literal, $($lt:literal),*) => {$( n += one::<$at, $lt>(a)? + wide::<$at, $lt>(&mut ctx.r)?; )*};
    }
    grid!(0, 1, 2, 50, 100, 127, 128, 129, 200, 253, 254, 255);
    ctx.ev(n);
    ctx.nt(i);
    ctx.c("constant threshold pairs", 144);
    Ok(())
}
fn i03_types(ctx: &mut Ctx, _: u64) -> R {
    fn one<T: Primitive + std::fmt::Debug>(l: T, a: T, at: T, lt: T, min: T, max: T) -> R {
        let black = a >= at && l >= lt;
        let w = if black { min } else { max };
        let p = LumaA([l, a]);
        let x = luma_a_to_luma_convertor::<T, LumaA<T>>(at, lt)(p).0[0];
        let y = luma_a_to_luma_convertor::<T, &LumaA<T>>(at, lt)(&p).0[0];
        if x != w || y != w {
            return Err(format!("luma {l:?} alpha {a:?} with thresholds alpha {at:?} luma {lt:?} gives {x:?} / {y:?}, expected {w:?}"));
        }
        Ok(())
    }
    for _ in 0..50 {
        let r = &mut ctx.r;
        let near = |r: &mut Rng, v: u64| match r.below(5) {
            0 => v,
            1 => v.wrapping_add(1),
            2 => v.wrapping_sub(1),
            3 => *r.pick(&[0, 255, 65535, u64::MAX, 1, 1 << 31, 1 << 63]),
            _ => r.up_to(u64::MAX) >> r.below(64),
        };
        let (at, lt) = (r.up_to(u64::MAX) >> r.below(64), r.up_to(u64::MAX) >> r.below(64));
        let (a, l) = (near(r, at), near(r, lt));
        one::<u16>(l as u16, a as u16, at as u16, lt as u16, 0, u16::MAX)?;
        one::<u32>(l as u32, a as u32, at as u32, lt as u32, 0, u32::MAX)?;
        one::<u64>(l, a, at, lt, 0, u64::MAX)?;
        one::<i32>(l as i32, a as i32, at as i32, lt as i32, i32::DEFAULT_MIN_VALUE, i32::MAX)?;
        let f = |v: u64| v as f32 / u64::MAX as f32;
        one::<f32>(f(l), f(a), f(at), f(lt), 0.0, 1.0)?;
        one::<f64>(f64::from(f(l)), f64::from(f(a)), f64::from(f(at)), f64::from(f(lt)), 0.0, 1.0)?;
        ctx.nt(a ^ l.rotate_left(13) ^ at.rotate_left(29) ^ lt.rotate_left(47));
        ctx.sample(|| format!("luma {l} alpha {a} thresholds alpha {at} luma {lt} in six sample types"));
    }
    // not a number reaches no threshold
    one::<f32>(f32::NAN, 1.0, 0.0, 0.0, 0.0, 1.0)?;
    one::<f32>(1.0, f32::NAN, 0.0, 0.0, 0.0, 1.0)?;
    ctx.ev(302);
    Ok(())
}

// ---------------------------------------------------------------- I04

struct Img(Area);
impl ImageArea for Img {
    fn area(&self) -> Area {
        self.0
    }
}
fn i04_one(x1: u16, y1: u16, x2: u16, y2: u16) -> Result<bool, String> {
    let v = AreaValues { x1, y1, x2, y2 };
    let what = || format!("rectangle ({x1},{y1})-({x2},{y2})");
    let a = match sut("Area::try_from", || Area::try_from(v)).map_err(|e| format!("{}: {e}", what()))? {
        Err(_) => None,
        Ok(a) => Some(a),
    };
    let (w, h) = (i64::from(x2) - i64::from(x1) + 1, i64::from(y2) - i64::from(y1) + 1);
    let want = x2 > x1 && y2 > y1 && w <= 65535 && h <= 65535;
    let Some(a) = a else {
        return if want { Err(format!("{} of {w}x{h} is refused", what())) } else { Ok(false) };
    };
    if !want {
        return Err(format!("{} is accepted", what()));
    }
    let got = sut("area accessors", || {
        let s = a.size();
        let i = Img(a);
        (a.left(), a.top(), i64::from(a.width()), i64::from(a.height()), s.w as i64, s.h as i64, i64::from(i.width()), i64::from(i.height()))
    })
    .map_err(|e| format!("{}: {e}", what()))?;
    if got != (x1, y1, w, h, w, h, w, h) {
        return Err(format!("{}: (left, top, width, height, size, image size) is {got:?}", what()));
    }
    let same = Area::try_from(v).is_ok_and(|b| b == a);
    if !same {
        return Err(format!("{}: two equal areas differ", what()));
    }
    Ok(true)
}
const EDGE: [u16; 26] = [
    0, 1, 2, 3, 100, 127, 128, 254, 255, 256, 257, 719, 0x7ff, 0x800, 0xfff, 0x1000, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xff00,
    0xfffb, 0xfffc, 0xfffd, 0xfffe, 0xffff,
];
const GRID_CASES: u64 = 26 * 26;
fn i04_grid(ctx: &mut Ctx, i: u64) -> R {
    let (x1, y1) = (EDGE[i as usize / 26], EDGE[i as usize % 26]);
    let mut ok = 0;
    for x2 in EDGE {
        for y2 in EDGE {
            ok += u64::from(i04_one(x1, y1, x2, y2)?);
        }
    }
    ctx.sample(|| format!("first corner ({x1},{y1}) with all second corners of the boundary grid"));
    ctx.ev(26 * 26);
    ctx.c("accepted", ok);
    ctx.c("refused", 26 * 26 - ok);
    ctx.nt(i);
    Ok(())
}
fn i04_random(ctx: &mut Ctx, _: u64) -> R {
    for _ in 0..100 {
        let r = &mut ctx.r;
        let mut v = [r.edge_u16(), r.edge_u16(), r.edge_u16(), r.edge_u16()];
        if r.bool() {
            v[2] = v[0].wrapping_add(r.range(0, 4) as u16).wrapping_sub(2);
        }
        if r.bool() {
            v[3] = v[1].wrapping_add(r.range(0, 4) as u16).wrapping_sub(2);
        }
        let ok = i04_one(v[0], v[1], v[2], v[3])?;
        ctx.c(if ok { "accepted" } else { "refused" }, 1);
        if ok {
            ctx.nt(v.iter().fold(0, |a, x| a << 16 | u64::from(*x)));
        }
    }
    ctx.ev(100);
    Ok(())
}
/// All second coordinates for one first coordinate, in both directions.
fn i04_pairs(ctx: &mut Ctx, i: u64) -> R {
    let a = if i < 26 {
        EDGE[i as usize]
    } else if ctx.tier == crate::fw::Tier::Quick {
        ctx.r.u16()
    } else {
        i as u16
    };
    let step = if ctx.tier == crate::fw::Tier::Quick { 1 } else { 7 };
    let mut n = 0;
    for b in (0..=0xffffu16).step_by(step) {
        let x = i04_one(a, 3, b, 9)?;
        let y = i04_one(3, a, 9, b)?;
        if x != y {
            return Err(format!("coordinates {a} to {b} are accepted in one direction only"));
        }
        n += 2;
    }
    ctx.ev(n);
    ctx.c("coordinate pairs", n);
    ctx.nt(1 << 40 | u64::from(a));
    Ok(())
}
