use crate::data::{self, hash, layout, sample};
use crate::mem::{mappable, Region};
use crate::types::*;
use crate::CPUS;
use ezk_image::resize::{FilterType, ResizeAlg, Resizer};
use ezk_image::*;
use serde_json::{json, Value};
use std::any::Any;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;

pub fn panic_message(e: &(dyn Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

/// Run code of the library, a panic becomes a recorded result
fn guarded(f: impl FnOnce() -> Value) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => json!({"k":"panic","e":panic_message(&*e)}),
    }
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("expected number, got {v}")) as usize
}

/// Numbers from 2000000000 stand for sizes which are not representable in the specification: the largest ones,
/// those around powers of two (which vanish when multiplied), or whose lower 32 bits are small
fn big(v: &Value) -> usize {
    let v = us(v);
    if v < 2_000_000_000 {
        return v;
    }
    let (a, b) = ((v - 2_000_000_000) / 100, (v - 2_000_000_000) % 100);
    match a {
        0 => usize::MAX - b,
        1..=3 => (1 << (60 + a)) + b,
        _ => (1 << 32) + b,
    }
}

fn ok() -> Value {
    json!({"k":"ok"})
}

/// Type erased image, allows arbitrarily nested wrappers
pub struct Dyn<'a>(pub Box<dyn ImageMut + 'a>);

unsafe impl ImageRef for Dyn<'_> {
    fn format(&self) -> PixelFormat {
        self.0.format()
    }
    fn width(&self) -> usize {
        self.0.width()
    }
    fn height(&self) -> usize {
        self.0.height()
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        self.0.planes()
    }
    fn color(&self) -> ColorInfo {
        self.0.color()
    }
}

unsafe impl ImageMut for Dyn<'_> {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
        self.0.planes_mut()
    }
}

/// An image type which is not part of the library
struct Raw {
    format: PixelFormat,
    width: usize,
    height: usize,
    color: ColorInfo,
    planes: Vec<(*mut u8, usize, usize)>,
}

unsafe impl ImageRef for Raw {
    fn format(&self) -> PixelFormat {
        self.format
    }
    fn width(&self) -> usize {
        self.width
    }
    fn height(&self) -> usize {
        self.height
    }
    fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
        Box::new(
            self.planes
                .iter()
                .map(|&(p, l, s)| (unsafe { std::slice::from_raw_parts(p, l) }, s)),
        )
    }
    fn color(&self) -> ColorInfo {
        self.color
    }
}

unsafe impl ImageMut for Raw {
    fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
        Box::new(
            self.planes
                .iter()
                .map(|&(p, l, s)| (unsafe { std::slice::from_raw_parts_mut(p, l) }, s)),
        )
    }
}

fn window(v: &Value) -> Window {
    Window {
        x: big(&v["x"]),
        y: big(&v["y"]),
        width: big(&v["w"]),
        height: big(&v["h"]),
    }
}

/// Description of an image together with its memory
pub struct Img {
    fmt_s: String,
    w: usize,
    h: usize,
    ci: Value,
    ctor: String,
    nostr: bool,
    strides: Vec<usize>,
    pub regions: Vec<Region>,
    /// (pre, len) of the memory given to the library
    given: Vec<(usize, usize)>,
    crops: Vec<Window>,
    /// Distance which was added between any two rows
    far: usize,
}

impl Img {
    pub fn new(v: &Value) -> Img {
        let far = match v.get("far").map(|n| 1usize << us(n)) {
            Some(far) if mappable(far << 6) => far,
            _ => 0,
        };
        let pl = v["pl"].as_array().unwrap();
        let mut strides: Vec<usize> = match v.get("strides") {
            Some(s) => s.as_array().unwrap().iter().map(big).collect(),
            None => pl.iter().filter_map(|p| p.get("st")).map(big).collect(),
        };
        let mut img = Img {
            fmt_s: v["fmt"].as_str().unwrap().to_string(),
            w: big(&v["w"]),
            h: big(&v["h"]),
            ci: v["ci"].clone(),
            ctor: v["ctor"].as_str().unwrap().to_string(),
            nostr: v["nostr"].as_bool().unwrap_or(false),
            strides: vec![],
            regions: vec![],
            given: vec![],
            crops: v
                .get("crop")
                .map(|c| c.as_array().unwrap().iter().map(window).collect())
                .unwrap_or_default(),
            far,
        };
        for s in &mut strides {
            *s += far;
        }
        img.strides = strides;
        for (n, p) in pl.iter().enumerate() {
            let (pre, mut len, post) = (us(&p["pre"]), us(&p["len"]), us(&p["post"]));
            if far > 0 {
                // the last row of all isn't followed by anything
                let planes = if img.ctor == "buffer" { 0..img.strides.len() } else { n..n + 1 };
                len += far * planes.map(|p| img.rows(p)).sum::<usize>().saturating_sub(1);
            }
            img.regions.push(Region::new(
                pre + len + post,
                p["g"].as_str().unwrap(),
                us(&p["mis"]),
            ));
            img.given.push((pre, len));
        }
        let ps = v["ps"].as_u64().unwrap_or(7);
        let inv = v["inv"].as_bool().unwrap_or(false);
        for (i, at, len) in img.spans() {
            for (j, b) in (at..).zip(&mut img.regions[i].bytes_mut()[at..at + len]) {
                *b = hash(hash(ps, i as u64), j as u64) as u8 ^ if inv { 0xFF } else { 0 };
            }
        }
        if v.get("d").is_some() {
            img.place(&v["d"]);
        }
        img
    }

    /// Memory to look at: everything, or only the surroundings of the rows if those are far apart.
    /// (region, offset, length)
    fn spans(&self) -> Vec<(usize, usize, usize)> {
        if self.far == 0 {
            return self.regions.iter().enumerate().map(|(i, r)| (i, 0, r.bytes().len())).collect();
        }
        let mut v = vec![];
        for plane in 0..self.strides.len() {
            for row in 0..self.rows(plane) {
                let (r, start, stride) = self.plane_at(plane);
                let at = start + row * stride;
                let begin = at.saturating_sub(40);
                let end = (at + stride - self.far + 40).min(self.regions[r].bytes().len());
                v.push((r, begin, end - begin));
            }
        }
        v
    }

    /// An image in memory which already exists
    fn over(v: &Value, mem: &[Region], crops: &Value) -> Img {
        let mut img = Img {
            fmt_s: v["fmt"].as_str().unwrap().to_string(),
            w: us(&v["w"]),
            h: us(&v["h"]),
            ci: v["ci"].clone(),
            ctor: v["ctor"].as_str().unwrap().to_string(),
            nostr: false,
            strides: vec![],
            regions: vec![],
            given: vec![],
            crops: crops.as_array().map(|c| c.iter().map(window).collect()).unwrap_or_default(),
            far: 0,
        };
        for p in v["pl"].as_array().unwrap() {
            img.regions.push(mem[us(&p["rg"]) - 1].alias());
            img.given.push((us(&p["pre"]), us(&p["len"])));
            img.strides.push(us(&p["st"]));
        }
        if let Some(s) = v.get("strides") {
            img.strides = s.as_array().unwrap().iter().map(us).collect();
        }
        img
    }

    fn rows(&self, plane: usize) -> usize {
        let l = layout(&self.fmt_s);
        let ssy = l
            .comps
            .iter()
            .filter(|c| c.plane == plane)
            .map(|c| c.ssy)
            .min()
            .unwrap();
        self.h / ssy
    }

    /// Region and offset of the start of a plane, and its stride
    fn plane_at(&self, plane: usize) -> (usize, usize, usize) {
        if self.ctor == "buffer" {
            let start: usize = (0..plane).map(|p| self.rows(p) * self.strides[p]).sum();
            (0, self.given[0].0 + start, self.strides[plane])
        } else {
            (plane, self.given[plane].0, self.strides[plane])
        }
    }

    /// Accumulated offset and size of all crop windows
    fn effective(&self) -> (usize, usize, usize, usize) {
        let mut e = (0, 0, self.w, self.h);
        for c in &self.crops {
            e = (e.0 + c.x, e.1 + c.y, c.width, c.height);
        }
        e
    }

    pub fn size(&self) -> (usize, usize) {
        let e = self.effective();
        (e.2, e.3)
    }

    /// Byte position of a sample of the (cropped) image: region, offset
    fn sample_at(&self, comp: usize, cx: usize, cy: usize) -> (usize, usize) {
        let l = layout(&self.fmt_s);
        let co = l.comps[comp];
        let e = self.effective();
        let (r, start, stride) = self.plane_at(co.plane);
        let off = start
            + (cy + e.1 / co.ssy) * stride
            + (co.first + (cx + e.0 / co.ssx) * co.step) * l.bps;
        (r, off)
    }

    pub fn get(&self, comp: usize, cx: usize, cy: usize) -> u32 {
        let bps = layout(&self.fmt_s).bps;
        let (r, o) = self.sample_at(comp, cx, cy);
        let b = self.regions[r].bytes();
        if bps == 1 {
            b[o] as u32
        } else {
            u16::from_ne_bytes([b[o], b[o + 1]]) as u32
        }
    }

    pub fn set(&mut self, comp: usize, cx: usize, cy: usize, v: u32) {
        let bps = layout(&self.fmt_s).bps;
        let (r, o) = self.sample_at(comp, cx, cy);
        let b = self.regions[r].bytes_mut();
        if bps == 1 {
            b[o] = v as u8;
        } else {
            b[o..o + 2].copy_from_slice(&(v as u16).to_ne_bytes());
        }
    }

    /// Component dimensions of the (cropped) image
    pub fn comp_size(&self, comp: usize) -> (usize, usize) {
        let co = layout(&self.fmt_s).comps[comp];
        let (w, h) = self.size();
        (w / co.ssx, h / co.ssy)
    }

    pub fn place(&mut self, d: &Value) {
        if d["m"] == "raw" {
            return;
        }
        if d["m"] == "viargb" {
            return self.place_via_rgb(d);
        }
        let l = layout(&self.fmt_s);
        let ci = self.ci.clone();
        for comp in 0..l.comps.len() {
            let (cw, ch) = self.comp_size(comp);
            for cy in 0..ch {
                for cx in 0..cw {
                    self.set(comp, cx, cy, sample(d, &l, &ci, comp, cx, cy));
                }
            }
        }
    }

    /// Generate contents by converting a random RGB image using the library. Only used to obtain
    /// contents which are likely inside of the gamut of unusual color spaces.
    fn place_via_rgb(&mut self, d: &Value) {
        let (w, h) = self.size();
        let mut d2 = d.clone();
        d2["m"] = d["rgb"].clone();
        let rgb_l = layout("RGB");
        let mut buf = vec![0u8; w * h * 3];
        for y in 0..h {
            for x in 0..w {
                for c in 0..3 {
                    buf[(y * w + x) * 3 + c] = sample(&d2, &rgb_l, &self.ci, c, x, y) as u8;
                }
            }
        }
        let ci = color(&self.ci);
        let rgb_ci = ColorInfo::RGB(RgbColorInfo {
            transfer: ci.transfer(),
            primaries: ci.primaries(),
        });
        let f = fmt(&self.fmt_s);
        let tmp = catch_unwind(AssertUnwindSafe(|| {
            let rgb = Image::from_buffer(PixelFormat::RGB, buf, None, w, h, rgb_ci).unwrap();
            let mut tmp = Image::blank(f, w, h, ci);
            convert(&rgb, &mut tmp).unwrap();
            let v: Vec<Vec<u8>> = tmp.planes().map(|p| p.0.to_vec()).collect();
            v
        }));
        let Ok(tmp) = tmp else { return };
        let l = layout(&self.fmt_s);
        for comp in 0..l.comps.len() {
            let co = l.comps[comp];
            let (cw, ch) = self.comp_size(comp);
            let stride = tmp[co.plane].len() / (h / co.ssy.min(if co.plane == 0 { 1 } else { 2 }));
            for cy in 0..ch {
                for cx in 0..cw {
                    let o = cy * stride + (co.first + cx * co.step) * l.bps;
                    let v = if l.bps == 1 {
                        tmp[co.plane][o] as u32
                    } else {
                        u16::from_ne_bytes([tmp[co.plane][o], tmp[co.plane][o + 1]]) as u32
                    };
                    self.set(comp, cx, cy, v);
                }
            }
        }
    }

    /// Construct the image using the library
    pub fn view<'a>(&'a self) -> Result<Dyn<'a>, Value> {
        let f = fmt(&self.fmt_s);
        let ci = color(&self.ci);
        // The borrow is only shared since every scenario uses a region for one image at a time
        let slices = || -> Vec<&'a mut [u8]> {
            self.regions
                .iter()
                .zip(&self.given)
                .map(|(r, &(pre, len))| unsafe {
                    std::slice::from_raw_parts_mut(r.ptr().add(pre), len)
                })
                .collect()
        };
        let strides = if self.nostr {
            None
        } else {
            Some(self.strides.clone())
        };
        let mut img = match self.ctor.as_str() {
            "raw" => Dyn(Box::new(Raw {
                format: f,
                width: self.w,
                height: self.h,
                color: ci,
                planes: slices()
                    .into_iter()
                    .zip(&self.strides)
                    .map(|(s, &st)| (s.as_mut_ptr(), s.len(), st))
                    .collect(),
            })),
            "planes" => Dyn(Box::new(
                Image::from_planes(f, slices(), strides, self.w, self.h, ci)
                    .map_err(|e| image_err(&e))?,
            )),
            "buffer" => Dyn(Box::new(
                Image::from_buffer(f, slices().remove(0), strides, self.w, self.h, ci)
                    .map_err(|e| image_err(&e))?,
            )),
            c => panic!("unknown ctor {c}"),
        };
        for w in &self.crops {
            img = Dyn(Box::new(
                Cropped::new(img, *w).map_err(|e| crop_err(&e))?,
            ));
        }
        Ok(img)
    }

    fn locate(&self, s: &[u8]) -> (i64, i64) {
        for (i, r) in self.regions.iter().enumerate() {
            let (a, b) = (r.ptr() as usize, r.ptr() as usize + r.bytes().len());
            let p = s.as_ptr() as usize;
            if p >= a && p + s.len() <= b {
                return (i as i64 + 1, (p - a) as i64);
            }
        }
        if s.is_empty() {
            (0, 0)
        } else {
            (-1, -1)
        }
    }

    fn planes_of(&self, i: &dyn ImageRef) -> Value {
        i.planes()
            .map(|(s, st)| {
                let (rg, off) = self.locate(s);
                json!({"rg":rg,"off":off,"len":int(s.len()),"st":int(st)})
            })
            .collect()
    }

    fn planes_of_mut(&self, i: &mut dyn ImageMut) -> Value {
        i.planes_mut()
            .map(|(s, st)| {
                let (rg, off) = self.locate(s);
                json!({"rg":rg,"off":off,"len":int(s.len()),"st":int(st)})
            })
            .collect()
    }

    pub fn dump(&self) -> Value {
        self.regions
            .iter()
            .map(|r| json!(r.bytes()))
            .collect()
    }

    fn snapshot(&self) -> Vec<Vec<u8>> {
        self.spans()
            .into_iter()
            .map(|(r, at, len)| self.regions[r].bytes()[at..at + len].to_vec())
            .collect()
    }

    fn restore(&mut self, s: &[Vec<u8>]) {
        for ((r, at, len), s) in self.spans().into_iter().zip(s) {
            self.regions[r].bytes_mut()[at..at + len].copy_from_slice(s);
        }
    }

    /// Digests of the memory, one per 64 bytes (more if there is much memory)
    fn digests(&self) -> Value {
        self.spans()
            .into_iter()
            .map(|(r, at, len)| {
                let b = &self.regions[r].bytes()[at..at + len];
                b.chunks(64.max(b.len() / 256))
                    .map(|c| json!(digest(c.iter().copied())))
                    .collect::<Value>()
            })
            .collect()
    }

    /// Digests of the values of all components
    fn value_digests(&self) -> Value {
        (0..layout(&self.fmt_s).comps.len())
            .map(|c| {
                let (w, h) = self.comp_size(c);
                let all = (0..h).flat_map(|y| (0..w).map(move |x| (x, y)));
                json!(digest(
                    all.flat_map(|(x, y)| (self.get(c, x, y) as u16).to_le_bytes())
                ))
            })
            .collect()
    }

    /// Digest of the memory which doesn't belong to any sample
    fn invisible_digest(&self) -> Value {
        let l = layout(&self.fmt_s);
        if self.far > 0 {
            return self.invisible_digest_far();
        }
        let mut m = self.snapshot();
        for c in 0..l.comps.len() {
            let (w, h) = self.comp_size(c);
            for y in 0..h {
                for x in 0..w {
                    let (r, o) = self.sample_at(c, x, y);
                    m[r][o..o + l.bps].fill(0);
                }
            }
        }
        m.iter().map(|m| json!(digest(m.iter().copied()))).collect()
    }

    fn invisible_digest_far(&self) -> Value {
        let l = layout(&self.fmt_s);
        let mut visible = HashSet::new();
        for c in 0..l.comps.len() {
            let (w, h) = self.comp_size(c);
            for y in 0..h {
                for x in 0..w {
                    let (r, o) = self.sample_at(c, x, y);
                    visible.extend((o..o + l.bps).map(|o| (r, o)));
                }
            }
        }
        self.spans()
            .into_iter()
            .map(|(r, at, len)| {
                let b = &self.regions[r].bytes()[at..at + len];
                let hidden = (at..).zip(b).filter(|(o, _)| !visible.contains(&(r, *o)));
                json!(digest(hidden.map(|(_, b)| *b)))
            })
            .collect()
    }

    /// Values of all components of windows of the image
    fn window_values(&self, wins: &Value) -> Value {
        let l = layout(&self.fmt_s);
        wins.as_array()
            .unwrap()
            .iter()
            .map(|win| {
                let (x, y, w, h) = (us(&win["x"]), us(&win["y"]), us(&win["w"]), us(&win["h"]));
                l.comps
                    .iter()
                    .enumerate()
                    .map(|(c, co)| {
                        (y / co.ssy..(y + h) / co.ssy)
                            .flat_map(|y| (x / co.ssx..(x + w) / co.ssx).map(move |x| (x, y)))
                            .map(|(x, y)| json!(self.get(c, x, y)))
                            .collect::<Value>()
                    })
                    .collect::<Value>()
            })
            .collect()
    }

    /// Values of all components of the image
    fn values(&self) -> Value {
        let n = layout(&self.fmt_s).comps.len();
        (0..n)
            .map(|c| {
                let (w, h) = self.comp_size(c);
                (0..h)
                    .flat_map(|y| (0..w).map(move |x| (x, y)))
                    .map(|(x, y)| json!(self.get(c, x, y)))
                    .collect::<Value>()
            })
            .collect()
    }
}

fn call_convert(api: &str, cpus: usize, src: &Img, dst: &Img) -> Value {
    CPUS.store(cpus, SeqCst);
    let r = call_api(api, src, dst);
    CPUS.store(0, SeqCst);
    r
}

fn call_api(api: &str, src: &Img, dst: &Img) -> Value {
    guarded(|| {
        let s = match src.view() {
            Ok(s) => s,
            Err(mut e) => {
                e["at"] = json!("src");
                return e;
            }
        };
        let mut d = match dst.view() {
            Ok(d) => d,
            Err(mut e) => {
                e["at"] = json!("dst");
                return e;
            }
        };
        let r = match api {
            "st" => convert(&s, &mut d),
            #[cfg(feature = "multi-thread")]
            "mt" => convert_multi_thread(&s, &mut d),
            "copy" => copy(&s, &mut d),
            a => panic!("unknown api {a}"),
        };
        match r {
            Ok(()) => ok(),
            Err(e) => convert_err(&e),
        }
    })
}

fn digest(bytes: impl Iterator<Item = u8>) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    (h ^ (h >> 32)) & 0x3FFF_FFFF
}

fn first_diff(a: &[Vec<u8>], b: &[Vec<u8>]) -> i64 {
    let mut base = 0;
    for (a, b) in a.iter().zip(b) {
        if let Some(i) = a.iter().zip(b).position(|(a, b)| a != b) {
            return base + i as i64;
        }
        base += a.len() as i64;
    }
    -1
}

/// A single conversion. `log`: s: bytes of the source, b: bytes of the destination before and
/// a: after the call, v: values of the destination, S: values of the source, h: digests of the values of
/// the destination, H: of the source, i: of the memory of the destination which isn't visible, before and after,
/// w: values in windows of the destination
fn op_convert(sc: &Value) -> Value {
    let src = Img::new(&sc["src"]);
    let dst = Img::new(&sc["dst"]);
    let log = sc["log"].as_str().unwrap();
    let mut ev = json!({});
    if log.contains('s') {
        ev["sd"] = src.dump();
    }
    if log.contains('S') {
        ev["sv"] = src.values();
    }
    if log.contains('b') {
        ev["bd"] = dst.dump();
    }
    if log.contains('H') {
        ev["sh"] = src.value_digests();
    }
    if log.contains('i') {
        ev["bi"] = dst.invisible_digest();
    }
    let sbefore = src.snapshot();
    let cpus = sc["cpus"].as_u64().unwrap_or(0) as usize;
    ev["res"] = call_convert(sc["api"].as_str().unwrap(), cpus, &src, &dst);
    ev["srcdiff"] = json!(first_diff(&sbefore, &src.snapshot()));
    if log.contains('a') {
        ev["ad"] = dst.dump();
    }
    if log.contains('v') {
        ev["dv"] = dst.values();
    }
    if log.contains('d') {
        ev["dg"] = dst.digests();
    }
    if log.contains('h') {
        ev["dh"] = dst.value_digests();
    }
    if log.contains('i') {
        ev["ai"] = dst.invisible_digest();
    }
    if log.contains('w') {
        ev["wv"] = dst.window_values(&sc["wins"]);
    }
    ev
}

/// Several conversions which are related to each other
fn op_multi(sc: &Value) -> Value {
    let runs: Vec<Value> = sc["runs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| {
            let mut o = r.clone();
            for (k, v) in op_convert(r).as_object().unwrap() {
                o[k] = v.clone();
            }
            o
        })
        .collect();
    json!({ "runs": runs })
}

/// Converts the first image into the second, that one into the third, ...
fn op_chain(sc: &Value) -> Value {
    let imgs: Vec<Img> = sc["imgs"].as_array().unwrap().iter().map(Img::new).collect();
    let cpus = sc["cpus"].as_u64().unwrap_or(0) as usize;
    let res: Vec<Value> = imgs
        .windows(2)
        .map(|p| call_convert(sc["api"].as_str().unwrap(), cpus, &p[0], &p[1]))
        .collect();
    let vals: Vec<Value> = imgs.iter().map(|i| i.values()).collect();
    json!({"res":res,"vals":vals})
}

/// Changes single samples of the source and records which bytes of the destination change
fn op_perturb(sc: &Value) -> Value {
    let mut src = Img::new(&sc["src"]);
    let mut dst = Img::new(&sc["dst"]);
    let cpus = sc["cpus"].as_u64().unwrap_or(0) as usize;
    let api = sc["api"].as_str().unwrap();
    let max = (1u32 << layout(sc["src"]["fmt"].as_str().unwrap()).depth) - 1;

    let before = dst.snapshot();
    let base_res = call_convert(api, cpus, &src, &dst);
    let base = dst.snapshot();

    let mut pts = vec![];
    for p in sc["pts"].as_array().unwrap() {
        let (c, x, y) = (us(&p[0]), us(&p[1]), us(&p[2]));
        let old = src.get(c, x, y);
        let new = if old > max / 2 {
            old - (max / 2 + 1) / 2
        } else {
            old + (max / 2 + 1) / 2
        };
        src.set(c, x, y, new);
        dst.restore(&before);
        let res = call_convert(api, cpus, &src, &dst);
        src.set(c, x, y, old);
        let mut changed = vec![];
        for (i, (b, r)) in base.iter().zip(&dst.regions).enumerate() {
            for (j, (x, y)) in b.iter().zip(r.bytes()).enumerate() {
                if x != y {
                    changed.push(json!([i + 1, j]));
                }
            }
        }
        pts.push(json!({"c":c+1,"x":x,"y":y,"old":old,"new":new,"res":res,"changed":changed}));
    }
    json!({"res":base_res,"pts":pts})
}

/// The same conversion using both the single and multi threaded version
fn op_mt(sc: &Value) -> Value {
    let src = Img::new(&sc["src"]);
    let mut dst = Img::new(&sc["dst"]);
    let before = dst.snapshot();
    let sbefore = src.snapshot();
    let rs = call_convert("st", 0, &src, &dst);
    let ds = dst.digests();
    let after = dst.snapshot();
    let mut runs = vec![];
    for c in sc["cpus"].as_array().unwrap() {
        let c = us(c);
        dst.restore(&before);
        CPUS.store(c, SeqCst);
        let seen = num_cpus::get();
        let rm = call_convert("mt", c, &src, &dst);
        let diff = first_diff(&after, &dst.snapshot());
        runs.push(json!({"cpus":c,"seen":seen,"res":rm,"dg":dst.digests(),"diff":diff}));
    }
    json!({"res":rs,"dg":ds,"runs":runs,"srcdiff":first_diff(&sbefore, &src.snapshot())})
}

/// Size calculations and the layout of blank images and inferred planes
fn op_layout(sc: &Value) -> Value {
    let f = fmt(sc["fmt"].as_str().unwrap());
    let (w, h) = (us(&sc["w"]), us(&sc["h"]));
    let mut ev = json!({});
    ev["res"] = guarded(|| {
        let size = f.buffer_size(w, h);
        let strides: Vec<i64> = f.packed_strides(w).into_iter().map(int).collect();
        json!({"k":"ok","size":int(size),"strides":strides,"bits":f.bits_per_component()})
    });
    let ci = color(&sc["ci"]);
    ev["blank"] = guarded(|| {
        let mut b = Image::blank(f, w, h, ci);
        let base = b.planes().next().map(|p| p.0.as_ptr() as usize).unwrap_or(0);
        let pl: Vec<Value> = b
            .planes()
            .map(|(s, st)| {
                let off = if s.is_empty() { 0 } else { s.as_ptr() as i64 - base as i64 };
                json!({"off":off,"len":int(s.len()),"st":int(st)})
            })
            .collect();
        let zero = b.planes().all(|p| p.0.iter().all(|b| *b == 0));
        let bc = match b.bounds_check() {
            Ok(()) => ok(),
            Err(e) => bounds_err(&e),
        };
        let plm: Vec<Value> = b
            .planes_mut()
            .map(|(s, st)| {
                let off = if s.is_empty() { 0 } else { s.as_ptr() as i64 - base as i64 };
                json!({"off":off,"len":int(s.len()),"st":int(st)})
            })
            .collect();
        let meta = fmt_name(b.format()) == sc["fmt"].as_str().unwrap()
            && b.width() == w
            && b.height() == h
            && b.color() == ci;
        json!({"k":"ok","pl":pl,"plm":plm,"zero":zero,"bc":bc,"meta":meta})
    });
    // Explicit strides: inferred planes of an exactly sized buffer
    let strides: Vec<usize> = sc["strides"].as_array().unwrap().iter().map(us).collect();
    let len = us(&sc["len"]);
    ev["infer"] = guarded(|| {
        let mut buf = vec![0u8; len];
        let base = buf.as_ptr() as i64;
        let st = if sc["nostr"] == true {
            None
        } else {
            Some(&strides[..])
        };
        let pl: Vec<Value> = infer(f, &buf[..], w, h, st)
            .map(|s: &[u8]| json!({"off":if s.is_empty() {0} else {s.as_ptr() as i64 - base},"len":int(s.len())}))
            .collect();
        let plm: Vec<Value> = infer(f, &mut buf[..], w, h, st)
            .map(|s: &mut [u8]| json!({"off":if s.is_empty() {0} else {s.as_ptr() as i64 - base},"len":int(s.len())}))
            .collect();
        // the function of the format, and elements which aren't bytes
        let wide = vec![0u16; len];
        let wbase = wide.as_ptr() as i64;
        let pld: Vec<Value> = direct(f, &mut buf[..], w, h, st)
            .iter()
            .map(|s| json!({"off":if s.is_empty() {0} else {s.as_ptr() as i64 - base},"len":int(s.len())}))
            .collect();
        let plw: Vec<Value> = direct(f, &wide[..], w, h, st)
            .iter()
            .map(|s| json!({"off":if s.is_empty() {0} else {(s.as_ptr() as i64 - wbase) / 2},"len":int(s.len())}))
            .collect();
        json!({"k":"ok","pl":pl,"plm":plm,"pld":pld,"plw":plw})
    });
    ev
}

/// The infer function of a single format
fn direct<S: AnySlice>(f: PixelFormat, buf: S, w: usize, h: usize, st: Option<&[usize]>) -> Vec<S> {
    use PixelFormat::*;
    match f {
        I420 => infer_i420(buf, w, h, st).into(),
        I422 => infer_i422(buf, w, h, st).into(),
        I444 => infer_i444(buf, w, h, st).into(),
        I010 | I012 => infer_i01x(buf, w, h, st).into(),
        I210 | I212 => infer_i21x(buf, w, h, st).into(),
        I410 | I412 => infer_i41x(buf, w, h, st).into(),
        NV12 => infer_nv12(buf, w, h, st).into(),
        _ => infer(f, buf, w, h, st).collect(),
    }
}

fn op_construct(sc: &Value) -> Value {
    let img = Img::new(&sc["img"]);
    let mut ev = json!({});
    ev["res"] = guarded(|| match img.view() {
        Ok(mut v) => {
            let bc = match v.bounds_check() {
                Ok(()) => ok(),
                Err(e) => bounds_err(&e),
            };
            let pl = img.planes_of(&v);
            let plm = img.planes_of_mut(&mut v);
            json!({"k":"ok","pl":pl,"plm":plm,"bc":bc,"w":int(v.width()),"h":int(v.height()),
                   "fmt":fmt_name(v.format())})
        }
        Err(e) => e,
    });
    ev
}

/// Crops an image several times, recording what is visible through all kinds of wrappers
fn op_crop(sc: &Value) -> Value {
    let img = Img::new(&sc["img"]);
    let sbefore = img.snapshot();
    let mut steps = vec![];
    let base_ci = color(&sc["img"]["ci"]);
    let record = |v: &mut dyn ImageMut| -> Value {
        let pl = img.planes_of(v);
        let plm = img.planes_of_mut(v);
        json!({"k":"ok","w":int(v.width()),"h":int(v.height()),"fmt":fmt_name(v.format()),
               "ci":v.color() == base_ci,"pl":pl,"plm":plm})
    };
    let first = guarded(|| match img.view() {
        Ok(mut v) => record(&mut v),
        Err(e) => e,
    });
    steps.push(first);
    let wins: Vec<Window> = sc["wins"].as_array().unwrap().iter().map(window).collect();
    for n in 1..=wins.len() {
        steps.push(guarded(|| {
            let mut v = match img.view() {
                Ok(v) => v,
                Err(e) => return e,
            };
            for w in &wins[..n - 1] {
                v = match Cropped::new(v, *w) {
                    Ok(c) => Dyn(Box::new(c)),
                    Err(e) => return crop_err(&e),
                };
            }
            let parent = record(&mut v);
            let last = wins[n - 1];
            // by value through the extension trait, by shared and by exclusive reference
            let by_ref = guarded(|| match (&v).crop(last) {
                Ok(c) => json!({"k":"ok","pl":img.planes_of(&c),"w":int(c.width()),"h":int(c.height()),
                                "fmt":fmt_name(c.format()),"ci":c.color() == base_ci}),
                Err(e) => crop_err(&e),
            });
            let by_mut = guarded(|| match (&mut v).crop(last) {
                Ok(mut c) => record(&mut c),
                Err(e) => crop_err(&e),
            });
            let mut by_val = match v.crop(last) {
                Ok(mut c) => {
                    let mut r = record(&mut c);
                    let mut inner = c.into_inner();
                    r["inner"] = json!(record(&mut inner) == parent);
                    r
                }
                Err(e) => crop_err(&e),
            };
            by_val["by_ref"] = by_ref;
            by_val["by_mut"] = by_mut;
            by_val
        }));
    }
    json!({"steps":steps,"memdiff":first_diff(&sbefore, &img.snapshot())})
}

/// Evaluates a transfer function
fn op_transfer(sc: &Value) -> Value {
    let t = transfer(sc["t"].as_str().unwrap());
    let fwd = sc["dir"] == "fwd";
    // input and output are fractions: x / si, y * so, the scale is divided by div if present
    let div = |k: &str| sc.get(k).map(|v| v.as_f64().unwrap()).unwrap_or(1.0);
    let si = sc["si"].as_f64().unwrap() / div("sid");
    let so = sc["so"].as_f64().unwrap() / div("sod");
    let mut nan = vec![];
    let mut ys = vec![];
    let r = guarded(|| {
        for (i, x) in sc["x"].as_array().unwrap().iter().enumerate() {
            let x = (x.as_f64().unwrap() / si) as f32;
            let y = if fwd {
                t.linear_to_scaled(x)
            } else {
                t.scaled_to_linear(x)
            };
            if y.is_nan() {
                nan.push(i + 1);
                ys.push(0i64);
            } else {
                ys.push((y as f64 * so).round().clamp(-2e9, 2e9) as i64);
            }
        }
        ok()
    });
    json!({"res":r,"y":ys,"nan":nan})
}

/// The public matrices of the primaries
fn op_primaries(sc: &Value) -> Value {
    let p = primaries(sc["p"].as_str().unwrap());
    let so = sc["so"].as_f64().unwrap();
    let conv = |m: &[[f32; 3]; 3]| -> Value {
        m.iter()
            .map(|r| {
                r.iter()
                    .map(|v| json!((*v as f64 * so).round().clamp(-2e9, 2e9) as i64))
                    .collect::<Value>()
            })
            .collect()
    };
    json!({"fw":conv(p.rgb_to_xyz_mat()),"bw":conv(p.xyz_to_rgb_mat())})
}

fn op_info(_: &Value) -> Value {
    let v: Vec<Value> = PixelFormat::variants()
        .into_iter()
        .map(|f| json!(fmt_name(f)))
        .collect();
    json!({"variants":v})
}

fn alg(s: &str) -> ResizeAlg {
    let filter = |f: &str| match f {
        "box" => FilterType::Box,
        "bilinear" => FilterType::Bilinear,
        "catmull" => FilterType::CatmullRom,
        "mitchell" => FilterType::Mitchell,
        "hamming" => FilterType::Hamming,
        "gaussian" => FilterType::Gaussian,
        "lanczos" => FilterType::Lanczos3,
        f => panic!("unknown filter {f}"),
    };
    match s.split('-').collect::<Vec<_>>()[..] {
        ["nearest"] => ResizeAlg::Nearest,
        ["conv", f] => ResizeAlg::Convolution(filter(f)),
        ["interp", f] => ResizeAlg::Interpolation(filter(f)),
        ["super"] => ResizeAlg::SuperSampling(FilterType::Bilinear, 2),
        ["super", f, m] => ResizeAlg::SuperSampling(filter(f), m.parse().unwrap()),
        _ => panic!("unknown algorithm {s}"),
    }
}

fn call_resize(rz: &mut Resizer, src: &Img, dst: &Img) -> Value {
    guarded(|| {
        let s = match src.view() {
            Ok(s) => s,
            Err(mut e) => {
                e["at"] = json!("src");
                return e;
            }
        };
        let mut d = match dst.view() {
            Ok(d) => d,
            Err(mut e) => {
                e["at"] = json!("dst");
                return e;
            }
        };
        match rz.resize(&s, &mut d) {
            Ok(()) => ok(),
            Err(e) => json!({"k":"err","e":format!("{e:?}").split('(').next().unwrap()}),
        }
    })
}

/// A history of resizes using a set of resizers
fn op_resize(sc: &Value) -> Value {
    let algs: Vec<&str> = sc["algs"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect();
    let mut rz: Vec<Resizer> = algs.iter().map(|a| Resizer::new(alg(a))).collect();
    let mut ra: Vec<String> = algs.iter().map(|s| s.to_string()).collect();
    let mut out = vec![];
    for st in sc["steps"].as_array().unwrap() {
        let r = us(&st["r"]) - 1;
        if st["op"] == "clone" {
            let c = rz[r].clone();
            rz.push(c);
            ra.push(ra[r].clone());
            out.push(json!({"op":"clone","r":r+1,"res":ok()}));
            continue;
        }
        let src = Img::new(&st["src"]);
        let mut dst = Img::new(&st["dst"]);
        let log = st["log"].as_str().unwrap();
        let before = dst.snapshot();
        let sbefore = src.snapshot();
        let mut o = st.clone();
        if log.contains('s') {
            o["sd"] = src.dump();
        }
        if log.contains('b') {
            o["bd"] = dst.dump();
        }
        if log.contains('i') {
            o["bi"] = dst.invisible_digest();
        }
        o["res"] = call_resize(&mut rz[r], &src, &dst);
        o["alg"] = json!(ra[r]);
        if log.contains('a') {
            o["ad"] = dst.dump();
        }
        if log.contains('S') {
            o["sv"] = src.values();
        }
        if log.contains('v') {
            o["dv"] = dst.values();
        }
        if log.contains('i') {
            o["ai"] = dst.invisible_digest();
        }
        if log.contains('w') {
            o["wv"] = dst.window_values(&st["wins"]);
        }
        let after = dst.snapshot();
        o["dg"] = dst.digests();
        dst.restore(&before);
        o["fres"] = call_resize(&mut Resizer::new(alg(&ra[r])), &src, &dst);
        o["fdiff"] = json!(first_diff(&after, &dst.snapshot()));
        o["fdg"] = dst.digests();
        o["srcdiff"] = json!(first_diff(&sbefore, &src.snapshot()));
        out.push(o);
    }
    json!({ "out": out })
}

/// A history of operations on images which may share memory. Recorded is the memory at the
/// beginning, and what changed by every step.
fn op_session(sc: &Value) -> Value {
    let mut mem: Vec<Region> = vec![];
    for m in sc["mem"].as_array().unwrap() {
        let mut r = Region::new(us(&m["len"]), m["g"].as_str().unwrap(), us(&m["mis"]));
        for (j, b) in r.bytes_mut().iter_mut().enumerate() {
            *b = hash(us(&m["ps"]) as u64, j as u64) as u8;
        }
        mem.push(r);
    }
    for s in sc["slots"].as_object().unwrap().values() {
        if s.get("d").is_some() {
            Img::over(s, &mem, &Value::Null).place(&s["d"]);
        }
    }
    let algs: Vec<&str> = sc["algs"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect();
    let mut rz: Vec<Resizer> = algs.iter().map(|a| Resizer::new(alg(a))).collect();
    let mem0: Vec<Value> = mem.iter().map(|r| json!(r.bytes())).collect();
    let mut out = vec![];
    for st in sc["steps"].as_array().unwrap() {
        let before: Vec<Vec<u8>> = mem.iter().map(|r| r.bytes().to_vec()).collect();
        let img = |i: &str, c: &str| Img::over(&sc["slots"][st[i].as_str().unwrap()], &mem, &st[c]);
        let res = match st["op"].as_str().unwrap() {
            "convert" => call_convert(
                st["api"].as_str().unwrap(),
                us(&st["cpus"]),
                &img("s", "sc"),
                &img("d", "dc"),
            ),
            "copy" => call_convert("copy", 0, &img("s", "sc"), &img("d", "dc")),
            "resize" => call_resize(&mut rz[us(&st["r"]) - 1], &img("s", "sc"), &img("d", "dc")),
            "clone" => {
                let c = rz[us(&st["r"]) - 1].clone();
                rz.push(c);
                ok()
            }
            "fill" => {
                img("d", "dc").place(&st["data"]);
                ok()
            }
            o => panic!("unknown step {o}"),
        };
        let changed: Vec<Value> = before
            .iter()
            .zip(&mem)
            .enumerate()
            .filter(|(_, (b, r))| &b[..] != r.bytes())
            .map(|(i, (_, r))| json!({"rg":i + 1,"b":r.bytes()}))
            .collect();
        out.push(json!({"res":res,"mem":changed}));
    }
    json!({"mem0":mem0,"out":out})
}

/// Several callers at the same time. All read the same image, every caller has images and a
/// resizer of its own.
#[cfg(feature = "multi-thread")]
fn op_concurrent(sc: &Value) -> Value {
    use rayon::iter::{IndexedParallelIterator, IntoParallelRefMutIterator, ParallelIterator};

    struct Caller {
        imgs: Vec<Img>,
        before: Vec<Vec<Vec<u8>>>,
        apis: Vec<String>,
        resizer: Resizer,
    }
    impl Caller {
        fn go(&mut self, src: &Img) -> Vec<Value> {
            let mut res = vec![];
            for (img, b) in self.imgs.iter_mut().zip(&self.before) {
                img.restore(b);
            }
            for (i, api) in self.apis.iter().enumerate() {
                let s = if i == 0 { src } else { &self.imgs[i - 1] };
                let d = &self.imgs[i];
                res.push(if api == "resize" {
                    call_resize(&mut self.resizer, s, d)
                } else {
                    call_api(api, s, d)
                });
            }
            res
        }
        fn memory(&self) -> Vec<Vec<u8>> {
            self.imgs.iter().flat_map(|i| i.snapshot()).collect()
        }
    }

    let src = Img::new(&sc["src"]);
    let sbefore = src.snapshot();
    let sv = src.values();
    let mut callers: Vec<Caller> = sc["callers"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
            let imgs: Vec<Img> = c["imgs"].as_array().unwrap().iter().map(Img::new).collect();
            Caller {
                before: imgs.iter().map(|i| i.snapshot()).collect(),
                imgs,
                apis: c["apis"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().into()).collect(),
                resizer: Resizer::new(alg(c["alg"].as_str().unwrap())),
            }
        })
        .collect();

    CPUS.store(us(&sc["cpus"]), SeqCst);
    let mut out = sc["callers"].clone();
    let mut alone = vec![];
    for (i, c) in callers.iter_mut().enumerate() {
        out[i]["res"] = json!(c.go(&src));
        out[i]["vals"] = c.imgs.iter().map(|i| i.values()).collect();
        out[i]["runs"] = json!([]);
        alone.push(c.memory());
    }

    let pool = (sc["mode"] != "threads").then(|| {
        rayon::ThreadPoolBuilder::new()
            .num_threads(us(&sc["workers"]))
            .build()
            .expect("thread pool")
    });
    let barrier = std::sync::Barrier::new(callers.len());
    for _ in 0..us(&sc["reps"]) {
        let (src, barrier) = (&src, &barrier);
        let mut results: Vec<Vec<Value>> = vec![vec![]; callers.len()];
        if let (Some(pool), true) = (&pool, sc["mode"] == "join") {
            // the callers wait for each other in the deques of the workers
            pool.install(|| {
                callers.par_iter_mut().zip(&mut results).for_each(|(c, r)| *r = c.go(src));
            });
        } else if let Some(pool) = &pool {
            pool.scope(|s| {
                for (c, r) in callers.iter_mut().zip(&mut results) {
                    s.spawn(move |_| *r = c.go(src));
                }
            });
        } else {
            std::thread::scope(|s| {
                for (c, r) in callers.iter_mut().zip(&mut results) {
                    s.spawn(move || {
                        barrier.wait();
                        *r = c.go(src)
                    });
                }
            });
        }
        for (i, (c, r)) in callers.iter().zip(results).enumerate() {
            let diff = first_diff(&alone[i], &c.memory());
            // equal consecutive ones are recorded once
            let runs = out[i]["runs"].as_array_mut().unwrap();
            match runs.last_mut() {
                Some(last) if last["res"] == json!(r) && last["diff"] == json!(diff) => {
                    last["times"] = json!(us(&last["times"]) + 1)
                }
                _ => runs.push(json!({"res":r,"diff":diff,"times":1})),
            }
        }
    }
    CPUS.store(0, SeqCst);
    json!({"sv":sv,"callers":out,"srcdiff":first_diff(&sbefore, &src.snapshot())})
}

pub fn run(sc: &Value) -> Value {
    match sc["op"].as_str().unwrap() {
        "convert" => op_convert(sc),
        "multi" => op_multi(sc),
        "chain" => op_chain(sc),
        "perturb" => op_perturb(sc),
        "mt" => op_mt(sc),
        "layout" => op_layout(sc),
        "construct" => op_construct(sc),
        "crop" => op_crop(sc),
        "transfer" => op_transfer(sc),
        "primaries" => op_primaries(sc),
        "info" => op_info(sc),
        "resize" => op_resize(sc),
        "session" => op_session(sc),
        #[cfg(feature = "multi-thread")]
        "concurrent" => op_concurrent(sc),
        o => panic!("unknown op {o}"),
    }
}

#[allow(dead_code)]
pub fn planes_count(f: &str) -> usize {
    data::num_planes(f)
}
