//! Generation of image contents. Contents are a function of (seed, component, position), so the
//! same logical picture can be placed in differently laid out memory.

use serde_json::Value;

#[derive(Clone, Copy, Debug)]
pub struct Comp {
    pub plane: usize,
    pub first: usize,
    pub step: usize,
    pub ssx: usize,
    pub ssy: usize,
}

const fn c(plane: usize, first: usize, step: usize, ssx: usize, ssy: usize) -> Comp {
    Comp {
        plane,
        first,
        step,
        ssx,
        ssy,
    }
}

pub struct Layout {
    pub comps: Vec<Comp>,
    pub bps: usize,
    pub depth: u32,
    pub yuv: bool,
}

pub fn layout(fmt: &str) -> Layout {
    let planar = |ssx, ssy| vec![c(0, 0, 1, 1, 1), c(1, 0, 1, ssx, ssy), c(2, 0, 1, ssx, ssy)];
    let (comps, bps, depth, yuv) = match fmt {
        "I420" => (planar(2, 2), 1, 8, true),
        "I422" => (planar(2, 1), 1, 8, true),
        "I444" => (planar(1, 1), 1, 8, true),
        "I010" => (planar(2, 2), 2, 10, true),
        "I012" => (planar(2, 2), 2, 12, true),
        "I210" => (planar(2, 1), 2, 10, true),
        "I212" => (planar(2, 1), 2, 12, true),
        "I410" => (planar(1, 1), 2, 10, true),
        "I412" => (planar(1, 1), 2, 12, true),
        "NV12" => (
            vec![c(0, 0, 1, 1, 1), c(1, 0, 2, 2, 2), c(1, 1, 2, 2, 2)],
            1,
            8,
            true,
        ),
        "YUYV" => (
            vec![c(0, 0, 2, 1, 1), c(0, 1, 4, 2, 1), c(0, 3, 4, 2, 1)],
            1,
            8,
            true,
        ),
        "RGBA" => ((0..4).map(|i| c(0, i, 4, 1, 1)).collect(), 1, 8, false),
        "BGRA" => (
            [2, 1, 0, 3].iter().map(|&i| c(0, i, 4, 1, 1)).collect(),
            1,
            8,
            false,
        ),
        "RGB" => ((0..3).map(|i| c(0, i, 3, 1, 1)).collect(), 1, 8, false),
        "BGR" => (
            [2, 1, 0].iter().map(|&i| c(0, i, 3, 1, 1)).collect(),
            1,
            8,
            false,
        ),
        _ => panic!("unknown format {fmt}"),
    };
    Layout {
        comps,
        bps,
        depth,
        yuv,
    }
}

pub fn num_planes(fmt: &str) -> usize {
    layout(fmt).comps.iter().map(|c| c.plane).max().unwrap() + 1
}

pub fn hash(a: u64, b: u64) -> u64 {
    let mut z = a
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(b.wrapping_mul(0xD1B5_4A32_D192_ED03))
        .wrapping_add(0x1234_5678_9ABC_DEF1);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn h3(s: u64, a: usize, b: usize, c: usize) -> u64 {
    hash(hash(hash(s, a as u64), b as u64), c as u64)
}

fn unit(h: u64) -> f64 {
    (h >> 11) as f64 / (1u64 << 53) as f64
}

/// Luma coefficients, only used to generate colors which are inside of the gamut
fn kr_kb(space: &str) -> (f64, f64) {
    match space {
        "BT601" => (0.299, 0.114),
        "BT709" => (0.2126, 0.0722),
        _ => (0.2627, 0.0593),
    }
}

/// Sample of the component `comp` at the (component) position `cx`, `cy`
pub fn sample(d: &Value, l: &Layout, ci: &Value, comp: usize, cx: usize, cy: usize) -> u32 {
    let max = (1u32 << l.depth) - 1;
    let seed = d["s"].as_u64().unwrap_or(1);
    let co = l.comps[comp];
    // Position of the sample in pixels
    let off = |k: &str| d[k].as_u64().unwrap_or(0) as usize;
    let (px, py) = (cx * co.ssx + off("ox"), cy * co.ssy + off("oy"));
    let h = h3(seed, comp, px, py);
    let any = |h: u64| (h % (max as u64 + 1)) as u32;

    match d["m"].as_str().unwrap_or("rand") {
        "rand" => any(h),
        "edge" => {
            let e = [0, 1, max / 2, max / 2 + 1, max - 1, max];
            e[(h % e.len() as u64) as usize]
        }
        "const" => {
            let v = d["v"].as_array().unwrap();
            v[comp.min(v.len() - 1)].as_u64().unwrap() as u32
        }
        // list of values, repeated along the rows
        "list" => {
            let v = d["v"][comp].as_array().unwrap();
            let w = d["w"].as_u64().unwrap() as usize / co.ssx;
            v[(cy * w + cx) % v.len()].as_u64().unwrap() as u32
        }
        // every sample value once, per component starting at a different value
        "seq" => {
            let w = d["w"].as_u64().unwrap() as usize / co.ssx;
            let mul = d["mul"].as_u64().unwrap_or(1) as usize;
            let i = (cy * w + cx) * mul + comp * d["c"].as_u64().unwrap_or(0) as usize + seed as usize;
            (i % (max as usize + 1)) as u32
        }
        "gray" => {
            if l.yuv && comp > 0 {
                max / 2 + 1
            } else if !l.yuv && comp == 3 {
                any(h)
            } else {
                any(h3(seed, 0, px, py))
            }
        }
        // constant in every block of 2x2 pixels
        "block2" => any(h3(seed, comp, px / 2, py / 2)),
        // only few different colors
        "flat" => any(h3(seed, comp, px / 8, py / 4)),
        // values which are inside of the RGB gamut, amp: jitter of the luma inside of a block
        "gamut" => {
            let lo = d["lo"].as_f64().unwrap_or(20.0) / 100.0;
            let hi = d["hi"].as_f64().unwrap_or(80.0) / 100.0;
            let amp = d["amp"].as_f64().unwrap_or(10.0) / 100.0;
            let (bx, by) = (px / 2, py / 2);
            let rgb: Vec<f64> = (0..3)
                .map(|i| lo + (hi - lo) * unit(h3(seed, i, bx, by)))
                .collect();
            if !l.yuv {
                return if comp == 3 {
                    any(h)
                } else {
                    ((rgb[comp] + amp * (unit(h) - 0.5)).clamp(0.0, 1.0) * max as f64).round() as u32
                };
            }
            let (kr, kb) = kr_kb(ci["s"].as_str().unwrap_or("BT709"));
            let y = kr * rgb[0] + (1.0 - kr - kb) * rgb[1] + kb * rgb[2];
            let full = ci["full"].as_bool().unwrap_or(true);
            let v = match comp {
                0 => y + amp * (unit(h) - 0.5),
                1 => (rgb[2] - y) / (2.0 - 2.0 * kb) + 0.5,
                _ => (rgb[0] - y) / (2.0 - 2.0 * kr) + 0.5,
            };
            let v = if full {
                v
            } else if comp == 0 {
                (16.0 + 219.0 * v) / 255.0
            } else {
                (16.0 + 224.0 * v) / 255.0
            };
            (v.clamp(0.0, 1.0) * max as f64).round() as u32
        }
        // every quarter of the picture has a color
        "quarters" => {
            let (w, h) = (d["w"].as_u64().unwrap() as usize, d["h"].as_u64().unwrap() as usize);
            let q = (px >= w / 2) as usize + 2 * (py >= h / 2) as usize;
            d["v"][comp][q].as_u64().unwrap() as u32
        }
        m => panic!("unknown content {m}"),
    }
}
