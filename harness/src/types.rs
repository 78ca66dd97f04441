use ezk_image::*;
use serde_json::{json, Value};

pub fn fmt(s: &str) -> PixelFormat {
    use PixelFormat::*;
    match s {
        "I420" => I420,
        "I422" => I422,
        "I444" => I444,
        "I010" => I010,
        "I012" => I012,
        "I210" => I210,
        "I212" => I212,
        "I410" => I410,
        "I412" => I412,
        "NV12" => NV12,
        "YUYV" => YUYV,
        "RGBA" => RGBA,
        "BGRA" => BGRA,
        "RGB" => RGB,
        "BGR" => BGR,
        _ => panic!("unknown format {s}"),
    }
}

pub fn fmt_name(f: PixelFormat) -> String {
    format!("{f:?}")
}

pub fn transfer(s: &str) -> ColorTransfer {
    use ColorTransfer::*;
    match s {
        "Linear" => Linear,
        "Gamma22" => Gamma22,
        "Gamma28" => Gamma28,
        "SRGB" => SRGB,
        "SDR" => SDR,
        "PQ" => BT2100PQ,
        "HLG" => BT2100HLG,
        _ => panic!("unknown transfer {s}"),
    }
}

pub fn primaries(s: &str) -> ColorPrimaries {
    use ColorPrimaries::*;
    match s {
        "ST240" => ST240,
        "BT709" => BT709,
        "BT2020" => BT2020,
        _ => panic!("unknown primaries {s}"),
    }
}

pub fn space(s: &str) -> ColorSpace {
    use ColorSpace::*;
    match s {
        "BT601" => BT601,
        "BT709" => BT709,
        "BT2020" => BT2020,
        "ICtCpPQ" => ICtCpPQ,
        "ICtCpHLG" => ICtCpHLG,
        _ => panic!("unknown space {s}"),
    }
}

pub fn color(v: &Value) -> ColorInfo {
    let t = transfer(v["t"].as_str().unwrap());
    let p = primaries(v["p"].as_str().unwrap());
    if v["k"] == "RGB" {
        ColorInfo::RGB(RgbColorInfo {
            transfer: t,
            primaries: p,
        })
    } else {
        ColorInfo::YUV(YuvColorInfo {
            transfer: t,
            primaries: p,
            space: space(v["s"].as_str().unwrap()),
            full_range: v["full"].as_bool().unwrap(),
        })
    }
}

/// Clamp to what TLC's 32 bit integers can represent
pub fn int(v: usize) -> i64 {
    v.min(2_000_000_000) as i64
}

#[allow(unreachable_patterns)]
pub fn bounds_err(e: &BoundsCheckError) -> Value {
    match e {
        BoundsCheckError::InvalidNumberOfPlanes(e) => planes_err(e),
        BoundsCheckError::InvalidStride {
            plane,
            minimum,
            got,
        } => {
            json!({"k":"err","e":"InvalidStride","plane":int(*plane),"min":int(*minimum),"got":int(*got)})
        }
        BoundsCheckError::InvalidPlaneSize {
            plane,
            minimum,
            got,
        } => {
            json!({"k":"err","e":"InvalidPlaneSize","plane":int(*plane),"min":int(*minimum),"got":int(*got)})
        }
        e => json!({"k":"err","e":format!("{e:?}")}),
    }
}

pub fn planes_err(e: &InvalidNumberOfPlanesError) -> Value {
    json!({"k":"err","e":"InvalidNumberOfPlanes","min":int(e.expected),"got":int(e.got)})
}

#[allow(unreachable_patterns)]
pub fn image_err(e: &ImageError) -> Value {
    match e {
        ImageError::InvalidDimensions => json!({"k":"err","e":"InvalidDimensions"}),
        ImageError::BoundsCheck(e) => bounds_err(e),
        e => json!({"k":"err","e":format!("{e:?}")}),
    }
}

#[allow(unreachable_patterns)]
pub fn crop_err(e: &CropError) -> Value {
    match e {
        CropError::WindowSizeOutOfBounds => json!({"k":"err","e":"WindowSizeOutOfBounds"}),
        CropError::BoundsCheck(e) => bounds_err(e),
        e => json!({"k":"err","e":format!("{e:?}")}),
    }
}

#[allow(unreachable_patterns)]
pub fn convert_err(e: &ConvertError) -> Value {
    match e {
        ConvertError::OddImageDimensions => json!({"k":"err","e":"OddImageDimensions"}),
        ConvertError::MismatchedImageSize => json!({"k":"err","e":"MismatchedImageSize"}),
        ConvertError::InvalidColorInfo => json!({"k":"err","e":"InvalidColorInfo"}),
        ConvertError::BoundsCheck(e) => bounds_err(e),
        ConvertError::InvalidNumberOfPlanes(e) => planes_err(e),
        e => json!({"k":"err","e":format!("{e:?}")}),
    }
}
