//! Wire format of scalar values, written from the zserio encoding guide.
use crate::bits::*;
use crate::model::VarKind;

/// (max bytes, payload bits of the last byte, signed)
fn shape(k: VarKind) -> (usize, u32, bool) {
    match k {
        VarKind::U16 => (2, 8, false), VarKind::U32 => (4, 8, false), VarKind::U64 => (8, 8, false), VarKind::U => (9, 8, false),
        VarKind::Size => (5, 8, false),
        VarKind::I16 => (2, 8, true), VarKind::I32 => (4, 8, true), VarKind::I64 => (8, 8, true), VarKind::I => (9, 8, true),
    }
}
/// Payload bits that fit into `n` bytes.
fn cap(k: VarKind, n: usize) -> u32 {
    let (max, last, signed) = shape(k);
    let s = if signed { 1 } else { 0 };
    if n == max { 7 * (n as u32 - 1) + last - s } else { 7 * n as u32 - s }
}
pub fn var_bytes(k: VarKind, v: i128) -> Option<Vec<u8>> {
    let (max, _, signed) = shape(k);
    if k == VarKind::Size && v > 0x7fff_ffff { return None; }
    if !signed && v < 0 { return None; }
    if k == VarKind::I && v == i64::MIN as i128 { return Some(vec![0x80]); }
    let mag = v.unsigned_abs();
    let n = (1..=max).find(|n| mag < (1u128 << cap(k, *n)))?;
    let mut w = BW::default();
    let mut left = cap(k, n);
    for i in 0..n {
        let last = i + 1 == n;
        let has_cont = i + 1 < max;
        let mut avail = 8;
        if i == 0 && signed { w.bit(v < 0); avail -= 1; }
        if has_cont { w.bit(!last); avail -= 1; }
        left -= avail;
        w.bits((mag >> left) & ((1 << avail) - 1), avail);
    }
    Some(w.buf)
}
pub fn read_var(k: VarKind, r: &mut BR) -> Result<i128, super::codec::DErr> {
    use super::codec::DErr;
    let (max, _, signed) = shape(k);
    let mut neg = false;
    let mut v: u128 = 0;
    for i in 0..max {
        let b = r.bits(8).ok_or(DErr::Eof)? as u8;
        let mut avail = 8;
        let mut b = b as u128;
        if i == 0 && signed { neg = b & 0x80 != 0; b &= 0x7f; avail -= 1; }
        let mut more = false;
        if i + 1 < max { avail -= 1; more = b >> avail & 1 == 1; b &= (1 << avail) - 1; }
        v = (v << avail) | b;
        if !more {
            break;
        }
    }
    if k == VarKind::Size && v > 0x7fff_ffff { return Err(DErr::Invalid("varsize out of range".into())); }
    if neg && v == 0 { return Ok(if k == VarKind::I { i64::MIN as i128 } else { 0 }); }
    Ok(if neg { -(v as i128) } else { v as i128 })
}

/// float32 bits -> float16 bits, round to nearest even.
pub fn f32_to_f16(b: u32) -> u16 {
    let sign = ((b >> 16) & 0x8000) as u16;
    let f = f32::from_bits(b);
    if f.is_nan() { return sign | 0x7e00; }
    let a = f.abs() as f64;
    if a.is_infinite() { return sign | 0x7c00; }
    // work on a grid: the value of half h (finite, positive) is monotone in its bits; find the nearest
    let (mut lo, mut hi) = (0u16, 0x7c00u16); // invariant: val(lo) <= a, val(hi) > a (hi = infinity treated as 65536)
    let val = |h: u16| -> f64 { if h == 0x7c00 { 65536.0 } else { f16_to_f32(h) as f64 } };
    if a >= 65536.0 { return sign | 0x7c00; }
    while hi - lo > 1 { let m = (lo + hi) / 2; if val(m) <= a { lo = m } else { hi = m } }
    let (dl, dh) = (a - val(lo), val(hi) - a);
    let r = if dl < dh { lo } else if dh < dl { hi } else if lo % 2 == 0 { lo } else { hi };
    sign | r
}
pub fn f16_to_f32(h: u16) -> f32 {
    let s = if h & 0x8000 != 0 { -1.0f32 } else { 1.0 };
    let e = (h >> 10) & 0x1f;
    let m = (h & 0x3ff) as f32;
    match e {
        0 => s * m * 2f32.powi(-24),
        31 => if m == 0.0 { s * f32::INFINITY } else { f32::from_bits(((h as u32 & 0x8000) << 16) | 0x7f80_0000 | ((h as u32 & 0x3ff) << 13)) },
        _ => s * (1.0 + m / 1024.0) * 2f32.powi(e as i32 - 15),
    }
}
