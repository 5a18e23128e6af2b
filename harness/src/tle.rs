//! TLE parsing entry points: `impl_tle` wraps the crate, `spec_tle` is the
//! reference decoder written from the documented column layout.
use chrono::{Datelike, Timelike};

pub type Ints = [u64; 10];
pub type Floats = [f64; 9];
pub type Text = [u8; 16];

/// 0 accepted (fields in ints/floats/text), 1 rejected (error written to `err`)
/// ints: norad id, classification, element set, revolution, ephemeris type,
///       designator length (0: none), year, day of year, seconds, nanoseconds
/// floats: mean motion dot, ddot, drag, inclination, node, eccentricity,
///         perigee, mean anomaly, mean motion
#[no_mangle]
pub unsafe extern "C" fn impl_tle(
    p1: *const u8, n1: usize, p2: *const u8, n2: usize,
    err: &mut core::mem::MaybeUninit<sgp4::TleError>, ints: &mut Ints, floats: &mut Floats, text: &mut Text,
) -> u32 {
    let (l1, l2) = (core::slice::from_raw_parts(p1, n1), core::slice::from_raw_parts(p2, n2));
    match sgp4::Elements::from_tle(None, l1, l2) {
        Err(e) => {
            err.write(e);
            1
        }
        Ok(e) => {
            ints[0] = e.norad_id;
            ints[1] = match e.classification {
                sgp4::Classification::Unclassified => 0,
                sgp4::Classification::Classified => 1,
                sgp4::Classification::Secret => 2,
            };
            ints[2] = e.element_set_number;
            ints[3] = e.revolution_number;
            ints[4] = e.ephemeris_type as u64;
            ints[5] = 0;
            if let Some(s) = &e.international_designator {
                let b = s.as_bytes();
                ints[5] = b.len() as u64;
                for i in 0..16 {
                    if i < b.len() {
                        text[i] = b[i];
                    }
                }
            }
            ints[6] = e.datetime.year() as u64;
            ints[7] = e.datetime.ordinal() as u64;
            ints[8] = e.datetime.num_seconds_from_midnight() as u64;
            ints[9] = e.datetime.nanosecond() as u64;
            *floats = [
                e.mean_motion_dot, e.mean_motion_ddot, e.drag_term, e.inclination, e.right_ascension,
                e.eccentricity, e.argument_of_perigee, e.mean_anomaly, e.mean_motion,
            ];
            core::mem::forget(e);
            0
        }
    }
}

/// `f64::from_str`: 1 and the bits when the text is a number
#[no_mangle]
pub unsafe extern "C" fn rust_parse(p: *const u8, n: usize, out: &mut [u64; 1]) -> u32 {
    match core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)).parse::<f64>() {
        Ok(x) => {
            out[0] = x.to_bits();
            1
        }
        Err(_) => 0,
    }
}

#[no_mangle]
pub extern "C" fn impl_err_size() -> u32 {
    core::mem::size_of::<sgp4::TleError>() as u32
}

/// Text of the error reported for the two lines, 0 bytes when accepted.
#[cfg(feature = "full")]
#[no_mangle]
pub unsafe extern "C" fn impl_tle_message(p1: *const u8, n1: usize, p2: *const u8, n2: usize, out: &mut [u8; 256]) -> u32 {
    let (l1, l2) = (core::slice::from_raw_parts(p1, n1), core::slice::from_raw_parts(p2, n2));
    match sgp4::Elements::from_tle(None, l1, l2) {
        Err(e) => {
            let s = e.to_string();
            let n = s.len().min(256);
            out[..n].copy_from_slice(&s.as_bytes()[..n]);
            n as u32
        }
        Ok(_) => 0,
    }
}

/// Text of an error value given by its bytes.
#[no_mangle]
pub unsafe extern "C" fn impl_error_text(raw: *const u8, out: &mut [u8; 256]) -> u32 {
    let s = (*(raw as *const sgp4::TleError)).to_string();
    let n = s.len().min(256);
    out[..n].copy_from_slice(&s.as_bytes()[..n]);
    n as u32
}

// ------------------------------------------------------------------ reference
// error codes, in the order of the documented messages
pub const CHECKSUM: u64 = 0;
pub const LENGTH: u64 = 1;
pub const FIRST: u64 = 2;
pub const FLOAT: u64 = 3;
pub const ASSUMED: u64 = 4;
pub const INTEGER: u64 = 5;
pub const SPACE: u64 = 6;
pub const STRING: u64 = 7;
pub const TOO_LONG: u64 = 8;
pub const MISMATCH: u64 = 9;
pub const CLASS: u64 = 10;
pub const DATE: u64 = 11;
pub const TIME: u64 = 12;

type R<T> = Result<T, [u64; 4]>;

fn blank(c: u8) -> bool {
    c == 0x20 || c == 0x09 || c == 0x0a || c == 0x0c || c == 0x0d
}

fn skip(s: &[u8]) -> &[u8] {
    let mut i = 0;
    while i < s.len() && blank(s[i]) {
        i += 1;
    }
    &s[i..]
}

/// optional sign (minus only when `neg`), then one or more digits
fn integer(s: &[u8], neg: bool) -> Option<i64> {
    let mut i = 0;
    let mut minus = false;
    if s.len() > 0 && (s[0] == b'+' || (neg && s[0] == b'-')) {
        minus = s[0] == b'-';
        i = 1;
    }
    if i == s.len() {
        return None;
    }
    let mut v: i64 = 0;
    while i < s.len() {
        if s[i] < b'0' || s[i] > b'9' {
            return None;
        }
        v = v * 10 + (s[i] - b'0') as i64;
        i += 1;
    }
    Some(if minus { -v } else { v })
}

fn decimal(s: &[u8]) -> Option<f64> {
    unsafe { core::str::from_utf8_unchecked(s) }.parse().ok()
}

/// sign and digits with the decimal point before the first digit
fn assumed(s: &[u8], line: u64, start: u64, end: u64) -> R<f64> {
    let s = skip(s);
    if s.len() == 0 {
        return Err([ASSUMED, line, start, end]);
    }
    let mut b = [0u8; 16];
    let mut n = 0;
    let mut i = 0;
    if s[0] == b'-' || s[0] == b'+' {
        if s.len() == 1 {
            return Err([TOO_LONG, line, start, end]);
        }
        if s[0] == b'-' {
            b[n] = b'-';
            n += 1;
        }
        i = 1;
    }
    b[n] = b'.';
    n += 1;
    while i < s.len() {
        b[n] = s[i];
        n += 1;
        i += 1;
    }
    match decimal(&b[..n]) {
        Some(x) => Ok(x),
        None => Err([ASSUMED, line, start, end]),
    }
}

fn dec(s: &[u8], line: u64, start: u64, end: u64) -> R<f64> {
    match decimal(skip(s)) {
        Some(x) => Ok(x),
        None => Err([FLOAT, line, start, end]),
    }
}

fn int(s: &[u8], line: u64, start: u64, end: u64) -> R<u64> {
    match integer(skip(s), false) {
        Some(x) => Ok(x as u64),
        None => Err([INTEGER, line, start, end]),
    }
}

fn power(s: &[u8], start: u64, end: u64) -> R<f64> {
    match integer(s, true) {
        Some(x) => Ok(10.0f64.powi(x as i32)),
        None => Err([FLOAT, 1, start, end]),
    }
}

fn sum(s: &[u8]) -> u16 {
    let mut v = 0u16;
    for i in 0..68 {
        if s[i] == b'-' {
            v += 1;
        } else if s[i] >= b'0' && s[i] <= b'9' {
            v += (s[i] - b'0') as u16;
        }
    }
    v % 10
}

fn leap(y: u64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}

fn decode(a: &[u8], b: &[u8], ints: &mut Ints, floats: &mut Floats, text: &mut Text) -> R<()> {
    if a.len() != 69 {
        return Err([LENGTH, 1, 0, a.len() as u64]);
    }
    if b.len() != 69 {
        return Err([LENGTH, 2, 0, b.len() as u64]);
    }
    if a[0] != b'1' {
        return Err([FIRST, 1, 0, 1]);
    }
    if b[0] != b'2' {
        return Err([FIRST, 2, 0, 1]);
    }
    for i in [1usize, 8, 17, 32, 43, 52, 61, 63] {
        if a[i] != b' ' {
            return Err([SPACE, 1, i as u64, i as u64 + 1]);
        }
    }
    for i in [1usize, 7, 16, 25, 33, 42, 51] {
        if b[i] != b' ' {
            return Err([SPACE, 2, i as u64, i as u64 + 1]);
        }
    }
    let id = int(&a[2..7], 1, 2, 7)?;
    if id != int(&b[2..7], 2, 2, 7)? {
        return Err([MISMATCH, 3, 2, 7]);
    }
    for (k, l) in [(1u64, a), (2, b)] {
        if sum(l) as u8 != l[68].wrapping_sub(b'0') {
            return Err([CHECKSUM, k, 68, 69]);
        }
    }
    ints[0] = id;
    ints[1] = match a[7] {
        b'U' => 0,
        b'C' => 1,
        b'S' => 2,
        _ => return Err([CLASS, 1, 7, 8]),
    };
    ints[5] = 0;
    let mut any = false;
    for i in 9..17 {
        if !blank(a[i]) {
            any = true;
        }
    }
    if any {
        let y = match integer(&a[9..11], false) {
            Some(y) => y as u64,
            None => return Err([INTEGER, 1, 9, 11]),
        };
        let y = if y < 57 { 2000 + y } else { 1900 + y };
        let piece = match core::str::from_utf8(&a[11..17]) {
            Ok(s) => s.trim().as_bytes(),
            Err(_) => return Err([STRING, 1, 11, 17]),
        };
        text[0] = b'0' + (y / 1000) as u8;
        text[1] = b'0' + (y / 100 % 10) as u8;
        text[2] = b'0' + (y / 10 % 10) as u8;
        text[3] = b'0' + (y % 10) as u8;
        text[4] = b'-';
        ints[5] = 5 + piece.len() as u64;
        for i in 0..6 {
            if i < piece.len() {
                text[5 + i] = piece[i];
            }
        }
    }
    let day = dec(&a[20..32], 1, 20, 32)?;
    let s = day.fract() * 86400.0;
    let mut ns = (s.fract() * 1e9).round() as u32 as u64;
    let mut sec = s as u32 as u64;
    if ns >= 1_000_000_000 {
        ns -= 1_000_000_000;
        sec += 1;
    }
    let y = match integer(&a[18..20], false) {
        Some(y) => y as u64,
        None => return Err([FLOAT, 1, 18, 20]),
    };
    let y = if y < 57 { 2000 + y } else { 1900 + y };
    let d = day as u32 as u64;
    if d < 1 || d > if leap(y) { 366 } else { 365 } {
        return Err([DATE, 1, 18, 20]);
    }
    if sec >= 86400 || ns >= 1_000_000_000 {
        return Err([TIME, 1, 20, 32]);
    }
    ints[6] = y;
    ints[7] = d;
    ints[8] = sec;
    ints[9] = ns;
    floats[0] = dec(&a[33..43], 1, 33, 43)?;
    floats[1] = assumed(&a[44..50], 1, 44, 50)? * power(&a[50..52], 50, 52)?;
    floats[2] = assumed(&a[53..59], 1, 53, 59)? * power(&a[59..61], 59, 61)?;
    ints[4] = int(&a[62..63], 1, 62, 63)?;
    ints[2] = int(&a[64..68], 1, 64, 68)?;
    floats[3] = dec(&b[8..16], 2, 8, 16)?;
    floats[4] = dec(&b[17..25], 2, 17, 25)?;
    floats[5] = assumed(&b[26..33], 2, 26, 33)?;
    floats[6] = dec(&b[34..42], 2, 34, 42)?;
    floats[7] = dec(&b[43..51], 2, 43, 51)?;
    floats[8] = dec(&b[52..63], 2, 52, 63)?;
    ints[3] = int(&b[63..68], 2, 63, 68)?;
    Ok(())
}

/// 0 accepted, 1 rejected; code = [what, line, start, end]
#[no_mangle]
pub unsafe extern "C" fn spec_tle(
    p1: *const u8, n1: usize, p2: *const u8, n2: usize,
    code: &mut [u64; 4], ints: &mut Ints, floats: &mut Floats, text: &mut Text,
) -> u32 {
    let (l1, l2) = (core::slice::from_raw_parts(p1, n1), core::slice::from_raw_parts(p2, n2));
    match decode(l1, l2, ints, floats, text) {
        Ok(()) => 0,
        Err(c) => {
            *code = c;
            1
        }
    }
}
