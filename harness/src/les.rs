//! Multi-record parsing.  The engine redirects the crate's single-record
//! parser to `fake_tle`, whose result is an arbitrary function of the lines.
extern crate alloc;
use alloc::string::String;

pub const RECORDS: usize = 8;
pub const NAME: usize = 32;

/// Outcome of parsing a text: records (or the error of the first bad record).
#[repr(C)]
pub struct Outcome {
    pub count: u64,
    pub error: u64,
    pub ids: [u64; RECORDS],
    pub lengths: [u64; RECORDS],
    pub names: [[u8; NAME]; RECORDS],
}

/// Replaced by an uninterpreted function; bit 0: the record is valid.
#[no_mangle]
#[inline(never)]
pub extern "C" fn oracle(p1: *const u8, n1: usize, p2: *const u8, n2: usize) -> u64 {
    core::hint::black_box(p1 as u64 ^ n1 as u64 ^ p2 as u64 ^ n2 as u64)
}

#[no_mangle]
#[inline(never)]
pub fn fake_tle(name: Option<String>, l1: &[u8], l2: &[u8]) -> Result<sgp4::Elements, sgp4::TleError> {
    let id = oracle(l1.as_ptr(), l1.len(), l2.as_ptr(), l2.len());
    if id & 1 == 1 {
        let mut e = crate::time::elements(chrono::NaiveDateTime::MIN);
        e.object_name = name;
        e.norad_id = id;
        Ok(e)
    } else {
        core::mem::forget(name);
        let mut e = core::mem::MaybeUninit::<sgp4::TleError>::zeroed();
        unsafe {
            (e.as_mut_ptr() as *mut u64).write(id);
            Err(e.assume_init())
        }
    }
}

#[no_mangle]
#[inline(never)]
pub fn fake_lines(l1: &[u8], l2: &[u8]) -> Result<sgp4::Elements, sgp4::TleError> {
    fake_tle(None, l1, l2)
}

/// 0 records, 1 error
#[no_mangle]
pub unsafe extern "C" fn impl_les(triplets: u32, p: *const u8, n: usize, out: &mut Outcome) -> u32 {
    let text = core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n));
    match if triplets == 1 { sgp4::parse_3les(text) } else { sgp4::parse_2les(text) } {
        Ok(v) => {
            out.count = v.len() as u64;
            for i in 0..RECORDS {
                if i < v.len() {
                    out.ids[i] = v[i].norad_id;
                    match &v[i].object_name {
                        None => out.lengths[i] = 255,
                        Some(s) => {
                            let b = s.as_bytes();
                            out.lengths[i] = b.len() as u64;
                            for j in 0..NAME {
                                if j < b.len() {
                                    out.names[i][j] = b[j];
                                }
                            }
                        }
                    }
                }
            }
            core::mem::forget(v);
            0
        }
        Err(e) => {
            out.error = (&e as *const sgp4::TleError as *const u64).read();
            core::mem::forget(e);
            1
        }
    }
}

/// The reference: lines end at "\n" or "\r\n" (the last one also at the end
/// of the text), consecutive groups of two or three are the records.
#[no_mangle]
pub unsafe extern "C" fn spec_les(triplets: u32, p: *const u8, n: usize, out: &mut Outcome) -> u32 {
    let text = core::slice::from_raw_parts(p, n);
    let size = if triplets == 1 { 3 } else { 2 };
    let mut group = [(0usize, 0usize); 3];
    let mut index = 0;
    let mut start = 0;
    let mut count = 0;
    for i in 0..n + 1 {
        if i < n && text[i] != b'\n' || i == n && start == n {
            continue;
        }
        let mut end = i;
        if i < n && end > start && text[end - 1] == b'\r' {
            end -= 1;
        }
        group[index] = (start, end - start);
        start = i + 1;
        index += 1;
        if index == size {
            index = 0;
            let (l1, l2) = (group[size - 2], group[size - 1]);
            let id = oracle(p.add(l1.0), l1.1, p.add(l2.0), l2.1);
            if id & 1 == 0 {
                out.error = id;
                return 1;
            }
            if count < RECORDS {
                out.ids[count] = id;
                out.lengths[count] = 255;
                if size == 3 {
                    out.lengths[count] = group[0].1 as u64;
                    for j in 0..NAME {
                        if j < group[0].1 {
                            out.names[count][j] = text[group[0].0 + j];
                        }
                    }
                }
            }
            count += 1;
        }
    }
    out.count = count as u64;
    0
}

/// Native comparison of a text with its records parsed one by one: 0 same,
/// 1 different number of records, 2 other elements, 3 other error, 4 result kind.
#[no_mangle]
pub unsafe extern "C" fn les_differ(triplets: u32, p: *const u8, n: usize) -> u32 {
    let text = core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n));
    let mut lines = alloc::vec::Vec::new();
    let mut start = 0;
    for i in 0..n {
        if text.as_bytes()[i] == b'\n' {
            let end = if i > start && text.as_bytes()[i - 1] == b'\r' { i - 1 } else { i };
            lines.push(&text[start..end]);
            start = i + 1;
        }
    }
    if start < n {
        lines.push(&text[start..]);
    }
    let size = if triplets == 1 { 3 } else { 2 };
    let mut want = alloc::vec::Vec::new();
    let mut error = None;
    for g in lines.chunks_exact(size) {
        let name = if size == 3 { Some(String::from(g[0])) } else { None };
        match sgp4::Elements::from_tle(name, g[size - 2].as_bytes(), g[size - 1].as_bytes()) {
            Ok(e) => want.push(e),
            Err(e) => {
                error = Some(e);
                break;
            }
        }
    }
    match (if triplets == 1 { sgp4::parse_3les(text) } else { sgp4::parse_2les(text) }, error) {
        (Ok(v), None) => {
            if v.len() != want.len() {
                return 1;
            }
            if alloc::format!("{:?}", v) == alloc::format!("{:?}", want) { 0 } else { 2 }
        }
        (Err(a), Some(b)) => {
            if alloc::format!("{:?}", a) == alloc::format!("{:?}", b) { 0 } else { 3 }
        }
        _ => 4,
    }
}
