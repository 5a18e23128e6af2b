//! Datetime entry points: epochs, conversions between datetimes and minutes.
use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, Timelike};

#[inline]
fn datetime(year: i32, ordinal: u32, seconds: u32, nanoseconds: u32) -> Option<NaiveDateTime> {
    Some(NaiveDateTime::new(
        NaiveDate::from_yo_opt(year, ordinal)?,
        NaiveTime::from_num_seconds_from_midnight_opt(seconds, nanoseconds)?,
    ))
}

#[inline]
pub fn elements(datetime: NaiveDateTime) -> sgp4::Elements {
    sgp4::Elements {
        object_name: None,
        international_designator: None,
        norad_id: 0,
        classification: sgp4::Classification::Unclassified,
        datetime,
        mean_motion_dot: 0.0,
        mean_motion_ddot: 0.0,
        drag_term: 0.0,
        element_set_number: 0,
        inclination: 0.0,
        right_ascension: 0.0,
        eccentricity: 0.0,
        argument_of_perigee: 0.0,
        mean_anomaly: 0.0,
        mean_motion: 0.0,
        revolution_number: 0,
        ephemeris_type: 0,
    }
}

/// which: 0 julian_years_since_j2000, 1 its AFSPC version, 2 Elements::epoch,
/// 3 Elements::epoch_afspc_compatibility_mode; 0 ok, 9 not a datetime
#[no_mangle]
pub extern "C" fn impl_epoch(which: u32, year: i32, ordinal: u32, seconds: u32, nanoseconds: u32, out: &mut f64) -> u32 {
    match datetime(year, ordinal, seconds, nanoseconds) {
        None => 9,
        Some(d) => {
            *out = match which {
                0 => sgp4::julian_years_since_j2000(&d),
                1 => sgp4::julian_years_since_j2000_afspc_compatibility_mode(&d),
                2 | 3 => {
                    let e = elements(d);
                    let r = if which == 2 { e.epoch() } else { e.epoch_afspc_compatibility_mode() };
                    core::mem::forget(e);
                    r
                }
                _ => 0.0,
            };
            0
        }
    }
}

/// datetime_to_minutes_since_epoch: 0 ok, 1 error, 9 not datetimes
#[no_mangle]
pub extern "C" fn impl_minutes(
    year: i32, ordinal: u32, seconds: u32, nanoseconds: u32,
    year2: i32, ordinal2: u32, seconds2: u32, nanoseconds2: u32, out: &mut f64,
) -> u32 {
    match (datetime(year, ordinal, seconds, nanoseconds), datetime(year2, ordinal2, seconds2, nanoseconds2)) {
        (Some(epoch), Some(to)) => {
            let e = elements(epoch);
            let r = e.datetime_to_minutes_since_epoch(&to);
            core::mem::forget(e);
            match r {
                Ok(m) => {
                    *out = m.0;
                    0
                }
                Err(_) => 1,
            }
        }
        _ => 9,
    }
}

/// minutes_since_epoch_to_datetime: 0 ok, 1 out of range, 2 addition overflow, 9 not a datetime
#[no_mangle]
pub extern "C" fn impl_datetime(
    year: i32, ordinal: u32, seconds: u32, nanoseconds: u32, minutes: f64, out: &mut [i64; 4],
) -> u32 {
    match datetime(year, ordinal, seconds, nanoseconds) {
        None => 9,
        Some(d) => {
            let e = elements(d);
            let r = e.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(minutes));
            core::mem::forget(e);
            match r {
                Ok(x) => {
                    *out = [x.year() as i64, x.ordinal() as i64, x.num_seconds_from_midnight() as i64, x.nanosecond() as i64];
                    0
                }
                Err(sgp4::MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(_)) => 1,
                Err(sgp4::MinutesSinceEpochToDatetimeError::Add { .. }) => 2,
            }
        }
    }
}

/// How a datetime is stored: 0 ok, 9 not a datetime
#[no_mangle]
pub extern "C" fn impl_pack(year: i32, ordinal: u32, seconds: u32, nanoseconds: u32, out: &mut [u64; 3]) -> u32 {
    match datetime(year, ordinal, seconds, nanoseconds) {
        None => 9,
        Some(d) => {
            let w: [u32; 3] = unsafe { core::mem::transmute(d) };
            *out = [w[0] as u64, w[1] as u64, w[2] as u64];
            0
        }
    }
}

/// Fields of a stored datetime
#[no_mangle]
pub extern "C" fn impl_unpack(a: u32, b: u32, c: u32, out: &mut [i64; 4]) -> u32 {
    let x: NaiveDateTime = unsafe { core::mem::transmute([a, b, c]) };
    *out = [x.year() as i64, x.ordinal() as i64, x.num_seconds_from_midnight() as i64, x.nanosecond() as i64];
    0
}

#[inline]
unsafe fn stored(a: u32, b: u32, c: u32) -> NaiveDateTime {
    core::mem::transmute([a, b, c])
}

#[inline]
fn full(d: NaiveDateTime, drag: f64, inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64) -> sgp4::Elements {
    let mut x = elements(d);
    x.drag_term = drag;
    x.inclination = inc;
    x.right_ascension = ra;
    x.eccentricity = e;
    x.argument_of_perigee = w;
    x.mean_anomaly = m;
    x.mean_motion = n;
    x
}

#[inline]
fn put(r: Result<sgp4::Constants, sgp4::ElementsError>, out: &mut core::mem::MaybeUninit<sgp4::Constants>, value: &mut f64) -> u32 {
    match r {
        Ok(c) => {
            out.write(c);
            0
        }
        Err(sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeKozaiMeanMotion)) => 1,
        Err(sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion)) => 2,
        Err(sgp4::ElementsError::OutOfRangeEpochEccentricity(x)) => {
            *value = x.0;
            3
        }
    }
}

#[no_mangle]
pub extern "C" fn impl_constants_size() -> u32 {
    core::mem::size_of::<sgp4::Constants>() as u32
}

/// Constants::from_elements and its AFSPC version: 0 ok, 1 negative Kozai, 2 negative Brouwer, 3 eccentricity
#[no_mangle]
pub unsafe extern "C" fn impl_constants(
    a: u32, b: u32, c: u32, drag: f64, inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, afspc: bool,
    out: &mut core::mem::MaybeUninit<sgp4::Constants>, value: &mut f64,
) -> u32 {
    let x = full(stored(a, b, c), drag, inc, ra, e, w, m, n);
    let r = if afspc {
        sgp4::Constants::from_elements_afspc_compatibility_mode(&x)
    } else {
        sgp4::Constants::from_elements(&x)
    };
    core::mem::forget(x);
    put(r, out, value)
}

/// The same by hand, from the documented models and units
#[no_mangle]
pub unsafe extern "C" fn hand_constants(
    a: u32, b: u32, c: u32, drag: f64, inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, afspc: bool,
    out: &mut core::mem::MaybeUninit<sgp4::Constants>, value: &mut f64,
) -> u32 {
    put(hand(stored(a, b, c), drag, inc, ra, e, w, m, n, afspc), out, value)
}

fn hand(
    d: NaiveDateTime, drag: f64, inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, afspc: bool,
) -> Result<sgp4::Constants, sgp4::ElementsError> {
    let deg = core::f64::consts::PI / 180.0;
    let rev = core::f64::consts::PI / 720.0;
    if afspc {
        // WGS72
        let g = sgp4::Geopotential { ae: 6378.135, ke: 0.07436691613317342, j2: 0.001082616, j3: -0.00000253881, j4: -0.00000165597 };
        let o = sgp4::Orbit::from_kozai_elements(&g, inc * deg, ra * deg, e, w * deg, m * deg, n * rev)?;
        let epoch = sgp4::julian_years_since_j2000_afspc_compatibility_mode(&d);
        Ok(sgp4::Constants::new(g, sgp4::afspc_epoch_to_sidereal_time, epoch, drag, o)?)
    } else {
        // WGS84
        let g = sgp4::Geopotential { ae: 6378.137, ke: 0.07436685316871385, j2: 0.00108262998905, j3: -0.00000253215306, j4: -0.00000161098761 };
        let o = sgp4::Orbit::from_kozai_elements(&g, inc * deg, ra * deg, e, w * deg, m * deg, n * rev)?;
        let epoch = sgp4::julian_years_since_j2000(&d);
        Ok(sgp4::Constants::new(g, sgp4::iau_epoch_to_sidereal_time, epoch, drag, o)?)
    }
}

/// which: 0 by the constructors, 1 by hand; result of a propagation (10 + kind for construction errors)
#[no_mangle]
pub extern "C" fn elements_propagate(
    which: u32, year: i32, ordinal: u32, seconds: u32, nanoseconds: u32,
    drag: f64, inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, t: f64, afspc: bool, out: &mut [f64; 8],
) -> u32 {
    let d = datetime(year, ordinal, seconds, nanoseconds).unwrap();
    let x = full(d, drag, inc, ra, e, w, m, n);
    let r = if which == 1 {
        hand(d, drag, inc, ra, e, w, m, n, afspc)
    } else if afspc {
        sgp4::Constants::from_elements_afspc_compatibility_mode(&x)
    } else {
        sgp4::Constants::from_elements(&x)
    };
    match r {
        Err(sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeKozaiMeanMotion)) => 11,
        Err(sgp4::ElementsError::KozaiElementsError(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion)) => 12,
        Err(sgp4::ElementsError::OutOfRangeEpochEccentricity(v)) => {
            out[6] = v.0;
            13
        }
        Ok(c) => {
            let t = sgp4::MinutesSinceEpoch(t);
            crate::prop::put(if afspc { c.propagate_afspc_compatibility_mode(t) } else { c.propagate(t) }, out)
        }
    }
}
