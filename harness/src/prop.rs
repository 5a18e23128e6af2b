use sgp4::{Constants, Geopotential, MinutesSinceEpoch, Orbit};

pub type Out = [f64; 8];

pub fn put(r: Result<sgp4::Prediction, sgp4::Error>, out: &mut Out) -> u32 {
    match r {
        Ok(p) => {
            out[0] = p.position[0];
            out[1] = p.position[1];
            out[2] = p.position[2];
            out[3] = p.velocity[0];
            out[4] = p.velocity[1];
            out[5] = p.velocity[2];
            0
        }
        Err(sgp4::Error::OutOfRangeEccentricity { eccentricity, t }) => {
            out[6] = eccentricity;
            out[7] = t;
            2
        }
        Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t }) => {
            out[6] = eccentricity;
            out[7] = t;
            3
        }
        Err(sgp4::Error::NegativeSemiLatusRectum { t }) => {
            out[7] = t;
            4
        }
    }
}

/// Constants::new with an arbitrary sidereal time function value, then propagate.
/// mode: 0 propagate, 1 propagate_afspc_compatibility_mode
#[no_mangle]
pub extern "C" fn impl_propagate(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, theta: f64, drag: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, t: f64, afspc: bool, out: &mut Out,
) -> u32 {
    let g = Geopotential { ae, ke, j2, j3, j4 };
    let o = Orbit {
        inclination: inc, right_ascension: ra, eccentricity: e,
        argument_of_perigee: w, mean_anomaly: m, mean_motion: n,
    };
    match Constants::new(g, |_| theta, epoch, drag, o) {
        Err(sgp4::OutOfRangeEpochEccentricity(x)) => {
            out[6] = x;
            1
        }
        Ok(c) => {
            let r = if afspc {
                c.propagate_afspc_compatibility_mode(MinutesSinceEpoch(t))
            } else {
                c.propagate(MinutesSinceEpoch(t))
            };
            put(r, out)
        }
    }
}

/// Orbit::from_kozai_elements; 0 ok (orbit in out), 1 negative Kozai, 2 negative Brouwer
#[no_mangle]
pub extern "C" fn impl_kozai(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, out: &mut Out,
) -> u32 {
    let g = Geopotential { ae, ke, j2, j3, j4 };
    match Orbit::from_kozai_elements(&g, inc, ra, e, w, m, n) {
        Ok(o) => {
            out[0] = o.inclination;
            out[1] = o.right_ascension;
            out[2] = o.eccentricity;
            out[3] = o.argument_of_perigee;
            out[4] = o.mean_anomaly;
            out[5] = o.mean_motion;
            0
        }
        Err(sgp4::KozaiElementsError::NegativeKozaiMeanMotion) => 1,
        Err(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion) => 2,
    }
}

#[no_mangle]
pub extern "C" fn impl_iau(epoch: f64) -> f64 {
    sgp4::iau_epoch_to_sidereal_time(epoch)
}

#[no_mangle]
pub extern "C" fn impl_afspc(epoch: f64) -> f64 {
    sgp4::afspc_epoch_to_sidereal_time(epoch)
}

macro_rules! constants {
    ($ae:ident, $ke:ident, $j2:ident, $j3:ident, $j4:ident, $epoch:ident, $theta:ident, $drag:ident,
     $inc:ident, $ra:ident, $e:ident, $w:ident, $m:ident, $n:ident) => {
        Constants::new(
            Geopotential { ae: $ae, ke: $ke, j2: $j2, j3: $j3, j4: $j4 },
            |_| $theta,
            $epoch,
            $drag,
            Orbit {
                inclination: $inc, right_ascension: $ra, eccentricity: $e,
                argument_of_perigee: $w, mean_anomaly: $m, mean_motion: $n,
            },
        )
    };
}

/// Whether a resonance state is offered: 0 no, 1 yes (written to state), 9 invalid elements
#[no_mangle]
pub extern "C" fn impl_initial_state(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, theta: f64, drag: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, state: &mut core::mem::MaybeUninit<sgp4::ResonanceState>,
) -> u32 {
    match constants!(ae, ke, j2, j3, j4, epoch, theta, drag, inc, ra, e, w, m, n) {
        Err(_) => 9,
        Ok(c) => match c.initial_state() {
            Some(s) => {
                state.write(s);
                1
            }
            None => 0,
        },
    }
}

#[no_mangle]
pub extern "C" fn impl_state_size() -> u32 {
    core::mem::size_of::<sgp4::ResonanceState>() as u32
}

#[no_mangle]
pub extern "C" fn impl_state_t(state: &sgp4::ResonanceState) -> f64 {
    state.t()
}

/// propagate_from_state with the given state
#[no_mangle]
pub extern "C" fn impl_from_state(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, theta: f64, drag: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, t: f64, afspc: bool,
    state: &mut sgp4::ResonanceState, out: &mut Out,
) -> u32 {
    match constants!(ae, ke, j2, j3, j4, epoch, theta, drag, inc, ra, e, w, m, n) {
        Err(_) => 1,
        Ok(c) => put(c.propagate_from_state(MinutesSinceEpoch(t), Some(state), afspc), out),
    }
}

/// propagate_from_state without a state
#[no_mangle]
pub extern "C" fn impl_no_state(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, theta: f64, drag: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, t: f64, afspc: bool, out: &mut Out,
) -> u32 {
    match constants!(ae, ke, j2, j3, j4, epoch, theta, drag, inc, ra, e, w, m, n) {
        Err(_) => 1,
        Ok(c) => put(c.propagate_from_state(MinutesSinceEpoch(t), None, afspc), out),
    }
}

/// Replay of a history through the public interface: propagate to t1, then to
/// t2, reusing the state offered by the propagator (none when none is offered,
/// or the state of a geosynchronous orbit when `alien` is set).
/// Returns the outcome at t2; times = [state time after t1, state time after t2].
#[no_mangle]
pub extern "C" fn impl_reuse(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, theta: f64, drag: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, t1: f64, t2: f64, afspc: bool, alien: bool,
    times: &mut [f64; 2], out: &mut Out,
) -> u32 {
    match constants!(ae, ke, j2, j3, j4, epoch, theta, drag, inc, ra, e, w, m, n) {
        Err(_) => 1,
        Ok(c) => {
            let mut state = if alien {
                let (inc, ra, e, w, m, n) = (0.1, 0.2, 0.001, 0.3, 0.4, 0.004375);
                let (ae, ke, j2, j3, j4) = (6378.137, 0.07436685316871385, 0.00108262998905, -2.53215306e-6, -1.61098761e-6);
                match constants!(ae, ke, j2, j3, j4, epoch, theta, drag, inc, ra, e, w, m, n) {
                    Ok(g) => g.initial_state(),
                    Err(_) => None,
                }
            } else {
                c.initial_state()
            };
            let _ = put(c.propagate_from_state(MinutesSinceEpoch(t1), state.as_mut(), afspc), out);
            times[0] = state.as_ref().map_or(-1.0, |s| s.t());
            let r = put(c.propagate_from_state(MinutesSinceEpoch(t2), state.as_mut(), afspc), out);
            times[1] = state.as_ref().map_or(-1.0, |s| s.t());
            r
        }
    }
}
