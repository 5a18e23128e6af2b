//! Reference SGP4/SDP4 equations, written from the published algorithm
//! (Hoots & Roehrich, Spacetrack Report #3; Vallado et al., AIAA 2006-6753)
//! with the names used there.  Independent of the crate under test.
use core::f64::consts::PI;

pub type Out = [f64; 8];
const TWOPI: f64 = 2.0 * PI;
const X2O3: f64 = 2.0 / 3.0;

/// Brouwer mean motion from the Kozai mean motion.
#[no_mangle]
pub extern "C" fn spec_kozai(
    _ae: f64, ke: f64, j2: f64, _j3: f64, _j4: f64,
    inclo: f64, nodeo: f64, ecco: f64, argpo: f64, mo: f64, no_kozai: f64, out: &mut Out,
) -> u32 {
    if no_kozai <= 0.0 {
        return 1;
    }
    let eccsq = ecco * ecco;
    let omeosq = 1.0 - eccsq;
    let rteosq = omeosq.sqrt();
    let cosio = inclo.cos();
    let cosio2 = cosio * cosio;
    let ak = (ke / no_kozai).powf(X2O3);
    let d1 = 0.75 * j2 * (3.0 * cosio2 - 1.0) / (rteosq * omeosq);
    let del = d1 / (ak * ak);
    let adel = ak * (1.0 - del * del - del * (1.0 / 3.0 + 134.0 * del * del / 81.0));
    let del = d1 / (adel * adel);
    let no_unkozai = no_kozai / (1.0 + del);
    if no_unkozai <= 0.0 {
        return 2;
    }
    out[0] = inclo;
    out[1] = nodeo;
    out[2] = ecco;
    out[3] = argpo;
    out[4] = mo;
    out[5] = no_unkozai;
    0
}

/// Third-body terms (one pass of DSCOM): periodic coefficients and secular rates.
struct Body {
    zmo: f64,
    e2: f64, e3: f64,
    i2: f64, i3: f64,
    l2: f64, l3: f64, l4: f64,
    gh2: f64, gh3: f64, gh4: f64,
    h2: f64, h3: f64,
    se: f64, si: f64, sl: f64, sgh: f64, sh: f64,
}

fn dscom_pass(
    zcosg: f64, zsing: f64, zcosi: f64, zsini: f64, zcosh: f64, zsinh: f64,
    cc: f64, zn: f64, ze: f64, zmo: f64,
    cosim: f64, sinim: f64, cosomm: f64, sinomm: f64, em: f64, nm: f64,
) -> Body {
    let emsq = em * em;
    let betasq = 1.0 - emsq;
    let rtemsq = betasq.sqrt();
    let xnoi = 1.0 / nm;
    let a1 = zcosg * zcosh + zsing * zcosi * zsinh;
    let a3 = -zsing * zcosh + zcosg * zcosi * zsinh;
    let a7 = -zcosg * zsinh + zsing * zcosi * zcosh;
    let a8 = zsing * zsini;
    let a9 = zsing * zsinh + zcosg * zcosi * zcosh;
    let a10 = zcosg * zsini;
    let a2 = cosim * a7 + sinim * a8;
    let a4 = cosim * a9 + sinim * a10;
    let a5 = -sinim * a7 + cosim * a8;
    let a6 = -sinim * a9 + cosim * a10;

    let x1 = a1 * cosomm + a2 * sinomm;
    let x2 = a3 * cosomm + a4 * sinomm;
    let x3 = -a1 * sinomm + a2 * cosomm;
    let x4 = -a3 * sinomm + a4 * cosomm;
    let x5 = a5 * sinomm;
    let x6 = a6 * sinomm;
    let x7 = a5 * cosomm;
    let x8 = a6 * cosomm;

    let z31 = 12.0 * x1 * x1 - 3.0 * x3 * x3;
    let z32 = 24.0 * x1 * x2 - 6.0 * x3 * x4;
    let z33 = 12.0 * x2 * x2 - 3.0 * x4 * x4;
    let mut z1 = 3.0 * (a1 * a1 + a2 * a2) + z31 * emsq;
    let mut z2 = 6.0 * (a1 * a3 + a2 * a4) + z32 * emsq;
    let mut z3 = 3.0 * (a3 * a3 + a4 * a4) + z33 * emsq;
    let z11 = -6.0 * a1 * a5 + emsq * (-24.0 * x1 * x7 - 6.0 * x3 * x5);
    let z12 = -6.0 * (a1 * a6 + a3 * a5) + emsq * (-24.0 * (x2 * x7 + x1 * x8) - 6.0 * (x3 * x6 + x4 * x5));
    let z13 = -6.0 * a3 * a6 + emsq * (-24.0 * x2 * x8 - 6.0 * x4 * x6);
    let z21 = 6.0 * a2 * a5 + emsq * (24.0 * x1 * x5 - 6.0 * x3 * x7);
    let z22 = 6.0 * (a4 * a5 + a2 * a6) + emsq * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8));
    let z23 = 6.0 * a4 * a6 + emsq * (24.0 * x2 * x6 - 6.0 * x4 * x8);
    z1 = z1 + z1 + betasq * z31;
    z2 = z2 + z2 + betasq * z32;
    z3 = z3 + z3 + betasq * z33;
    let s3 = cc * xnoi;
    let s2 = -0.5 * s3 / rtemsq;
    let s4 = s3 * rtemsq;
    let s1 = -15.0 * em * s4;
    let s5 = x1 * x3 + x2 * x4;
    let s6 = x2 * x3 + x1 * x4;
    let s7 = x2 * x4 - x1 * x3;
    Body {
        zmo,
        e2: 2.0 * s1 * s6,
        e3: 2.0 * s1 * s7,
        i2: 2.0 * s2 * z12,
        i3: 2.0 * s2 * (z13 - z11),
        l2: -2.0 * s3 * z2,
        l3: -2.0 * s3 * (z3 - z1),
        l4: -2.0 * s3 * (-21.0 - 9.0 * emsq) * ze,
        gh2: 2.0 * s4 * z32,
        gh3: 2.0 * s4 * (z33 - z31),
        gh4: -18.0 * s4 * ze,
        h2: -2.0 * s2 * z22,
        h3: -2.0 * s2 * (z23 - z21),
        se: s1 * zn * s5,
        si: s2 * zn * (z11 + z13),
        sl: -zn * s3 * (z1 + z3 - 14.0 - 6.0 * emsq),
        sgh: s4 * zn * (z31 + z33 - 6.0),
        sh: -zn * s2 * (z21 + z23),
    }
}

/// Long-period periodics of one body (DPPER).
fn dpper_body(b: &Body, zn: f64, ze: f64, t: f64) -> (f64, f64, f64, f64, f64) {
    let zm = b.zmo + zn * t;
    let zf = zm + 2.0 * ze * zm.sin();
    let sinzf = zf.sin();
    let f2 = 0.5 * sinzf * sinzf - 0.25;
    let f3 = -0.5 * sinzf * zf.cos();
    (
        b.e2 * f2 + b.e3 * f3,
        b.i2 * f2 + b.i3 * f3,
        b.l2 * f2 + b.l3 * f3 + b.l4 * sinzf,
        b.gh2 * f2 + b.gh3 * f3 + b.gh4 * sinzf,
        b.h2 * f2 + b.h3 * f3,
    )
}

const ZNS: f64 = 1.19459e-5;
const ZES: f64 = 0.01675;
const ZNL: f64 = 1.5835218e-4;
const ZEL: f64 = 0.05490;
const RPTIM: f64 = 4.37526908801129966e-3;

/// Resonance geometry: 0 none, 1 synchronous, 2 half-day
struct Reson {
    irez: u32,
    xlamo: f64,
    xfact: f64,
    del: [f64; 3],
    d: [f64; 10],
}

fn dsinit(
    nm: f64, em: f64, inclm: f64, sinim: f64, cosim: f64, mo: f64, nodeo: f64, argpo: f64, gsto: f64,
    ke: f64, mdot: f64, nodedot: f64, argpdot: f64, dmdt: f64, domdt: f64, dnodt: f64,
) -> Reson {
    let _ = inclm;
    let mut irez = 0;
    if nm < 0.0052359877 && nm > 0.0034906585 {
        irez = 1;
    }
    if nm >= 8.26e-3 && nm <= 9.24e-3 && em >= 0.5 {
        irez = 2;
    }
    let mut r = Reson { irez, xlamo: 0.0, xfact: 0.0, del: [0.0; 3], d: [0.0; 10] };
    if irez == 0 {
        return r;
    }
    let q22 = 1.7891679e-6;
    let q31 = 2.1460748e-6;
    let q33 = 2.2123015e-7;
    let root22 = 1.7891679e-6;
    let root44 = 7.3636953e-9;
    let root54 = 2.1765803e-9;
    let root32 = 3.7393792e-7;
    let root52 = 1.1428639e-7;
    let emsq = em * em;
    let aonv = 1.0 / (ke / nm).powf(X2O3);
    let theta = gsto;
    if irez == 2 {
        let cosisq = cosim * cosim;
        let eoc = em * emsq;
        let g201 = -0.306 - (em - 0.64) * 0.440;
        let g211;
        let g310;
        let g322;
        let g410;
        let g422;
        let g520;
        if em <= 0.65 {
            g211 = 3.616 - 13.2470 * em + 16.2900 * emsq;
            g310 = -19.302 + 117.3900 * em - 228.4190 * emsq + 156.5910 * eoc;
            g322 = -18.9068 + 109.7927 * em - 214.6334 * emsq + 146.5816 * eoc;
            g410 = -41.122 + 242.6940 * em - 471.0940 * emsq + 313.9530 * eoc;
            g422 = -146.407 + 841.8800 * em - 1629.014 * emsq + 1083.4350 * eoc;
            g520 = -532.114 + 3017.977 * em - 5740.032 * emsq + 3708.2760 * eoc;
        } else {
            g211 = -72.099 + 331.819 * em - 508.738 * emsq + 266.724 * eoc;
            g310 = -346.844 + 1582.851 * em - 2415.925 * emsq + 1246.113 * eoc;
            g322 = -342.585 + 1554.908 * em - 2366.899 * emsq + 1215.972 * eoc;
            g410 = -1052.797 + 4758.686 * em - 7193.992 * emsq + 3651.957 * eoc;
            g422 = -3581.690 + 16178.110 * em - 24462.770 * emsq + 12422.520 * eoc;
            if em > 0.715 {
                g520 = -5149.66 + 29936.92 * em - 54087.36 * emsq + 31324.56 * eoc;
            } else {
                g520 = 1464.74 - 4664.75 * em + 3763.64 * emsq;
            }
        }
        let g533;
        let g521;
        let g532;
        if em < 0.7 {
            g533 = -919.22770 + 4988.6100 * em - 9064.7700 * emsq + 5542.21 * eoc;
            g521 = -822.71072 + 4568.6173 * em - 8491.4146 * emsq + 5337.524 * eoc;
            g532 = -853.66600 + 4690.2500 * em - 8624.7700 * emsq + 5341.4 * eoc;
        } else {
            g533 = -37995.780 + 161616.52 * em - 229838.20 * emsq + 109377.94 * eoc;
            g521 = -51752.104 + 218913.95 * em - 309468.16 * emsq + 146349.42 * eoc;
            g532 = -40023.880 + 170470.89 * em - 242699.48 * emsq + 115605.82 * eoc;
        }
        let sini2 = sinim * sinim;
        let f220 = 0.75 * (1.0 + 2.0 * cosim + cosisq);
        let f221 = 1.5 * sini2;
        let f321 = 1.875 * sinim * (1.0 - 2.0 * cosim - 3.0 * cosisq);
        let f322 = -1.875 * sinim * (1.0 + 2.0 * cosim - 3.0 * cosisq);
        let f441 = 35.0 * sini2 * f220;
        let f442 = 39.3750 * sini2 * sini2;
        let f522 = 9.84375 * sinim * (sini2 * (1.0 - 2.0 * cosim - 5.0 * cosisq) + 0.33333333 * (-2.0 + 4.0 * cosim + 6.0 * cosisq));
        let f523 = sinim * (4.92187512 * sini2 * (-2.0 - 4.0 * cosim + 10.0 * cosisq) + 6.56250012 * (1.0 + 2.0 * cosim - 3.0 * cosisq));
        let f542 = 29.53125 * sinim * (2.0 - 8.0 * cosim + cosisq * (-12.0 + 8.0 * cosim + 10.0 * cosisq));
        let f543 = 29.53125 * sinim * (-2.0 - 8.0 * cosim + cosisq * (12.0 + 8.0 * cosim - 10.0 * cosisq));
        let xno2 = nm * nm;
        let ainv2 = aonv * aonv;
        let mut temp1 = 3.0 * xno2 * ainv2;
        let mut temp = temp1 * root22;
        r.d[0] = temp * f220 * g201;
        r.d[1] = temp * f221 * g211;
        temp1 = temp1 * aonv;
        temp = temp1 * root32;
        r.d[2] = temp * f321 * g310;
        r.d[3] = temp * f322 * g322;
        temp1 = temp1 * aonv;
        temp = 2.0 * temp1 * root44;
        r.d[4] = temp * f441 * g410;
        r.d[5] = temp * f442 * g422;
        temp1 = temp1 * aonv;
        temp = temp1 * root52;
        r.d[6] = temp * f522 * g520;
        r.d[7] = temp * f523 * g532;
        temp = 2.0 * temp1 * root54;
        r.d[8] = temp * f542 * g521;
        r.d[9] = temp * f543 * g533;
        r.xlamo = (mo + nodeo + nodeo - theta - theta) % TWOPI;
        r.xfact = mdot + dmdt + 2.0 * (nodedot + dnodt - RPTIM) - nm;
    }
    if irez == 1 {
        let g200 = 1.0 + emsq * (-2.5 + 0.8125 * emsq);
        let g310 = 1.0 + 2.0 * emsq;
        let g300 = 1.0 + emsq * (-6.0 + 6.60937 * emsq);
        let f220 = 0.75 * (1.0 + cosim) * (1.0 + cosim);
        let f311 = 0.9375 * sinim * sinim * (1.0 + 3.0 * cosim) - 0.75 * (1.0 + cosim);
        let mut f330 = 1.0 + cosim;
        f330 = 1.875 * f330 * f330 * f330;
        let del1 = 3.0 * nm * nm * aonv * aonv;
        r.del[1] = 2.0 * del1 * f220 * g200 * q22;
        r.del[2] = 3.0 * del1 * f330 * g300 * q33 * aonv;
        r.del[0] = del1 * f311 * g310 * q31 * aonv;
        r.xlamo = (mo + nodeo + argpo - theta) % TWOPI;
        r.xfact = mdot + (argpdot + nodedot) - RPTIM + dmdt + domdt + dnodt - nm;
    }
    r
}

/// Time derivatives of the resonance state: (ldot, ndot, nddt)
fn dspace_rates(r: &Reson, argpo: f64, argpdot: f64, atime: f64, xni: f64, xli: f64) -> (f64, f64, f64) {
    let fasx2 = 0.13130908;
    let fasx4 = 2.8843198;
    let fasx6 = 0.37448087;
    let g22 = 5.7686396;
    let g32 = 0.95240898;
    let g44 = 1.8014998;
    let g52 = 1.0508330;
    let g54 = 4.4108898;
    let xldot = xni + r.xfact;
    if r.irez != 2 {
        let xndt = r.del[0] * (xli - fasx2).sin() + r.del[1] * (2.0 * (xli - fasx4)).sin() + r.del[2] * (3.0 * (xli - fasx6)).sin();
        let xnddt = r.del[0] * (xli - fasx2).cos() + 2.0 * r.del[1] * (2.0 * (xli - fasx4)).cos() + 3.0 * r.del[2] * (3.0 * (xli - fasx6)).cos();
        (xldot, xndt, xnddt * xldot)
    } else {
        let xomi = argpo + argpdot * atime;
        let x2omi = xomi + xomi;
        let x2li = xli + xli;
        let d = &r.d;
        let xndt = d[0] * (x2omi + xli - g22).sin()
            + d[1] * (xli - g22).sin()
            + d[2] * (xomi + xli - g32).sin()
            + d[3] * (-xomi + xli - g32).sin()
            + d[4] * (x2omi + x2li - g44).sin()
            + d[5] * (x2li - g44).sin()
            + d[6] * (xomi + xli - g52).sin()
            + d[7] * (-xomi + xli - g52).sin()
            + d[8] * (xomi + x2li - g54).sin()
            + d[9] * (-xomi + x2li - g54).sin();
        let xnddt = d[0] * (x2omi + xli - g22).cos()
            + d[1] * (xli - g22).cos()
            + d[2] * (xomi + xli - g32).cos()
            + d[3] * (-xomi + xli - g32).cos()
            + d[6] * (xomi + xli - g52).cos()
            + d[7] * (-xomi + xli - g52).cos()
            + 2.0
                * (d[4] * (x2omi + x2li - g44).cos()
                    + d[5] * (x2li - g44).cos()
                    + d[8] * (xomi + x2li - g54).cos()
                    + d[9] * (-xomi + x2li - g54).cos());
        (xldot, xndt, xnddt * xldot)
    }
}

/// Full model.  0 ok; 1 epoch eccentricity; 2 eccentricity; 3 perturbed eccentricity; 4 semi-latus rectum.
/// (atime0, xni0, xli0) is the resonance integrator state to start from when `resume` is set.
fn sgp4(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, gsto: f64, bstar: f64,
    inclo: f64, nodeo: f64, ecco: f64, argpo: f64, mo: f64, no: f64, t: f64, afspc: bool,
    resume: Option<[f64; 3]>, state_out: Option<&mut [f64; 3]>, mut low: Option<&mut [f64; 3]>, out: &mut Out,
) -> u32 {
    if ecco < 0.0 || ecco >= 1.0 {
        out[6] = ecco;
        return 1;
    }
    let j3oj2 = j3 / j2;
    // ---- initl
    let eccsq = ecco * ecco;
    let omeosq = 1.0 - eccsq;
    let rteosq = omeosq.sqrt();
    let cosio = inclo.cos();
    let sinio = inclo.sin();
    let cosio2 = cosio * cosio;
    let cosio4 = cosio2 * cosio2;
    let ao = (ke / no).powf(X2O3);
    let po = ao * omeosq;
    let posq = po * po;
    let con42 = 1.0 - 5.0 * cosio2;
    let con41 = -con42 - cosio2 - cosio2;
    let rp = ao * (1.0 - ecco);
    // ---- sgp4init
    let ss = 78.0 / ae + 1.0;
    let mut sfour = ss;
    let mut qzms24 = ((120.0 - 78.0) / ae).powi(4);
    let perige = (rp - 1.0) * ae;
    if perige < 156.0 {
        let mut s = perige - 78.0;
        if perige < 98.0 {
            s = 20.0;
        }
        qzms24 = ((120.0 - s) / ae).powi(4);
        sfour = s / ae + 1.0;
    }
    let pinvsq = 1.0 / posq;
    let tsi = 1.0 / (ao - sfour);
    let eta = ao * ecco * tsi;
    let etasq = eta * eta;
    let eeta = ecco * eta;
    let psisq = (1.0 - etasq).abs();
    let coef = qzms24 * tsi.powi(4);
    let coef1 = coef / psisq.powf(3.5);
    let cc2 = coef1 * no * (ao * (1.0 + 1.5 * etasq + eeta * (4.0 + etasq))
        + 0.375 * j2 * tsi / psisq * con41 * (8.0 + 3.0 * etasq * (8.0 + etasq)));
    let cc1 = bstar * cc2;
    let x1mth2 = 1.0 - cosio2;
    let cc4 = 2.0 * no * coef1 * ao * omeosq
        * (eta * (2.0 + 0.5 * etasq) + ecco * (0.5 + 2.0 * etasq)
            - j2 * tsi / (ao * psisq)
                * (-3.0 * con41 * (1.0 - 2.0 * eeta + etasq * (1.5 - 0.5 * eeta))
                    + 0.75 * x1mth2 * (2.0 * etasq - eeta * (1.0 + etasq)) * (2.0 * argpo).cos()));
    let temp1 = 1.5 * j2 * pinvsq * no;
    let temp2 = 0.5 * temp1 * j2 * pinvsq;
    let temp3 = -0.46875 * j4 * pinvsq * pinvsq * no;
    let mdot = no + 0.5 * temp1 * rteosq * con41 + 0.0625 * temp2 * rteosq * (13.0 - 78.0 * cosio2 + 137.0 * cosio4);
    let argpdot = -0.5 * temp1 * con42 + 0.0625 * temp2 * (7.0 - 114.0 * cosio2 + 395.0 * cosio4)
        + temp3 * (3.0 - 36.0 * cosio2 + 49.0 * cosio4);
    let xhdot1 = -temp1 * cosio;
    let nodedot = xhdot1 + (0.5 * temp2 * (4.0 - 19.0 * cosio2) + 2.0 * temp3 * (3.0 - 7.0 * cosio2)) * cosio;
    let nodecf = 3.5 * omeosq * xhdot1 * cc1;
    let t2cof = 1.5 * cc1;

    let t2 = t * t;
    let xp; // inclination
    let nodep;
    let ep;
    let argpp;
    let mp;
    let am;
    let aycof;
    let xlcof;
    let pcon41;
    let px1mth2;
    let px7thm1;

    if !(no > TWOPI / 225.0) {
        // ---- deep space
        let day = (epoch + 100.0) * 365.25;
        let sinim = sinio;
        let cosim = cosio;
        let snodm = nodeo.sin();
        let cnodm = nodeo.cos();
        let sinomm = argpo.sin();
        let cosomm = argpo.cos();
        let xnodce = (4.5236020 - 9.2422029e-4 * day) % TWOPI;
        let stem = xnodce.sin();
        let ctem = xnodce.cos();
        let zcosil = 0.91375164 - 0.03568096 * ctem;
        let zsinil = (1.0 - zcosil * zcosil).sqrt();
        let zsinhl = 0.089683511 * stem / zsinil;
        let zcoshl = (1.0 - zsinhl * zsinhl).sqrt();
        let gam = 5.8351514 + 0.0019443680 * day;
        let zx = 0.39785416 * stem / zsinil;
        let zy = zcoshl * ctem + 0.91744867 * zsinhl * stem;
        let zx = zx.atan2(zy);
        let zx = gam + zx - xnodce;
        let zcosgl = zx.cos();
        let zsingl = zx.sin();
        let zmos = (6.2565837 + 0.017201977 * day) % TWOPI;
        let zmol = (-1.1151842 + 0.228027132 * day) % TWOPI;
        let sun = dscom_pass(
            0.1945905, -0.98088458, 0.91744867, 0.39785416, cnodm, snodm,
            2.9864797e-6, ZNS, ZES, zmos, cosim, sinim, cosomm, sinomm, ecco, no,
        );
        let moon = dscom_pass(
            zcosgl, zsingl, zcosil, zsinil,
            zcoshl * cnodm + zsinhl * snodm, snodm * zcoshl - cnodm * zsinhl,
            4.7968065e-7, ZNL, ZEL, zmol, cosim, sinim, cosomm, sinomm, ecco, no,
        );
        // secular rates
        let dedt = sun.se + moon.se;
        let didt = sun.si + moon.si;
        let dmdt = sun.sl + moon.sl;
        let (dnodt, domdt) = if inclo < 5.2359877e-2 || inclo > PI - 5.2359877e-2 {
            (0.0, sun.sgh + moon.sgh)
        } else {
            let s = sun.sh / sinim;
            let l = moon.sh / sinim;
            (s + l, sun.sgh - cosim * s + moon.sgh - cosim * l)
        };
        let r = dsinit(no, ecco, inclo, sinim, cosim, mo, nodeo, argpo, gsto, ke, mdot, nodedot, argpdot, dmdt, domdt, dnodt);
        // secular update
        let argpm = argpo + (argpdot + domdt) * t;
        let nodem = nodeo + (nodedot + dnodt) * t + nodecf * t2;
        let inclm = inclo + didt * t;
        let (a, mm);
        if r.irez == 0 {
            a = ao;
            mm = mo + (mdot + dmdt) * t;
        } else {
            let theta = (gsto + t * RPTIM) % TWOPI;
            let (mut atime, mut xni, mut xli) = match resume {
                Some(s) => (s[0], s[1], s[2]),
                None => (0.0, no, r.xlamo),
            };
            let delt = if t > 0.0 { 720.0 } else { -720.0 };
            let step2 = 259200.0;
            let (mut xldot, mut xndt, mut xnddt) = dspace_rates(&r, argpo, argpdot, atime, xni, xli);
            while if t > 0.0 { !(t - atime < 720.0) } else { !(t - atime > -720.0) } {
                xli = xli + xldot * delt + xndt * step2;
                xni = xni + xndt * delt + xnddt * step2;
                atime += delt;
                let q = dspace_rates(&r, argpo, argpdot, atime, xni, xli);
                xldot = q.0;
                xndt = q.1;
                xnddt = q.2;
            }
            if let Some(s) = state_out {
                s[0] = atime;
                s[1] = xni;
                s[2] = xli;
            }
            let ft = t - atime;
            let nm = xni + xndt * ft + xnddt * ft * ft * 0.5;
            let xl = xli + xldot * ft + xndt * ft * ft * 0.5;
            mm = if r.irez == 1 { xl - nodem - argpm + theta } else { xl - 2.0 * nodem + 2.0 * theta };
            a = (ke / nm).powf(X2O3);
        }
        // periodics
        let (ses, sis, sls, sghs, shs) = dpper_body(&sun, ZNS, ZES, t);
        let (sel, sil, sll, sghl, shll) = dpper_body(&moon, ZNL, ZEL, t);
        let pe = ses + sel;
        let pinc = sis + sil;
        let pl = sls + sll;
        let pgh = sghs + sghl;
        let ph = shs + shll;
        let inclp = inclm + pinc;
        if let Some(l) = low.as_mut() {
            l[0] = inclp;
            l[1] = nodem % TWOPI;
        }
        let sinip = inclp.sin();
        let cosip = inclp.cos();
        if inclp >= 0.2 {
            let ph = ph / sinip;
            argpp = argpm + (pgh - cosip * ph);
            nodep = nodem + ph;
        } else {
            let sinop = nodem.sin();
            let cosop = nodem.cos();
            let alfdp = sinip * sinop + (ph * cosop + pinc * cosip * sinop);
            let betdp = sinip * cosop + (-ph * sinop + pinc * cosip * cosop);
            let xnoh = nodem % TWOPI;
            let mut node = alfdp.atan2(betdp);
            if node < xnoh - PI {
                node += TWOPI;
            } else if node > xnoh + PI {
                node -= TWOPI;
            }
            // argument of perigee: the AFSPC flavour uses the node reduced to [0, 2pi)
            // in the inclination term, the improved flavour keeps the sign
            let xnoh_dls = if afspc {
                if xnoh < 0.0 { xnoh + TWOPI } else { xnoh }
            } else {
                xnoh
            };
            argpp = argpm + pgh + cosip * (xnoh - node) - pinc * xnoh_dls * sinip;
            nodep = node;
        }
        if let Some(l) = low.as_mut() {
            l[2] = argpp;
        }
        let em = ecco + dedt * t - bstar * cc4 * t;
        if em < -0.001 || em >= 1.0 {
            out[6] = em;
            out[7] = t;
            return 2;
        }
        let em = if em < 1.0e-6 { 1.0e-6 } else { em };
        let tempa = 1.0 - cc1 * t;
        am = a * tempa * tempa;
        let mm = mm + no * (t2cof * t2);
        ep = em + pe;
        if ep < 0.0 || ep > 1.0 {
            out[6] = ep;
            out[7] = t;
            return 3;
        }
        mp = mm + pl;
        xp = inclp;
        aycof = -0.5 * j3oj2 * sinip;
        xlcof = if (cosip + 1.0).abs() > 1.5e-12 {
            -0.25 * j3oj2 * sinip * (3.0 + 5.0 * cosip) / (1.0 + cosip)
        } else {
            -0.25 * j3oj2 * sinip * (3.0 + 5.0 * cosip) / 1.5e-12
        };
        let cosisq = cosip * cosip;
        pcon41 = 3.0 * cosisq - 1.0;
        px1mth2 = 1.0 - cosisq;
        px7thm1 = 7.0 * cosisq - 1.0;
    } else {
        // ---- near earth
        let xmdf = mo + mdot * t;
        let argpdf = argpo + argpdot * t;
        let nodedf = nodeo + nodedot * t;
        let mut argpm = argpdf;
        let mut mm = xmdf;
        nodep = nodedf + nodecf * t2;
        let mut tempa = 1.0 - cc1 * t;
        let mut tempe = bstar * cc4 * t;
        let mut templ = t2cof * t2;
        let isimp = rp < 220.0 / ae + 1.0;
        if !isimp {
            let cc1sq = cc1 * cc1;
            let d2 = 4.0 * ao * tsi * cc1sq;
            let temp = d2 * tsi * cc1 / 3.0;
            let d3 = (17.0 * ao + sfour) * temp;
            let d4 = 0.5 * temp * ao * tsi * (221.0 * ao + 31.0 * sfour) * cc1;
            let t3cof = d2 + 2.0 * cc1sq;
            let t4cof = 0.25 * (3.0 * d3 + cc1 * (12.0 * d2 + 10.0 * cc1sq));
            let t5cof = 0.2 * (3.0 * d4 + 12.0 * cc1 * d3 + 6.0 * d2 * d2 + 15.0 * cc1sq * (2.0 * d2 + cc1sq));
            let cc5 = 2.0 * coef1 * ao * omeosq * (1.0 + 2.75 * (etasq + eeta) + eeta * etasq);
            let (mut omgcof, mut xmcof) = (0.0, 0.0);
            if ecco > 1.0e-4 {
                let cc3 = -2.0 * coef * tsi * j3oj2 * no * sinio / ecco;
                omgcof = bstar * cc3 * argpo.cos();
                xmcof = -2.0 / 3.0 * coef * bstar / eeta;
            }
            let delmo = (1.0 + eta * mo.cos()).powi(3);
            let sinmao = mo.sin();
            let delomg = omgcof * t;
            let delm = xmcof * ((1.0 + eta * xmdf.cos()).powi(3) - delmo);
            let temp = delomg + delm;
            mm = xmdf + temp;
            argpm = argpdf - temp;
            let t3 = t2 * t;
            let t4 = t3 * t;
            tempa = tempa - d2 * t2 - d3 * t3 - d4 * t4;
            tempe = tempe + bstar * cc5 * (mm.sin() - sinmao);
            templ = templ + t3cof * t3 + t4 * (t4cof + t * t5cof);
        }
        am = ao * tempa * tempa;
        let em = ecco - tempe;
        if em >= 1.0 || em < -0.001 {
            out[6] = em;
            out[7] = t;
            return 2;
        }
        ep = if em < 1.0e-6 { 1.0e-6 } else { em };
        mp = mm + no * templ;
        argpp = argpm;
        xp = inclo;
        aycof = -0.5 * j3oj2 * sinio;
        xlcof = if (cosio + 1.0).abs() > 1.5e-12 {
            -0.25 * j3oj2 * sinio * (3.0 + 5.0 * cosio) / (1.0 + cosio)
        } else {
            -0.25 * j3oj2 * sinio * (3.0 + 5.0 * cosio) / 1.5e-12
        };
        pcon41 = con41;
        px1mth2 = x1mth2;
        px7thm1 = 7.0 * cosio2 - 1.0;
    }
    let nm = ke / am.powf(1.5);

    // ---- long period periodics
    let axnl = ep * argpp.cos();
    let temp = 1.0 / (am * (1.0 - ep * ep));
    let aynl = ep * argpp.sin() + temp * aycof;
    let xl = mp + argpp + temp * xlcof * axnl;

    // ---- Kepler's equation
    let u = xl % TWOPI;
    let mut eo1 = u;
    let mut ktr = 1;
    while ktr <= 10 {
        let sineo1 = eo1.sin();
        let coseo1 = eo1.cos();
        let mut tem5 = (u - aynl * coseo1 + axnl * sineo1 - eo1) / (1.0 - coseo1 * axnl - sineo1 * aynl);
        if tem5.abs() < 1.0e-12 {
            break;
        }
        if tem5 < -0.95 {
            tem5 = -0.95;
        }
        if tem5 > 0.95 {
            tem5 = 0.95;
        }
        eo1 += tem5;
        ktr += 1;
    }
    let sineo1 = eo1.sin();
    let coseo1 = eo1.cos();

    // ---- short period preliminary quantities
    let ecose = axnl * coseo1 + aynl * sineo1;
    let esine = axnl * sineo1 - aynl * coseo1;
    let el2 = axnl * axnl + aynl * aynl;
    let pl = am * (1.0 - el2);
    if pl < 0.0 {
        out[7] = t;
        return 4;
    }
    let rl = am * (1.0 - ecose);
    let rdotl = am.sqrt() * esine / rl;
    let rvdotl = pl.sqrt() / rl;
    let betal = (1.0 - el2).sqrt();
    let temp = esine / (1.0 + betal);
    let sinu = am / rl * (sineo1 - aynl - axnl * temp);
    let cosu = am / rl * (coseo1 - axnl + aynl * temp);
    let su = sinu.atan2(cosu);
    let sin2u = (cosu + cosu) * sinu;
    let cos2u = 1.0 - 2.0 * sinu * sinu;
    let temp = 1.0 / pl;
    let temp1 = 0.5 * j2 * temp;
    let temp2 = temp1 * temp;
    let cosip = xp.cos();
    let sinip = xp.sin();
    let mrt = rl * (1.0 - 1.5 * temp2 * betal * pcon41) + 0.5 * temp1 * px1mth2 * cos2u;
    let su = su - 0.25 * temp2 * px7thm1 * sin2u;
    let xnode = nodep + 1.5 * temp2 * cosip * sin2u;
    let xinc = xp + 1.5 * temp2 * cosip * sinip * cos2u;
    let mvt = rdotl - nm * temp1 * px1mth2 * sin2u / ke;
    let rvdot = rvdotl + nm * temp1 * (px1mth2 * cos2u + 1.5 * pcon41) / ke;

    // ---- orientation vectors
    let sinsu = su.sin();
    let cossu = su.cos();
    let snod = xnode.sin();
    let cnod = xnode.cos();
    let sini = xinc.sin();
    let cosi = xinc.cos();
    let xmx = -snod * cosi;
    let xmy = cnod * cosi;
    let ux = xmx * sinsu + cnod * cossu;
    let uy = xmy * sinsu + snod * cossu;
    let uz = sini * sinsu;
    let vx = xmx * cossu - cnod * sinsu;
    let vy = xmy * cossu - snod * sinsu;
    let vz = sini * cossu;
    let vkmpersec = ae * ke / 60.0;
    out[0] = mrt * ux * ae;
    out[1] = mrt * uy * ae;
    out[2] = mrt * uz * ae;
    out[3] = (mvt * ux + rvdot * vx) * vkmpersec;
    out[4] = (mvt * uy + rvdot * vy) * vkmpersec;
    out[5] = (mvt * uz + rvdot * vz) * vkmpersec;
    0
}

#[no_mangle]
pub extern "C" fn spec_propagate(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, theta: f64, drag: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, t: f64, afspc: bool, out: &mut Out,
) -> u32 {
    sgp4(ae, ke, j2, j3, j4, epoch, theta, drag, inc, ra, e, w, m, n, t, afspc, None, None, None, out)
}

#[no_mangle]
pub extern "C" fn spec_propagate_from(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, theta: f64, drag: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, t: f64, afspc: bool, state: &mut [f64; 3], out: &mut Out,
) -> u32 {
    let s = *state;
    sgp4(ae, ke, j2, j3, j4, epoch, theta, drag, inc, ra, e, w, m, n, t, afspc, Some(s), Some(state), None, out)
}

/// Perturbed inclination, reduced node and corrected perigee of a deep-space orbit (only written in that case).
#[no_mangle]
pub extern "C" fn spec_low(
    ae: f64, ke: f64, j2: f64, j3: f64, j4: f64, epoch: f64, theta: f64, drag: f64,
    inc: f64, ra: f64, e: f64, w: f64, m: f64, n: f64, t: f64, afspc: bool, low: &mut [f64; 3], out: &mut Out,
) -> u32 {
    sgp4(ae, ke, j2, j3, j4, epoch, theta, drag, inc, ra, e, w, m, n, t, afspc, None, None, Some(low), out)
}

/// IAU 1982 Greenwich mean sidereal time (rad) from Julian years since J2000, before reduction.
#[no_mangle]
pub extern "C" fn spec_iau(epoch: f64) -> f64 {
    let tut1 = epoch / 100.0;
    let temp = -6.2e-6 * tut1 * tut1 * tut1 + 0.093104 * tut1 * tut1
        + (876600.0 * 3600.0 + 8640184.812866) * tut1 + 67310.54841;
    temp * (PI / 180.0) / 240.0
}

/// AFSPC sidereal time before reduction (days since 1970 formulation).
#[no_mangle]
pub extern "C" fn spec_afspc(epoch: f64) -> f64 {
    // ds50 days for 1970 Jan 0: ts70 = days since 1950 - 7305
    let ts70 = epoch * 365.25 + 10958.5;
    let ds70 = (ts70 + 1.0e-8).floor();
    let tfrac = ts70 - ds70;
    let c1 = 1.72027916940703639e-2;
    let thgr70 = 1.7321343856509374;
    let fk5r = 5.07551419432269442e-15;
    let c1p2p = c1 + TWOPI;
    thgr70 + c1 * ds70 + c1p2p * tfrac + ts70 * ts70 * fk5r
}
