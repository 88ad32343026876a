//! M01-M04: interpolation, the option formula and the root finder.

use crate::fw::{close, Case, Ctx, Prop};
use crate::nref::*;
use crate::p_dates::dj;
use crate::rng::Rng;
use quantmath::core::qm;
use quantmath::dates::Date;
use quantmath::math::brent::zbrent;
use quantmath::math::interpolation::*;
use quantmath::math::optionpricing::Black76;

fn gen_points(r: &mut Rng, max: usize) -> Vec<(f64, f64)> {
    let n = 1 + r.size(max, 60);
    let mut x = r.f(-50.0, 50.0);
    let yscale = *r.pick(&[0.01, 1.0, 1000.0]);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push((x, r.f(-yscale, yscale)));
        x += match r.below(3) { 0 => r.f(0.1, 1.0), 1 => r.f(1.0, 20.0), _ => 1.0 };
    }
    v
}

fn compare(c: &mut Case, name: &str, got: Result<f64, qm::Error>, want: Option<f64>, scale: f64, x: f64) {
    match (got, want) {
        (Ok(g), Some(w)) => c.check(name, (g.is_nan() && w.is_nan()) || close(g, w, 1e-10, 1e-9 * scale),
            || format!("at {}: got {} want {}", x, g, w)),
        (Err(_), None) => c.ev("error where expected"),
        (Ok(g), None) => c.fail(format!("{} at {}: got {} where an error is expected", name, x, g)),
        (Err(e), Some(w)) => c.fail(format!("{} at {}: error {} where {} is expected", name, x, e, w))
    }
}

fn pick_x(r: &mut Rng, p: &[(f64, f64)]) -> f64 {
    let n = p.len();
    let (lo, hi) = (p[0].0, p[n - 1].0);
    match r.below(5) {
        0 => p[r.below(n)].0,
        1 => lo - r.f(0.001, 30.0),
        2 => hi + r.f(0.001, 30.0),
        3 => { let i = r.below(n); let j = (i + 1).min(n - 1); r.f(p[i].0, p[j].0) }
        _ => r.f(lo, hi)
    }
}

/// JSON numbers can come back one unit in the last place away, so stay off the knots
fn off_knot(r: &mut Rng, p: &[(f64, f64)]) -> f64 {
    loop {
        let x = pick_x(r, p);
        if p.iter().all(|q| (q.0 - x).abs() > 1e-9) { return x }
        if p.len() == 1 { return p[0].0 - 1.0 }
    }
}

/// somewhere along the points, often close to one of them but never at it
fn close_x(r: &mut Rng, p: &[(f64, f64)]) -> f64 {
    let i = r.below(p.len());
    let gap = if i + 1 < p.len() { p[i + 1].0 - p[i].0 } else if i > 0 { p[i].0 - p[i - 1].0 } else { 1.0 };
    let t = *r.pick(&[0.002, 0.01, 0.1, 0.4]) * r.f(0.5, 1.0);
    if r.chance(0.5) { p[i].0 + t * gap } else { p[i].0 - t * if i > 0 { p[i].0 - p[i - 1].0 } else { gap } }
}

/// the same points with the axis measured in another unit: a power of two, so nothing is rounded
fn rescaled(r: &mut Rng, p: &mut [(f64, f64)]) -> f64 {
    let unit = 2f64.powi(r.int(-30, 20));
    // without this the positions cannot be told apart well at the smallest unit
    let x0 = p[0].0;
    for q in p.iter_mut() { q.0 = (q.0 - x0).round().max(0.0) }
    for i in 1..p.len() { if p[i].0 <= p[i - 1].0 { p[i].0 = p[i - 1].0 + 1.0 } }
    for q in p.iter_mut() { q.0 *= unit }
    unit
}

fn m01(ctx: &mut Ctx) {
    ctx.group("units", 150_000, 1_000_000, |c| {
        // whatever the unit of the axis
        let mut p = gen_points(&mut c.rng, 8);
        let unit = rescaled(&mut c.rng, &mut p);
        let (l, r) = (*c.rng.pick(&Ex::ALL), *c.rng.pick(&Ex::ALL));
        c.note(format!("points {:?} left {:?} right {:?}", p, l, r));
        let lin = c.ok("building", Linear::new(&p, l.real(), r.real()));
        let fly = FlyweightLinear::<f64>::new(l.real(), r.real());
        let scale = p.iter().fold(0.0f64, |a, b| a.max(b.1.abs()));
        for _ in 0..6 {
            let x = if p.len() > 1 { close_x(&mut c.rng, &p) } else { p[0].0 + unit * c.rng.f(-3.0, 3.0) };
            let want = linear(&p, l, r, x);
            compare(c, "linear in any unit", lin.interpolate(x), want, scale, x);
            compare(c, "flyweight linear in any unit", fly.interpolate(x, &p), want, scale, x);
        }
        c.sig(&format!("{:?}{:?}{:?}", p, l, r));
    });
    ctx.group("linear", 900000, 2_000_000, |c| {
        let p = gen_points(&mut c.rng, 8);
        let (l, r) = (*c.rng.pick(&Ex::ALL), *c.rng.pick(&Ex::ALL));
        c.note(format!("points {:?} left {:?} right {:?}", p, l, r));
        let lin = c.ok("building", Linear::new(&p, l.real(), r.real()));
        let fly = FlyweightLinear::<f64>::new(l.real(), r.real());
        let scale = p.iter().fold(0.0f64, |a, b| a.max(b.1.abs())) * 1e3;
        for _ in 0..6 {
            let x = pick_x(&mut c.rng, &p);
            let want = linear(&p, l, r, x);
            compare(c, "linear", lin.interpolate(x), want, scale, x);
            compare(c, "flyweight linear", fly.interpolate(x, &p), want, scale, x);
            if x < p[0].0 { c.ev("left of range") } else if x > p[p.len() - 1].0 { c.ev("right of range") } else { c.ev("inside range") }
        }
        // through JSON
        if c.idx % 16 == 0 {
            let js = serde_json::to_string(&lin).unwrap();
            match serde_json::from_str::<Linear<f64>>(&js) {
                Ok(l2) => { let x = off_knot(&mut c.rng, &p);
                    compare(c, "linear after json", l2.interpolate(x), linear(&p, l, r, x), scale, x); }
                Err(e) => c.fail(format!("json {}: {}", js, e))
            }
        }
        if p.len() > 1 { c.sig(&format!("{:?}{:?}{:?}", p, l, r)) }
        c.sample(format!("{:?} {:?}/{:?}", p, l, r));
    });
    ctx.group("dates", 200000, 500_000, |c| {
        // the same with dates and integers along the axis
        let n = 1 + c.rng.below(6);
        let mut j = c.rng.int(1000, 60000);
        let mut p = Vec::new();
        for _ in 0..n { p.push((j, c.rng.f(-1.0, 1.0))); j += c.rng.int(1, 300); }
        let (l, r) = (*c.rng.pick(&Ex::ALL), *c.rng.pick(&Ex::ALL));
        let pd: Vec<(Date, f64)> = p.iter().map(|q| (dj(q.0), q.1)).collect();
        let pf: Vec<(f64, f64)> = p.iter().map(|q| (q.0 as f64, q.1)).collect();
        c.note(format!("points {:?} {:?} {:?}", pd, l, r));
        let lin = c.ok("building", Linear::new(&pd, l.real(), r.real()));
        let lini = c.ok("building", Linear::new(&p, l.real(), r.real()));
        for _ in 0..5 {
            let x = pick_x(&mut c.rng, &pf).round();
            let want = linear(&pf, l, r, x);
            compare(c, "linear over dates", lin.interpolate(dj(x as i32)), want, 1e3, x);
            compare(c, "linear over integers", lini.interpolate(x as i32), want, 1e3, x);
        }
        c.sig(&format!("{:?}{:?}{:?}", p, l, r));
    });
    ctx.group("rejects", 20_000, 500_000, |c| {
        let mut p = gen_points(&mut c.rng, 6);
        let kind = c.rng.below(4);
        match kind {
            0 => p.clear(),
            1 => { let i = c.rng.below(p.len()); let q = p[i]; p.insert(i, q) }
            2 => { if p.len() < 2 { p.push((p[0].0 + 1.0, 0.0)) } let i = c.rng.below(p.len() - 1); p.swap(i, i + 1) }
            _ => { if p.len() < 2 { p.push((p[0].0 + 1.0, 0.0)) } let i = c.rng.below(p.len()); p[i].0 = f64::NAN }
        }
        c.note(format!("{:?}", p));
        c.check("bad abscissae rejected", validate_abscissae(&p).is_err(), || "accepted".into());
        c.check("bad points rejected", Linear::new(&p, Extrap::Flat, Extrap::Flat).is_err(), || "accepted".into());
        if kind == 0 {
            c.check("no points is an error", FlyweightLinear::<f64>::new(Extrap::Flat, Extrap::Flat).interpolate(1.0, &p).is_err(), || "".into());
        }
        c.sig(&format!("{:?}", p));
    });
}

fn m02(ctx: &mut Ctx) {
    ctx.group("units", 80_000, 500_000, |c| {
        // whatever the unit of the axis
        let mut p = gen_points(&mut c.rng, 8);
        let unit = rescaled(&mut c.rng, &mut p);
        let (l, r) = (*c.rng.pick(&Ex::ALL), *c.rng.pick(&Ex::ALL));
        c.note(format!("points {:?} left {:?} right {:?}", p, l, r));
        let s = c.ok("building", CubicSpline::new(&p, l.real(), r.real()));
        let want = Spline::new(&p, l, r);
        for _ in 0..6 {
            let x = if p.len() > 1 { close_x(&mut c.rng, &p) } else { p[0].0 + unit * c.rng.f(-3.0, 3.0) };
            compare(c, "spline in any unit", s.interpolate(x), want.eval(x), want.scale(x), x);
        }
        c.sig(&format!("{:?}{:?}{:?}", p, l, r));
    });
    ctx.group("spline", 480000, 1_000_000, |c| {
        let p = gen_points(&mut c.rng, 8);
        let (l, r) = (*c.rng.pick(&Ex::ALL), *c.rng.pick(&Ex::ALL));
        c.note(format!("points {:?} left {:?} right {:?}", p, l, r));
        let s = c.ok("building", CubicSpline::new(&p, l.real(), r.real()));
        let want = Spline::new(&p, l, r);
        for _ in 0..6 {
            let x = pick_x(&mut c.rng, &p);
            let scale = want.scale(x);
            compare(c, "spline", s.interpolate(x), want.eval(x), scale, x);
            if x < p[0].0 { c.ev("left of range") } else if x > p[p.len() - 1].0 { c.ev("right of range") } else { c.ev("inside range") }
        }
        // each knot exactly
        for q in p.iter() {
            match s.interpolate(q.0) {
                Ok(y) => c.check("knot", close(y, q.1, 1e-12, 0.0), || format!("{:?} gives {}", q, y)),
                Err(e) => c.fail(format!("knot {:?}: {}", q, e))
            }
        }
        if c.idx % 16 == 0 {
            let js = serde_json::to_string(&s).unwrap();
            match serde_json::from_str::<CubicSpline<f64>>(&js) {
                Ok(s2) => { let x = off_knot(&mut c.rng, &p);
                    let w2 = Spline::new(&p, l, r);
                    compare(c, "spline after json", s2.interpolate(x), w2.eval(x), w2.scale(x), x); }
                Err(e) => c.fail(format!("json {}: {}", js, e))
            }
        }
        if p.len() > 2 { c.sig(&format!("{:?}{:?}{:?}", p, l, r)) }
        if p.len() == 1 { c.ev("single knot") }
        c.sample(format!("{:?} {:?}/{:?}", p, l, r));
    });
    ctx.group("smoothness", 100000, 300_000, |c| {
        // derivatives from values of the library's own spline: continuous at every
        // interior knot, and the end conditions hold
        let mut p = gen_points(&mut c.rng, 7);
        while p.len() < 3 { let x = p[p.len() - 1].0 + c.rng.f(0.5, 3.0); p.push((x, c.rng.f(-1.0, 1.0))) }
        let ymax = p.iter().fold(0.0f64, |a, b| a.max(b.1.abs()));
        let (l, r) = (*c.rng.pick(&[Ex::Flat, Ex::Natural]), *c.rng.pick(&[Ex::Flat, Ex::Natural]));
        c.note(format!("points {:?} left {:?} right {:?}", p, l, r));
        let s = c.ok("building", CubicSpline::new(&p, l.real(), r.real()));
        let n = p.len();
        // a cubic is determined by four values in its segment
        let coef = |i: usize, c: &mut Case| -> [f64; 4] {
            let (a, b) = (p[i].0, p[i + 1].0);
            let h = b - a;
            let t = [0.0, 1.0 / 3.0, 2.0 / 3.0, 1.0];
            let y: Vec<f64> = t.iter().map(|t| { let x = if *t == 1.0 { b } else { a + t * h }; c.ok("evaluating", s.interpolate(x)) }).collect();
            let m: Vec<Vec<f64>> = t.iter().map(|t| vec![1.0, *t, t * t, t * t * t]).collect();
            let k = solve(m, y);
            [k[0], k[1] / h, k[2] / (h * h), k[3] / (h * h * h)]
        };
        let ks: Vec<[f64; 4]> = (0..n - 1).map(|i| coef(i, c)).collect();
        let hmin = (1..n).fold(f64::INFINITY, |m, i| m.min(p[i].0 - p[i - 1].0));
        // scale of derivatives, including how strongly small gaps amplify
        let amp = ks.iter().fold(ymax, |m, k| m.max(k[1].abs() * hmin).max(k[2].abs() * hmin * hmin));
        for i in 1..n - 1 {
            let h = p[i].0 - p[i - 1].0;
            let (k, q) = (ks[i - 1], ks[i]);
            let d1 = k[1] + 2.0 * k[2] * h + 3.0 * k[3] * h * h;
            let d2 = 2.0 * k[2] + 6.0 * k[3] * h;
            c.check("first derivative continuous", close(d1, q[1], 1e-7, 1e-8 * amp / hmin), || format!("knot {}: {} vs {}", i, d1, q[1]));
            c.check("second derivative continuous", close(d2, 2.0 * q[2], 1e-6, 1e-7 * amp / hmin / hmin), || format!("knot {}: {} vs {}", i, d2, 2.0 * q[2]));
        }
        let h = p[n - 1].0 - p[n - 2].0;
        let z = ks[n - 2];
        let (l1, l2) = (ks[0][1], 2.0 * ks[0][2]);
        let (r1, r2) = (z[1] + 2.0 * z[2] * h + 3.0 * z[3] * h * h, 2.0 * z[2] + 6.0 * z[3] * h);
        if l == Ex::Natural { c.check("natural left end", l2.abs() <= 1e-6 * amp / hmin / hmin, || format!("{}", l2)) }
        else { c.check("clamped left end", l1.abs() <= 1e-7 * amp / hmin, || format!("{}", l1)) }
        if r == Ex::Natural { c.check("natural right end", r2.abs() <= 1e-6 * amp / hmin / hmin, || format!("{}", r2)) }
        else { c.check("clamped right end", r1.abs() <= 1e-7 * amp / hmin, || format!("{}", r1)) }
        c.sig(&format!("{:?}{:?}{:?}", p, l, r));
    });
    ctx.group("lines", 100000, 300_000, |c| {
        let mut p = gen_points(&mut c.rng, 8);
        let (a, b) = (c.rng.f(-3.0, 3.0), c.rng.f(-3.0, 3.0));
        for q in p.iter_mut() { q.1 = a + b * q.0 }
        c.note(format!("line {} + {} x over {:?}", a, b, p));
        let s = c.ok("building", CubicSpline::new(&p, Extrap::Natural, Extrap::Natural));
        if p.len() < 2 { return }
        for _ in 0..5 {
            let x = pick_x(&mut c.rng, &p);
            let y = c.ok("evaluating", s.interpolate(x));
            let inside = x >= p[0].0 && x <= p[p.len() - 1].0;
            c.close("straight line reproduced", y, a + b * x, 1e-10, if inside { 1e-8 } else { 1e-4 });
        }
        c.sig(&format!("{:?}", p));
    });
    ctx.group("rejects", 5_000, 100_000, |c| {
        let mut p = gen_points(&mut c.rng, 6);
        match c.rng.below(3) {
            0 => p.clear(),
            1 => { let i = c.rng.below(p.len()); let q = p[i]; p.insert(i, q) }
            _ => { if p.len() < 2 { p.push((p[0].0 + 1.0, 0.0)) } let i = c.rng.below(p.len() - 1); p.swap(i, i + 1) }
        }
        c.check("bad points rejected", CubicSpline::new(&p, Extrap::Flat, Extrap::Flat).is_err(), || format!("{:?} accepted", p));
    });
}

fn m03(ctx: &mut Ctx) {
    ctx.group("black", 1200000, 3_000_000, |c| {
        let b = c.ok("building", Black76::new());
        let r = &mut c.rng;
        let f = match r.below(4) { 0 => 100.0, 1 => r.f(1e-3, 1.0), 2 => r.f(1.0, 200.0), _ => r.f(100.0, 1e5) };
        let k = match r.below(6) { 0 => f, 1 => f * (1.0 + r.f(-1e-9, 1e-9)), 2 => 0.0, 3 => f * r.f(0.001, 0.2), 4 => f * r.f(5.0, 100.0), _ => f * r.f(0.3, 2.5) };
        let sd = match r.below(6) { 0 => 0.0, 1 => r.f(0.0, 1e-6), 2 => r.f(0.0, 0.05), 3 => r.f(1.0, 8.0), 4 => 1e-200, _ => r.f(0.05, 1.0) };
        let df = match r.below(3) { 0 => 1.0, 1 => r.f(0.01, 1.0), _ => r.f(1.0, 1.2) };
        c.note(format!("df {} forward {} strike {} deviation {}", df, f, k, sd));
        let (call, put) = (b.call_price(df, f, k, sd), b.put_price(df, f, k, sd));
        let s = df * (f + k);
        c.check("finite", call.is_finite() && put.is_finite(), || format!("call {} put {}", call, put));
        c.close("call value", call, black(true, df, f, k, sd), 1e-10, 1e-9 * s);
        c.close("put value", put, black(false, df, f, k, sd), 1e-10, 1e-9 * s);
        c.close("parity", call - put, df * (f - k), 1e-10, 1e-9 * s);
        c.check("bounds", call >= df * (f - k).max(0.0) - 1e-9 * s && call <= df * f + 1e-9 * s
            && put >= df * (k - f).max(0.0) - 1e-9 * s && put <= df * k + 1e-9 * s, || format!("call {} put {}", call, put));
        if sd == 0.0 { c.ev("zero deviation"); if k == f { c.ev("zero deviation at the money") } }
        // monotone in strike, forward, deviation
        let e = c.rng.f(0.0, 0.2);
        let (k2, f2, sd2) = (k + e * f, f * (1.0 + e), sd + e);
        let t = 1e-9 * (s + df * (f2 + k2));
        c.check("call falls with strike", b.call_price(df, f, k2, sd) <= call + t, || format!("to {}", k2));
        c.check("put rises with strike", b.put_price(df, f, k2, sd) >= put - t, || format!("to {}", k2));
        c.check("call rises with forward", b.call_price(df, f2, k, sd) >= call - t, || format!("to {}", f2));
        c.check("put falls with forward", b.put_price(df, f2, k, sd) <= put + t, || format!("to {}", f2));
        c.check("call rises with deviation", b.call_price(df, f, k, sd2) >= call - t, || format!("to {}", sd2));
        c.check("put rises with deviation", b.put_price(df, f, k, sd2) >= put - t, || format!("to {}", sd2));
        let x = c.rng.f(-9.0, 9.0);
        c.close("normal distribution", b.cdf(x), ncdf(x), 0.0, 1e-9);
        if sd > 0.0 && k > 0.0 { c.sig(&format!("{}{}{}{}", df, f, k, sd)) }
        c.sample(format!("df {} forward {} strike {} deviation {}: call {} put {}", df, f, k, sd, call, put));
    });
}

#[derive(Clone, Debug)]
enum Fun { Poly(f64, i32), Atan(f64, f64), Exp(f64, f64), Sin(f64, f64), Log(f64, f64), Flat(f64, f64), Tanh(f64, f64), Wiggle(f64, f64), Kink(f64, f64, f64), Step(f64, f64) }

impl Fun {
    fn eval(&self, x: f64) -> f64 {
        match *self {
            Fun::Poly(r, n) => (x - r).powi(n),
            Fun::Atan(r, s) => ((x - r) * s).atan(),
            Fun::Exp(r, s) => ((x - r) * s).exp() - 1.0,
            Fun::Sin(r, s) => ((x - r) * s).sin(),
            Fun::Log(r, s) => { let u = 1.0 + (x - r) * s; if u > 1e-9 { u.ln() } else { -30.0 + u } },
            Fun::Flat(r, s) => { let u = (x - r) * s; u * (-1.0 / (u * u + 1e-300)).exp() + 1e-12 * u },
            Fun::Tanh(r, s) => ((x - r) * s).tanh(),
            Fun::Wiggle(r, s) => (x - r) + 0.9 * ((x - r) * s).sin() / s,
            Fun::Kink(r, s, t) => if x < r { (x - r) * s } else { (x - r) * t },
            Fun::Step(r, s) => if x < r { -s } else { 1.0 }
        }
    }
}

fn m04(ctx: &mut Ctx) {
    ctx.group("root", 240000, 2_000_000, |c| {
        let rr = &mut c.rng;
        let (a, b) = match rr.below(3) { 0 => (0.0, 1.0), 1 => (rr.f(-10.0, 0.0), rr.f(0.1, 10.0)), _ => (rr.f(-1e3, 0.0), rr.f(1.0, 1e4)) };
        let w = b - a;
        let root = match rr.below(6) { 0 => a, 1 => b, 2 => a + w * rr.f(0.0, 1e-3), _ => a + w * rr.unit() };
        let s = match rr.below(3) { 0 => rr.f(0.1, 10.0) / w, 1 => rr.f(10.0, 1000.0) / w, _ => rr.f(0.01, 1.0) / w };
        let f = match rr.below(10) {
            0 => Fun::Poly(root, *rr.pick(&[1, 3, 5, 9])), 1 => Fun::Atan(root, s), 2 => Fun::Exp(root, s.min(300.0 / w)), 3 => Fun::Sin(root, s),
            4 => Fun::Log(root, s), 5 => Fun::Flat(root, s), 6 => Fun::Tanh(root, s), 7 => Fun::Wiggle(root, s * 5.0),
            8 => Fun::Kink(root, rr.f(1e-3, 1e3), rr.f(1e-3, 1e3)), _ => Fun::Step(root, rr.f(1e-3, 1e3)) };
        let sign = if rr.chance(0.5) { 1.0 } else { -1.0 };
        let tol = *rr.pick(&[1e-4, 1e-8, 1e-12, 0.0]);
        let (x1, x2) = if rr.chance(0.3) { (b, a) } else { (a, b) };
        let fuel = match rr.below(5) { 0 => rr.int(0, 12) as u32, _ => 20_000 };
        let fail_at = if rr.chance(0.15) { Some(rr.below(12)) } else { None };
        c.note(format!("{:?} sign {} on [{}, {}] tol {} max_iter {} fail_at {:?}", f, sign, x1, x2, tol, fuel, fail_at));
        let mut seen: Vec<(f64, f64)> = Vec::new();
        let mut failed = false;
        let res = zbrent(x1, x2, tol, fuel, &mut |x: f64| {
            if fail_at == Some(seen.len()) { failed = true; return Err(qm::Error::new("injected")) }
            let y = sign * f.eval(x);
            seen.push((x, y));
            Ok(y)
        });
        c.evn("function evaluations observed", seen.len() as u64);
        let slack = 4.0 * f64::EPSILON * a.abs().max(b.abs());
        for (x, _) in seen.iter() {
            if !(*x >= a - slack && *x <= b + slack) { c.abort(format!("evaluated outside the bracket, at {}", x)) }
        }
        let (fa, fb) = (sign * f.eval(x1), sign * f.eval(x2));
        let bracketed = !((fa > 0.0 && fb > 0.0) || (fa < 0.0 && fb < 0.0));
        if failed {
            c.check("function failure reported", res.is_err(), || format!("{:?}", res.as_ref().ok()));
        } else if !bracketed {
            c.check("unbracketed root reported", res.is_err(), || format!("{:?}", res.as_ref().ok()));
        } else {
            match res {
                Ok(x) => {
                    let delta = tol + 5.0 * f64::EPSILON * x.abs();
                    let y = sign * f.eval(x);
                    let near = seen.iter().any(|(p, q)| (p - x).abs() <= delta * (1.0 + 1e-9) && q * y <= 0.0);
                    c.check("sign change within tolerance", y == 0.0 || near, || format!("at {} value {}", x, y));
                    c.check("root inside bracket", x >= a - slack && x <= b + slack, || format!("{}", x));
                    if let Fun::Sin(..) = f {} else {
                        c.check("close to the true root", (x - root).abs() <= 2.0 * delta + 1e-7 * w
                            || matches!(f, Fun::Flat(..) | Fun::Poly(..) | Fun::Log(..) | Fun::Exp(..)), || format!("{} vs {}", x, root));
                    }
                    c.sig(&format!("{:?}{}{}{}{}", f, x1, x2, tol, sign));
                }
                Err(_) => c.check("converges given enough iterations", fuel < 20_000, || "gave up".into())
            }
        }
        c.sample(format!("{:?} on [{}, {}]: {} evaluations", f, x1, x2, seen.len()));
    });
    // Any finite set of points belongs to some continuous function, so values made up on the
    // spot, of any size and on either side of the chosen crossing, are a fair test.
    ctx.group("made-up values", 1_500_000, 6_000_000, |c| {
        let rr = &mut c.rng;
        let (a, b) = match rr.below(3) { 0 => (0.0, 1.0), 1 => (rr.f(-10.0, 0.0), rr.f(0.1, 10.0)), _ => (rr.f(-1e3, 0.0), rr.f(1.0, 1e4)) };
        let w = b - a;
        let root = a + w * match rr.below(4) { 0 => rr.f(0.0, 1e-3), 1 => 1.0 - rr.f(0.0, 1e-3), _ => rr.unit() };
        let spread = *rr.pick(&[0.1, 1.0, 3.0, 12.0]);
        let monotone = rr.chance(0.5);
        let tol = *rr.pick(&[1e-4, 1e-8, 1e-12, 0.0]);
        let (x1, x2) = if rr.chance(0.3) { (b, a) } else { (a, b) };
        let sign = if rr.chance(0.5) { 1.0 } else { -1.0 };
        c.note(format!("values within 1e+-{} {} crossing at {} on [{}, {}] tol {}", spread, if monotone { "monotone" } else { "any" }, root, x1, x2, tol));
        let mut r2 = c.rng.clone();
        let mut seen: Vec<(f64, f64)> = Vec::new();
        let res = zbrent(x1, x2, tol, 20_000, &mut |x: f64| {
            if let Some(p) = seen.iter().find(|p| p.0 == x) { return Ok(p.1) }
            let side = if x >= root { 1.0 } else { -1.0 };
            let mut m = 10f64.powf(r2.f(-spread, spread));
            if monotone {
                // between the nearest known magnitudes on the same side
                let (mut lo, mut hi) = (0.0f64, f64::INFINITY);
                for (p, q) in seen.iter().filter(|p| (p.0 >= root) == (x >= root)) {
                    if (p - root).abs() < (x - root).abs() { lo = lo.max(q.abs()) } else { hi = hi.min(q.abs()) }
                }
                if m < lo { m = if hi.is_finite() { lo + (hi - lo) * r2.unit() } else { lo * (1.0 + r2.unit()) } }
                if m > hi { m = lo + (hi - lo) * r2.unit() }
            }
            let y = sign * side * m.max(1e-300);
            seen.push((x, y));
            Ok(y)
        });
        c.evn("made-up evaluations observed", seen.len() as u64);
        let slack = 4.0 * f64::EPSILON * a.abs().max(b.abs());
        for (x, _) in seen.iter() {
            if !(*x >= a - slack && *x <= b + slack) { c.abort(format!("evaluated outside the bracket, at {}", x)) }
        }
        match res {
            Ok(x) => {
                let delta = tol + 5.0 * f64::EPSILON * x.abs();
                c.check("crossing of made-up values", (x - root).abs() <= delta * (1.0 + 1e-9), || format!("{} vs {}", x, root));
            }
            Err(_) => c.abort("gave up after 20000 iterations".to_string())
        }
        c.sig(&format!("{}{}{}{}{}", root, x1, x2, tol, spread));
    });
    ctx.group("unbracketed", 20_000, 300_000, |c| {
        let (a, b) = (c.rng.f(0.0, 1.0), c.rng.f(2.0, 3.0));
        let s = if c.rng.chance(0.5) { 1.0 } else { -1.0 };
        let k = c.rng.f(0.001, 10.0);
        let res = zbrent(a, b, 1e-10, 100, &mut |x: f64| Ok(s * (x * x + k)));
        c.check("unbracketed root reported", res.is_err(), || format!("{:?}", res.as_ref().ok()));
        let res = zbrent(a, b, 1e-10, 0, &mut |x: f64| Ok(x - 1.5));
        c.check("no iterations allowed", res.is_err(), || format!("{:?}", res.as_ref().ok()));
    });
}

pub const PROPS: &[Prop] = &[
    Prop { id: "M01", run: m01,
        rule: "random point sets, extrapolation choices on each side independently, evaluation points inside, outside and on the knots; non-trivial with two or more points",
        assumptions: &["evaluation points are not NaN (documented to panic)"],
        need: &[("linear", 1000), ("linear in any unit", 1000), ("error where expected", 100), ("bad points rejected", 1000), ("right of range", 1000)] },
    Prop { id: "M02", run: m02,
        rule: "random knot sets and extrapolation choices against a dense linear solve of the spline equations, plus derivatives recovered from the library's own values; non-trivial with three or more knots",
        assumptions: &["non-natural ends are clamped to zero slope, as the constructor asks of the spline"],
        need: &[("spline", 1000), ("spline in any unit", 1000), ("first derivative continuous", 1000), ("straight line reproduced", 1000)] },
    Prop { id: "M03", run: m03,
        rule: "random forwards, strikes (zero and at-the-money included), deviations (zero included) and discount factors; non-trivial when strike and deviation are positive",
        assumptions: &["reference normal distribution from a series and a continued fraction"],
        need: &[("call value", 1000), ("zero deviation at the money", 100)] },
    Prop { id: "M04", run: m04,
        rule: "random function families, brackets in either order, tolerances, iteration limits and injected failures; every evaluation is observed",
        assumptions: &[],
        need: &[("function evaluations observed", 10_000), ("crossing of made-up values", 100_000), ("sign change within tolerance", 1000), ("function failure reported", 100)] },
];
