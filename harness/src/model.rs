//! Reference models of market data: rate curves, dividends, forwards and
//! volatility surfaces. Each has an independent evaluation and a way of
//! building the library's own object from the same inputs.

use crate::nref::{linear, Ex, Spline};
use crate::p_dates::{dj, dow, gen_basic_cal, gen_cal, gen_fraction, Cal};
use crate::rng::Rng;
use quantmath::data::curves::*;
use quantmath::data::divstream::*;
use quantmath::data::forward::*;
use quantmath::data::voldecorators::*;
use quantmath::data::volsmile::*;
use quantmath::data::volsurface::*;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::rules::*;
use quantmath::math::interpolation::Linear;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum CurveM { Zero(i32), Act(i32, Vec<(i32, f64)>, Ex, Ex), Ann(Box<CurveM>, f64), Cont(Box<CurveM>, f64), Rel(Box<CurveM>, f64) }

impl CurveM {
    pub fn base(&self) -> i32 {
        match self { CurveM::Zero(b) | CurveM::Act(b, ..) => *b, CurveM::Ann(c, _) | CurveM::Cont(c, _) | CurveM::Rel(c, _) => c.base() }
    }
    /// rate and time; None is an error
    pub fn r_t(&self, j: i32) -> Option<(f64, f64)> {
        match self {
            CurveM::Zero(_) => Some((0.0, 0.0)),
            CurveM::Act(b, p, l, r) => {
                if j == *b { return Some((0.0, 0.0)) }
                let q: Vec<(f64, f64)> = p.iter().map(|x| (x.0 as f64, x.1)).collect();
                linear(&q, *l, *r, j as f64).map(|y| (y, (j - b) as f64 / 365.0))
            }
            CurveM::Ann(c, b) => c.r_t(j).map(|(r, t)| ((r.exp() + b).ln(), t)),
            CurveM::Cont(c, b) => c.r_t(j).map(|(r, t)| (r + b, t)),
            CurveM::Rel(c, m) => c.r_t(j).map(|(r, t)| (r * m, t))
        }
    }
    pub fn rt(&self, j: i32) -> Option<f64> { self.r_t(j).map(|(r, t)| r * t) }
    pub fn rc(&self) -> RcRateCurve {
        match self {
            CurveM::Zero(b) => RcRateCurve::new(Arc::new(ZeroRateCurve::new(dj(*b)))),
            CurveM::Act(b, p, l, r) => {
                let q: Vec<_> = p.iter().map(|x| (dj(x.0), x.1)).collect();
                RcRateCurve::new(Arc::new(RateCurveAct365::new(dj(*b), &q, l.real(), r.real()).unwrap()))
            }
            CurveM::Ann(c, b) => RcRateCurve::new(Arc::new(AnnualisedFlatBump::new(c.rc(), *b))),
            CurveM::Cont(c, b) => RcRateCurve::new(Arc::new(ContinuouslyCompoundedFlatBump::new(c.rc(), *b))),
            CurveM::Rel(c, m) => RcRateCurve::new(Arc::new(RelativeBump::new(c.rc(), *m)))
        }
    }
    pub fn is_zero(&self) -> bool { matches!(self, CurveM::Zero(_)) }
}

/// pillars stay before this day, well inside the range of dates
const LATE: i32 = 72_000;

pub fn gen_curve(r: &mut Rng, base: i32, scale: f64) -> CurveM {
    if r.chance(0.12) { return CurveM::Zero(base) }
    let n = 1 + r.size(6, 25);
    let mut j = base + r.int(-30, 30);
    let mut p = Vec::new();
    let side = [Ex::Flat, Ex::Flat, Ex::Natural, Ex::Zero];
    let (l, rr) = (*r.pick(&side), *r.pick(&side));
    // continuing a steep slope far out would leave the range of discount factors
    let gap = if l == Ex::Natural || rr == Ex::Natural { 400 } else { 1 };
    for _ in 0..n { if j < LATE || p.is_empty() { p.push((j, r.f(-0.3 * scale, scale))) } j += r.int(gap, 900); }
    let n = p.len();
    // natural extrapolation needs two points
    let fix = |e: Ex| if n == 1 && e == Ex::Natural { Ex::Flat } else { e };
    CurveM::Act(base, p, fix(l), fix(rr))
}

/// well-behaved curve: flat extrapolation, moderate rates
pub fn gen_tame_curve(r: &mut Rng, base: i32, scale: f64) -> CurveM {
    if r.chance(0.1) { return CurveM::Zero(base) }
    let n = 1 + r.size(5, 25);
    let mut j = base + r.int(0, 100);
    let mut p = Vec::new();
    for _ in 0..n { if j < LATE || p.is_empty() { p.push((j, r.f(-0.2 * scale, scale))) } j += r.int(30, 900); }
    CurveM::Act(base, p, Ex::Flat, Ex::Flat)
}

#[derive(Clone, Debug)]
pub enum RuleM { Null, Step(Cal, i32), Back(Cal, i32), ModF(Cal) }

impl RuleM {
    pub fn rc(&self) -> RcDateRule {
        match self {
            RuleM::Null => RcDateRule::new(Arc::new(NullRule::new())),
            RuleM::Step(c, n) => RcDateRule::new(Arc::new(BusinessDays::new_step(c.rc(), *n as u32))),
            RuleM::Back(c, n) => RcDateRule::new(Arc::new(BusinessDays::new_back(c.rc(), *n as u32))),
            RuleM::ModF(c) => RcDateRule::new(Arc::new(ModifiedFollowing::new(c.rc())))
        }
    }
    pub fn apply(&self, j: i32) -> i32 {
        match self {
            RuleM::Null => j,
            RuleM::Step(c, n) => c.step(j, *n, true),
            RuleM::Back(c, n) => c.step(j, -*n, false),
            RuleM::ModF(c) => {
                let d = c.step(j, 0, true);
                let month = |x: i32| { let y = crate::p_dates::civil(crate::p_dates::unix_of(x)); (y.0, y.1) };
                if month(d) == month(j) { d } else { c.step(j, 0, false) }
            }
        }
    }
}

pub fn gen_rule(r: &mut Rng, centre: i32) -> RuleM {
    match r.below(5) {
        0 => RuleM::Null,
        1 => RuleM::Step(Cal::Week, r.int(0, 3)),
        2 => RuleM::ModF(gen_basic_cal(r, centre, 500)),
        _ => RuleM::Step(gen_basic_cal(r, centre, 500), r.int(0, 5))
    }
}

#[derive(Clone, Copy, Debug)]
pub struct DivM { pub cash: f64, pub rel: f64, pub ex: i32, pub pay: i32 }

#[derive(Clone, Debug)]
pub struct DivsM { pub divs: Vec<DivM>, pub dy: CurveM }

impl DivsM {
    pub fn stream(&self) -> DividendStream {
        let v: Vec<Dividend> = self.divs.iter().map(|d| Dividend::new(d.cash, d.rel, dj(d.ex), dj(d.pay))).collect();
        DividendStream::new(&v, self.dy.rc())
    }
    pub fn rc(&self) -> RcDividendStream { RcDividendStream::new(Arc::new(self.stream())) }
    pub fn scaled(&self, bump: f64) -> DivsM {
        DivsM { divs: self.divs.iter().map(|d| DivM { cash: d.cash * (1.0 + bump), rel: d.rel * (1.0 + bump), ..*d }).collect(),
            dy: CurveM::Rel(Box::new(self.dy.clone()), 1.0 + bump) }
    }
    pub fn last_cash(&self) -> i32 { self.divs.iter().filter(|d| d.cash != 0.0).map(|d| d.ex).last().unwrap_or(0) }
}

pub fn gen_divs(r: &mut Rng, base: i32, span: i32, spot: f64) -> DivsM {
    let n = if r.chance(0.2) { 0 } else { 1 + r.size(7, 40) };
    let mut ex: Vec<i32> = (0..n).map(|_| match r.below(8) { 0 => base - r.int(0, 40), 1 => base, 2 => base + 1, _ => base + r.int(1, span) }).collect();
    if n > 1 && r.chance(0.3) { ex[0] = ex[1] }
    ex.sort();
    let divs: Vec<DivM> = ex.iter().map(|e| {
        let (mut c, mut q) = (r.f(0.0, 0.02) * spot, r.f(0.0, 0.02));
        match r.below(4) { 0 => c = 0.0, 1 => q = 0.0, _ => {} }
        DivM { cash: c, rel: q, ex: *e, pay: *e + r.int(0, 20) }
    }).collect();
    DivsM { divs, dy: CurveM::Zero(base) }
}

/// dividend yield that starts after the explicit dividends
pub fn gen_div_yield(r: &mut Rng, divs: &DivsM, base: i32) -> CurveM {
    let start = divs.divs.last().map(|d| d.ex).unwrap_or(base).max(base) + r.int(0, 200);
    let n = 1 + r.size(3, 15);
    let mut j = start;
    let mut p = Vec::new();
    for _ in 0..n { if j < LATE || p.is_empty() { p.push((j, r.f(0.0, 0.05))) } j += r.int(30, 600); }
    CurveM::Act(start, p, Ex::Zero, Ex::Flat)
}

/// accumulated dividends as of a date
#[derive(Clone, Copy, Debug, Default)]
pub struct DivSums { pub undisc: f64, pub disc: f64, pub cash: f64, pub cash_total: f64 }

/// discount with borrow from the base date
pub fn dwb(rate: &CurveM, borrow: &CurveM, base: i32, j: i32) -> Option<f64> {
    let l = |x: i32| Some(borrow.rt(x)? - rate.rt(x)?);
    Some((l(j)? - l(base)?).exp())
}

pub fn div_sums(d: &DivsM, rate: &CurveM, borrow: &CurveM, spot: f64, base: i32, to: i32) -> Option<DivSums> {
    let mut s = DivSums::default();
    let mut i = 0;
    let v: Vec<DivM> = d.divs.iter().cloned().filter(|x| x.ex > base).collect();
    while i < v.len() {
        let ex = v[i].ex;
        let before = s.disc;
        let mut k = i;
        while k < v.len() && v[k].ex == ex { k += 1 }
        for x in v[i..k].iter() {
            let df = dwb(rate, borrow, base, x.pay)?;
            s.cash_total += x.cash * df;
            if ex <= to {
                s.undisc += x.cash;
                s.disc += x.cash * df;
                s.cash += x.cash * df;
                if x.rel != 0.0 {
                    let f = (spot - before) / dwb(rate, borrow, base, ex)?;
                    s.undisc += x.rel * f;
                    s.disc += x.rel * f * df;
                }
            }
        }
        i = k;
    }
    Some(s)
}

#[derive(Clone, Debug)]
pub struct FwdM { pub base: i32, pub spot: f64, pub rule: RuleM, pub rate: CurveM, pub borrow: CurveM, pub divs: DivsM, pub hwm: i32 }

impl FwdM {
    pub fn ref_spot(&self) -> Option<f64> { Some(self.spot * dwb(&self.rate, &self.borrow, self.base, self.rule.apply(self.base))?) }
    /// the forward; the sign is -1 for a dividend yield that lowers it
    pub fn forward_sign(&self, j: i32, sign: f64) -> Option<f64> {
        let s = self.ref_spot()?;
        let d = div_sums(&self.divs, &self.rate, &self.borrow, s, self.base, j)?;
        let pay = self.rule.apply(j);
        Some((s - d.disc) / dwb(&self.rate, &self.borrow, self.base, pay)? * (sign * self.divs.dy.rt(pay)?).exp())
    }
    /// as the library has it (a finding: the dividend yield raises the forward)
    pub fn forward(&self, j: i32) -> Option<f64> { self.forward_sign(j, 1.0) }
    pub fn real(&self) -> Result<EquityForward, quantmath::core::qm::Error> {
        EquityForward::new(dj(self.base), self.spot, self.rule.rc(), self.rate.rc(), self.borrow.rc(), &self.divs.stream(), dj(self.hwm))
    }
}

/// a date with a fraction of the day
pub type Dt = (i32, f64);
pub fn ddf(d: Dt) -> DateDayFraction { DateDayFraction::new(dj(d.0), d.1) }

#[derive(Clone, Debug)]
pub enum SmileM { Flat(f64), Spline(Vec<(f64, f64)>) }

impl SmileM {
    pub fn vol(&self, k: f64) -> f64 {
        match self { SmileM::Flat(v) => *v, SmileM::Spline(p) => Spline::new(p, Ex::Natural, Ex::Natural).eval(k).unwrap() }
    }
}

#[derive(Clone, Debug)]
pub enum VolM {
    Flat(f64, Cal, Dt),
    /// smiles, calendar, base, forward points, fixed dividends after, fixed-dividend assumption
    Prob(Vec<(Dt, SmileM)>, Cal, Dt, Vec<(i32, f64)>, Vec<(i32, f64)>, DivAssumptions),
    Const(Box<VolM>, f64, Dt),
    Roll(Box<VolM>, f64, Dt),
    Par(Box<VolM>, f64),
    Scaled(Box<VolM>, f64, f64),
    /// sticky delta around a new, driftless or interpolated forward
    Sticky(Box<VolM>, Vec<(i32, f64)>)
}

pub fn interp_dates(p: &[(i32, f64)], j: i32) -> f64 {
    let q: Vec<(f64, f64)> = p.iter().map(|x| (x.0 as f64, x.1)).collect();
    linear(&q, Ex::Flat, Ex::Flat, j as f64).unwrap()
}

fn lin_dates(p: &[(i32, f64)]) -> Linear<quantmath::dates::Date> {
    let q: Vec<_> = p.iter().map(|x| (dj(x.0), x.1)).collect();
    Linear::new(&q, Ex::Flat.real(), Ex::Flat.real()).unwrap()
}

impl VolM {
    pub fn cal(&self) -> &Cal {
        match self {
            VolM::Flat(_, c, _) => c, VolM::Prob(_, c, ..) => c,
            VolM::Const(v, ..) | VolM::Roll(v, ..) | VolM::Par(v, _) | VolM::Scaled(v, ..) | VolM::Sticky(v, _) => v.cal()
        }
    }
    pub fn base(&self) -> Dt {
        match self {
            VolM::Flat(_, _, b) => *b, VolM::Prob(_, _, b, ..) => *b,
            VolM::Const(_, _, b) | VolM::Roll(_, _, b) => *b,
            VolM::Par(v, _) | VolM::Scaled(v, ..) | VolM::Sticky(v, _) => v.base()
        }
    }
    pub fn has_forward(&self) -> bool {
        match self {
            VolM::Flat(..) => false, VolM::Prob(..) => true, VolM::Sticky(..) => true,
            VolM::Const(v, ..) | VolM::Roll(v, ..) | VolM::Par(v, _) | VolM::Scaled(v, ..) => v.has_forward()
        }
    }
    pub fn forward(&self, j: i32) -> Option<f64> {
        match self {
            VolM::Flat(..) => None,
            VolM::Prob(_, _, _, f, ..) => Some(interp_dates(f, j)),
            VolM::Sticky(_, f) => Some(interp_dates(f, j)),
            VolM::Const(v, ..) | VolM::Roll(v, ..) | VolM::Par(v, _) | VolM::Scaled(v, ..) => v.forward(j)
        }
    }
    /// volatilities and volatility time; None is an error
    pub fn vols(&self, d: Dt, ks: &[f64]) -> Option<(Vec<f64>, f64)> {
        match self {
            VolM::Flat(v, c, b) => Some((vec![*v; ks.len()], yf(c, *b, d))),
            VolM::Prob(sm, c, b, f, ..) => {
                let t = yf(c, *b, d);
                if let Some(s) = sm.iter().find(|s| s.0 == d) {
                    return Some((ks.iter().map(|k| s.1.vol(*k)).collect(), t))
                }
                let later = |x: Dt| x.0 > d.0 || (x.0 == d.0 && x.1 > d.1);
                let i = sm.iter().position(|s| later(s.0)).unwrap_or(sm.len());
                let fwd = interp_dates(f, d.0);
                if i == 0 || i == sm.len() {
                    let s = &sm[if i == 0 { 0 } else { i - 1 }];
                    let (pt, pf) = (yf(c, *b, s.0), interp_dates(f, (s.0).0));
                    let v = ks.iter().map(|k| {
                        let x = (k / fwd).ln();
                        let y = if t > 0.0 { x * (pt / t).sqrt() } else { x };
                        s.1.vol(pf * y.exp())
                    }).collect();
                    return Some((v, t))
                }
                let (l, r) = (&sm[i - 1], &sm[i]);
                let (tl, tr) = (yf(c, *b, l.0), yf(c, *b, r.0));
                let (fl, fr) = (interp_dates(f, (l.0).0), interp_dates(f, (r.0).0));
                let (al, ar) = (l.1.vol(fl).powi(2) * tl, r.1.vol(fr).powi(2) * tr);
                let w = (t - tl) / (tr - tl);
                let am = al + (ar - al) * w;
                let mut out = Vec::new();
                for k in ks {
                    let z = (k / fwd).ln() / am.sqrt();
                    let vl = l.1.vol(fl * (z * al.sqrt()).exp()).powi(2) * tl;
                    let vr = r.1.vol(fr * (z * ar.sqrt()).exp()).powi(2) * tr;
                    if vl > vr { return None }
                    out.push(((vl + (vr - vl) * w) / t).sqrt());
                }
                Some((out, t))
            }
            VolM::Const(v, off, _) => v.vols(d, ks).map(|(o, t)| (o, (t - off).max(0.0))),
            VolM::Roll(v, off, _) => {
                let rc = v.cal().rc();
                let back = -off * v.cal().basis();
                let j = rc.step_partial(dj(d.0), back, back >= 0.0).truncated_julian();
                v.vols((j, d.1), ks).map(|(o, t)| (o, t.max(0.0)))
            }
            VolM::Par(v, b) => v.vols(d, ks).map(|(o, t)| (o.iter().map(|x| (x + b).max(0.0)).collect(), t)),
            VolM::Scaled(v, b, floor) => v.vols(d, ks).map(|(o, t)| {
                let s = b / t.max(*floor).sqrt();
                (o.iter().map(|x| (x + s).max(0.0)).collect(), t)
            }),
            VolM::Sticky(v, f) => {
                let a = match v.forward(d.0) { Some(old) => old / interp_dates(f, d.0), None => 1.0 };
                let k2: Vec<f64> = ks.iter().map(|k| k * a).collect();
                v.vols(d, &k2)
            }
        }
    }
    /// would rounding in the size of a step decide which date a roll lands on?
    pub fn ambiguous(&self, d: Dt) -> bool {
        match self {
            VolM::Flat(..) | VolM::Prob(..) => false,
            VolM::Roll(v, off, _) => {
                let rc = v.cal().rc();
                let back = -off * v.cal().basis();
                let at = |x: f64| rc.step_partial(dj(d.0), x, back >= 0.0);
                at(back - 1e-9) != at(back + 1e-9) || v.ambiguous((at(back).truncated_julian(), d.1))
            }
            VolM::Const(v, ..) | VolM::Par(v, _) | VolM::Scaled(v, ..) | VolM::Sticky(v, _) => v.ambiguous(d)
        }
    }
    /// so short a time to expiry that any strike is arbitrarily far out in the smile
    pub fn short(&self, d: Dt) -> bool {
        match self {
            VolM::Flat(..) => false,
            VolM::Prob(_, c, b, ..) => { let t = yf(c, *b, d); t > 0.0 && t < 1e-3 }
            VolM::Roll(v, off, _) => {
                let back = -off * v.cal().basis();
                v.short((v.cal().rc().step_partial(dj(d.0), back, back >= 0.0).truncated_julian(), d.1))
            }
            VolM::Const(v, ..) | VolM::Par(v, _) | VolM::Scaled(v, ..) | VolM::Sticky(v, _) => v.short(d)
        }
    }
    /// how the market evolves the surface to a spot date
    pub fn evolved(&self, spot: i32) -> VolM {
        let b = self.base();
        if b.0 == spot { return self.clone() }
        let y = yf(self.cal(), b, (spot, 0.0));
        if y.abs() < 1e-12 { self.clone() } else { VolM::Const(Box::new(self.clone()), y, (spot, 0.0)) }
    }
    /// displacement of the log-normal; None where one is not enough
    pub fn displacement(&self, j: i32) -> Option<f64> {
        match self {
            VolM::Flat(..) => Some(0.0),
            VolM::Prob(_, _, _, _, fd, da) => match da { DivAssumptions::FixedDivs => Some(interp_dates(fd, j)), DivAssumptions::JumpDivs => None, _ => Some(0.0) },
            VolM::Const(v, ..) | VolM::Roll(v, ..) | VolM::Par(v, _) | VolM::Scaled(v, ..) => v.displacement(j),
            // goes with the new forward, which has no dividends here
            VolM::Sticky(v, _) => if v.assumes() == DivAssumptions::JumpDivs { None } else { Some(0.0) }
        }
    }
    pub fn assumes(&self) -> DivAssumptions {
        match self {
            VolM::Flat(..) => DivAssumptions::NoCashDivs,
            VolM::Prob(.., da) => *da,
            VolM::Const(v, ..) | VolM::Roll(v, ..) | VolM::Par(v, _) | VolM::Scaled(v, ..) | VolM::Sticky(v, _) => v.assumes()
        }
    }
    /// variance from one date to another; Err says that rounding decides, None is an error
    pub fn fwd_var(&self, a: Dt, z: Dt, k: f64) -> Result<Option<f64>, ()> {
        let b = self.base();
        let after = |x: Dt, y: Dt| x.0 > y.0 || (x.0 == y.0 && x.1 > y.1);
        let safe = |d: Dt| if self.ambiguous(d) || self.short(d) { Err(()) } else { Ok(()) };
        safe(z)?;
        if !after(a, b) { return Ok(self.variance(z, k)) }
        safe(a)?;
        if !self.has_forward() { return Ok((|| { let x = self.variance(z, k)? - self.variance(a, k)?; Some(x) })()) }
        let cal = self.cal().rc();
        let n = self.cal().count(a.0, a.1, z.0, z.1);
        let at = |x: f64| cal.step_partial(dj(b.0), x.max(0.0), true);
        if at(n - 1e-9) != at(n + 1e-9) { return Err(()) }
        let sd = (at(n).truncated_julian(), z.1);
        safe(sd)?;
        let atm = |x: Dt| self.variance(x, self.forward(x.0)?);
        let d = match (atm(z), atm(a)) { (Some(x), Some(y)) => x - y, _ => return Ok(None) };
        if d.abs() < 1e-9 { return Err(()) }
        if d < 0.0 { return Ok(None) }
        Ok((|| Some(self.variance(sd, k)? - atm(sd)? + d))())
    }
    pub fn variance(&self, d: Dt, k: f64) -> Option<f64> { self.vols(d, &[k]).map(|(v, t)| v[0] * v[0] * t) }
    /// how far below zero variance differences could be from rounding
    pub fn rc(&self) -> RcVolSurface { self.try_rc().unwrap() }
    pub fn try_rc(&self) -> Result<RcVolSurface, quantmath::core::qm::Error> {
        Ok(match self {
            VolM::Flat(v, c, b) => RcVolSurface::new(Arc::new(FlatVolSurface::new(*v, c.rc(), ddf(*b)))),
            VolM::Prob(sm, c, b, f, fd, da) => {
                if sm.iter().all(|s| matches!(s.1, SmileM::Flat(_))) {
                    let s: Vec<_> = sm.iter().map(|s| (ddf(s.0), FlatSmile::new(s.1.vol(1.0)).unwrap())).collect();
                    RcVolSurface::new(Arc::new(VolByProbabilityFlatSmile::new(&s, c.rc(), ddf(*b), lin_dates(f), lin_dates(fd), *da)?))
                } else {
                    let s: Vec<_> = sm.iter().map(|s| (ddf(s.0), match &s.1 {
                        SmileM::Spline(p) => CubicSplineSmile::new(p).unwrap(),
                        SmileM::Flat(v) => CubicSplineSmile::new(&[(10.0, *v), (100.0, *v)]).unwrap() })).collect();
                    RcVolSurface::new(Arc::new(VolByProbabilityCubicSplineSmile::new(&s, c.rc(), ddf(*b), lin_dates(f), lin_dates(fd), *da)?))
                }
            }
            VolM::Const(v, o, b) => RcVolSurface::new(Arc::new(ConstantExpiryTimeEvolution::new(v.try_rc()?, *o, ddf(*b)))),
            VolM::Roll(v, o, b) => RcVolSurface::new(Arc::new(RollingExpiryTimeEvolution::new(v.try_rc()?, *o, ddf(*b)))),
            VolM::Par(v, b) => RcVolSurface::new(Arc::new(ParallelBumpVol::new(v.try_rc()?, *b))),
            VolM::Scaled(v, b, f) => RcVolSurface::new(Arc::new(TimeScaledBumpVol::new(v.try_rc()?, *b, *f))),
            VolM::Sticky(v, f) => RcVolSurface::new(Arc::new(StickyDeltaBumpVol::new(v.try_rc()?,
                Arc::new(InterpolatedForward::new(Box::new(lin_dates(f))))))),
        })
    }
}

pub fn yf(c: &Cal, a: Dt, b: Dt) -> f64 {
    let n = c.count(a.0, a.1, b.0, b.1);
    if n.abs() < 1e-12 { 0.0 } else { n / c.basis() }
}

pub fn gen_volcal(r: &mut Rng, centre: i32) -> Cal {
    if r.chance(0.3) { Cal::Every } else if r.chance(0.5) { Cal::Week } else {
        // keep holidays sparse near the date so that pillars differ in volatility time
        match gen_cal(r, centre, 300) { Cal::Hols(h) => Cal::Hols(h.into_iter().step_by(5).collect()), c => c }
    }
}

pub fn gen_flat_vol(r: &mut Rng, base: Dt) -> VolM { VolM::Flat(r.f(0.02, 0.6), gen_volcal(r, base.0), base) }

/// points of a forward curve
pub fn gen_forward_points(r: &mut Rng, base: i32, spot: f64) -> Vec<(i32, f64)> {
    let n = 1 + r.size(5, 20);
    let mut j = base + r.int(-5, 5);
    let mut f = spot;
    let mut v = Vec::new();
    for _ in 0..n { if j < LATE || v.is_empty() { v.push((j, f)) } j += r.int(10, 500); f *= 1.0 + r.f(-0.1, 0.15); }
    v
}

/// A surface with smiles, increasing at-the-money variance at the pillars.
pub fn gen_prob_vol(r: &mut Rng, base: Dt, spot: f64) -> VolM {
    let cal = gen_volcal(r, base.0);
    let fwd = gen_forward_points(r, base.0, spot);
    let flat = r.chance(0.35);
    let n = 1 + r.size(5, 20);
    let mut j = base.0 + r.int(10, 60);
    let mut var = 0.0;
    let mut sm = Vec::new();
    let mut prev_t = 0.0;
    let skew = r.f(-0.25, 0.05);
    for _ in 0..n {
        if j > LATE { break }
        while dow(j) > 4 { j += 1 }
        let d = (j, gen_fraction(r));
        let t = yf(&cal, base, d);
        if t - prev_t < 0.01 { j += 30; continue }
        // at-the-money volatility such that variance keeps rising
        var += (t - prev_t) * r.f(0.1, 0.4f64).powi(2);
        prev_t = t;
        let atm = (var / t as f64).sqrt();
        let f = interp_dates(&fwd, j);
        if flat { sm.push((d, SmileM::Flat(atm))) } else {
            let m = 3 + r.size(5, 20);
            let mut p = Vec::new();
            for i in 0..m {
                let k = f * (0.6 + 0.9 * i as f64 / (m - 1) as f64);
                let x = (k / f).ln() / t.max(0.2).sqrt();
                p.push((k, (atm * (1.0 + skew * x + r.f(0.0, 0.1) * x * x)).max(0.03)));
            }
            sm.push((d, SmileM::Spline(p)));
        }
        j += r.int(30, 500);
    }
    if sm.is_empty() { sm.push(((base.0 + 400, 0.5), SmileM::Flat(0.2))) }
    let da = *r.pick(&[DivAssumptions::NoCashDivs, DivAssumptions::IndependentLogNormals, DivAssumptions::FixedDivs, DivAssumptions::JumpDivs]);
    let fd = vec![(base.0, r.f(1.0, 5.0)), (base.0 + 300, r.f(0.1, 1.0)), (base.0 + 900, 0.0)];
    VolM::Prob(sm, cal, base, fwd, fd, da)
}

pub fn gen_any_vol(r: &mut Rng, base: Dt, spot: f64, depth: usize) -> VolM {
    let mut v = if r.chance(0.3) { gen_flat_vol(r, base) } else { gen_prob_vol(r, base, spot) };
    for _ in 0..r.below(depth + 1) {
        let b = v.base();
        v = match r.below(5) {
            0 => { let nb = (b.0 + r.int(1, 60), 0.0); let o = yf(v.cal(), b, nb); VolM::Const(Box::new(v), o, nb) }
            1 => { let nb = (b.0 + r.int(1, 60), 0.0); let o = yf(v.cal(), b, nb); VolM::Roll(Box::new(v), o, nb) }
            2 => { let x = r.f(-0.05, 0.1); VolM::Par(Box::new(v), x) }
            3 => { let (x, f) = (r.f(-0.05, 0.1), r.f(0.02, 0.3)); VolM::Scaled(Box::new(v), x, f) }
            _ => { let p = gen_forward_points(r, b.0, spot * 1.05); VolM::Sticky(Box::new(v), p) }
        }
    }
    v
}
