//! S01-S03: writing and reading JSON.

use crate::fw::{Case, Ctx, Prop};
use crate::jm::*;
use crate::mkt::*;
use crate::model::*;
use crate::nref::Ex;
use crate::p_dates::*;
use crate::p_instr::{data, OPEN};
use crate::p_risk::{gen_rep, RepM};
use crate::rng::Rng;
use quantmath::core::dedup::{Dedup, DedupControl};
use quantmath::core::factories::Qrc;
use quantmath::core::dedup::InstanceId;
use quantmath::core::qm;
use quantmath::data::bumpspotdate::SpotDynamics;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::divstream::{DividendStream, RcDividendStream};
use quantmath::data::fixings::{FixingTable, RcFixingTable};
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::calendar::RcCalendar;
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::rules::RcDateRule;
use quantmath::dates::Date;
use quantmath::facade;
use quantmath::instruments::assets::*;
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::{DependencyContext, Instrument, RcInstrument, DEDUP_INSTRUMENT};
use quantmath::math::interpolation::{CubicSpline, Interpolate, Linear};
use quantmath::models::blackdiffusion::BlackDiffusionFactory;
use quantmath::models::RcMonteCarloModelFactory;
use quantmath::pricers::montecarlo::MonteCarloPricerFactory;
use quantmath::pricers::selfpricer::SelfPricerFactory;
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::deltagamma::DeltaGammaReportGenerator;
use quantmath::risk::marketdata::{MarketData, RcMarketData};
use quantmath::risk::timebumped::TimeBumpedReportGenerator;
use quantmath::risk::vegavolga::VegaVolgaReportGenerator;
use quantmath::risk::{BoxReport, RcReportGenerator};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub fn value(c: &mut Case, what: &str, t: &str) -> Value {
    match serde_json::from_str(t) { Ok(v) => v, Err(e) => c.abort(format!("{} wrote text that is not JSON: {}", what, e)) }
}

/// Write, compare with the documented form, read back, repeat. Returns what was
/// read: after one trip, after several, and from the independently written text.
pub fn trip<T: Serialize + DeserializeOwned>(c: &mut Case, what: &str, x: &T, want: &Value) -> Vec<T> {
    let t1 = serde_json::to_string(x);
    let t1 = c.ok(&format!("writing {}", what), t1);
    let v1 = value(c, what, &t1);
    let d = differ(&v1, want, 2.0);
    c.check("written in the documented form", d.is_none(), || format!("{}: {}", what, d.clone().unwrap()));
    let r = serde_json::from_str::<T>(&t1);
    let one = c.ok(&format!("reading {} back", what), r);
    let n = 2 + c.rng.below(4);
    let mut t = t1.clone();
    let mut many = None;
    for i in 0..n {
        let r = if i % 2 == 0 { serde_json::from_str::<T>(&t) } else { serde_json::from_reader(t.as_bytes()) };
        let y = c.ok(&format!("reading {} again", what), r);
        let w = if i % 2 == 0 { serde_json::to_string_pretty(&y) } else { serde_json::to_string(&y) };
        t = c.ok(&format!("writing {} again", what), w);
        let v = value(c, what, &t);
        let d = differ(&v1, &v, 3.0 * (i + 1) as f64);
        c.check("written the same after reading", d.is_none(), || format!("{} trip {}: {}", what, i + 1, d.clone().unwrap()));
        many = Some(y);
    }
    let text = if c.rng.chance(0.5) { want.to_string() } else { serde_json::to_string_pretty(want).unwrap() };
    let r = serde_json::from_str::<T>(&text);
    let third = c.ok(&format!("reading {} from independently written text", what), r);
    vec![one, many.unwrap(), third]
}

fn same(c: &mut Case, what: &str, a: Option<f64>, b: Option<f64>, scale: f64) {
    let ok = match (a, b) { (Some(x), Some(y)) => x == y || (x - y).abs() <= 1e-9 * (x.abs() + scale) || (!x.is_finite() && !y.is_finite()), (None, None) => true, _ => false };
    c.check(what, ok, || format!("{:?} before and {:?} after", a, b));
}

fn opt<E>(r: Result<f64, E>) -> Option<f64> { r.ok() }

fn gen_any_curve(r: &mut Rng, base: i32) -> CurveM {
    let mut x = gen_curve(r, base, 0.1);
    for _ in 0..r.below(4) {
        let b = r.f(-0.02, 0.03);
        x = match r.below(3) { 0 => CurveM::Ann(Box::new(x), b), 1 => CurveM::Cont(Box::new(x), b), _ => CurveM::Rel(Box::new(x), 1.0 + b * 10.0) };
    }
    x
}

#[derive(Clone, Debug)]
pub enum GenM { Delta(f64), Add(f64), Scaled(f64, f64), Replace(f64), Time(i32, i32, SpotDynamics, Vec<GenM>) }

impl GenM {
    pub fn js(&self) -> Value {
        match self {
            GenM::Delta(b) => json!({"DeltaGammaReportGenerator": {"bumpsize": b}}),
            GenM::Add(s) => json!({"VegaVolgaReportGenerator": {"bump": {"FlatAdditive": {"size": s}}}}),
            GenM::Scaled(s, f) => json!({"VegaVolgaReportGenerator": {"bump": {"TimeScaled": {"size": s, "floor": f}}}}),
            GenM::Replace(v) => json!({"VegaVolgaReportGenerator": {"bump": {"Replace": {"vol": v}}}}),
            GenM::Time(d, x, s, v) => json!({"TimeBumpedReportGenerator": {"bump": {"spot_date_bump": {"spot_date": jdate(*d), "spot_dynamics":
                if *s == SpotDynamics::StickySpot { "StickySpot" } else { "StickyForward" }}, "_ex_from": jdate(*x)},
                "subgenerators": v.iter().map(|g| g.js()).collect::<Vec<_>>()}})
        }
    }
    pub fn rc(&self) -> RcReportGenerator {
        match self {
            GenM::Delta(b) => RcReportGenerator::new(Arc::new(DeltaGammaReportGenerator::new(*b))),
            GenM::Add(s) => RcReportGenerator::new(Arc::new(VegaVolgaReportGenerator::new(BumpVol::new_flat_additive(*s)))),
            GenM::Scaled(s, f) => RcReportGenerator::new(Arc::new(VegaVolgaReportGenerator::new(BumpVol::new_time_scaled(*s, *f)))),
            GenM::Replace(v) => RcReportGenerator::new(Arc::new(VegaVolgaReportGenerator::new(BumpVol::new_replace(*v)))),
            GenM::Time(d, x, s, v) => {
                let mut g = TimeBumpedReportGenerator::new(BumpTime::new(dj(*d), dj(*x), *s));
                for y in v { g.add(y.rc()) }
                RcReportGenerator::new(Arc::new(g))
            }
        }
    }
}

pub fn gen_gen(r: &mut Rng, base: i32, depth: usize) -> GenM {
    match r.below(if depth > 0 { 5 } else { 3 }) {
        0 => GenM::Delta(*r.pick(&[0.01, 0.005, 0.1, 0.001])),
        1 => GenM::Add(*r.pick(&[0.01, 0.005, 0.1])),
        2 => GenM::Scaled(*r.pick(&[0.01, 0.005]), *r.pick(&[0.1, 0.5])),
        _ => {
            let to = base + r.int(0, 40);
            let n = r.below(3);
            GenM::Time(to, to, *r.pick(&[SpotDynamics::StickySpot, SpotDynamics::StickyForward]), (0..n).map(|_| gen_gen(r, to, depth - 1)).collect())
        }
    }
}

pub fn gen_tab(r: &mut Rng, ids: &[&str], base: i32) -> Tab {
    let mut t = Tab { until: base + r.int(-20, 5), v: vec![] };
    for id in ids {
        let mut seen = BTreeSet::new();
        for _ in 0..r.size(8, 50) {
            let x = (base - r.int(0, 60), gen_tod(r));
            if seen.insert((x.0, format!("{:?}", x.1))) { t.v.push((id.to_string(), x, r.f(50.0, 150.0))) }
        }
    }
    t
}

/// strings that need care in JSON
pub fn odd_id(r: &mut Rng) -> String {
    let parts = ["BP.L", "\u{e9}", "\"", "\\", "\n", "/", "{", "}", "]", ":", "\u{1F600}", "\t", "a b", "\u{7f}", "\u{2028}", "null", "0"];
    (0..1 + r.below(4)).map(|_| *r.pick(&parts)).collect::<Vec<_>>().concat()
}

fn s01(ctx: &mut Ctx) {
    ctx.group("dates and times", 16000, 200000, |c| {
        let j = match c.rng.below(6) { 0 => 1 + c.rng.below(400) as i32, 1 => 72999 - c.rng.below(400) as i32, _ => c.rng.int(1, 72999) };
        let t = gen_tod(&mut c.rng);
        let f = gen_fraction(&mut c.rng);
        let f = if f >= 1.0 { 0.5 } else { f };
        c.note(format!("{} {:?} {:?}", j, t, f));
        for x in trip::<Date>(c, "a date", &dj(j), &jdate(j)) { c.check("same date", x == dj(j), || format!("{}", x)) }
        for x in trip::<DateTime>(c, "a date and time", &dtm((j, t)), &jtm((j, t))) { c.check("same time", x == dtm((j, t)), || format!("{:?}", x)) }
        for x in trip::<TimeOfDay>(c, "a time of day", &t, &jtod(t)) { c.check("same time of day", x == t, || format!("{:?}", x)) }
        for x in trip::<DateDayFraction>(c, "a day fraction", &ddf((j, f)), &jdt((j, f))) {
            c.check("same day", x.date() == dj(j), || format!("{:?}", x));
            same(c, "same fraction", Some(f), Some(x.day_fraction()), 0.0);
        }
        c.sig(&format!("{} {:?} {}", j, t, f));
    });
    ctx.group("calendars and rules", 4500, 60000, |c| {
        let j = c.rng.int(4000, 60000);
        let m = gen_cal(&mut c.rng, j, 400);
        c.note(format!("{:?}", m));
        let x = m.rc();
        for y in trip::<RcCalendar>(c, "a calendar", &x, &m.js()) {
            c.check("same name", x.name() == y.name(), || format!("{:?} {:?}", x.name(), y.name()));
            for _ in 0..6 {
                let d = dj(j + c.rng.int(-420, 420));
                c.check("same holiday", x.is_holiday(d) == y.is_holiday(d), || format!("{}", d));
                same(c, "same weight", Some(x.day_weight(d)), Some(y.day_weight(d)), 1.0);
                let n = c.rng.int(-20, 20);
                let s = if n == 0 { c.rng.chance(0.5) } else { n > 0 };
                c.check("same step", x.step(d, n, s) == y.step(d, n, s), || format!("{} by {}", d, n));
                let e = dj(j + c.rng.int(-420, 420));
                let (a, b) = (ddf_of(d, 0.25), ddf_of(e, 0.75));
                same(c, "same year fraction", Some(x.year_fraction(a, b)), Some(y.year_fraction(a, b)), 1.0);
            }
            same(c, "same basis", Some(x.standard_basis()), Some(y.standard_basis()), 1.0);
        }
        let rm = if c.rng.chance(0.3) { RuleM::Back(gen_basic_cal(&mut c.rng, j, 400), c.rng.int(0, 5) as _) } else { gen_rule(&mut c.rng, j) };
        let x = rm.rc();
        c.add_note(format!("{:?}", rm));
        for y in trip::<RcDateRule>(c, "a date rule", &x, &rm.js()) {
            for _ in 0..8 {
                let k = j + c.rng.int(-420, 420);
                let d = dj(k);
                c.check("same rule", x.apply(d) == y.apply(d), || format!("{}", d));
                c.check("rule as described", y.apply(d) == dj(rm.apply(k)), || format!("{}", d));
            }
        }
        c.sig(&format!("{:?} {:?}", m, rm));
    });
    ctx.group("curves and dividends", 7500, 100000, |c| {
        let base = c.rng.int(4000, 60000);
        let m = gen_any_curve(&mut c.rng, base);
        c.note(format!("{:?}", m));
        let x = m.rc();
        for y in trip::<RcRateCurve>(c, "a curve", &x, &m.js()) {
            c.check("same base date", x.base_date() == y.base_date(), || format!("{}", y.base_date()));
            for _ in 0..6 { let j = base + c.rng.int(-100, 2500); same(c, "same rate", opt(x.rt(dj(j))), opt(y.rt(dj(j))), 0.01); }
        }
        let mut d = gen_divs(&mut c.rng, base, 900, 100.0);
        if c.rng.chance(0.4) { d.dy = gen_any_curve(&mut c.rng, base) }
        c.add_note(format!("{:?}", d));
        let x = d.stream();
        let js = d.js();
        for y in trip::<DividendStream>(c, "dividends", &x, &js).iter().map(|y| y.clone()).chain(trip::<RcDividendStream>(c, "shared dividends", &d.rc(), &js).iter().map(|y| (**y).clone())) {
            c.check("same dividends", x.dividends().len() == y.dividends().len(), || format!("{:?}", y));
            for (p, q) in x.dividends().iter().zip(y.dividends().iter()) {
                c.check("same dividend dates", p.ex_date() == q.ex_date() && p.pay_date() == q.pay_date(), || format!("{:?} {:?}", p, q));
                same(c, "same dividend size", Some(p.cash() + 100.0 * p.relative()), Some(q.cash() + 100.0 * q.relative()), 0.0);
            }
            c.check("same last cash ex-date", x.last_cash_ex_date() == y.last_cash_ex_date(), || format!("{:?}", y));
            for _ in 0..3 { let j = dj(base + c.rng.int(0, 2000)); same(c, "same dividend yield", opt(x.div_yield().rt(j)), opt(y.div_yield().rt(j)), 0.01); }
        }
        c.sig(&format!("{:?} {:?}", m, d));
    });
    ctx.group("volatility surfaces", 4000, 100000, |c| {
        let base = (c.rng.int(4000, 60000), *c.rng.pick(&[0.0, 0.2, 0.8]));
        let m = gen_any_vol(&mut c.rng, base, 100.0, 3);
        c.note(format!("{:?}", m));
        let js = match m.js() { Some(j) => j, None => c.skip("surface without a JSON form") };
        let x = match m.try_rc() { Ok(x) => x, Err(_) => c.skip("surface refused") };
        for y in trip::<RcVolSurface>(c, "a volatility surface", &x, &js) {
            c.check("same surface base", x.base_date().date() == y.base_date().date(), || format!("{:?}", y.base_date()));
            c.check("same dividend assumptions", x.div_assumptions() == y.div_assumptions(), || format!("{:?}", y.div_assumptions()));
            c.check("same surface calendar", x.calendar().name() == y.calendar().name(), || y.calendar().name().to_string());
            for _ in 0..6 {
                let d = (base.0 + c.rng.int(0, 1500), *c.rng.pick(&[0.0, 0.3, 0.8]));
                if m.ambiguous(d) || m.short(d) { c.ev("rounding could decide"); continue }
                let k = c.rng.f(40.0, 200.0);
                same(c, "same variance", opt(x.variance(ddf(d), k)), opt(y.variance(ddf(d), k)), 0.01);
                same(c, "same displacement", opt(x.displacement(dj(d.0))), opt(y.displacement(dj(d.0))), 1.0);
                let f = |s: &RcVolSurface| s.forward().and_then(|f| f.interpolate(dj(d.0)).ok());
                same(c, "same surface forward", f(&x), f(&y), 1.0);
            }
        }
        c.sig(&format!("{:?}", m));
    });
    ctx.group("interpolators", 12000, 120000, |c| {
        let n = 2 + c.rng.below(7);
        let mut p = Vec::new();
        let mut x = c.rng.f(-50.0, 50.0);
        for _ in 0..n { p.push((x, c.rng.f(-10.0, 10.0))); x += c.rng.f(0.3, 9.0) }
        let ex = [Ex::Flat, Ex::Natural, Ex::Nan, Ex::Zero, Ex::Throw];
        let (l, r) = (*c.rng.pick(&ex), *c.rng.pick(&ex));
        c.note(format!("{:?} {:?} {:?}", p, l, r));
        let js = jpts(&p, l, r);
        let (lo, hi) = (p[0].0, p[n - 1].0);
        let tie = 1e-9;
        let at = |c: &mut Case| match c.rng.below(5) { 0 => lo - c.rng.f(tie, 30.0), 1 => hi + c.rng.f(tie, 30.0), _ => c.rng.f(lo, hi) };
        let a = Linear::new(&p, l.real(), r.real());
        let a = c.ok("a linear interpolator", a);
        for y in trip::<Linear<f64>>(c, "a linear interpolator", &a, &js) {
            for _ in 0..8 { let z = at(c); same(c, "same interpolation", opt(a.interpolate(z)), opt(y.interpolate(z)), 10.0) }
        }
        let b = CubicSpline::new(&p, l.real(), r.real());
        let b = c.ok("a spline", b);
        for y in trip::<CubicSpline<f64>>(c, "a spline", &b, &js) {
            for _ in 0..8 { let z = at(c); same(c, "same spline", opt(b.interpolate(z)), opt(y.interpolate(z)), 1e4) }
        }
        let base = c.rng.int(4000, 60000);
        let q: Vec<(i32, f64)> = p.iter().enumerate().map(|(i, x)| (base + 7 * i as i32 * (1 + i as i32), x.1)).collect();
        let d: Vec<(Date, f64)> = q.iter().map(|x| (dj(x.0), x.1)).collect();
        let a = Linear::new(&d, l.real(), r.real());
        let a = c.ok("a linear interpolator by date", a);
        for y in trip::<Linear<Date>>(c, "a linear interpolator by date", &a, &jlin(&q, l, r)) {
            for _ in 0..8 { let z = dj(base + c.rng.int(-60, 600)); same(c, "same interpolation by date", opt(a.interpolate(z)), opt(y.interpolate(z)), 10.0) }
        }
        c.sig(&format!("{:?}", p));
    });
    ctx.group("fixings", 6000, 80000, |c| {
        let base = c.rng.int(4000, 60000);
        let odd = odd_id(&mut c.rng);
        let ids = ["BP.L", "GSK.L", &odd];
        let t = gen_tab(&mut c.rng, &ids[..if odd == "BP.L" { 2 } else { 3 }], base);
        c.note(format!("{:?}", t));
        let x = t.real();
        for y in trip::<FixingTable>(c, "fixings", &x, &t.js()) {
            c.check("same date of known fixings", y.fixings_known_until() == dj(t.until), || format!("{}", y.fixings_known_until()));
            for v in t.v.iter() {
                let g = y.get(&v.0, dtm(v.1)).ok().and_then(|v| v);
                same(c, "fixing kept", Some(v.2), g, 0.0);
            }
            for _ in 0..6 {
                let (i, w) = (*c.rng.pick(&ids), (base - c.rng.int(-10, 60), gen_tod(&mut c.rng)));
                let (a, b) = (x.get(i, dtm(w)), y.get(i, dtm(w)));
                c.check("same kind of answer", a.is_ok() == b.is_ok(), || format!("{:?} {:?}", i, w));
                same(c, "same fixing", a.ok().and_then(|v| v), b.ok().and_then(|v| v), 0.0);
            }
        }
        c.sig(&format!("{:?}", t));
    });
    ctx.group("markets and instruments", 2400, 60000, |c| {
        let n = 1 + c.rng.below(3);
        let (m, eqs) = gen_mkt(&mut c.rng, n);
        let md = data(c, &m);
        let depth = c.rng.below(3);
        let mut name = 0;
        let ins = gen_ins(&mut c.rng, &m, &eqs, depth, &mut name);
        c.note(format!("{:?} {:?}", ins, m));
        let js = match m.js() { Some(j) => j, None => c.skip("surface without a JSON form") };
        let mut os = Vec::new();
        ins.options(&mut os);
        for o in os { let mut ids = Vec::new(); o.und.spots(&mut ids); for i in ids { if let Some(v) = m.vols.get(&i) {
            for j in [frac(o.expiry)].iter().chain(match &o.strike { StrikeM::Fwd(_, t) => Some(frac(*t)), _ => None }.iter()) { if v.ambiguous(*j) || v.short(*j) { c.skip("rounding could decide") } }
        } } }
        let i1 = ins.rc();
        let before = crate::p_instr::price(&i1, &md, (m.base, OPEN));
        let f = RcPricerFactory::new(Arc::new(SelfPricerFactory::new()));
        let fx = RcFixingTable::new(Arc::new(Tab { until: m.base - 4000, v: vec![] }.real()));
        let size = crate::p_risk::scale(&vec![(1.0, ins.clone())], &m);
        let mds = trip::<MarketData>(c, "a market", &md, &js);
        let rms = trip::<RcMarketData>(c, "a shared market", &RcMarketData::new(Arc::new(md.clone())), &js);
        let is = trip::<RcInstrument>(c, "an instrument", &i1, &ins.js());
        let fs = trip::<RcPricerFactory>(c, "a pricer factory", &f, &json!({"SelfPricerFactory": {}}));
        let direct = f.new(i1.clone(), fx.clone(), RcMarketData::new(Arc::new(md.clone()))).and_then(|p| p.price());
        for k in 0..3 {
            c.check("same instrument id", is[k].id() == i1.id(), || is[k].id().to_string());
            c.check("same credit id", is[k].credit_id() == i1.credit_id(), || is[k].credit_id().to_string());
            c.check("same currency", is[k].payoff_currency().id() == i1.payoff_currency().id(), || "".into());
            c.check("same settlement", is[k].settlement().apply(dj(m.base)) == i1.settlement().apply(dj(m.base)), || "".into());
            let z = crate::p_instr::price(&is[k], &mds[(k + 1) % 3], (m.base, OPEN));
            same(c, "same price", before.as_ref().ok().cloned(), z.ok(), size);
            let z = fs[k].new(is[(k + 2) % 3].clone(), fx.clone(), rms[k].clone()).and_then(|p| p.price());
            same(c, "same price from pricers", direct.as_ref().ok().cloned(), z.ok(), size);
        }
        c.sig(&format!("{:?}", ins));
    });
    ctx.group("generators and their reports", 1200, 25000, |c| {
        let n = 1 + c.rng.below(2);
        let (m, eqs) = gen_mkt(&mut c.rng, n);
        let md = data(c, &m);
        let base = m.base;
        let g = gen_gen(&mut c.rng, base, 2);
        let und = InsM::Eq(eqs[0].clone());
        let o = InsM::Opt(gen_option(&mut c.rng, &m, &und, "O"));
        c.note(format!("{:?} {:?} {:?}", g, o, m));
        let gs = trip::<RcReportGenerator>(c, "a report generator", &g.rc(), &g.js());
        let v = GenM::Replace(c.rng.f(0.1, 0.5));
        trip::<RcReportGenerator>(c, "a report generator", &v.rc(), &v.js());
        let (mut cs, mut ps, mut np) = (c.rng.below(30), c.rng.f(0.001, 0.1), 1 + c.rng.below(100000));
        if c.rng.chance(0.1) { cs = 0; ps = 1.0; np = 1 }
        let b = BlackDiffusionFactory::new(cs, ps, np);
        let bj = json!({"BlackDiffusionFactory": {"correlation_substep": cs, "path_substep": ps, "number_of_paths": np}});
        let mf = RcMonteCarloModelFactory::new(Arc::new(b));
        trip::<RcMonteCarloModelFactory>(c, "a model factory", &mf, &bj);
        let pf = RcPricerFactory::new(Arc::new(MonteCarloPricerFactory::new(mf)));
        trip::<RcPricerFactory>(c, "a Monte-Carlo pricer factory", &pf, &json!({"MonteCarloPricerFactory": {"model_factory": bj}}));
        // the generator read back makes the same reports
        let f = RcPricerFactory::new(Arc::new(SelfPricerFactory::new()));
        let fx = RcFixingTable::new(Arc::new(Tab { until: m.base - 4000, v: vec![] }.real()));
        let rmd = RcMarketData::new(Arc::new(md));
        let run = |g: &RcReportGenerator| facade::calculate(f.clone(), o.rc(), fx.clone(), rmd.clone(), &[g.clone()]);
        let want = match run(&g.rc()) { Ok(r) => r, Err(_) => { c.check("read generator refuses as well", run(&gs[0]).is_err(), || "".into()); c.skip("report refused") } };
        let wt = serde_json::to_string(&want).unwrap();
        if wt.contains("null") { c.skip("reports with no value") }
        let wv = value(c, "reports", &wt);
        for g in gs.iter() {
            let r = run(g);
            let r = c.ok("reports of a generator read back", r);
            let v = value(c, "reports", &serde_json::to_string(&r).unwrap());
            let d = rough(&wv, &v);
            c.check("same reports", d.is_none(), || d.clone().unwrap());
        }
        for r in trip::<Vec<BoxReport>>(c, "reports", &want, &wv) {
            let e = facade::assert_approx_eq_reports(&r, &want, 1e-6, 1e-6, 1e-6);
            c.check("same reports read back", e.is_ok(), || format!("{:?}", e));
        }
        c.sig(&format!("{:?} {:?}", g, o));
    });
    ctx.group("reports", 4500, 60000, |c| {
        let n = c.rng.below(5);
        let rs: Vec<RepM> = (0..n).map(|_| gen_rep(&mut c.rng, 0.01, 3)).collect();
        let text = format!("[{}]", rs.iter().map(|r| r.json()).collect::<Vec<_>>().join(","));
        c.note(text.clone());
        let want = value(c, "reports", &text);
        let r = facade::reports_from_json(&mut text.as_bytes());
        let r = c.ok("reading reports", r);
        c.check("number of reports", r.len() == n, || format!("{} {}", r.len(), n));
        for x in trip::<Vec<BoxReport>>(c, "reports", &r, &want) {
            let e = facade::assert_approx_eq_reports(&x, &r, 1e-9, 1e-9, 1e-9);
            c.check("equal reports", e.is_ok(), || format!("{:?}", e));
        }
        for pretty in [false, true] {
            let mut out = Vec::new();
            let w = facade::write_results(&r, pretty, &mut out);
            c.ok("writing results", w);
            let t = String::from_utf8(out).unwrap();
            let v = value(c, "results", &t);
            let d = differ(&v, &want, 2.0);
            c.check("results as reports", d.is_none(), || d.clone().unwrap());
        }
        c.sig(&text);
    });
    ctx.group("names", 2000, 80000, |c| {
        let (id, cr, cc) = (odd_id(&mut c.rng), odd_id(&mut c.rng), odd_id(&mut c.rng));
        c.note(format!("{:?} {:?} {:?}", id, cr, cc));
        let ccy = RcCurrency::new(Arc::new(Currency::new(&cc, RuleM::Null.rc())));
        for y in trip::<RcCurrency>(c, "a currency", &ccy, &jccy(&cc, &RuleM::Null)) { c.check("same currency id", y.id() == cc, || y.id().to_string()) }
        let e = wrap(Equity::new(&id, &cr, ccy, RuleM::Null.rc()));
        let js = json!({"Equity": {"id": id, "credit_id": cr, "currency": jccy(&cc, &RuleM::Null), "settlement": RuleM::Null.js()}});
        for y in trip::<RcInstrument>(c, "an equity", &e, &js) {
            c.check("same names", y.id() == id && y.credit_id() == cr && y.payoff_currency().id() == cc, || format!("{} {}", y.id(), y.credit_id()));
        }
        let h: Vec<Date> = vec![];
        let cal: RcCalendar = Qrc::new(Arc::new(quantmath::dates::calendar::WeekdayAndHolidayCalendar::new(&id, &h)));
        for y in trip::<RcCalendar>(c, "a calendar", &cal, &json!({"WeekdayAndHolidayCalendar": {"name": id, "holidays": []}})) { c.check("same calendar name", y.name() == id, || y.name().to_string()) }
        let mut spots = HashMap::new();
        spots.insert(id.clone(), 5.0);
        let md = MarketData::new(dj(5000), spots, HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new());
        let mut js = json!({"spot_date": jdate(5000), "spots": {}, "yield_curves": {}, "borrow_curves": {}, "dividends": {}, "vol_surfaces": {}});
        js["spots"][&id] = json!(5.0);
        trip::<MarketData>(c, "a market", &md, &js);
        c.sig(&format!("{:?} {:?}", id, cc));
    });
}

fn ddf_of(d: Date, f: f64) -> DateDayFraction { DateDayFraction::new(d, f) }

/// differences between reports beyond what the last bits of inputs can cause
pub fn rough(a: &Value, b: &Value) -> Option<String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => { let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap()); if (x - y).abs() <= 1e-5 * (1.0 + x.abs()) { None } else { Some(format!("{} {}", x, y)) } }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y.iter()).find_map(|(p, q)| rough(p, q)),
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => x.iter().find_map(|(k, v)| rough(v, &y[k])),
        _ => if a == b { None } else { Some(format!("{} {}", a, b)) }
    }
}

// ------------------------------------------------------------------ S02

#[derive(Clone, Debug)]
enum Kind { Cur, Cred, Eq, Zero, Opt(usize, bool), Bask(Vec<(f64, usize)>) }

#[derive(Clone, Debug)]
struct Node { id: String, ccy: usize, kind: Kind }

/// instruments that share others, each using only earlier ones
#[derive(Clone, Debug)]
struct Dag { ccys: Vec<String>, nodes: Vec<Node> }

struct Built { ccys: Vec<RcCurrency>, ins: Vec<RcInstrument> }

const EXP: Tm = (20000, TimeOfDay::Close);

impl Dag {
    fn gen(r: &mut Rng) -> Dag {
        let nc = 1 + r.below(3);
        let odd = r.chance(0.2);
        let mut used = BTreeSet::new();
        let mut name = |r: &mut Rng, p: &str, i: usize| { let s = if odd { format!("{}{}", odd_id(r), i) } else { format!("{}{}", p, i) }; used.insert(s.clone()); s };
        let ccys: Vec<String> = (0..nc).map(|i| name(r, "C", i)).collect();
        let n = 1 + r.size(9, 40);
        let mut nodes: Vec<Node> = Vec::new();
        for i in 0..n {
            // an instrument may have the name of a currency
            let id = if i < nc && r.chance(0.1) { ccys[i].clone() } else { name(r, "I", i) };
            if nodes.iter().any(|x| x.id == id) { continue }
            let k = nodes.len();
            let kind = match if k == 0 { r.below(4) } else { r.below(9) } {
                0 => Kind::Eq, 1 => Kind::Zero, 2 => Kind::Cred, 3 => if r.chance(0.5) { Kind::Cur } else { Kind::Eq },
                4 | 5 => {
                    // options are on what has a volatility
                    let u: Vec<usize> = (0..k).filter(|i| matches!(nodes[*i].kind, Kind::Eq | Kind::Bask(_))).collect();
                    if u.is_empty() { Kind::Eq } else { Kind::Opt(*r.pick(&u), r.chance(0.5)) }
                }
                _ => { let m = r.size(5, 20); Kind::Bask((0..m).map(|_| (r.f(-2.0, 2.0), r.below(k))).collect()) }
            };
            nodes.push(Node { id, ccy: r.below(nc), kind })
        }
        // make sure the last one, which is the document, reaches most of the others
        let k = nodes.len();
        let id = name(r, "R", 99);
        let mut parts: Vec<(f64, usize)> = (0..k).filter(|_| r.chance(0.7)).map(|i| (1.0 + i as f64, i)).collect();
        for _ in 0..r.below(4) { parts.push((r.f(-2.0, 2.0), r.below(k))) }
        let mut v: Vec<(f64, usize)> = Vec::new();
        while !parts.is_empty() { let i = r.below(parts.len()); v.push(parts.remove(i)) }
        nodes.push(Node { id, ccy: r.below(nc), kind: Kind::Bask(v) });
        Dag { ccys, nodes }
    }
    fn build(&self) -> Built {
        let ccys: Vec<RcCurrency> = self.ccys.iter().map(|c| RcCurrency::new(Arc::new(Currency::new(c, RuleM::Null.rc())))).collect();
        let mut ins: Vec<RcInstrument> = Vec::new();
        for n in self.nodes.iter() {
            let (c, r) = (ccys[n.ccy].clone(), RuleM::Step(Cal::Week, 2).rc());
            let x = match &n.kind {
                Kind::Cur => wrap(Currency::new(&n.id, r)),
                Kind::Cred => wrap(CreditEntity::new(&n.id, c, r)),
                Kind::Eq => wrap(Equity::new(&n.id, "LSE", c, r)),
                Kind::Zero => wrap(ZeroCoupon::new(&n.id, "OPT", c, dtm(EXP), dj(EXP.0 + 2), r)),
                Kind::Opt(u, true) => wrap(SpotStartingEuropean::new(&n.id, "OPT", ins[*u].clone(), r, dtm(EXP), 100.0, PutOrCall::Call, OptionSettlement::Cash).unwrap()),
                Kind::Opt(u, false) => wrap(ForwardStartingEuropean::new(&n.id, "OPT", ins[*u].clone(), r, dtm(EXP), 1.1, dtm((EXP.0 - 90, TimeOfDay::Open)), PutOrCall::Put, OptionSettlement::Physical).unwrap()),
                Kind::Bask(v) => wrap(Basket::new(&n.id, "BK", c, r, v.iter().map(|(w, i)| (*w, ins[*i].clone())).collect()).unwrap())
            };
            ins.push(x)
        }
        Built { ccys, ins }
    }
    /// everything reached from a node, itself included
    fn reach(&self, i: usize, out: &mut BTreeSet<usize>, ccy: &mut BTreeSet<usize>) {
        if !out.insert(i) { return }
        match &self.nodes[i].kind {
            Kind::Opt(u, _) => self.reach(*u, out, ccy),
            Kind::Cur => {}
            k => { ccy.insert(self.nodes[i].ccy); if let Kind::Bask(v) = k { for x in v { self.reach(x.1, out, ccy) } } }
        }
    }
    /// The text of a node, its fields in any order. `si` and `sc` say which
    /// names stand for something already known; None writes everything in full.
    fn text(&self, i: usize, r: &mut Rng, si: &mut Option<BTreeSet<usize>>, sc: &mut Option<BTreeSet<usize>>, inline: bool) -> String {
        if let Some(s) = si { if !inline && !s.insert(i) { return json!(self.nodes[i].id).to_string() } s.insert(i); }
        let n = &self.nodes[i];
        let rule = RuleM::Step(Cal::Week, 2).js().to_string();
        let mut f: Vec<(&str, Option<String>)> = vec![("id", Some(json!(n.id).to_string())), ("settlement", Some(rule))];
        let tag = match &n.kind {
            Kind::Cur => "Currency",
            Kind::Cred => { f.push(("currency", None)); "CreditEntity" }
            Kind::Eq => { f.push(("currency", None)); f.push(("credit_id", Some("\"LSE\"".into()))); "Equity" }
            Kind::Zero => { f.push(("currency", None)); f.push(("credit_id", Some("\"OPT\"".into()))); f.push(("ex_date", Some(jtm(EXP).to_string()))); f.push(("payment_date", Some(jdate(EXP.0 + 2).to_string()))); "ZeroCoupon" }
            Kind::Bask(_) => { f.push(("currency", None)); f.push(("basket", None)); f.push(("credit_id", Some("\"BK\"".into()))); "Basket" }
            Kind::Opt(_, spot) => {
                f.push(("underlying", None)); f.push(("credit_id", Some("\"OPT\"".into()))); f.push(("expiry", Some(jtm(EXP).to_string())));
                f.push(("expiry_time", Some(jdt(frac(EXP)).to_string()))); f.push(("pay_date", Some(jdate(RuleM::Step(Cal::Week, 2).apply(EXP.0)).to_string())));
                f.push(("put_or_call", Some(if *spot { "\"Call\"" } else { "\"Put\"" }.into()))); f.push(("cash_or_physical", Some(if *spot { "\"Cash\"" } else { "\"Physical\"" }.into())));
                let s = (EXP.0 - 90, TimeOfDay::Open);
                if *spot { f.push(("strike", Some("100.0".into()))); "SpotStartingEuropean" }
                else { f.push(("strike_fraction", Some("1.1".into()))); f.push(("strike_date", Some(jtm(s).to_string()))); f.push(("strike_time", Some(jdt(frac(s)).to_string()))); "ForwardStartingEuropean" }
            }
        };
        let mut out = Vec::new();
        while !f.is_empty() {
            let k = r.below(f.len());
            let (key, v) = f.remove(k);
            let v = match (key, v) {
                (_, Some(v)) => v,
                ("currency", _) => {
                    let known = match sc { Some(s) => !s.insert(n.ccy), None => false };
                    if known { json!(self.ccys[n.ccy]).to_string() } else { jccy(&self.ccys[n.ccy], &RuleM::Null).to_string() }
                }
                ("underlying", _) => { let u = match n.kind { Kind::Opt(u, _) => u, _ => unreachable!() }; self.text(u, r, si, sc, false) }
                _ => { let v = match &n.kind { Kind::Bask(v) => v, _ => unreachable!() };
                    format!("[{}]", v.iter().map(|(w, u)| format!("[{:?}, {}]", w, self.text(*u, r, si, sc, false))).collect::<Vec<_>>().join(",")) }
            };
            out.push(format!("{}\"{}\": {}", if r.chance(0.1) { "\n  " } else { "" }, key, v));
        }
        format!("{{\"{}\": {{{}}}}}", tag, out.join(","))
    }
    fn full(&self, i: usize) -> Value { serde_json::from_str(&self.text(i, &mut Rng::new(1), &mut None, &mut None, true)).unwrap() }
}

/// collects the instruments that others pass on, with their addresses
struct Ptrs { v: Vec<RcInstrument> }
impl DependencyContext for Ptrs {
    fn spot_date(&self) -> Date { dj(19000) }
    fn yield_curve(&mut self, _: &str, _: Date) {}
    fn spot(&mut self, i: &RcInstrument) { self.v.push(i.clone()) }
    fn forward_curve(&mut self, i: &RcInstrument, _: Date) { self.v.push(i.clone()) }
    fn vol_surface(&mut self, i: &RcInstrument, _: Date) { self.v.push(i.clone()) }
    fn fixing(&mut self, _: &str, _: DateTime) {}
}

fn at(i: &RcInstrument) -> usize { &**i as *const dyn Instrument as *const u8 as usize }

fn seen(root: &RcInstrument) -> Vec<RcInstrument> {
    let mut all = vec![root.clone()];
    let mut k = 0;
    while k < all.len() && k < 2000 {
        let mut p = Ptrs { v: vec![] };
        all[k].dependencies(&mut p);
        for x in p.v { if !all.iter().any(|y| at(y) == at(&x)) { all.push(x) } }
        k += 1;
    }
    all
}

type DC = Dedup<Currency, Arc<Currency>>;
type DI = Dedup<dyn Instrument, Qrc<dyn Instrument>>;

fn cmap(v: &[RcCurrency]) -> HashMap<String, RcCurrency> { v.iter().map(|x| (x.id().to_string(), x.clone())).collect() }
fn imap(v: &[RcInstrument]) -> HashMap<String, RcInstrument> { v.iter().map(|x| (x.id().to_string(), x.clone())).collect() }

/// the thread has no deduplication going on
fn idle(c: &mut Case, b: &Built, d: &Dag, when: &str) {
    let k = d.nodes.len() - 1;
    let t = serde_json::to_string(&b.ins[k]);
    let t = c.ok("writing without deduplication", t);
    let v = value(c, "an instrument", &t);
    let e = differ(&v, &d.full(k), 2.0);
    c.check("no state left behind by writing", e.is_none(), || format!("{}: {}", when, e.clone().unwrap()));
    for n in d.nodes.iter() {
        let r = serde_json::from_str::<RcInstrument>(&json!(n.id).to_string());
        c.check("no instrument left behind", r.is_err(), || format!("{}: {:?}", when, n.id));
    }
    for n in d.ccys.iter() {
        let r = serde_json::from_str::<RcCurrency>(&json!(n).to_string());
        c.check("no currency left behind", r.is_err(), || format!("{}: {:?}", when, n));
    }
}

/// (in full, as names) for each instrument and currency of a document
type Counts = BTreeMap<String, (usize, usize)>;
fn counts(v: &Value, ins: &mut Counts, ccy: &mut Counts) {
    fn hit(v: &Value, m: &mut Counts) {
        match v { Value::String(s) => m.entry(s.clone()).or_default().1 += 1, Value::Object(o) => {
            let id = o.get("id").or_else(|| o.values().next().and_then(|x| x.get("id"))).and_then(|x| x.as_str()).unwrap_or("?").to_string();
            m.entry(id).or_default().0 += 1 }, _ => {} }
    }
    if let Value::Object(o) = v { if let Some(inner) = o.values().next() {
        if let Some(x) = inner.get("currency") { hit(x, ccy) }
        if let Some(x) = inner.get("underlying") { hit(x, ins); counts(x, ins, ccy) }
        if let Some(Value::Array(a)) = inner.get("basket") { for x in a { hit(&x[1], ins); counts(&x[1], ins, ccy) } }
    } }
}

fn control(k: usize) -> DedupControl { match k { 0 => DedupControl::Inline, 1 => DedupControl::WriteOnce, _ => DedupControl::ErrorIfMissing } }

fn s02(ctx: &mut Ctx) {
    ctx.group("writing", 12000, 200000, |c| {
        let d = Dag::gen(&mut c.rng);
        let b = d.build();
        let k = d.nodes.len() - 1;
        let (mi, mc) = (c.rng.below(3), c.rng.below(3));
        c.note(format!("{:?} instruments {:?} currencies {:?}", d, mi, mc));
        let (mut ri, mut rc) = (BTreeSet::new(), BTreeSet::new());
        d.reach(k, &mut ri, &mut rc);
        // known beforehand: all that is reached when names are required, now and then too few
        let few = c.rng.chance(0.15);
        let pick = |r: &mut Rng, mode: usize, n: usize, few: bool| -> BTreeSet<usize> { (0..n).filter(|_| match mode { 0 => r.chance(0.3), 1 => r.chance(0.2), _ => !few || r.chance(0.7) }).collect() };
        let mut ki = pick(&mut c.rng, mi, k, few);
        let kc = pick(&mut c.rng, mc, d.ccys.len(), few);
        ki.remove(&k);
        let mut di = DI::new(control(mi), imap(&ki.iter().map(|i| b.ins[*i].clone()).collect::<Vec<_>>()));
        let mut dc = DC::new(control(mc), cmap(&kc.iter().map(|i| b.ccys[*i].clone()).collect::<Vec<_>>()));
        let body = || if mi == 2 { serde_json::to_string(b.ins[k].content()) } else { serde_json::to_string(&b.ins[k]) };
        let t = if c.rng.chance(0.5) { dc.with(&DEDUP_CURRENCY, || di.with(&DEDUP_INSTRUMENT, body)) } else { di.with(&DEDUP_INSTRUMENT, || dc.with(&DEDUP_CURRENCY, body)) };
        idle(c, &b, &d, "after writing");
        // a name is needed for what is not known
        let mut direct = BTreeSet::new();
        let mut direct_c = BTreeSet::new();
        fn walk(d: &Dag, i: usize, mi: usize, ki: &BTreeSet<usize>, seen: &mut BTreeSet<usize>, di: &mut BTreeSet<usize>, dc: &mut BTreeSet<usize>) {
            let n = &d.nodes[i];
            let child = |u: usize, seen: &mut BTreeSet<usize>, di: &mut BTreeSet<usize>, dc: &mut BTreeSet<usize>| {
                di.insert(u);
                match mi { 0 => walk(d, u, mi, ki, seen, di, dc), 1 => if !ki.contains(&u) && seen.insert(u) { walk(d, u, mi, ki, seen, di, dc) }, _ => {} }
            };
            match &n.kind { Kind::Cur => {} Kind::Opt(u, _) => child(*u, seen, di, dc), Kind::Bask(v) => { dc.insert(n.ccy); for x in v { child(x.1, seen, di, dc) } } _ => { dc.insert(n.ccy); } }
        }
        let mut s = BTreeSet::new();
        s.insert(k);
        walk(&d, k, mi, &ki, &mut s, &mut direct, &mut direct_c);
        let missing = (mi == 2 && direct.iter().any(|x| !ki.contains(x))) || (mc == 2 && direct_c.iter().any(|x| !kc.contains(x)));
        if missing {
            c.check("writing a name that is not known is refused", t.is_err(), || t.as_ref().unwrap().clone());
            return
        }
        let t = c.ok("writing with deduplication", t);
        c.add_note(t.clone());
        let v = value(c, "an instrument", &t);
        let (mut ci, mut cc) = (Counts::new(), Counts::new());
        counts(&v, &mut ci, &mut cc);
        for u in direct.iter() {
            let (full, names) = ci.remove(&d.nodes[*u].id).unwrap_or((0, 0));
            let ok = match mi { 0 => names == 0 && full > 0, 1 => if ki.contains(u) { full == 0 && names > 0 } else { full == 1 }, _ => full == 0 && names > 0 };
            c.check("each instrument in full as often as asked", ok, || format!("{:?}: {} in full, {} by name", d.nodes[*u].id, full, names));
            if names > 0 && full > 0 { c.ev("shared instruments written once") }
        }
        c.check("no other instruments", ci.is_empty(), || format!("{:?}", ci));
        for u in direct_c.iter() {
            let (full, names) = cc.remove(&d.ccys[*u]).unwrap_or((0, 0));
            let ok = match mc { 0 => names == 0 && full > 0, 1 => if kc.contains(u) { full == 0 && names > 0 } else { full == 1 }, _ => full == 0 && names > 0 };
            c.check("each currency in full as often as asked", ok, || format!("{:?}: {} in full, {} by name", d.ccys[*u], full, names));
            if names > 0 && full > 0 { c.ev("shared currencies written once") }
        }
        c.check("no other currencies", cc.is_empty(), || format!("{:?}", cc));
        // read it with the same things known
        let mut src = t.as_bytes();
        let ks: Vec<RcInstrument> = ki.iter().map(|i| b.ins[*i].clone()).collect();
        let kcs: Vec<RcCurrency> = kc.iter().map(|i| b.ccys[*i].clone()).collect();
        let r = facade::instrument_from_json(&mut src, control(mc), &kcs, control(mi), &ks);
        let r = c.ok("reading what was written", r);
        let back = serde_json::to_string(&r).unwrap();
        let e = differ(&value(c, "an instrument", &back), &d.full(k), 6.0);
        c.check("same content after reading", e.is_none(), || e.clone().unwrap());
        // carrying on with the same state: what was written before goes by name
        if mi == 1 {
            let j = c.rng.below(k + 1);
            let w = dc.with(&DEDUP_CURRENCY, || di.with(&DEDUP_INSTRUMENT, || serde_json::to_string(&b.ins[j])));
            let w = match w { Ok(w) => w, Err(_) => return };
            let known = j == k || direct.contains(&j) || ki.contains(&j);
            c.check("state carried on", w.starts_with('"') == known, || format!("{} {}", d.nodes[j].id, w));
        }
        c.sig(&t);
    });
    ctx.group("reading", 12000, 200000, |c| {
        let d = Dag::gen(&mut c.rng);
        let b = d.build();
        let k = d.nodes.len() - 1;
        let (mi, mc) = (c.rng.below(3), c.rng.below(3));
        let (mut ri, mut rc) = (BTreeSet::new(), BTreeSet::new());
        d.reach(k, &mut ri, &mut rc);
        let all = c.rng.chance(0.5);
        // what a known instrument is made of is known as well
        let mut ki = BTreeSet::new();
        for i in 0..k { if mi == 2 || (mi == 1 && c.rng.chance(if all { 0.4 } else { 0.0 })) { d.reach(i, &mut ki, &mut BTreeSet::new()) } }
        let kc: BTreeSet<usize> = (0..d.ccys.len()).filter(|_| mc == 2 || (mc == 1 && c.rng.chance(if all { 0.4 } else { 0.0 }))).collect();
        let mut si = if mi == 0 { None } else { Some(ki.clone()) };
        let mut sc = if mc == 0 { None } else { Some(kc.clone()) };
        let t = d.text(k, &mut c.rng, &mut si, &mut sc, true);
        c.note(format!("instruments {:?} {:?} currencies {:?} {:?} {}", mi, ki, mc, kc, t));
        let ks: Vec<RcInstrument> = ki.iter().map(|i| b.ins[*i].clone()).collect();
        let kcs: Vec<RcCurrency> = kc.iter().map(|i| b.ccys[*i].clone()).collect();
        let r = facade::instrument_from_json(&mut t.as_bytes(), control(mc), &kcs, control(mi), &ks);
        idle(c, &b, &d, "after reading");
        let r = c.ok("reading with deduplication", r);
        let e = differ(&value(c, "an instrument", &serde_json::to_string(&r).unwrap()), &d.full(k), 6.0);
        c.check("same content", e.is_none(), || e.clone().unwrap());
        // identity
        let found = seen(&r);
        let mut byid: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
        for x in found.iter() { byid.entry(x.id().to_string()).or_default().insert(at(x)); }
        if mi != 0 {
            for (id, p) in byid.iter() { c.check("one object for each instrument", p.len() == 1, || format!("{:?}: {} objects", id, p.len())) }
            for i in ki.iter() { if let Some(p) = byid.get(&d.nodes[*i].id) { c.check("the known instrument itself", p.contains(&at(&b.ins[*i])), || d.nodes[*i].id.clone()) } }
        }
        if mc != 0 {
            let mut by: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
            for x in found.iter() { let i = d.nodes.iter().find(|n| n.id == x.id()); if let Some(n) = i {
                // things known beforehand have their own currency
                if ki.iter().any(|k| at(&b.ins[*k]) == at(x)) || matches!(n.kind, Kind::Cur | Kind::Opt(..)) { continue }
                let p = x.payoff_currency();
                by.entry(p.id().to_string()).or_default().insert(p as *const Currency as usize);
            } }
            for (id, p) in by.iter() {
                c.check("one object for each currency", p.len() == 1, || format!("{:?}: {} objects", id, p.len()));
                if let Some(i) = kc.iter().find(|i| d.ccys[**i] == *id) { c.check("the known currency itself", p.contains(&(&*b.ccys[*i] as *const Currency as usize)), || id.clone()) }
            }
        }
        // leave out something that is needed by name
        if !ks.is_empty() && mi != 0 {
            let i = c.rng.below(ks.len());
            let node = &d.nodes[*ki.iter().nth(i).unwrap()];
            let mut less = ks.clone();
            less.remove(i);
            let named = { let mut x = Counts::new(); let mut y = Counts::new(); counts(&value(c, "text", &t), &mut x, &mut y); x.get(&node.id).map(|v| v.1 > 0).unwrap_or(false) };
            let r = facade::instrument_from_json(&mut t.as_bytes(), control(mc), &kcs, control(mi), &less);
            c.check("an unknown instrument is an error", r.is_err() == named, || format!("{:?} {}", node.id, named));
            idle(c, &b, &d, "after a failed read");
            if named { c.ev("reads with an unknown instrument") }
        }
        if !kcs.is_empty() && mc != 0 {
            let i = c.rng.below(kcs.len());
            let id = kcs[i].id().to_string();
            let mut less = kcs.clone();
            less.remove(i);
            let named = { let mut x = Counts::new(); let mut y = Counts::new(); counts(&value(c, "text", &t), &mut x, &mut y); y.get(&id).map(|v| v.1 > 0).unwrap_or(false) };
            let r = facade::instrument_from_json(&mut t.as_bytes(), control(mc), &less, control(mi), &ks);
            c.check("an unknown currency is an error", r.is_err() == named, || format!("{:?} {}", id, named));
            idle(c, &b, &d, "after a failed read");
            if named { c.ev("reads with an unknown currency") }
        }
        // and all of it still reads
        let r = facade::instrument_from_json(&mut t.as_bytes(), control(mc), &kcs, control(mi), &ks);
        c.check("reads after failures", r.is_ok(), || format!("{:?}", r.as_ref().err()));
        c.sig(&t);
    });
    ctx.group("state", 3000, 60000, |c| {
        // nested, failing and panicking use; what is visible inside is always
        // the innermost state, and outside it is what it was
        let d = Dag::gen(&mut c.rng);
        let b = d.build();
        c.note(format!("{:?}", d));
        let k = d.nodes.len() - 1;
        let depth = 1 + c.rng.below(4);
        fn level(c: &mut Case, d: &Dag, b: &Built, k: usize, left: usize) {
            let mode = c.rng.below(3);
            let mine: BTreeSet<usize> = (0..=k).filter(|_| c.rng.chance(0.4)).collect();
            let cmode = c.rng.below(3);
            let mut dc = DC::new(control(cmode), cmap(&b.ccys));
            let mut di = DI::new(control(mode), imap(&mine.iter().map(|i| b.ins[*i].clone()).collect::<Vec<_>>()));
            let boom = c.rng.chance(0.2);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                dc.with(&DEDUP_CURRENCY, || di.with(&DEDUP_INSTRUMENT, || {
                    visible(c, d, b, k, &mine, "before");
                    if left > 0 { level(c, d, b, k, left - 1) }
                    visible(c, d, b, k, &mine, "after");
                    // a read that fails half way
                    let r = serde_json::from_str::<RcInstrument>("{\"Equity\": {\"id\": \"x\", \"currency\": \"no such thing\"}}");
                    c.check("failing read inside", r.is_err(), || "".into());
                    visible(c, d, b, k, &mine, "after a failure");
                    if boom { std::panic::resume_unwind(Box::new("stop")) }
                }))
            }));
            let r = match r { Err(p) if !p.is::<&str>() => std::panic::resume_unwind(p), r => r };
            c.check("panic passed on", r.is_err() == boom, || format!("{}", boom));
            if boom { c.ev("panics inside") }
        }
        fn visible(c: &mut Case, d: &Dag, b: &Built, k: usize, mine: &BTreeSet<usize>, when: &str) {
            for i in 0..=k {
                let r = serde_json::from_str::<RcInstrument>(&json!(d.nodes[i].id).to_string());
                let ok = if mine.contains(&i) { r.as_ref().map(|x| at(x) == at(&b.ins[i])).unwrap_or(false) } else { r.is_err() };
                c.check("only the innermost names are known", ok, || format!("{} {:?}", when, d.nodes[i].id));
                // a name is known as it is spelled and not otherwise
                let id = d.nodes[i].id.clone();
                let other = match c.rng.below(6) { 0 => format!("{} ", id), 1 => format!(" {}", id), 2 => id.to_lowercase(), 3 => id.to_uppercase(), 4 => format!("{}.", id), _ => { let mut x: Vec<char> = id.chars().collect(); x.pop(); x.into_iter().collect() } };
                if d.nodes.iter().all(|n| n.id != other) {
                    let r = serde_json::from_str::<RcInstrument>(&json!(other).to_string());
                    c.check("a similar name is unknown", r.is_err(), || format!("{:?} for {:?}", other, id));
                }
                let id = c.rng.pick(&d.ccys).clone();
                let other = match c.rng.below(4) { 0 => format!("{} ", id), 1 => id.to_lowercase(), 2 => format!("{}X", id), _ => id.trim_end().chars().take(2).collect() };
                if !d.ccys.contains(&other) {
                    let r = serde_json::from_str::<RcCurrency>(&json!(other).to_string());
                    c.check("a similar currency is unknown", r.is_err(), || format!("{:?} for {:?}", other, id));
                }
            }
        }
        level(c, &d, &b, k, depth - 1);
        idle(c, &b, &d, "after nesting");
        c.sig(&format!("{:?}", d));
    });
    ctx.group("threads", 200, 5000, |c| {
        let d = Dag::gen(&mut c.rng);
        let b = d.build();
        c.note(format!("{:?}", d));
        let k = d.nodes.len() - 1;
        let mut di = DI::new(DedupControl::WriteOnce, imap(&b.ins));
        let full = d.full(k);
        let ids: Vec<String> = d.nodes.iter().map(|n| json!(n.id).to_string()).collect();
        let root = b.ins[k].clone();
        let (v, leaks) = di.with(&DEDUP_INSTRUMENT, || std::thread::spawn(move || {
            let v: Value = serde_json::from_str(&serde_json::to_string(&root).unwrap()).unwrap();
            let n = ids.iter().filter(|i| serde_json::from_str::<RcInstrument>(i).is_ok()).count();
            (v, n)
        }).join().unwrap());
        let e = differ(&v, &full, 2.0);
        c.check("another thread writes without deduplication", e.is_none(), || e.clone().unwrap());
        c.check("another thread knows no names", leaks == 0, || format!("{}", leaks));
        idle(c, &b, &d, "after threads");
        c.sig(&format!("{:?}", d));
    });
}

// ------------------------------------------------------------------ S03

/// A kind of document, with a reader that says whether it was accepted. What
/// is accepted must be fit to be written and read again.
pub struct Doc { pub kind: &'static str, pub js: Value, pub read: fn(&str) -> Result<String, String> }

fn again<T: Serialize + DeserializeOwned>(r: Result<T, qm::Error>) -> Result<String, String> {
    let x = r.map_err(|e| format!("{}", e))?;
    let t = serde_json::to_string(&x).map_err(|e| format!("BAD cannot be written: {}", e))?;
    // numbers that are not finite cannot be read again
    if !t.contains("null") { serde_json::from_str::<T>(&t).map_err(|e| format!("BAD cannot be read again: {} {}", e, t))?; }
    Ok(t)
}
fn direct<T: Serialize + DeserializeOwned>(t: &str) -> Result<String, String> { again(serde_json::from_str::<T>(t).map_err(|e| qm::Error::from(e))) }
fn r_ins(t: &str) -> Result<String, String> { again(facade::instrument_from_json(&mut t.as_bytes(), DedupControl::Inline, &[], DedupControl::Inline, &[])) }
fn r_mkt(t: &str) -> Result<String, String> { again(facade::market_data_from_json(&mut t.as_bytes())) }
fn r_fix(t: &str) -> Result<String, String> { again(facade::fixing_table_from_json(&mut t.as_bytes())) }
fn r_pf(t: &str) -> Result<String, String> { again(facade::pricer_factory_from_json(&mut t.as_bytes())) }
fn r_gen(t: &str) -> Result<String, String> { again(facade::report_generator_from_json(&mut t.as_bytes())) }
fn r_rep(t: &str) -> Result<String, String> { again(facade::reports_from_json(&mut t.as_bytes())) }
fn r_ccy(t: &str) -> Result<String, String> { again(facade::currency_from_json(&mut t.as_bytes())) }

pub fn gen_doc(r: &mut Rng) -> Doc {
    let base = r.int(8000, 60000);
    loop {
        return match r.below(13) {
            0 | 1 => { let n = 1 + r.below(2); let (m, _) = gen_mkt(r, n); match m.js() { Some(js) => Doc { kind: "market", js, read: r_mkt }, None => continue } }
            2 | 3 | 4 => { let (m, eqs) = gen_mkt(r, 2); let d = r.below(3); let mut n = 0; let i = gen_ins(r, &m, &eqs, d, &mut n); Doc { kind: "instrument", js: i.js(), read: r_ins } }
            5 => { let t = gen_tab(r, &["A", "B"], base); Doc { kind: "fixings", js: t.js(), read: r_fix } }
            6 => Doc { kind: "pricer", js: if r.chance(0.3) { json!({"SelfPricerFactory": {}}) } else { json!({"MonteCarloPricerFactory": {"model_factory": {"BlackDiffusionFactory": {"correlation_substep": 20, "path_substep": 0.01, "number_of_paths": 100}}}}) }, read: r_pf },
            7 => Doc { kind: "generator", js: gen_gen(r, base, 2).js(), read: r_gen },
            8 => { let n = 1 + r.below(3); let t = format!("[{}]", (0..n).map(|_| gen_rep(r, 0.01, 2).json()).collect::<Vec<_>>().join(",")); Doc { kind: "reports", js: serde_json::from_str(&t).unwrap(), read: r_rep } }
            9 => Doc { kind: "currency", js: jccy("GBP", &gen_rule(r, base)), read: r_ccy },
            10 => Doc { kind: "curve", js: gen_any_curve(r, base).js(), read: direct::<RcRateCurve> },
            11 => { let d = gen_divs(r, base, 900, 100.0); Doc { kind: "dividends", js: d.js(), read: direct::<RcDividendStream> } }
            _ => { let v = gen_any_vol(r, (base, 0.2), 100.0, 2); if v.try_rc().is_err() { continue } match v.js() { Some(js) => Doc { kind: "surface", js, read: direct::<RcVolSurface> }, None => continue } }
        }
    }
}

/// where in a document something is
#[derive(Clone, Debug)]
enum Step { K(String), I(usize) }

fn paths(v: &Value, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(here.clone());
    match v {
        Value::Object(o) => for (k, x) in o { here.push(Step::K(k.clone())); paths(x, here, out); here.pop(); },
        Value::Array(a) => for (i, x) in a.iter().enumerate() { here.push(Step::I(i)); paths(x, here, out); here.pop(); },
        _ => {}
    }
}
fn get<'a>(v: &'a Value, p: &[Step]) -> &'a Value { p.iter().fold(v, |v, s| match s { Step::K(k) => &v[k], Step::I(i) => &v[*i] }) }
fn get_mut<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value { p.iter().fold(v, |v, s| match s { Step::K(k) => &mut v[k], Step::I(i) => &mut v[*i] }) }
fn last(p: &[Step]) -> &str { match p.last() { Some(Step::K(k)) => k, _ => "" } }

/// an object whose keys are data
fn is_map(kind: &str, p: &[Step]) -> bool {
    let l = last(p);
    match kind {
        "market" => p.len() == 1 && l != "spot_date",
        "fixings" => p.len() == 1 && l == "fixings_by_id",
        "reports" => l == "results",
        _ => false
    }
}

/// Change a document so that it must be refused; None if this change does not apply here.
pub fn spoil(r: &mut Rng, kind: &str, v: &mut Value) -> Option<String> {
    let mut ps = Vec::new();
    paths(v, &mut Vec::new(), &mut ps);
    let p = r.pick(&ps).clone();
    let l = last(&p).to_string();
    let old = get(v, &p).clone();
    let x = get_mut(v, &p);
    let is_date = |s: &str| s.len() == 10 && s.as_bytes()[4] == b'-' && s.as_bytes()[7] == b'-' && s.as_bytes()[0].is_ascii_digit();
    let at = format!("{:?}", p);
    match r.below(8) {
        // another type
        0 | 1 => {
            let all = [json!(5), json!("no such thing"), json!(null), json!(true), json!([]), json!({}), json!(2.5)];
            let ok: &[usize] = match &old {
                Value::String(_) => &[0, 2, 3, 4, 5, 6],
                Value::Number(_) => &[1, 2, 3, 4, 5],
                Value::Bool(_) => &[0, 1, 2, 4, 5, 6],
                Value::Array(_) => &[0, 1, 2, 3, 5, 6],
                Value::Object(_) => &[0, 1, 2, 3, 6],
                Value::Null => return None
            };
            let n = all[ok[r.below(ok.len())]].clone();
            *x = n.clone();
            Some(format!("{} replaced by {}", at, n))
        }
        // a missing field
        2 | 3 => {
            if is_map(kind, &p) { return None }
            let o = x.as_object_mut()?;
            if o.is_empty() { return None }
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = r.pick(&keys).clone();
            o.remove(&k);
            Some(format!("{} without {}", at, k))
        }
        // an unknown tag or name of a field
        4 => {
            if is_map(kind, &p) { return None }
            let o = x.as_object_mut()?;
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() { return None }
            let k = r.pick(&keys).clone();
            let y = o.remove(&k).unwrap();
            let n = match r.below(4) { 0 => format!("{}x", k), 1 => k.to_uppercase() + "_", 2 => String::new(), _ => k[..k.len() - 1].to_string() };
            o.insert(n.clone(), y);
            Some(format!("{} with {:?} for {:?}", at, n, k))
        }
        // text that is not a date or not one of the choices
        5 => {
            let s = old.as_str()?;
            let n = if is_date(s) { r.pick(&["2018-02-32", "2018-13-01", "2018-00-10", "2018-04-00", "", "today", "2018/01/01", "2018-01", "2018-01-", "1066-10-14", "20180-01-01", "2018-1x-01"]).to_string() }
                else if ["left", "right", "time_of_day", "put_or_call", "cash_or_physical", "div_assumptions", "spot_dynamics"].contains(&l.as_str()) { r.pick(&["", "flat", "OPEN", "Callx", "None", " Flat"]).to_string() }
                else { return None };
            *x = json!(n);
            Some(format!("{} {:?}", at, n))
        }
        // contents that no constructor accepts
        6 => match l.as_str() {
            "points" => {
                let a = x.as_array_mut()?;
                match r.below(3) {
                    0 => a.clear(),
                    1 => { if a.len() < 2 { return None } let i = r.below(a.len() - 1); a.swap(i, i + 1) }
                    _ => { if a.is_empty() { return None } let i = r.below(a.len()); let y = a[i].clone(); a.insert(i, y) }
                }
                Some(format!("{} {}", at, x))
            }
            "strike" => { *x = json!(-r.f(0.01, 100.0)); Some(format!("{} {}", at, x)) }
            "strike_fraction" => { *x = json!(if r.chance(0.3) { 0.0 } else { -r.f(0.01, 1.0) }); Some(format!("{} {}", at, x)) }
            "day_fraction" => { *x = json!(*r.pick(&[1.0, -0.1, 1.5, 2.0, 1e10, -1e-9])); Some(format!("{} {}", at, x)) }
            "fixing_by_date" => {
                let a = x.as_array_mut()?;
                if a.is_empty() { return None }
                let mut y = r.pick(a).clone();
                if r.chance(0.5) { y[1] = json!(77.0) }
                let i = r.below(a.len() + 1);
                a.insert(i, y);
                Some(format!("{} with a fixing twice", at))
            }
            "smiles" => { let a = x.as_array_mut()?; a.clear(); Some(format!("{} empty", at)) }
            "step" | "correlation_substep" | "number_of_paths" => { *x = json!(*r.pick(&[3e9, 0.5, -1e20])); Some(format!("{} {}", at, x)) }
            _ => None
        },
        // a pair that is not a pair
        _ => {
            if !(p.len() > 1 && matches!(p[p.len() - 1], Step::I(_)) && ["points", "basket", "smiles", "fixing_by_date"].contains(&last(&p[..p.len() - 1]))) { return None }
            let a = x.as_array_mut()?;
            match r.below(3) { 0 => { a.pop(); } 1 => { a.remove(0); } _ => a.push(json!(1.0)) }
            Some(format!("{} not a pair: {}", at, x))
        }
    }
}

fn s03(ctx: &mut Ctx) {
    ctx.group("truncated", 300, 12000, |c| {
        let d = gen_doc(&mut c.rng);
        let t = if c.rng.chance(0.5) { d.js.to_string() } else { serde_json::to_string_pretty(&d.js).unwrap() };
        c.note(format!("{} {}", d.kind, t));
        let r = (d.read)(&t);
        c.ok("reading the whole", r);
        let cuts: Vec<usize> = if t.len() < 400 { (0..t.len()).collect() } else { (0..200).map(|_| c.rng.below(t.len())).chain((1..20).map(|i| t.len() - i)).collect() };
        for n in cuts {
            if !t.is_char_boundary(n) { continue }
            let r = (d.read)(&t[..n]);
            c.check("truncated text refused", r.is_err() && !r.as_ref().err().unwrap().starts_with("BAD"), || format!("{} of {}: {:?}", n, t.len(), r));
        }
        let r = (d.read)(&t);
        c.ok("reading the whole after failures", r);
        c.sig(&t);
    });
    ctx.group("spoiled", 4000, 200000, |c| {
        let d = gen_doc(&mut c.rng);
        c.note(format!("{} {}", d.kind, d.js));
        for _ in 0..12 {
            let mut v = d.js.clone();
            let mut what = None;
            for _ in 0..30 { what = spoil(&mut c.rng, d.kind, &mut v); if what.is_some() { break } v = d.js.clone(); }
            let what = match what { Some(w) => w, None => continue };
            let t = v.to_string();
            let r = (d.read)(&t);
            c.check("spoiled document refused", r.is_err() && !r.as_ref().err().unwrap().starts_with("BAD"), || format!("{}: {:?}", what, r));
            c.ev(&format!("refused {}", d.kind));
        }
        let t = d.js.to_string();
        let r = (d.read)(&t);
        c.ok("reading the original after failures", r);
        c.sig(&t);
    });
    ctx.group("scrambled", 3000, 150000, |c| {
        let d = gen_doc(&mut c.rng);
        let t = d.js.to_string();
        c.note(format!("{} {}", d.kind, t));
        for _ in 0..12 {
            let mut b = t.clone().into_bytes();
            for _ in 0..1 + c.rng.below(3) {
                if b.is_empty() { break }
                let i = c.rng.below(b.len());
                match c.rng.below(6) {
                    0 => b[i] = c.rng.u64() as u8,
                    1 => { b.remove(i); }
                    2 => b.insert(i, *c.rng.pick(b"0123456789\"{}[],:.-eE+ ntf\\")),
                    3 => b[i] = *c.rng.pick(b"0123456789\"{}[],:.-eE+ ntf\\"),
                    4 => { let j = c.rng.below(b.len()); b.swap(i, j) }
                    _ => { let n = c.rng.below(20).min(b.len() - i); let s: Vec<u8> = b[i..i + n].to_vec(); let j = c.rng.below(b.len()); for (k, x) in s.into_iter().enumerate() { b.insert(j + k, x) } }
                }
            }
            // bytes that are not UTF-8 go in as they are where the reader takes bytes
            let r = match String::from_utf8(b.clone()) { Ok(s) => (d.read)(&s), Err(_) => {
                let r = facade::market_data_from_json(&mut &b[..]).is_ok() || facade::instrument_from_json(&mut &b[..], DedupControl::Inline, &[], DedupControl::WriteOnce, &[]).is_ok();
                if r { c.ev("accepted bytes") } Err("bytes".into()) } };
            match r {
                Ok(_) => c.ev("scrambled text accepted and usable"),
                Err(e) => c.check("scrambled text refused", !e.starts_with("BAD"), || e.clone())
            }
        }
        let r = (d.read)(&t);
        c.ok("reading the original after failures", r);
        c.sig(&t);
    });
    ctx.group("nested too deeply", 60, 1500, |c| {
        let n = *c.rng.pick(&[100, 200, 1000, 20000]);
        let base = json!({"ZeroRateCurve": {"base": "2018-01-01"}}).to_string();
        let vol = json!({"FlatVolSurface": {"vol": 0.2, "calendar": {"WeekdayCalendar": []}, "base_date": {"date": "2018-01-01", "day_fraction": 0.0}}}).to_string();
        let eq = InsM::Eq(EqM { id: "A".into(), credit: "B".into(), rule: RuleM::Null }).js().to_string();
        let k = c.rng.below(5);
        let t = match k {
            0 => format!("{}{}{}", "{\"RelativeBump\":{\"one_plus_bump\":1.0,\"curve\":".repeat(n), base, "}}".repeat(n)),
            1 => format!("{}{}{}", "{\"ParallelBumpVol\":{\"bump\":0.0,\"base_vol\":".repeat(n), vol, "}}".repeat(n)),
            2 => format!("{}{}{}", "{\"Basket\":{\"id\":\"X\",\"credit_id\":\"Y\",\"currency\":{\"id\":\"GBP\",\"settlement\":{\"NullRule\":{}}},\"settlement\":{\"NullRule\":{}},\"basket\":[[1.0,".repeat(n), eq, "]]}}".repeat(n)),
            3 => "[".repeat(n),
            _ => format!("{}{}{}", "{\"TimeBumpedReport\":{\"price\":1.0,\"theta\":0.0,\"subreports\":[".repeat(n), "", "]}}".repeat(n))
        };
        c.note(format!("kind {} depth {}", k, n));
        let read: fn(&str) -> Result<String, String> = match k { 0 => direct::<RcRateCurve>, 1 => direct::<RcVolSurface>, 2 => r_ins, 3 => r_mkt, _ => direct::<BoxReport> };
        // with the stack of a main thread
        let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || read(&t).is_ok()).unwrap().join();
        c.check("deep nesting handled", r.is_ok(), || "panicked".into());
        if let Ok(true) = r { c.ev("deep nesting read") } else { c.ev("deep nesting refused") }
        c.sig_u(c.idx);
    });
}

pub static PROPS: &[Prop] = &[
    Prop { id: "S01", run: s01,
        rule: "Generated objects of every type with a JSON form are written and the text compared field by field with a document produced by an independent writer; then read back, written and read again several times, compact and pretty, and also read from the independent document. Everything read is compared with the original: dates, calendars, rates, dividends, variances, fixings, interpolated values, prices, reports and names.",
        assumptions: &["numbers may move by a few units in the last place for each reading, as the JSON parser is not exact; results are compared to 1e-9 (reports 1e-5), and cases in which rounding decides a date are left out",
            "surfaces bumped with sticky delta have no JSON form"],
        need: &[("written in the documented form", 20000), ("written the same after reading", 20000), ("same price", 1000), ("same variance", 5000), ("same reports", 200), ("same step", 5000), ("fixing kept", 1000), ("same spline", 5000)] },
    Prop { id: "S02", run: s02,
        rule: "Graphs of instruments and currencies that share members are written and read in every combination of deduplication modes, with anything from nothing to everything known beforehand. Each shared object must appear in full exactly as often as the mode says, reading must give the same content and one object for each name (or the very object supplied), unknown names must be refused, and after each operation, failure or panic - nested or not, in this thread or another - the thread must write in full and know no names.",
        assumptions: &["objects with the same name have the same content"],
        need: &[("shared instruments written once", 500), ("a similar name is unknown", 1000), ("a similar currency is unknown", 1000), ("shared currencies written once", 500), ("writing a name that is not known is refused", 100), ("one object for each instrument", 1000), ("the known instrument itself", 500), ("the known currency itself", 300),
            ("reads with an unknown instrument", 300), ("reads with an unknown currency", 300), ("panics inside", 100), ("only the innermost names are known", 5000), ("another thread knows no names", 50), ("no state left behind by writing", 2000), ("state carried on", 300)] },
    Prop { id: "S03", run: s03,
        rule: "Valid documents of every kind are cut short, have values replaced by other types, fields and tags removed or renamed, dates, choices and contents made invalid, and bytes scrambled; documents are nested far too deeply. What must be refused is refused with an error, nothing panics, whatever is accepted can be written and read again, and the original is read normally afterwards.",
        assumptions: &["the stack is that of a main thread (8 MB); unoptimised code needs about 40 kB for each level up to the 128 that the parser allows", "additional unknown fields are ignored by design", "text after the end of a document is not looked at by the readers that take a stream"],
        need: &[("truncated text refused", 10000), ("spoiled document refused", 20000), ("scrambled text refused", 10000), ("refused market", 1000), ("refused instrument", 1000), ("refused fixings", 500), ("refused pricer", 300), ("refused generator", 300), ("refused reports", 300), ("refused surface", 500), ("refused dividends", 300), ("deep nesting refused", 10)] },
];
