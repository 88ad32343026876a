//! K01-K08: bumping, restoring, reports, time bumps, implied volatility.

use crate::fw::{close, Case, Ctx, Prop};
use crate::mkt::*;
use crate::p_dates::dj;
use crate::p_instr::{data, OPEN};
use crate::rng::Rng;
use quantmath::core::qm;
use quantmath::data::bump::Bump;
use quantmath::data::bumpspotdate::SpotDynamics;
use quantmath::data::bumpvol::BumpVol;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::facade::assert_approx_eq_reports;
use quantmath::instruments::{PricingContext, RcInstrument};
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::deltagamma::{DeltaGammaReport, DeltaGammaReportGenerator};
use quantmath::risk::marketdata::MarketData;
use quantmath::risk::timebumped::{TimeBumpedReport, TimeBumpedReportGenerator};
use quantmath::risk::vegavolga::{VegaVolgaReport, VegaVolgaReportGenerator};
use quantmath::risk::{BoxReport, Bumpable, Pricer, RcReportGenerator, ReportGenerator, Saveable, TimeBumpable};
use quantmath::solvers::impliedvol::ImpliedVol;
use quantmath::solvers::OneDimensionalSolver;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Port = Vec<(f64, InsM)>;

pub fn gen_port(r: &mut Rng, m: &Mkt, eqs: &[EqM]) -> Port {
    let mut n = 0;
    (0..1 + r.size(3, 9)).map(|_| (gen_w(r), { let d = r.below(3); gen_ins(r, m, eqs, d, &mut n) })).collect()
}

pub fn rcs(p: &Port) -> Vec<(f64, RcInstrument)> { p.iter().map(|(w, i)| (*w, i.rc())).collect() }

pub fn fresh(p: &[(f64, RcInstrument)], md: &MarketData) -> Result<SelfPricer, qm::Error> { SelfPricer::new(p.to_vec(), md) }

/// the size of the numbers that a portfolio's price is a sum of
pub fn scale(p: &Port, m: &Mkt) -> f64 {
    fn one(i: &InsM, m: &Mkt) -> f64 {
        match i {
            InsM::Bask { parts, .. } => parts.iter().map(|(w, i)| w.abs() * one(i, m)).sum(),
            InsM::Opt(o) => match o.kf(m) { Val2::V(k, f) => f.abs() + k.abs(), _ => 1.0 },
            InsM::Eq(e) => m.spots.get(&e.id).cloned().unwrap_or(1.0),
            _ => 1.0
        }
    }
    p.iter().map(|(w, i)| w.abs() * one(i, m)).sum::<f64>() + 1e-3
}

const MISSING: u64 = 0x7ff8_0000_dead_beef;

/// every quantity a context can be asked for, by kind and id
pub fn prints(c: &dyn PricingContext, eqs: &[EqM], base: i32) -> BTreeMap<String, Vec<u64>> {
    let mut out = BTreeMap::new();
    out.insert("date".to_string(), vec![c.spot_date().truncated_julian() as u64]);
    let bits = |x: Result<f64, qm::Error>| x.map(|v| v.to_bits()).unwrap_or(MISSING);
    for id in CREDITS.iter() {
        let v = match c.yield_curve(id, dj(base + 900)) { Ok(y) => [1, 30, 200, 800].iter().map(|d| bits(y.rt(dj(base + d)))).collect(), Err(_) => vec![MISSING] };
        out.insert(format!("yield:{}", id), v);
    }
    for e in eqs {
        let rc = InsM::Eq(e.clone()).rc();
        out.insert(format!("spot:{}", e.id), vec![bits(c.spot(&e.id))]);
        let f = c.forward_curve(&*rc, dj(base + 800));
        let v = match &f { Ok(f) => [0, 1, 15, 90, 300, 700].iter().map(|d| bits(f.forward(dj(base + d)))).collect(), Err(_) => vec![MISSING] };
        out.insert(format!("forward:{}", e.id), v);
        let mut v = Vec::new();
        match c.vol_surface(&*rc, dj(base + 800), &|| c.forward_curve(&*rc, dj(base + 800))) {
            Ok(s) => for d in [5, 60, 400].iter() {
                let at = DateDayFraction::new(dj(base + d), 0.5);
                for k in [0.8, 1.0, 1.2].iter() { v.push(bits(s.variance(at, k * 100.0))) }
                v.push(bits(s.displacement(dj(base + d))));
            },
            Err(_) => v.push(MISSING)
        }
        out.insert(format!("vol:{}", e.id), v);
    }
    out
}

fn same(c: &mut Case, what: &'static str, a: &BTreeMap<String, Vec<u64>>, b: &BTreeMap<String, Vec<u64>>) {
    let bad: Vec<&String> = a.keys().filter(|k| a[*k] != b[*k]).collect();
    c.check(what, bad.is_empty(), || format!("{:?} differ", bad));
}

fn nearly(a: u64, b: u64) -> bool {
    if a == b { return true }
    if a == MISSING || b == MISSING { return false }
    close(f64::from_bits(a), f64::from_bits(b), 1e-10, 1e-12)
}

pub fn bits(x: &Result<f64, qm::Error>) -> Option<u64> { x.as_ref().ok().map(|v| v.to_bits()) }

/// price of a portfolio by the model
pub fn model(p: &Port, m: &Mkt, disc: Disc) -> Val { price_all(p, m, (m.base, OPEN), disc) }

/// an option may be discounted on either curve here: which one is I02's business
pub fn agrees(c: &mut Case, what: &str, got: &Result<f64, qm::Error>, own: Val, und: Val, extra: f64) {
    if own == Val::Skip || und == Val::Skip { c.ev("decided by rounding"); return }
    c.ev(what);
    let one = |v: Val| match (got, v) { (Ok(g), Val::V(w, t)) => close(*g, w, 1e-11, t + extra + 1e-12), (Err(_), Val::Err) => true, _ => false };
    if !one(own) && !one(und) { c.fail(format!("{}: got {:?} want {:?}", what, got.as_ref().map_err(|e| e.to_string()), own)) }
}

fn slot(b: &BumpM) -> (u8, String) {
    (match b { BumpM::SpotRel(..) | BumpM::SpotSet(..) => 0, BumpM::Divs(..) => 1, BumpM::BorrowAnn(..) | BumpM::BorrowCont(..) => 2,
        BumpM::YieldAnn(..) | BumpM::YieldCont(..) => 3, _ => 4 }, b.id().to_string())
}

fn gen_bump_in(r: &mut Rng, eqs: &[EqM], s: Option<&(u8, String)>) -> BumpM {
    loop { let b = gen_bump(r, eqs); if s.map_or(true, |s| slot(&b) == *s) { return b } if let Some(s) = s { if s.1 == "NOBODY" { return BumpM::SpotRel("NOBODY".into(), 0.1) } } }
}

fn against_fresh(c: &mut Case, p: &SelfPricer, port: &Port, rc: &[(f64, RcInstrument)], m: &Mkt, md: &MarketData, eqs: &[EqM]) {
    let sc = scale(port, m);
    let got = p.price();
    match fresh(rc, md) {
        Ok(f) => {
            let want = f.price();
            match (&got, &want) {
                (Ok(a), Ok(b)) => c.check("same price as a fresh pricer", close(*a, *b, 1e-11, 1e-11 * sc) || (a.is_nan() && b.is_nan()), || format!("{} vs {}", a, b)),
                (Err(_), Err(_)) => c.ev("error both ways"),
                (a, b) => c.fail(format!("pricer {:?} vs fresh {:?}", a.as_ref().map_err(|e| e.to_string()), b.as_ref().map_err(|e| e.to_string())))
            }
            let (x, y) = (prints(p.context(), eqs, m.base), prints(f.context(), eqs, m.base));
            let bad: Vec<&String> = x.keys().filter(|k| x[*k].len() != y[*k].len() || x[*k].iter().zip(y[*k].iter()).any(|(a, b)| !nearly(*a, *b))).collect();
            c.check("same market as a fresh pricer", bad.is_empty(), || format!("{:?} differ", bad));
        }
        Err(e) => c.fail(format!("fresh pricer: {}", e))
    }
    agrees(c, "same price as the model", &got, model(port, m, Disc::Own), model(port, m, Disc::Und), 0.0);
}

fn k01(ctx: &mut Ctx) {
    ctx.group("sequences", 60000, 2400000, |c| {
        let (mut m, eqs, port) = if c.rng.chance(0.06) {
            // many underlyings, mostly of one credit entity
            let k = 4 + c.rng.below(9);
            let (m, mut eqs) = gen_mkt(&mut c.rng, k);
            for e in eqs.iter_mut() { if c.rng.chance(0.8) { e.credit = "LSE".into() } }
            let port = eqs.iter().enumerate().map(|(i, e)| (gen_w(&mut c.rng), InsM::Opt(gen_option(&mut c.rng, &m, &InsM::Eq(e.clone()), &format!("O{}", i))))).collect();
            c.ev("many underlyings");
            (m, eqs, port)
        } else { let (m, eqs) = gen_mkt(&mut c.rng, 3); let port = gen_port(&mut c.rng, &m, &eqs); (m, eqs, port) };
        let mut md = data(c, &m);
        let rc = rcs(&port);
        c.note(format!("{:?} {:?}", port, m));
        let mut p = c.ok("pricer", fresh(&rc, &md));
        let mut stack: Vec<(Box<dyn Saveable>, (u8, String), Mkt, MarketData)> = Vec::new();
        against_fresh(c, &p, &port, &rc, &m, &md, &eqs);
        // sometimes the bumps that are never undone go into one saved state all the same
        let mut scrap = if c.rng.chance(0.25) { Some(p.new_saveable()) } else { None };
        for _ in 0..1 + c.rng.below(10) {
            match c.rng.below(20) {
                0..=11 => {
                    let save = c.rng.chance(0.6);
                    let b = if save || stack.is_empty() { gen_bump_in(&mut c.rng, &eqs, None) } else { let s = stack.last().unwrap().1.clone(); gen_bump_in(&mut c.rng, &eqs, Some(&s)) };
                    c.add_note(format!("{:?} save {}", b, save));
                    let real = b.real();
                    let (m0, md0) = (m.clone(), md.clone());
                    let effect = b.apply(&mut m);
                    let plain = c.ok("plain bump", md.bump(&real, None));
                    c.check("plain bump reports its effect", plain == effect, || format!("{:?}: {}", b, plain));
                    let r = if save {
                        let mut s = p.new_saveable();
                        let r = p.bump(&real, Some(&mut *s));
                        stack.push((s, slot(&b), m0, md0));
                        r
                    } else if let Some(ref mut s) = scrap { c.ev("saved on top of another bump"); p.bump(&real, Some(&mut **s)) }
                    else { p.bump(&real, None) };
                    match r { Ok(x) => { c.check("bump reports its effect", x == effect, || format!("{:?}: {}", b, x)); if !x { c.ev("bump without effect") } }, Err(e) => c.fail(format!("{:?}: {}", b, e)) }
                }
                12..=17 => if let Some((s, _, m0, md0)) = stack.pop() {
                    c.add_note("restore".to_string());
                    c.ok("restore", p.restore(&*s));
                    c.ev("restored");
                    m = m0; md = md0;
                },
                18 => { c.add_note("clone".to_string()); let q = p.clone(); p = q; c.ev("continued on a clone") }
                _ => if let Some((mut s, _, _, _)) = stack.pop() { c.add_note("forget".to_string()); s.clear(); c.ok("restoring nothing", p.restore(&*s)); c.ev("saved state dropped"); stack.clear() }
            }
            against_fresh(c, &p, &port, &rc, &m, &md, &eqs);
        }
        c.sig(&format!("{:?}", port));
        c.sample(format!("{:?}", port));
    });
}

fn k02_run(c: &mut Case, b: &mut dyn Bumpable, price: &dyn Fn(&mut dyn Bumpable) -> Option<u64>, eqs: &[EqM], base: i32) {
    let mut stack = Vec::new();
    let mut wrong: Box<dyn Saveable> = Box::new(Other);
    for _ in 0..1 + c.rng.below(10) {
        match c.rng.below(10) {
            0..=4 => {
                let before = (prints(b.context(), eqs, base), price(b));
                let mut s = b.new_saveable();
                let bump = gen_bump(&mut c.rng, eqs);
                c.add_note(format!("{:?}", bump));
                let eff = c.ok("bump", b.bump(&bump.real(), Some(&mut *s)));
                if eff { if prints(b.context(), eqs, base) != before.0 { c.ev("market changed") } if price(b) != before.1 { c.ev("price changed") } }
                else {
                    same(c, "no effect, no change", &before.0, &prints(b.context(), eqs, base));
                    c.check("no effect, no change", price(b) == before.1, || "price".into());
                }
                // further bumps of the same thing, unsaved
                while c.rng.chance(0.25) { let s = slot(&bump); let x = gen_bump_in(&mut c.rng, eqs, Some(&s)); c.add_note(format!("then {:?}", x)); c.ok("unsaved bump", b.bump(&x.real(), None)); }
                // again and again with the same saved state
                let mut times = 0;
                while c.rng.chance(0.3) && times < 3 {
                    c.ok("restore", b.restore(&*s));
                    same(c, "restored exactly", &before.0, &prints(b.context(), eqs, base));
                    c.check("price restored exactly", price(b) == before.1, || format!("{:?}", bump));
                    if c.rng.chance(0.5) { s.clear() }
                    c.ok("same bump again", b.bump(&bump.real(), Some(&mut *s)));
                    c.ev("same saved state again");
                    times += 1;
                }
                stack.push((s, before));
            }
            5..=7 => if let Some((s, before)) = stack.pop() {
                c.add_note("restore".to_string());
                c.ok("restore", b.restore(&*s));
                same(c, "restored exactly", &before.0, &prints(b.context(), eqs, base));
                c.check("price restored exactly", price(b) == before.1, || "differs".into());
                if c.rng.chance(0.3) {
                    c.ok("restore twice", b.restore(&*s));
                    same(c, "restoring twice changes nothing", &before.0, &prints(b.context(), eqs, base));
                }
            },
            8 => {
                let before = (prints(b.context(), eqs, base), price(b));
                let bump = gen_bump(&mut c.rng, eqs);
                let r = b.bump(&bump.real(), Some(&mut *wrong));
                c.check("foreign save space refused", r.is_err(), || "accepted".into());
                let r = b.restore(&*wrong);
                c.check("foreign save space refused", r.is_err(), || "restored".into());
                same(c, "failed bump changes nothing", &before.0, &prints(b.context(), eqs, base));
                c.check("failed bump changes nothing", price(b) == before.1, || "price".into());
            }
            _ => {
                let before = (prints(b.context(), eqs, base), price(b));
                let mut s = b.new_saveable();
                if let Some((_, _)) = stack.last() {} else {
                    let bump = gen_bump(&mut c.rng, eqs);
                    c.ok("bump", b.bump(&bump.real(), Some(&mut *s)));
                }
                let after = (prints(b.context(), eqs, base), price(b));
                s.clear();
                c.ok("cleared", b.restore(&*s));
                same(c, "cleared state restores nothing", &after.0, &prints(b.context(), eqs, base));
                c.check("cleared state restores nothing", price(b) == after.1, || "price".into());
                let _ = before;
            }
        }
    }
    while let Some((s, before)) = stack.pop() {
        c.ok("restore", b.restore(&*s));
        same(c, "restored exactly", &before.0, &prints(b.context(), eqs, base));
        c.check("price restored exactly", price(b) == before.1, || "differs".into());
    }
}

/// a save space that belongs to nothing
struct Other;
impl Saveable for Other {
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn as_mut_any(&mut self) -> &mut dyn std::any::Any { self }
    fn clear(&mut self) {}
}

fn k02(ctx: &mut Ctx) {
    ctx.group("pricer", 50000, 2000000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let port = gen_port(&mut c.rng, &m, &eqs);
        c.note(format!("{:?} {:?}", port, m));
        let mut p = Holder(c.ok("pricer", fresh(&rcs(&port), &md)));
        let start = (prints(p.0.context(), &eqs, m.base), bits(&p.0.price()));
        run_holder(c, &mut p, &eqs, m.base);
        let _ = start;
        c.sig(&format!("{:?}", port));
        c.sample(format!("{:?}", port));
    });
    ctx.group("market data", 25000, 800000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let mut md = data(c, &m);
        c.note(format!("{:?}", m));
        k02_run(c, &mut md, &|_| None, &eqs, m.base);
        c.sig(&format!("{:?}", m));
    });
}

struct Holder(SelfPricer);

impl Bumpable for Holder {
    fn bump(&mut self, b: &Bump, s: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> { self.0.bump(b, s) }
    fn dependencies(&self) -> Result<&quantmath::risk::dependencies::DependencyCollector, qm::Error> { self.0.dependencies() }
    fn context(&self) -> &dyn PricingContext { self.0.context() }
    fn new_saveable(&self) -> Box<dyn Saveable> { self.0.new_saveable() }
    fn restore(&mut self, s: &dyn Saveable) -> Result<(), qm::Error> { self.0.restore(s) }
}

fn run_holder(c: &mut Case, p: &mut Holder, eqs: &[EqM], base: i32) {
    let raw: *const Holder = p;
    // the price is read between calls, never while the pricer is being bumped
    let price = move |_: &mut dyn Bumpable| bits(&unsafe { &*raw }.0.price());
    k02_run(c, p, &price, eqs, base);
}

fn spot_ids(port: &Port) -> BTreeSet<String> { let mut v = Vec::new(); for (_, i) in port { i.spots(&mut v) } v.into_iter().collect() }

fn vol_ids(port: &Port) -> BTreeSet<String> {
    let mut v = Vec::new();
    for (_, i) in port { i.options(&mut v) }
    v.iter().map(|o| o.und.id().to_string()).collect()
}

fn down_price(c: &mut Case, rc: &[(f64, RcInstrument)], m: &Mkt) -> Option<f64> {
    let md = match m.try_data() { Ok(d) => d, Err(_) => c.skip("surface refused") };
    fresh(rc, &md).and_then(|p| p.price()).ok()
}

fn val(v: Val) -> Option<(f64, f64)> { match v { Val::V(x, t) => Some((x, t)), _ => None } }

/// the model's values unbumped, up and down, for either way of discounting options
fn model3(port: &Port, ms: [&Mkt; 3]) -> Vec<([f64; 3], f64)> {
    let mut out = Vec::new();
    for d in [Disc::Own, Disc::Und].iter() {
        if let (Some(u), Some(x), Some(y)) = (val(model(port, ms[0], *d)), val(model(port, ms[1], *d)), val(model(port, ms[2], *d))) {
            out.push(([u.0, x.0, y.0], u.1.max(x.1).max(y.1) + 1e-12))
        }
    }
    out
}

fn k03(ctx: &mut Ctx) {
    ctx.group("reports", 60000, 2000000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let md = data(c, &m);
        let linear = c.rng.chance(0.15);
        let port: Port = if linear { (0..1 + c.rng.below(4)).map(|_| (gen_w(&mut c.rng), InsM::Eq(c.rng.pick(&eqs).clone()))).collect() } else { gen_port(&mut c.rng, &m, &eqs) };
        let rc = rcs(&port);
        c.note(format!("{:?} {:?}", port, m));
        let mut p = c.ok("pricer", fresh(&rc, &md));
        // the report is also right for a pricer that has been bumped already
        let mut m = m;
        if c.rng.chance(0.3) { let b = gen_bump(&mut c.rng, &eqs); c.add_note(format!("{:?}", b)); b.apply(&mut m); c.ok("bump", p.bump(&b.real(), None)); }
        let b = *c.rng.pick(&[0.01, 0.001, 0.05, 0.1, 0.003]);
        let unb = match p.price() { Ok(v) if v.is_finite() => v, _ => c.skip("not priceable") };
        let before = prints(p.context(), &eqs, m.base);
        let mut s = p.new_saveable();
        let rep = DeltaGammaReportGenerator::new(b).generate(&mut p, &mut *s, unb);
        // a report that fails half way leaves the way back in the saved state
        if rep.is_err() { c.ok("restore after failure", p.restore(&*s)); c.ev("restored after failure"); }
        same(c, "market unchanged", &before, &prints(p.context(), &eqs, m.base));
        c.check("price unchanged", bits(&p.price()) == Some(unb.to_bits()), || "changed".into());
        c.ok("restore afterwards", p.restore(&*s));
        same(c, "saved state left empty", &before, &prints(p.context(), &eqs, m.base));
        let ids = spot_ids(&port);
        let mut want = BTreeMap::new();
        let sc = scale(&port, &m);
        let mut priceable = true;
        for id in ids.iter() {
            let spot = m.spots[id];
            let at = |x: f64| { let mut m2 = m.clone(); m2.spots.insert(id.clone(), x); m2 };
            let (mu, mdn) = (at(spot * (1.0 + b)), at(spot * (1.0 - b)));
            match (down_price(c, &rc, &mu), down_price(c, &rc, &mdn)) {
                (Some(u), Some(d)) if u.is_finite() && d.is_finite() => {
                    let h = b * spot;
                    want.insert(id.clone(), ((u - d) / (2.0 * h), (u + d - 2.0 * unb) / (h * h), h, mu, mdn));
                }
                _ => priceable = false
            }
        }
        let rep = match (rep, priceable) {
            (Ok(r), _) => r,
            (Err(_), false) => { c.ev("a bumped price that cannot be had"); return }
            (Err(e), true) => { c.fail(format!("report: {}", e)); return }
        };
        if !priceable { c.ev("report of an unpriceable bump"); return }
        let rep = match rep.as_any().downcast_ref::<DeltaGammaReport>() { Some(r) => r, None => { c.fail("not a delta report"); return } };
        let got: BTreeSet<String> = rep.results().keys().cloned().collect();
        c.check("one entry for each underlying", got == ids, || format!("{:?} want {:?}", got, ids));
        for (id, (de, ga, h, mu, mdn)) in want.iter() {
            if let Some(r) = rep.results().get(id) {
                c.close("delta", r.delta(), *de, 1e-9, 1e-11 * sc / h);
                c.close("gamma", r.gamma(), *ga, 1e-9, 4e-11 * sc / (h * h));
                let ms = model3(&port, [&m, mu, mdn]);
                if ms.len() == 2 {
                    let fit = ms.iter().any(|(v, t)| close(r.delta(), (v[1] - v[2]) / (2.0 * h), 1e-9, t / h + 1e-10 * sc / h)
                        && close(r.gamma(), (v[1] + v[2] - 2.0 * v[0]) / (h * h), 1e-9, 4.0 * (t + 1e-10 * sc) / (h * h)));
                    c.check("delta and gamma by the model", fit, || format!("{}: {:?} model {:?}", id, r, ms));
                }
                if linear {
                    let w: f64 = port.iter().filter(|p| p.1.id() == id).map(|p| p.0).sum();
                    c.close("delta of shares is their number", r.delta(), w, 1e-9, 1e-11 * sc / h);
                    c.close("gamma of shares is zero", r.gamma(), 0.0, 1e-9, 4e-11 * sc / (h * h));
                }
                if r.delta() != 0.0 { c.ev("non-zero delta") }
                if r.gamma().abs() > 1e-4 { c.ev("non-zero gamma") }
            }
        }
        c.sig(&format!("{:?}", port));
        c.sample(format!("{:?}", rep));
    });
}

fn k04(ctx: &mut Ctx) {
    ctx.group("reports", 60000, 2000000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let md = data(c, &m);
        let port = gen_port(&mut c.rng, &m, &eqs);
        let rc = rcs(&port);
        c.note(format!("{:?} {:?}", port, m));
        let mut p = c.ok("pricer", fresh(&rc, &md));
        let mut m = m;
        if c.rng.chance(0.3) { let b = gen_bump(&mut c.rng, &eqs); c.add_note(format!("{:?}", b)); b.apply(&mut m); c.ok("bump", p.bump(&b.real(), None)); }
        let b = *c.rng.pick(&[0.01, 0.001, 0.02, 0.005]);
        let floor = if c.rng.chance(0.5) { Some(c.rng.f(0.02, 0.3)) } else { None };
        let bump = match floor { Some(f) => BumpVol::new_time_scaled(b, f), None => BumpVol::new_flat_additive(b) };
        let unb = match p.price() { Ok(v) if v.is_finite() => v, _ => c.skip("not priceable") };
        let before = prints(p.context(), &eqs, m.base);
        let mut s = p.new_saveable();
        let rep = VegaVolgaReportGenerator::new(bump).generate(&mut p, &mut *s, unb);
        // a report that fails half way leaves the way back in the saved state
        if rep.is_err() { c.ok("restore after failure", p.restore(&*s)); c.ev("restored after failure"); }
        same(c, "market unchanged", &before, &prints(p.context(), &eqs, m.base));
        c.check("price unchanged", bits(&p.price()) == Some(unb.to_bits()), || "changed".into());
        c.ok("restore afterwards", p.restore(&*s));
        same(c, "saved state left empty", &before, &prints(p.context(), &eqs, m.base));
        let (ids, vids) = (spot_ids(&port), vol_ids(&port));
        let sc = scale(&port, &m);
        let moved = |id: &str, sizes: &[f64]| {
            let mut m2 = m.clone();
            for z in sizes { (match floor { Some(f) => BumpM::VolScaled(id.to_string(), *z, f), None => BumpM::VolAdd(id.to_string(), *z) }).apply(&mut m2); }
            m2
        };
        // the stated down move, and (a finding) the one actually made
        let opp = (1.0 - b) / (1.0 + b) - 1.0;
        let mut want = BTreeMap::new();
        let mut priceable = true;
        for id in vids.iter() {
            let (mu, m1, m2) = (moved(id, &[b]), moved(id, &[b, -2.0 * b]), moved(id, &[b, opp]));
            match (down_price(c, &rc, &mu), down_price(c, &rc, &m1), down_price(c, &rc, &m2)) {
                (Some(u), Some(d), Some(e)) if u.is_finite() && d.is_finite() && e.is_finite() => { want.insert(id.clone(), (u, d, e, mu, m1, m2)); }
                _ => priceable = false
            }
        }
        let rep = match (rep, priceable) {
            (Ok(r), _) => r,
            (Err(_), false) => { c.ev("a bumped price that cannot be had"); return }
            (Err(e), true) => { c.fail(format!("report: {}", e)); return }
        };
        if !priceable { c.ev("report of an unpriceable bump"); return }
        let rep = match rep.as_any().downcast_ref::<VegaVolgaReport>() { Some(r) => r, None => { c.fail("not a vega report"); return } };
        let got: BTreeSet<String> = rep.results().keys().cloned().collect();
        c.check("an entry for each volatility", vids.is_subset(&got), || format!("{:?} want {:?}", got, vids));
        c.check("no entry for what does not matter", got.is_subset(&ids), || format!("{:?} only {:?}", got, ids));
        for (id, r) in rep.results().iter() {
            if !vids.contains(id) { c.check("no volatility, no vega", r.vega() == 0.0 && r.volga() == 0.0, || format!("{} {:?}", id, r)); continue }
            let (u, d, e, mu, m1, m2) = &want[id];
            let (t1, t2) = (1e-11 * sc / b, 4e-11 * sc / (b * b));
            let fits = |d: f64, x1: f64, x2: f64| close(r.vega(), (u - d) / (2.0 * b), 1e-9, t1 + x1) && close(r.volga(), (u + d - 2.0 * unb) / (b * b), 1e-9, t2 + x2);
            c.ev("vega and volga");
            if fits(*d, 0.0, 0.0) { c.ev("vega by repricing") }
            else if fits(*e, 0.0, 0.0) { c.ev("vega by repricing"); c.known("vega-down-bump", "the down move of vega and volga is b(1-b)/(1+b) rather than b, because the opposite of an additive bump is computed as for a relative one") }
            else { c.fail(format!("{}: {:?}, up {} down {} unbumped {}", id, r, u, d, unb)) }
            let (a1, a2) = (model3(&port, [&m, mu, m1]), model3(&port, [&m, mu, m2]));
            if a1.len() == 2 && a2.len() == 2 {
                let fit = a1.iter().chain(a2.iter()).any(|(v, t)| { let x = t + 1e-10 * sc;
                    close(r.vega(), (v[1] - v[2]) / (2.0 * b), 1e-9, x / b) && close(r.volga(), (v[1] + v[2] - 2.0 * v[0]) / (b * b), 1e-9, 4.0 * x / (b * b)) });
                c.check("vega and volga by the model", fit, || format!("{}: {:?} model {:?} or {:?}", id, r, a1, a2));
            }
            if r.vega() != 0.0 { c.ev("non-zero vega") }
        }
        c.sig(&format!("{:?}", port));
        c.sample(format!("{:?}", rep));
    });
}

/// the market on a later date, and the fixings that come to pass in between
pub fn later(m: &Mkt, md: &MarketData, eqs: &[EqM], port: &Port, to: i32, sticky: SpotDynamics) -> Option<(Mkt, Tab, bool)> {
    let ids = spot_ids(port);
    let mut tab = Tab { until: to, v: Vec::new() };
    let mut fx = Vec::new();
    for (_, i) in port { i.fixings(&mut fx) }
    let fwd = |id: &str, j: i32| -> Option<f64> {
        let e = eqs.iter().find(|e| e.id == id)?;
        let rc = InsM::Eq(e.clone()).rc();
        md.forward_curve(&*rc, dj(j.max(to))).ok()?.forward(dj(j)).ok()
    };
    let mut safe = true;
    for (id, t) in fx {
        if t.0 < m.base || t.0 >= to || tab.v.iter().any(|x| x.0 == id && x.1 == t) { continue }
        let v = match sticky { SpotDynamics::StickyForward => fwd(&id, t.0)?, SpotDynamics::StickySpot => m.spots[&id] };
        tab.v.push((id, t, v));
    }
    let mut opts = Vec::new();
    for (_, i) in port { i.options(&mut opts) }
    for o in opts {
        // at the money to within rounding: what happens at expiry is anybody's guess
        let k = match o.strike { StrikeM::Fixed(k) => Some(k), StrikeM::Fwd(x, d) => tab.v.iter().find(|y| y.0 == o.und.id() && y.1 == d).map(|y| x * y.2) };
        let s = tab.v.iter().find(|y| y.0 == o.und.id() && y.1 == o.expiry).map(|y| y.2);
        if let (Some(k), Some(s)) = (k, s) { if close(k, s, 1e-10, 0.0) { safe = false } }
    }
    let mut m2 = m.clone();
    m2.base = to;
    if to != m.base { if let SpotDynamics::StickyForward = sticky { for id in ids { let v = fwd(&id, to)?; m2.spots.insert(id, v); } } }
    Some((m2, tab, safe))
}

fn k05(ctx: &mut Ctx) {
    ctx.group("time", 60000, 2000000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let port = gen_port(&mut c.rng, &m, &eqs);
        let rc = rcs(&port);
        let mut fx = Vec::new();
        for (_, i) in port.iter() { i.fixings(&mut fx) }
        let to = m.base + match c.rng.below(5) { 0 => 0, 1 => c.rng.int(1, 7), 2 | 3 if !fx.is_empty() => (c.rng.pick(&fx).1 .0 - m.base + c.rng.int(-1, 2)).max(0), _ => c.rng.int(1, 500) };
        let sticky = if c.rng.chance(0.5) { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot };
        c.note(format!("to {} {:?} {:?} {:?}", to, if let SpotDynamics::StickyForward = sticky { "forward" } else { "spot" }, port, m));
        let bump = BumpTime::new(dj(to), dj(to), sticky);
        let sticky2 = if let SpotDynamics::StickyForward = sticky { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot };
        let (m2, tab, safe) = match later(&m, &md, &eqs, &port, to, sticky2) { Some(x) => x, None => c.skip("no forward") };
        if !safe { c.skip("decided by rounding") }
        let md2 = match m2.try_data() { Ok(d) => d, Err(_) => c.skip("surface refused") };
        let real = tab.real();
        // the portfolio after the fixings
        let (mut port2, mut rc2): (Port, Vec<(f64, RcInstrument)>) = (Vec::new(), Vec::new());
        for ((w, i), (_, r)) in port.iter().zip(rc.iter()) {
            match if tab.v.is_empty() { Ok(None) } else { i.fix(&tab) } { Ok(Some(v)) => { c.ev("instrument changed"); for (x, j) in v { port2.push((w * x, j)) } } Ok(None) => port2.push((*w, i.clone())), Err(()) => c.skip("past fixing missing") }
            match if tab.v.is_empty() { None } else { c.ok("fix", r.fix(&real)) } { Some(v) => for (x, j) in v { rc2.push((w * x, j)) }, None => rc2.push((*w, r.clone())) }
        }
        let mut p = c.ok("pricer", fresh(&rc, &md));
        let unb = p.price();
        let before = prints(p.context(), &eqs, m.base);
        let q = p.clone();
        // directly
        let mut moved = p.clone();
        c.ok("time bump", moved.bump_time(&bump));
        let f = c.ok("fresh pricer", fresh(&rc2, &md2));
        let sc = scale(&port, &m) + scale(&port2, &m2);
        let (a, b) = (moved.price(), f.price());
        match (&a, &b) {
            (Ok(x), Ok(y)) => c.check("same price as on the later date", close(*x, *y, 1e-10, 1e-10 * sc) || (x.is_nan() && y.is_nan()), || format!("{} vs {}", x, y)),
            (Err(_), Err(_)) => c.ev("error both ways"),
            (x, y) => c.fail(format!("moved {:?} vs fresh {:?}", x.as_ref().map_err(|e| e.to_string()), y.as_ref().map_err(|e| e.to_string())))
        }
        agrees(c, "same price as the model", &a, model(&port2, &m2, Disc::Own), model(&port2, &m2, Disc::Und), 1e-10 * sc);
        // no spot is lost on the way, whether or not anything hangs on it
        let on = spot_ids(&port);
        for e in eqs.iter() {
            let s = c.ok("spot after moving", moved.context().spot(&e.id));
            if on.contains(&e.id) { c.check("spot after moving", close(s, m2.spots[&e.id], 1e-10, 0.0), || format!("{} {} want {}", e.id, s, m2.spots[&e.id])) }
            else { c.ev("spot nothing hangs on"); if let SpotDynamics::StickySpot = sticky2 { c.check("spot after moving", s == m.spots[&e.id], || e.id.clone()) } }
        }
        // the moved pricer can still be bumped
        let b1 = gen_bump(&mut c.rng, &eqs);
        c.add_note(format!("{:?}", b1));
        let mut m3 = m2.clone();
        b1.apply(&mut m3);
        let mut md3 = md2.clone();
        c.ok("plain bump", md3.bump(&b1.real(), None));
        let before_b = moved.price();
        let mut s = moved.new_saveable();
        c.ok("bump after time", moved.bump(&b1.real(), Some(&mut *s)));
        let (x, y) = (moved.price(), fresh(&rc2, &md3).and_then(|p| p.price()));
        match (&x, &y) {
            (Ok(x), Ok(y)) => c.check("bumps work after moving", close(*x, *y, 1e-10, 1e-10 * sc) || (x.is_nan() && y.is_nan()), || format!("{} vs {}", x, y)),
            (Err(_), Err(_)) => {}
            (x, y) => c.fail(format!("bumped after moving {:?} vs fresh {:?}", x.as_ref().ok(), y.as_ref().ok()))
        }
        c.ok("restore", moved.restore(&*s));
        c.check("restored after moving", bits(&moved.price()) == bits(&before_b), || "differs".into());
        // as a report
        if let Ok(unb) = unb {
            let mut g = TimeBumpedReportGenerator::new(bump.clone());
            let n = if c.rng.chance(0.7) { 1 + c.rng.size(3, 9) } else { 0 };
            let subs: Vec<RcReportGenerator> = (0..n).map(|i| { let db = 0.01 + 0.001 * (i / 2) as f64;
                if c.rng.chance(0.5) { RcReportGenerator::new(Arc::new(DeltaGammaReportGenerator::new(db))) } else { RcReportGenerator::new(Arc::new(VegaVolgaReportGenerator::new(BumpVol::new_flat_additive(db)))) } }).collect();
            for s in subs.iter() { g.add(s.clone()) }
            let mut s = p.new_saveable();
            match g.generate(&mut p, &mut *s, unb) {
                Ok(r) => match r.as_any().downcast_ref::<TimeBumpedReport>() {
                    None => c.fail("not a time report"),
                    Some(t) => {
                        match &a { Ok(v) => c.check("report price", t.price().to_bits() == v.to_bits() || close(t.price(), *v, 1e-12, 1e-12 * sc), || format!("{} vs {}", t.price(), v)), Err(_) => c.fail("report of what cannot be priced") }
                        if t.price().is_finite() && unb.is_finite() { c.close("theta is the change in price", t.theta(), t.price() - unb, 1e-12, 1e-12 * sc) }
                        if t.theta() != 0.0 { c.ev("non-zero theta") }
                        c.check("sub-reports", t.subreports().len() == n, || format!("{}", t.subreports().len()));
                        if n > 3 { c.ev("many sub-reports") }
                        for (s, r) in subs.iter().zip(t.subreports().iter()) {
                            let mut f2 = f.clone();
                            let fv = b.as_ref().ok().cloned().unwrap_or(std::f64::NAN);
                            let mut s2 = f2.new_saveable();
                            if let Ok(d) = s.generate(&mut f2, &mut *s2, fv) { sub_same(c, r, &d, sc) }
                        }
                    }
                },
                Err(e) => if a.is_ok() && n == 0 { c.fail(format!("report: {}", e)) }
            }
        }
        // the original is as it was
        same(c, "original untouched", &before, &prints(p.context(), &eqs, m.base));
        same(c, "original untouched", &before, &prints(q.context(), &eqs, m.base));
        c.check("original untouched", bits(&p.price()) == bits(&q.price()), || "price".into());
        if to > m.base { c.sig(&format!("{:?}{}", port, to)) }
        if !tab.v.is_empty() { c.ev("fixings came to pass") }
        c.sample(format!("to {} {:?} {:?}", to - m.base, tab, port));
    });
    ctx.group("steps", 30000, 800000, |c| {
        // two steps under a forward that is consistent with itself: no dividends left, all curves alike
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let port = gen_port(&mut c.rng, &m, &eqs);
        let rc = rcs(&port);
        let (a, b) = (m.base + c.rng.int(1, 200), 0);
        let b = a + b + c.rng.int(1, 200);
        c.note(format!("{} {} {:?} {:?}", a, b, port, m));
        // spots stay, so two steps must equal one as long as the fixings agree: they are spots too
        let mut one = c.ok("pricer", fresh(&rc, &md));
        let mut two = one.clone();
        c.ok("one step", one.bump_time(&BumpTime::new(dj(b), dj(b), SpotDynamics::StickySpot)));
        c.ok("first step", two.bump_time(&BumpTime::new(dj(a), dj(a), SpotDynamics::StickySpot)));
        c.ok("second step", two.bump_time(&BumpTime::new(dj(b), dj(b), SpotDynamics::StickySpot)));
        let (x, y) = (one.price(), two.price());
        let sc = scale(&port, &m);
        match (&x, &y) {
            (Ok(x), Ok(y)) => c.check("two steps equal one", close(*x, *y, 1e-10, 1e-10 * sc) || (x.is_nan() && y.is_nan()), || format!("{} vs {}", x, y)),
            (Err(_), Err(_)) => {}
            (x, y) => c.fail(format!("one step {:?} two steps {:?}", x.as_ref().map_err(|e| e.to_string()), y.as_ref().map_err(|e| e.to_string())))
        }
        c.sig(&format!("{:?}{}", port, a));
    });
}

fn sub_same(c: &mut Case, a: &BoxReport, b: &BoxReport, sc: f64) {
    if format!("{:?}{:?}", a, b).contains("NaN") { c.ev("no number"); return }
    let t = 1e-8 * sc;
    c.check("sub-reports of the moved pricer", assert_approx_eq_reports(std::slice::from_ref(a), std::slice::from_ref(b), t, t, t).is_ok(), || format!("{:?} vs {:?}", a, b));
}

fn k06(ctx: &mut Ctx) {
    ctx.group("isolation", 60000, 2000000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let mut md = data(c, &m);
        let port = gen_port(&mut c.rng, &m, &eqs);
        let rc = rcs(&port);
        c.note(format!("{:?} {:?}", port, m));
        let md0 = prints(&md, &eqs, m.base);
        let p0 = c.ok("pricer", fresh(&rc, &md));
        let mut all: Vec<SelfPricer> = vec![p0];
        let state = |p: &SelfPricer| (prints(p.context(), &eqs, m.base), bits(&p.price()));
        let mut known: Vec<_> = all.iter().map(|p| state(p)).collect();
        let mut saved: Vec<Option<Box<dyn Saveable>>> = vec![None];
        let n = 2 + c.rng.below(8);
        for _ in 0..n {
            let i = c.rng.below(all.len());
            match c.rng.below(6) {
                0 if all.len() < 4 => {
                    let q = all[i].clone();
                    known.push(state(&q));
                    all.push(q);
                    saved.push(None);
                    c.check("a clone is the same", known[i] == known[all.len() - 1], || "differs".into());
                }
                1 => { let d = m.base + c.rng.int(1, 20); let b = BumpTime::new(dj(d), dj(d), if c.rng.chance(0.5) { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot });
                    c.add_note(format!("time {} on {}", d, i));
                    if all[i].bump_time(&b).is_ok() { c.ev("time bump on one of several") } saved[i] = None; known[i] = state(&all[i]) }
                2 => if let Some(s) = saved[i].take() { c.ok("restore", all[i].restore(&*s)); c.ev("restore on one of several"); known[i] = state(&all[i]) },
                3 => {
                    let no = "NOBODY".to_string();
                    let b = match c.rng.below(8) { 0 => BumpM::SpotRel(no, 0.1), 1 => BumpM::SpotSet(no, 80.0), 2 => BumpM::Divs(no, 0.3), 3 => BumpM::BorrowAnn(no, 0.01), 4 => BumpM::BorrowCont(no, 0.01),
                        5 => BumpM::YieldAnn(no, 0.01), 6 => BumpM::YieldCont(no, 0.01), _ => BumpM::VolSet(no, 0.2) };
                    let mut s = all[i].new_saveable();
                    let save = c.rng.chance(0.5);
                    let r = c.ok("absent", all[i].bump(&b.real(), if save { Some(&mut *s) } else { None }));
                    c.check("absent id has no effect", !r && state(&all[i]) == known[i], || format!("{:?} {}", b, r));
                    if save { c.ok("restore", all[i].restore(&*s)); c.check("nothing to bring back", state(&all[i]) == known[i], || format!("{:?}", b)) }
                }
                _ => {
                    let b = gen_bump(&mut c.rng, &eqs);
                    c.add_note(format!("{:?} on {}", b, i));
                    let mut s = all[i].new_saveable();
                    c.ok("bump", all[i].bump(&b.real(), Some(&mut *s)));
                    saved[i] = Some(s);
                    known[i] = state(&all[i]);
                    c.ev("bump on one of several");
                }
            }
            for (j, p) in all.iter().enumerate() { if j != i { c.check("others unaffected", state(p) == known[j], || format!("{} changed by {}", j, i)) } }
        }
        same(c, "caller's market data unmodified", &md0, &prints(&md, &eqs, m.base));
        // one bump of market data changes only what it names
        let b = gen_bump(&mut c.rng, &eqs);
        c.add_note(format!("market {:?}", b));
        let keep = md.clone();
        let eff = c.ok("bump", md.bump(&b.real(), None));
        let after = prints(&md, &eqs, m.base);
        same(c, "clones of market data unaffected", &md0, &prints(&keep, &eqs, m.base));
        let s = slot(&b);
        let touched = |k: &str| -> bool {
            let (kind, id) = match k.find(':') { Some(i) => (&k[..i], &k[i + 1..]), None => (k, "") };
            match s.0 { 0 => (kind == "spot" || kind == "forward") && id == s.1, 1 | 2 => kind == "forward" && id == s.1,
                3 => (kind == "yield" && id == s.1) || (kind == "forward" && eqs.iter().any(|e| e.id == id && e.credit == s.1)), _ => kind == "vol" && id == s.1 }
        };
        for k in md0.keys() {
            if !touched(k) { c.check("nothing else changes", md0[k] == after[k], || format!("{} by {:?}", k, b)) }
            else if md0[k] != after[k] { c.ev("the named thing changes") }
        }
        c.check("absent id has no effect", eff || md0 == after, || "changed".into());
        // and the same through a pricer's context
        let mut p = c.ok("pricer", fresh(&rc, &keep));
        let x = prints(p.context(), &eqs, m.base);
        c.ok("bump", p.bump(&b.real(), None));
        let y = prints(p.context(), &eqs, m.base);
        for k in x.keys() { if !touched(k) { c.check("nothing else changes", x[k] == y[k], || format!("{} by {:?} in a pricer", k, b)) } }
        same(c, "caller's market data unmodified", &md0, &prints(&keep, &eqs, m.base));
        c.sig(&format!("{:?}", port));
        c.sample(format!("{:?}", b));
    });
}

fn k07(ctx: &mut Ctx) {
    ctx.group("inversion", 60000, 2000000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let und = InsM::Eq(eqs[0].clone());
        // one or several options on one underlying, all long or all short, and perhaps other things
        let sign = if c.rng.chance(0.8) { 1.0 } else { -1.0 };
        let mut port: Port = (0..1 + c.rng.below(3)).map(|i| (sign * c.rng.f(0.2, 3.0), InsM::Opt({ let mut o = gen_option(&mut c.rng, &m, &und, &format!("O{}", i)); o.expiry.0 += 20; o }))).collect();
        if c.rng.chance(0.3) { port.push((gen_w(&mut c.rng), InsM::Eq(c.rng.pick(&eqs).clone()))) }
        c.note(format!("{:?} {:?}", port, m));
        let rc = rcs(&port);
        let sc = scale(&port, &m);
        let at = |v: f64| -> Option<f64> {
            let mut m2 = m.clone();
            BumpM::VolSet(eqs[0].id.clone(), v).apply(&mut m2);
            let md = m2.try_data().ok()?;
            fresh(&rc, &md).ok()?.price().ok()
        };
        let (lo, hi) = (c.rng.f(0.001, 0.1), c.rng.f(0.8, 3.0));
        let v0 = c.rng.f(lo, hi);
        let tol = *c.rng.pick(&[1e-4, 1e-6, 1e-9, 1e-12]);
        let mut p = c.ok("pricer", fresh(&rc, &md));
        let (pl, ph, target) = match (at(lo), at(hi), at(v0)) { (Some(a), Some(b), Some(t)) if a.is_finite() && b.is_finite() && t.is_finite() => (a, b, t), _ => c.skip("not priceable") };
        match c.rng.below(5) {
            0 => {
                // out of reach
                let t = if c.rng.chance(0.5) { pl.min(ph) - sc * c.rng.f(1e-6, 0.5) } else { pl.max(ph) + sc * c.rng.f(1e-6, 0.5) };
                c.check("unreachable target refused", ImpliedVol::new(tol, 100).solve(&mut p, t, lo, hi).is_err(), || format!("target {} within {} {}", t, pl, ph));
            }
            _ => {
                if (target - pl).abs() < 1e-10 * sc || (target - ph).abs() < 1e-10 * sc { c.skip("target on the bound") }
                match ImpliedVol::new(tol, 200).solve(&mut p, target, lo, hi) {
                    Ok(v) => {
                        c.check("within the range", v >= lo && v <= hi, || format!("{}", v));
                        let got = match at(v) { Some(x) => x, None => { c.fail(format!("solution {} cannot be priced", v)); return } };
                        // the root lies within the tolerance, so the target lies between the prices there
                        let (a, b) = (at((v - 2.0 * tol).max(1e-6)).unwrap_or(got), at(v + 2.0 * tol).unwrap_or(got));
                        let slack = 1e-10 * sc;
                        c.check("the price is the target", a.min(b) - slack <= target && target <= a.max(b) + slack, || format!("vol {} price {} target {}", v, got, target));
                        // recovered, where the price tells volatilities apart
                        let (x, y) = (at((v0 - 3.0 * tol - 1e-7).max(1e-6)).unwrap_or(target), at(v0 + 3.0 * tol + 1e-7).unwrap_or(target));
                        if (x - target).abs() > 1e-9 * sc && (y - target).abs() > 1e-9 * sc { c.check("volatility recovered", (v - v0).abs() <= 3.0 * tol + 1e-7, || format!("{} vs {}", v, v0)) }
                        c.ev("solved");
                    }
                    Err(e) => c.fail(format!("no solution: {} (vol {} price {} in {} {})", e, v0, target, pl, ph))
                }
            }
        }
        c.sig(&format!("{:?}{}", port, v0));
        c.sample(format!("vol {} {:?}", v0, port));
    });
    ctx.group("refusals", 10000, 200000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let mut n = 0;
        let port: Port = (0..1 + c.rng.below(4)).map(|_| (gen_w(&mut c.rng), gen_ins(&mut c.rng, &m, &eqs, 1, &mut n))).collect();
        let k = vol_ids(&port).len();
        c.note(format!("{:?}", port));
        if k == 1 { c.skip("one volatility") }
        let mut p = c.ok("pricer", fresh(&rcs(&port), &md));
        let before = bits(&p.price());
        let r = ImpliedVol::new(1e-6, 100).solve(&mut p, c.rng.f(0.0, 100.0), 0.01, 2.0);
        c.check(if k == 0 { "no volatility refused" } else { "several volatilities refused" }, r.is_err(), || format!("{:?}", r.as_ref().ok()));
        c.check("price unchanged by the refusal", bits(&p.price()) == before, || "changed".into());
        c.sig(&format!("{:?}", port));
    });
}

#[derive(Clone, Debug)]
pub enum RepM { Delta(f64, BTreeMap<String, (f64, f64)>), Vega(f64, BTreeMap<String, (f64, f64)>), Time(f64, f64, Vec<RepM>) }

impl RepM {
    pub fn json(&self) -> String {
        let inner = |b: f64, r: &BTreeMap<String, (f64, f64)>, x: &str, y: &str| format!("{{\"bumpsize\":{:?},\"results\":{{{}}}}}", b,
            r.iter().map(|(k, v)| format!("{:?}:{{\"{}\":{:?},\"{}\":{:?}}}", k, x, v.0, y, v.1)).collect::<Vec<_>>().join(","));
        match self {
            RepM::Delta(b, r) => format!("{{\"DeltaGammaReport\":{}}}", inner(*b, r, "delta", "gamma")),
            RepM::Vega(b, r) => format!("{{\"VegaVolgaReport\":{}}}", inner(*b, r, "vega", "volga")),
            RepM::Time(p, t, s) => format!("{{\"TimeBumpedReport\":{{\"price\":{:?},\"theta\":{:?},\"subreports\":[{}]}}}}", p, t, s.iter().map(|x| x.json()).collect::<Vec<_>>().join(","))
        }
    }
    /// Some(same) or None if too close to the tolerance to call
    fn eq(&self, o: &RepM, t: (f64, f64, f64)) -> Option<bool> {
        fn num(a: f64, b: f64, t: f64) -> Option<bool> { let d = (a - b).abs(); let m = 1e-9 * (a.abs() + b.abs()); if d < t * 0.999 - m { Some(true) } else if d > t * 1.001 + m { Some(false) } else { None } }
        fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> { match (a, b) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None } }
        let table = |x: &BTreeMap<String, (f64, f64)>, y: &BTreeMap<String, (f64, f64)>, t1: f64, t2: f64| {
            if !x.keys().eq(y.keys()) { return Some(false) }
            x.iter().fold(Some(true), |s, (k, v)| and(s, and(num(v.0, y[k].0, t1), num(v.1, y[k].1, t2))))
        };
        match (self, o) {
            (RepM::Delta(b, x), RepM::Delta(_, y)) => table(x, y, t.2 / b, t.2 / b / b),
            (RepM::Vega(b, x), RepM::Vega(_, y)) => table(x, y, t.1 / b, t.1 / b / b),
            (RepM::Time(p, h, s), RepM::Time(p2, h2, s2)) => and(and(num(*p, *p2, t.0), num(*h, *h2, t.0)), all_eq(s, s2, t)),
            _ => Some(false)
        }
    }
}

pub fn all_eq(a: &[RepM], b: &[RepM], t: (f64, f64, f64)) -> Option<bool> {
    if a.len() != b.len() { return Some(false) }
    let mut s = Some(true);
    for (x, y) in a.iter().zip(b.iter()) { match x.eq(y, t) { Some(false) => return Some(false), None => s = None, _ => {} } }
    s
}

pub fn gen_rep(r: &mut Rng, b: f64, depth: usize) -> RepM {
    let table = |r: &mut Rng, a: f64, b: f64| { let n = r.below(5); (0..n).map(|i| (["BP.L", "GSK.L", "SIE.DE", "VOD.L", "\u{e9}\"x"][i].to_string(), (r.f(-a, a), r.f(-b, b)))).collect() };
    match r.below(if depth > 0 { 3 } else { 2 }) {
        0 => RepM::Delta(b, table(r, 2.0, 0.1)),
        1 => RepM::Vega(b, table(r, 100.0, 50.0)),
        _ => { let n = r.size(4, 10); RepM::Time(r.f(-100.0, 100.0), r.f(-1.0, 1.0), (0..n).map(|_| gen_rep(r, b, depth - 1)).collect()) }
    }
}

/// change something by about a multiple of its tolerance
pub fn perturb(r: &mut Rng, x: &mut Vec<RepM>, size: f64, t: (f64, f64, f64)) -> bool {
    if r.chance(0.08) && !x.is_empty() { let i = r.below(x.len()); x.remove(i); return true }
    if r.chance(0.05) { let g = gen_rep(r, size, 1); let i = r.below(x.len() + 1); x.insert(i, g); return true }
    if r.chance(0.05) && x.len() > 1 { let i = r.below(x.len() - 1); x.swap(i, i + 1); return true }
    if x.is_empty() { return false }
    let f = *r.pick(&[0.01, 0.5, 0.9, 1.1, 2.0, 10.0, 1000.0]) * if r.chance(0.5) { 1.0 } else { -1.0 };
    let i = r.below(x.len());
    let d = |r: &mut Rng, m: &mut BTreeMap<String, (f64, f64)>, t1: f64, t2: f64| -> bool {
        let keys: Vec<String> = m.keys().cloned().collect();
        if keys.is_empty() { m.insert("NEW".into(), (0.0, 0.0)); return true }
        let k = r.pick(&keys).clone();
        match r.below(6) {
            0 => { let v = m.remove(&k).unwrap(); m.insert(format!("{}x", k), v); }
            1 => { m.remove(&k); }
            2 => { m.insert("NEW".into(), (0.0, 0.0)); }
            3 => m.get_mut(&k).unwrap().0 += f * t1,
            _ => m.get_mut(&k).unwrap().1 += f * t2
        }
        true
    };
    match &mut x[i] {
        RepM::Delta(b, m) => { let b = *b; if r.chance(0.05) { let m = m.clone(); x[i] = RepM::Vega(b, m); true } else { d(r, m, t.2 / b, t.2 / b / b) } }
        RepM::Vega(b, m) => { let b = *b; d(r, m, t.1 / b, t.1 / b / b) }
        RepM::Time(p, h, s) => match r.below(4) { 0 => { *p += f * t.0; true } 1 => { *h += f * t.0; true } _ => perturb(r, s, size, t) }
    }
}

fn k08(ctx: &mut Ctx) {
    ctx.group("comparison", 300000, 12000000, |c| {
        let size = *c.rng.pick(&[0.01, 0.001, 0.1, 1.0]);
        let a: Vec<RepM> = { let n = c.rng.size(4, 12); (0..n).map(|_| gen_rep(&mut c.rng, size, 2)).collect() };
        let t = (10f64.powf(c.rng.f(-12.0, 0.0)), 10f64.powf(c.rng.f(-12.0, 0.0)), 10f64.powf(c.rng.f(-12.0, 0.0)));
        let mut b = a.clone();
        let mut k = 0;
        while c.rng.chance(if k == 0 { 0.8 } else { 0.3 }) { perturb(&mut c.rng, &mut b, size, t); k += 1 }
        let text = |x: &[RepM]| format!("[{}]", x.iter().map(|r| r.json()).collect::<Vec<_>>().join(","));
        c.note(format!("{} {} {:?}", text(&a), text(&b), t));
        let read = |c: &mut Case, x: &[RepM]| -> Vec<BoxReport> { match serde_json::from_str(&text(x)) { Ok(r) => r, Err(e) => c.abort(format!("{}", e)) } };
        let (x, y) = (read(c, &a), read(c, &b));
        let cmp = |x: &[BoxReport], y: &[BoxReport]| assert_approx_eq_reports(x, y, t.0, t.1, t.2);
        c.check("equal to itself", cmp(&x, &x).is_ok() && cmp(&y, &y).is_ok(), || "not equal".into());
        let again = read(c, &a);
        c.check("equal to an equal one", cmp(&x, &again).is_ok(), || "not equal".into());
        let (r, s) = (cmp(&x, &y), cmp(&y, &x));
        match all_eq(&a, &b, t) {
            Some(true) => { c.check("accepted within tolerance", r.is_ok() && s.is_ok(), || format!("{:?} {:?}", r.as_ref().err().map(|e| e.to_string()), s.as_ref().err().map(|e| e.to_string()))); if k > 0 { c.ev("perturbed within tolerance") } }
            Some(false) => {
                c.check("difference found", r.is_err() && s.is_err(), || format!("one way {} other way {}", r.is_ok(), s.is_ok()));
                for e in [r, s].iter() { if let Err(e) = e { let m = e.to_string(); c.check("difference named", m.len() > "rfin error: Mismatch: ".len(), || m.clone()) } }
            }
            None => c.ev("too close to the tolerance")
        }
        c.sig(&text(&b));
        c.sample(text(&b));
    });
}

const FRESH: &str = "The fresh pricer is the library's own, built on market data bumped plainly; the reference model prices the same state independently of the library's pricing code, except where rounding decides.";

pub const PROPS: &[Prop] = &[
    Prop { id: "K01", run: k01,
        rule: "After each step of a random sequence of bumps, restores of the latest saved bump, clones and drops, the price and every quantity of the pricer's context agree to 1e-11 with a pricer built afresh on plainly bumped market data, the price agrees with the reference model, and the bump's answer says whether its id is in the market data.",
        assumptions: &["Saved bumps are undone latest first, each with its own saved state; unsaved bumps in between are of the same kind and id.", FRESH],
        need: &[("same price as a fresh pricer", 2000), ("same market as a fresh pricer", 2000), ("same price as the model", 2000), ("restored", 500), ("bump without effect", 50), ("continued on a clone", 50), ("many underlyings", 500)] },
    Prop { id: "K02", run: k02,
        rule: "Around every saved bump, the price and all quantities of the context are recorded bit for bit, and compared after the restore; also for repeated use of one saved state, failed bumps, bumps without effect and cleared state, on pricers and on market data.",
        assumptions: &["Saved bumps are undone latest first, each with its own saved state."],
        need: &[("restored exactly", 2000), ("price restored exactly", 2000), ("market changed", 1000), ("price changed", 500), ("same saved state again", 200), ("foreign save space refused", 200), ("no effect, no change", 50), ("cleared state restores nothing", 200)] },
    Prop { id: "K03", run: k03,
        rule: "Each delta and gamma equals the stated difference of prices of pricers built afresh on markets with the spot moved, and of the model's prices; entries are exactly the underlyings the model says matter; price, market and saved state are untouched.",
        assumptions: &[FRESH],
        need: &[("delta", 2000), ("gamma", 2000), ("delta and gamma by the model", 1000), ("one entry for each underlying", 2000), ("delta of shares is their number", 200), ("non-zero gamma", 200), ("price unchanged", 2000)] },
    Prop { id: "K04", run: k04,
        rule: "Each vega and volga equals the stated difference of prices of pricers built afresh on markets with the surface moved, and of the model's prices; price, market and saved state are untouched.",
        assumptions: &["The down move the library makes is a known finding; both moves are computed exactly and nothing else is accepted.", FRESH],
        need: &[("vega and volga", 2000), ("vega and volga by the model", 1000), ("non-zero vega", 1000), ("an entry for each volatility", 2000), ("price unchanged", 2000)] },
    Prop { id: "K05", run: k05,
        rule: "A pricer moved in time prices, bumps and reports like a pricer built afresh on the later date with the fixings in between taken from the forward or spot, and like the model; theta is the difference; the original is bit for bit as it was; with spots held, two steps equal one.",
        assumptions: &["Cases where an option fixes at the money to within rounding are skipped.", FRESH],
        need: &[("same price as on the later date", 2000), ("same price as the model", 1000), ("instrument changed", 300), ("fixings came to pass", 300), ("theta is the change in price", 1000), ("sub-reports of the moved pricer", 500), ("many sub-reports", 100), ("spot nothing hangs on", 300), ("original untouched", 2000), ("two steps equal one", 1000)] },
    Prop { id: "K06", run: k06,
        rule: "Several clones are bumped, restored and moved in random turns; after each turn every other clone's price and market are bit for bit as last seen, as is the caller's market data; one bump of market data changes only the quantities derived from what it names.",
        assumptions: &["Quantities are sampled at fixed dates and strikes."],
        need: &[("others unaffected", 2000), ("caller's market data unmodified", 2000), ("nothing else changes", 2000), ("the named thing changes", 500), ("absent id has no effect", 500), ("time bump on one of several", 200), ("restore on one of several", 200)] },
    Prop { id: "K07", run: k07,
        rule: "For targets made with a known volatility, the solution reprices to the target within the solver's tolerance and equals the known volatility where the price is sensitive; targets out of reach, and portfolios with no or several volatilities, are refused.",
        assumptions: &["Portfolios of options on one underlying are all long or all short, so the price is monotone in volatility."],
        need: &[("solved", 1000), ("volatility recovered", 1000), ("unreachable target refused", 500), ("no volatility refused", 50), ("several volatilities refused", 50)] },
    Prop { id: "K08", run: k08,
        rule: "Generated nested reports and perturbed copies are compared; acceptance equals the decision of an independent comparison with the documented scaling of tolerances, both ways round, except within 0.1% of the tolerance.",
        assumptions: &["Numbers are finite, tolerances positive and bump sizes equal."],
        need: &[("equal to itself", 2000), ("accepted within tolerance", 2000), ("perturbed within tolerance", 1000), ("difference found", 2000), ("difference named", 2000)] },
];
