//! I01-I07: instruments against the reference model of the market.

use crate::fw::{close, Case, Ctx, Prop};
use crate::mkt::*;
use crate::model::*;
use crate::p_dates::dj;
use crate::rng::Rng;
use quantmath::core::qm;
use quantmath::data::curves::RcRateCurve;
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::datetime::{DateTime, TimeOfDay};
use quantmath::dates::Date;
use quantmath::instruments::{fix_all, DependencyContext, Instrument, PricingContext, RcInstrument};
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::MarketData;
use quantmath::risk::Pricer;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

pub const OPEN: TimeOfDay = TimeOfDay::Open;

pub fn data(c: &mut Case, m: &Mkt) -> MarketData {
    match m.try_data() { Ok(d) => d, Err(_) => c.skip("surface refused") }
}

pub fn price(i: &RcInstrument, ctx: &dyn PricingContext, d: Tm) -> Result<f64, qm::Error> {
    match i.as_priceable() { Some(p) => p.price(ctx, dtm(d)), None => Err(qm::Error::new("not priceable")) }
}

pub fn price_rc(v: &[(f64, RcInstrument)], ctx: &dyn PricingContext, d: Tm) -> Result<f64, qm::Error> {
    let mut t = 0.0;
    for (w, i) in v { t += w * price(i, ctx, d)? }
    Ok(t)
}

/// Compare with the model. An option discounted on the curve of its
/// underlying rather than its own is a finding, and counted as such.
pub fn judge(c: &mut Case, what: &str, got: Result<f64, qm::Error>, own: Val, und: Val) {
    match (got, own) {
        (_, Val::Skip) => c.ev("decided by rounding"),
        (Err(_), Val::Err) => c.ev("error where expected"),
        (Ok(g), Val::V(w, t)) => {
            c.ev(what);
            if close(g, w, 1e-11, t + 1e-12) { if w != 0.0 { c.ev("non-zero value") } return }
            if let Val::V(u, t2) = und {
                if close(g, u, 1e-11, t2 + 1e-12) { c.known("option-discount-curve", "an option whose credit entity differs from its underlying's is discounted on the curve of the underlying"); return }
            }
            c.fail(format!("{}: got {} want {} tolerance {:e}", what, g, w, t));
        }
        (Ok(g), Val::Err) => { if und == Val::Skip { return } c.ev(what); c.fail(format!("{}: got {} where an error is expected", what, g)) }
        (Err(e), Val::V(w, _)) => { c.ev(what); c.fail(format!("{}: error {} where {} is expected", what, e, w)) }
    }
}

/// valuation dates up to and around an expiry
fn val_dates(r: &mut Rng, base: i32, expiry: Tm) -> Vec<Tm> {
    let mut v = vec![(base, OPEN), (base, gen_tod(r))];
    v.push((base + r.int(0, (expiry.0 - base).max(1)), gen_tod(r)));
    v.push(expiry);
    if r.chance(0.3) { v.push((expiry.0, TimeOfDay::Close)) }
    if r.chance(0.3) { v.push((expiry.0 + r.int(1, 5), gen_tod(r))) }
    v
}

fn i01(ctx: &mut Ctx) {
    ctx.group("vanillas", 96000, 3200000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 1);
        let und = InsM::Eq(eqs[0].clone());
        let md = data(c, &m);
        let vol = m.vols[&eqs[0].id].evolved(m.base);
        let o = gen_option(&mut c.rng, &m, &und, "O");
        let fs = matches!(o.strike, StrikeM::Fwd(..));
        let f = match o.kf(&m) { Val2::V(_, f) => f, _ => c.skip("no forward") };
        let dis = match vol.displacement(o.expiry.0) { Some(d) => d, None => c.skip("jump dividends") };
        c.note(format!("{:?} {:?}", o, m));
        let d: Tm = if c.rng.chance(0.5) { (m.base, OPEN) } else { (c.rng.int(m.base, o.expiry.0), gen_tod(&mut c.rng)) };
        if after(d, o.expiry) { c.skip("after expiry") }
        if frac(o.expiry) < vol.base() { c.skip("expiry before the start of the surface") }
        // strikes (or strike fractions), including extreme ones and the displacement itself
        let mut ks: Vec<f64> = (0..7).map(|_| c.rng.f(0.5, 1.6)).collect();
        ks.push(c.rng.f(0.001, 0.1)); ks.push(c.rng.f(3.0, 8.0)); ks.push(1.0);
        if !fs && dis > 0.0 { ks.push(dis / f); ks.push(0.5 * dis / f) }
        ks.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let flat = match &m.vols[&eqs[0].id] { VolM::Flat(..) => true, VolM::Prob(s, ..) => s.iter().all(|x| matches!(x.1, SmileM::Flat(_))), _ => false };
        let mut last: Vec<(f64, f64, f64)> = Vec::new();
        for x in ks.iter() {
            let at = |call: bool, phys: bool| OptM { strike: match o.strike { StrikeM::Fixed(_) => StrikeM::Fixed(x * f), StrikeM::Fwd(_, t) => StrikeM::Fwd(*x, t) }, call, phys, ..o.clone() };
            let get = |call, phys| price(&at(call, phys).rc(), &md, d);
            let k = match at(true, false).kf(&m) { Val2::V(k, _) => k, _ => continue };
            let df = match o.df(&m, d.0, Disc::Und) { Some(x) => x, None => continue };
            let (call, put) = match (get(true, false), get(false, false)) {
                (Ok(a), Ok(b)) => (a, b),
                (Err(_), Err(_)) => {
                    // only where the model knows a reason
                    let v = at(true, false).price(&m, d, Disc::Und);
                    c.check("refusal has a reason", !matches!(v, Val::V(..)), || format!("strike {}: error where {:?} is expected", k, v));
                    continue
                }
                (a, b) => { c.fail(format!("call {:?} but put {:?}", a.ok(), b.ok())); continue }
            };
            if at(true, false).price(&m, d, Disc::Und) == Val::Skip && !(call.is_finite() && put.is_finite()) { c.ev("decided by rounding"); continue }
            c.check("finite", call.is_finite() && put.is_finite(), || format!("strike {}: {} {}", k, call, put));
            let tol = 1e-9 * df * (f.abs() + k + dis.abs());
            c.check("put-call parity", (call - put - df * (f - k)).abs() <= tol, || format!("strike {}: {} - {} vs {}", k, call, put, df * (f - k)));
            c.check("call at least intrinsic", call >= (df * (f - k)).max(0.0) - tol, || format!("strike {}: {}", k, call));
            c.check("put at least intrinsic", put >= (df * (k - f)).max(0.0) - tol, || format!("strike {}: {}", k, put));
            c.check("call at most the underlying", call <= df * f + tol, || format!("strike {}: {} vs {}", k, call, df * f));
            c.check("put at most the strike", put <= df * k + tol, || format!("strike {}: {} vs {}", k, put, df * k));
            for (is_call, cash) in [(true, call), (false, put)].iter() {
                match get(*is_call, true) { Ok(p) => c.check("settlement does not matter", p == *cash, || format!("{} vs {}", p, cash)), Err(e) => c.fail(format!("physical settlement: {}", e)) }
            }
            if flat {
                if let Some(l) = last.last() {
                    c.check("monotone in strike", call <= l.1 + tol && put >= l.2 - tol, || format!("strike {} to {}: {} {}", l.0, k, l.1, call));
                    c.check("spreads bounded", l.1 - call <= df * (k - l.0) + tol && put - l.2 <= df * (k - l.0) + tol, || format!("strike {} to {}", l.0, k));
                }
                last.push((k, call, put));
                let n = last.len();
                if n >= 3 {
                    let (a, b, e) = (last[n - 3], last[n - 2], last[n - 1]);
                    if e.0 - a.0 > 1e-6 * f {
                        let w = (b.0 - a.0) / (e.0 - a.0);
                        c.check("convex in strike", b.1 <= a.1 + w * (e.1 - a.1) + 2.0 * tol && b.2 <= a.2 + w * (e.2 - a.2) + 2.0 * tol, || format!("at {} {} {}: {} {} {}", a.0, b.0, e.0, a.1, b.1, e.1));
                    }
                }
            }
        }
        if dis != 0.0 { c.ev("displaced") }
        c.sig(&format!("{:?}{:?}", o, m.vols));
        c.sample(format!("{:?}", o));
    });
}

fn i02(ctx: &mut Ctx) {
    ctx.group("valuation", 200000, 6400000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let md = data(c, &m);
        let mut n = 0;
        let ins = gen_ins(&mut c.rng, &m, &eqs, 0, &mut n);
        c.note(format!("{:?} {:?}", ins, m));
        let rc = ins.rc();
        let expiry = match &ins { InsM::Opt(o) => o.expiry, InsM::Zero { ex, .. } => if ex.0 < m.base { (m.base, OPEN) } else { *ex }, _ => (m.base + c.rng.int(0, 400), OPEN) };
        for d in val_dates(&mut c.rng, m.base, expiry) {
            judge(c, "price", price(&rc, &md, d), ins.price(&m, d, Disc::Own), ins.price(&m, d, Disc::Und));
        }
        // nothing else in the market matters
        let d = (m.base, OPEN);
        if let (Ok(p), InsM::Opt(o)) = (price(&rc, &md, d), &ins) {
            let mut m2 = m.clone();
            let used = o.und.id().to_string();
            let creds: Vec<String> = vec![o.credit.clone(), o.und.credit().to_string()];
            for (k, v) in m2.spots.iter_mut() { if *k != used { *v *= 1.7 } }
            for (k, v) in m2.vols.iter_mut() { if *k != used { *v = VolM::Flat(0.77, v.cal().clone(), v.base()) } }
            for (k, v) in m2.borrows.iter_mut() { if *k != used { *v = CurveM::Cont(Box::new(v.clone()), 0.1) } }
            for (k, v) in m2.yields.iter_mut() { if !creds.contains(k) { *v = CurveM::Cont(Box::new(v.clone()), 0.1) } }
            for (k, v) in m2.divs.iter_mut() { if *k != used { *v = v.scaled(0.5) } }
            let md2 = data(c, &m2);
            let q = price(&rc, &md2, d);
            c.check("other market data does not matter", q.as_ref().ok().map(|x| x.to_bits()) == Some(p.to_bits()) || p.is_nan(), || format!("{} vs {:?}", p, q.ok()));
        }
        c.sig(&format!("{:?}", ins));
        c.sample(format!("{:?}", ins));
    });
    ctx.group("option on a basket", 32000, 800000, |c| {
        let (mut m, eqs) = gen_mkt(&mut c.rng, 3);
        let parts: Vec<(f64, InsM)> = (0..1 + c.rng.below(3)).map(|i| (c.rng.f(0.1, 1.5), InsM::Eq(eqs[i].clone()))).collect();
        let b = InsM::Bask { id: "BASKET".into(), credit: CREDITS[c.rng.below(3)].to_string(), rule: gen_rule(&mut c.rng, m.base), parts };
        let s = match b.price(&m, (m.base, OPEN), Disc::Own) { Val::V(v, _) => v, _ => c.skip("no price") };
        let v = gen_inst_vol(&mut c.rng, m.base, s);
        m.vols.insert("BASKET".into(), v);
        let md = data(c, &m);
        let o = InsM::Opt(gen_option(&mut c.rng, &m, &b, "O"));
        c.note(format!("{:?} {:?}", o, m));
        for d in val_dates(&mut c.rng, m.base, if let InsM::Opt(o) = &o { o.expiry } else { unreachable!() }) {
            judge(c, "price", price(&o.rc(), &md, d), o.price(&m, d, Disc::Own), o.price(&m, d, Disc::Und));
        }
        c.sig(&format!("{:?}", o));
    });
    ctx.group("pricer", 64000, 1600000, |c| {
        // the same through the pricer that uses declared dependencies
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let mut n = 0;
        let ins = gen_ins(&mut c.rng, &m, &eqs, 1, &mut n);
        c.note(format!("{:?} {:?}", ins, m));
        let d = (m.base, OPEN);
        let got = SelfPricer::new(vec![(1.0, ins.rc())], &md).and_then(|p| p.price());
        judge(c, "price by self-pricer", got, ins.price(&m, d, Disc::Own), ins.price(&m, d, Disc::Und));
        c.sig(&format!("{:?}", ins));
    });
}

/// fixing values around the money, sometimes exactly at it
fn gen_fixing(r: &mut Rng, near: f64) -> f64 { match r.below(6) { 0 => near, 1 => near * 1.0001, 2 => near * 0.9999, _ => near * r.f(0.4, 2.0) } }

fn i03(ctx: &mut Ctx) {
    ctx.group("fixing", 160000, 4800000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let mut o = gen_option(&mut c.rng, &m, &InsM::Eq(eqs[0].clone()), "O");
        if c.rng.chance(0.5) { o.expiry.0 = o.expiry.0.max(m.base + 1) }
        let ins = InsM::Opt(o.clone());
        let (u, other) = (eqs[0].id.clone(), eqs[1].id.clone());
        let s0 = m.spots[&u];
        // a table with any subset of the relevant fixings, some irrelevant ones, known until any date
        let mut tab = Tab { until: m.base, v: Vec::new() };
        let (mut sfix, mut efix) = (None, None);
        let mut strike = match o.strike { StrikeM::Fixed(k) => Some(k), _ => None };
        if let StrikeM::Fwd(x, d) = o.strike { if c.rng.chance(0.6) { let v = gen_fixing(&mut c.rng, s0); sfix = Some(v); strike = Some(v * x); tab.v.push((u.clone(), d, v)) } }
        let same = matches!(o.strike, StrikeM::Fwd(_, d) if d == o.expiry);
        if !same && c.rng.chance(0.6) { let v = gen_fixing(&mut c.rng, strike.unwrap_or(s0)); efix = Some(v); tab.v.push((u.clone(), o.expiry, v)) }
        if same { efix = sfix }
        if c.rng.chance(0.3) { tab.until = o.expiry.0 + c.rng.int(-3, 3) }
        for _ in 0..c.rng.below(4) {
            let t = match c.rng.below(3) { 0 => (o.expiry.0 + c.rng.int(-2, 2), gen_tod(&mut c.rng)), 1 => (o.expiry.0, gen_tod(&mut c.rng)), _ => (m.base + c.rng.int(-20, 2), gen_tod(&mut c.rng)) };
            let id = if c.rng.chance(0.5) { &other } else { &u };
            let mut fs = Vec::new();
            ins.fixings(&mut fs);
            if (id == &u && fs.iter().any(|f| f.1 == t)) || tab.v.iter().any(|x| &x.0 == id && x.1 == t) { continue }
            tab.v.push((id.clone(), t, c.rng.f(1.0, 500.0)));
        }
        c.rng.shuffle(&mut tab.v);
        c.note(format!("{:?} {:?} {:?}", ins, tab, m));
        let real = tab.real();
        let rc = ins.rc();
        let want = ins.fix(&tab);
        let got = rc.fix(&real);
        let dates: Vec<Tm> = vec![(m.base, OPEN), (c.rng.int(m.base, o.expiry.0), gen_tod(&mut c.rng)), o.expiry];
        match (got, want) {
            (Err(_), Err(())) => c.ev("missing past fixing reported"),
            (Ok(None), Ok(None)) => c.ev("unaffected by other fixings"),
            (Ok(Some(g)), Ok(Some(w))) => {
                c.ev("fixed");
                if w.is_empty() { c.ev("expired worthless") }
                for d in dates.iter() {
                    judge(c, "value after fixing", price_rc(&g, &md, *d), price_all(&w, &m, *d, Disc::Own), price_all(&w, &m, *d, Disc::Und));
                    // stated directly: the contractual payoff
                    if let (Some(k), Some(s)) = (strike, efix) {
                        if after(*d, o.expiry) { continue }
                        let df = match o.df(&m, d.0, Disc::Own) { Some(x) => x, None => continue };
                        let x = o.payoff(s, k);
                        let pv = price_rc(&g, &md, *d).unwrap_or(std::f64::NAN);
                        if !o.phys { c.close("cash payoff", pv, x * df, 1e-10, 1e-10) }
                        else {
                            let und = price(&InsM::Eq(eqs[0].clone()).rc(), &md, *d).unwrap_or(std::f64::NAN);
                            let sg = if o.call { 1.0 } else { -1.0 };
                            c.close("delivery against strike", pv, if x > 0.0 { sg * (und - k * df) } else { 0.0 }, 1e-9, 1e-9);
                        }
                    }
                }
                // fixing again with the same fixings changes nothing more
                let again = c.ok("fixing again", fix_all(&g, &real));
                c.check("fixed only once", again.is_none(), || "changed again".into());
                // strike first, then expiry: the same value
                if let (Some(sv), Some(_), StrikeM::Fwd(_, sd)) = (sfix, efix, &o.strike) {
                    let t1 = Tab { until: m.base.min(sd.0), v: vec![(u.clone(), *sd, sv)] };
                    if !same {
                        let step1 = c.ok("strike fixing", rc.fix(&t1.real()));
                        match step1 {
                            None => c.fail("strike fixing ignored"),
                            Some(v) => {
                                let v2 = match c.ok("expiry fixing", fix_all(&v, &real)) { Some(x) => x, None => { c.fail("expiry fixing ignored"); v } };
                                for d in dates.iter() {
                                    let (a, b) = (price_rc(&v2, &md, *d), price_rc(&g, &md, *d));
                                    c.check("fixing in steps", a.as_ref().ok() == b.as_ref().ok(), || format!("{:?} vs {:?}", a.ok(), b.ok()));
                                }
                            }
                        }
                    }
                }
                // the pricer applies it too
                let f = quantmath::pricers::selfpricer::SelfPricerFactory::new();
                let p = quantmath::pricers::PricerFactory::new(&f, rc.clone(), quantmath::data::fixings::RcFixingTable::new(Arc::new(tab.real())),
                    quantmath::risk::marketdata::RcMarketData::new(Arc::new(data(c, &m)))).and_then(|p| p.price());
                judge(c, "pricer with fixings", p, price_all(&w, &m, dates[0], Disc::Own), price_all(&w, &m, dates[0], Disc::Und));
            }
            (g, w) => c.fail(format!("fixing gave {:?} where {:?} is expected", g.map(|x| x.map(|v| v.len())).map_err(|e| e.to_string()), w))
        }
        c.sig(&format!("{:?}{:?}", ins, tab));
        c.sample(format!("{:?} {:?}", ins, tab));
    });
}

fn i04(ctx: &mut Ctx) {
    ctx.group("flows", 200000, 6400000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 1);
        let md = data(c, &m);
        let mut z = gen_zero(&mut c.rng, &m, "Z");
        if let InsM::Zero { credit, .. } = &mut z { if c.rng.chance(0.03) { *credit = "NOBODY".into() } }
        c.note(format!("{:?} {:?}", m.yields, z));
        let rc = z.rc();
        let (ex, pay, rule, credit) = match &z { InsM::Zero { ex, pay, rule, credit, .. } => (*ex, *pay, rule.clone(), credit.clone()), _ => unreachable!() };
        let mut ds: Vec<Tm> = vec![(m.base, OPEN), ex, (ex.0, TimeOfDay::Open), (ex.0, TimeOfDay::EDSP), (ex.0, TimeOfDay::Close), (ex.0 + 1, OPEN), (ex.0 - 1, TimeOfDay::Close)];
        for _ in 0..3 { ds.push((m.base + c.rng.int(0, 320), gen_tod(&mut c.rng))) }
        ds.retain(|d| d.0 >= m.base);
        ds.sort_by_key(|d| (d.0, match d.1 { TimeOfDay::Open => 0, TimeOfDay::EDSP => 1, _ => 2 }));
        let dts: Vec<DateTime> = ds.iter().map(|d| dtm(*d)).collect();
        let mut all = vec![std::f64::NAN; ds.len()];
        let multi = rc.as_priceable().unwrap().prices(&md, &dts, &mut all);
        for (i, d) in ds.iter().enumerate() {
            let got = price(&rc, &md, *d);
            let want = z.price(&m, *d, Disc::Own);
            if multi.is_ok() {
                c.check("several dates at once", got.as_ref().ok() == Some(&all[i]), || format!("{:?}: {:?} vs {}", d, got.as_ref().ok(), all[i]));
                if after(*d, ex) { c.check("worthless after the ex date", all[i] == 0.0, || format!("{:?}: {}", d, all[i])) }
                else if let Some(cv) = m.yields.get(&credit) {
                    c.close("discounted from settlement", all[i], (cv.rt(rule.apply(d.0)).unwrap() - cv.rt(pay).unwrap()).exp(), 1e-10, 0.0);
                    if rule.apply(d.0) == pay { c.ev("settles on the payment date"); c.close("worth its amount on the payment date", all[i], 1.0, 1e-12, 0.0) }
                }
            }
            judge(c, "flow", got, want, Val::Skip);
        }
        // equities and currencies, over several dates
        let e = InsM::Eq(eqs[0].clone());
        let erc = e.rc();
        let mut eall = vec![std::f64::NAN; ds.len()];
        c.ok("equity over dates", erc.as_priceable().unwrap().prices(&md, &dts, &mut eall));
        for (i, d) in ds.iter().enumerate() {
            let one = c.ok("equity", price(&erc, &md, *d));
            c.close("equity at several dates", eall[i], one, 1e-10, 1e-12);
            judge(c, "equity", Ok(one), e.price(&m, *d, Disc::Own), Val::Skip);
            if d.0 == m.base { c.check("spot today", one == m.spots[&eqs[0].id], || format!("{}", one)) }
        }
        for k in [InsM::Cur("LSE".into(), rule.clone()), InsM::Cred("LSE".into(), rule.clone())].iter() {
            let rc = k.rc();
            let mut o = vec![std::f64::NAN; ds.len()];
            c.ok("currency", rc.as_priceable().unwrap().prices(&md, &dts, &mut o));
            c.check("currency is one", o.iter().all(|x| *x == 1.0), || format!("{:?}", o));
        }
        // no dates at all
        if m.yields.contains_key(&credit) { c.ok("no dates", rc.as_priceable().unwrap().prices(&md, &[], &mut [])) }
        c.sig(&format!("{:?}", z));
        c.sample(format!("{:?}", z));
    });
}

/// what an instrument declared, through a recording context
#[derive(Default, Clone, Debug)]
pub struct Declared { pub spots: HashSet<String>, pub yields: BTreeMap<String, Date>, pub fwds: BTreeMap<String, Date>, pub vols: BTreeMap<String, Date>, pub fixings: Vec<(String, DateTime)> }

fn declared(ins: &RcInstrument, base: i32, ids: &[String]) -> Declared {
    let mut dc = DependencyCollector::new(dj(base));
    dc.spot(ins);
    let mut d = Declared::default();
    for cr in CREDITS.iter() { if let Some(h) = dc.yield_curve_hwm(cr) { d.yields.insert(cr.to_string(), h); } }
    for (i, h) in dc.forward_curves().iter() { d.fwds.insert(i.id().to_string(), *h); }
    for (i, h) in dc.vol_surfaces().iter() { d.vols.insert(i.id().to_string(), *h); }
    for id in ids { if let Some(i) = dc.instrument_by_id(id) { if dc.has_spot(i) { d.spots.insert(id.clone()); } }
        for f in dc.fixings(id) { d.fixings.push((id.clone(), *f)) } }
    d
}

fn merge_dates(a: &mut BTreeMap<String, Date>, b: &BTreeMap<String, Date>) {
    for (k, v) in b { let e = a.entry(k.clone()).or_insert(*v); if *v > *e { *e = *v } }
}

fn i05(ctx: &mut Ctx) {
    ctx.group("baskets", 80000, 2400000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let md = data(c, &m);
        let mut n = 0;
        let parts: Vec<(f64, InsM)> = (0..c.rng.size(6, 25)).map(|_| { let w = gen_w(&mut c.rng); (w, gen_ins(&mut c.rng, &m, &eqs, 2, &mut n)) }).collect();
        let b = InsM::Bask { id: "B".into(), credit: "OPT".into(), rule: gen_rule(&mut c.rng, m.base), parts: parts.clone() };
        c.note(format!("{:?} {:?}", b, m));
        let rc = b.rc();
        let prc: Vec<(f64, RcInstrument)> = parts.iter().map(|p| (p.0, p.1.rc())).collect();
        let mut opts = Vec::new();
        b.options(&mut opts);
        let ds: Vec<Tm> = vec![(m.base, OPEN), (m.base + c.rng.int(0, 50), gen_tod(&mut c.rng))];
        for d in ds.iter() {
            let sum = price_rc(&prc, &md, *d);
            let got = price(&rc, &md, *d);
            let scale: f64 = prc.iter().map(|p| p.0.abs() * price(&p.1, &md, *d).unwrap_or(0.0).abs()).sum();
            match (&got, &sum) {
                (Ok(g), Ok(s)) => c.check("weighted sum", close(*g, *s, 1e-11, 1e-11 * scale) || (g.is_nan() && s.is_nan()), || format!("{} vs {}", g, s)),
                (Err(_), Err(_)) => c.ev("a part that cannot be priced"),
                _ => c.fail(format!("basket {:?} vs parts {:?}", got.as_ref().ok(), sum.as_ref().ok()))
            }
            judge(c, "basket value", got, b.price(&m, *d, Disc::Own), b.price(&m, *d, Disc::Und));
        }
        // several dates at once
        let dts: Vec<DateTime> = ds.iter().map(|d| dtm(*d)).collect();
        let mut out = vec![7.0; 2];
        if rc.as_priceable().unwrap().prices(&md, &dts, &mut out).is_ok() {
            for (i, d) in ds.iter().enumerate() { if let Ok(p) = price(&rc, &md, *d) { let sc: f64 = prc.iter().map(|q| q.0.abs() * price(&q.1, &md, *d).unwrap_or(0.0).abs()).sum();
                c.check("basket at several dates", close(out[i], p, 1e-9, 1e-9 * sc + 1e-12) || (p.is_nan() && out[i].is_nan()), || format!("{} vs {}", out[i], p)) } }
        }
        // dependencies are the union
        let ids: Vec<String> = eqs.iter().map(|e| e.id.clone()).collect();
        let all = declared(&rc, m.base, &ids);
        let mut un = Declared::default();
        for p in prc.iter() {
            let d = declared(&p.1, m.base, &ids);
            un.spots.extend(d.spots.iter().cloned());
            merge_dates(&mut un.yields, &d.yields); merge_dates(&mut un.fwds, &d.fwds); merge_dates(&mut un.vols, &d.vols);
            for f in d.fixings { if !un.fixings.contains(&f) { un.fixings.push(f) } }
        }
        let mut af = all.fixings.clone(); af.sort(); af.dedup();
        un.fixings.sort();
        c.check("dependencies are those of the parts", all.spots == un.spots && all.yields == un.yields && all.fwds == un.fwds && all.vols == un.vols && af == un.fixings, || format!("{:?} vs {:?}", all, un));
        // fixing together and one by one
        let mut fx = Vec::new();
        b.fixings(&mut fx);
        let mut tab = Tab { until: m.base, v: Vec::new() };
        for f in fx { if c.rng.chance(0.5) && !tab.v.iter().any(|x| x.0 == f.0 && x.1 == f.1) { let v = gen_fixing(&mut c.rng, m.spots[&f.0]); tab.v.push((f.0, f.1, v)) } }
        if c.rng.chance(0.2) { tab.until = m.base + 30 }
        c.add_note(format!("fixings {:?}", tab));
        let t = tab.real();
        let d = ds[0];
        let together = rc.fix(&t);
        let one_by_one: Result<Vec<Option<Vec<(f64, RcInstrument)>>>, qm::Error> = prc.iter().map(|p| p.1.fix(&t)).collect();
        match (together, one_by_one, b.fix(&tab)) {
            (Ok(g), Ok(o), Ok(w)) => {
                c.check("changes if and only if a part changes", g.is_some() == o.iter().any(|x| x.is_some()), || "wrong".into());
                let g2 = g.unwrap_or_else(|| vec![(1.0, rc.clone())]);
                let mut sum = Some(0.0);
                let mut scale = 0.0;
                for (p, f) in prc.iter().zip(o.iter()) {
                    let v = match f { Some(v) => price_rc(v, &md, d), None => price(&p.1, &md, d) };
                    match v { Ok(v) => { sum = sum.map(|s| s + p.0 * v); scale += (p.0 * v).abs() } Err(_) => sum = None }
                }
                let pg = price_rc(&g2, &md, d);
                match (sum, &pg) {
                    (Some(s), Ok(g)) => c.check("fixing the basket fixes the parts", close(*g, s, 1e-10, 1e-10 * scale + 1e-12) || (g.is_nan() && s.is_nan()), || format!("{} vs {}", g, s)),
                    (None, Err(_)) => {}
                    (s, g) => c.fail(format!("fixed basket {:?} vs parts {:?}", g.as_ref().ok(), s))
                }
                let w2 = w.unwrap_or_else(|| vec![(1.0, b.clone())]);
                judge(c, "fixed basket value", pg, price_all(&w2, &m, d, Disc::Own), price_all(&w2, &m, d, Disc::Und));
            }
            (Err(_), Err(_), Err(())) => c.ev("missing past fixing reported"),
            (g, o, w) => c.fail(format!("fixing the basket {} parts {} expected {:?}", g.is_ok(), o.is_ok(), w.is_ok()))
        }
        if !parts.is_empty() { c.sig(&format!("{:?}", b)) }
        c.sample(format!("{:?}", b));
    });
}

/// A pricing context that records every request made of the one behind it.
pub struct Recorder<'a> { inner: &'a MarketData, log: Mutex<Vec<(&'static str, String, Option<Date>)>> }

impl<'a> Recorder<'a> {
    fn put(&self, k: &'static str, id: &str, d: Option<Date>) { self.log.lock().unwrap().push((k, id.to_string(), d)) }
}

impl<'a> PricingContext for Recorder<'a> {
    fn spot_date(&self) -> Date { self.inner.spot_date() }
    fn yield_curve(&self, id: &str, h: Date) -> Result<RcRateCurve, qm::Error> { self.put("yield", id, Some(h)); self.inner.yield_curve(id, h) }
    fn spot(&self, id: &str) -> Result<f64, qm::Error> { self.put("spot", id, None); self.inner.spot(id) }
    fn forward_curve(&self, i: &dyn Instrument, h: Date) -> Result<Arc<dyn Forward>, qm::Error> { self.put("forward", i.id(), Some(h)); self.inner.forward_curve(i, h) }
    fn vol_surface(&self, i: &dyn Instrument, h: Date, f: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { self.put("vol", i.id(), Some(h)); self.inner.vol_surface(i, h, f) }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> { self.inner.correlation(a, b) }
}

fn i06(ctx: &mut Ctx) {
    ctx.group("requests", 120000, 3200000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let md = data(c, &m);
        let mut n = 0;
        let mut ins = gen_ins(&mut c.rng, &m, &eqs, 2, &mut n);
        // any stage of life
        let mut fx = Vec::new();
        ins.fixings(&mut fx);
        let mut tab = Tab { until: m.base, v: Vec::new() };
        for f in fx { if c.rng.chance(0.3) && !tab.v.iter().any(|x| x.0 == f.0 && x.1 == f.1) { let v = gen_fixing(&mut c.rng, m.spots[&f.0]); tab.v.push((f.0, f.1, v)) } }
        let mut rc = ins.rc();
        let fixed = c.ok("fixing", rc.fix(&tab.real()));
        if let Some(v) = fixed {
            let w = ins.fixed(&tab).unwrap();
            if v.len() != w.len() { c.fail(format!("fixing gave {} parts instead of {}", v.len(), w.len())); return }
            if v.is_empty() { c.ev("nothing left"); return }
            let i = c.rng.below(v.len());
            rc = v[i].1.clone();
            ins = w[i].1.clone();
            c.ev("after fixing");
        }
        c.note(format!("{:?} {:?}", ins, m));
        let ids: Vec<String> = eqs.iter().map(|e| e.id.clone()).collect();
        let dec = declared(&rc, m.base, &ids);
        let rec = Recorder { inner: &md, log: Mutex::new(Vec::new()) };
        let d = (m.base, OPEN);
        let full = price(&rc, &rec, d);
        let log = rec.log.into_inner().unwrap();
        let mut opts = Vec::new();
        ins.options(&mut opts);
        for (k, id, h) in log.iter() {
            let ok = |x: Option<&Date>| match (x, h) { (Some(a), Some(b)) => a >= b, _ => false };
            match *k {
                "spot" => c.check("spot declared", dec.spots.contains(id), || id.clone()),
                "forward" => c.check("forward declared", ok(dec.fwds.get(id)), || format!("{} to {:?}, declared {:?}", id, h, dec.fwds.get(id))),
                "vol" => c.check("volatility declared", ok(dec.vols.get(id)), || format!("{} to {:?}, declared {:?}", id, h, dec.vols.get(id))),
                _ => {
                    c.ev("yield curve declared");
                    if ok(dec.yields.get(id)) { continue }
                    // the finding: the curve of the underlying, asked for up to the payment date
                    if opts.iter().any(|o| o.und.credit() == id && o.credit != *id && Some(dj(o.pay())) == *h) && dec.yields.contains_key(id) {
                        c.known("option-discount-curve", "an option asks for the curve of its underlying's credit entity up to its payment date, but declares its own curve");
                    } else { c.fail(format!("yield curve {} to {:?}, declared {:?}", id, h, dec.yields.get(id))) }
                }
            }
        }
        // every fixing it could consult is declared
        let mut fs = Vec::new();
        ins.fixings(&mut fs);
        for f in fs { c.check("fixing declared", dec.fixings.contains(&(f.0.clone(), dtm(f.1))), || format!("{:?}", f)) }
        // a market with nothing but what was declared
        let mut m2 = m.clone();
        m2.spots.retain(|k, _| dec.spots.contains(k));
        m2.yields.retain(|k, _| dec.yields.contains_key(k));
        m2.borrows.retain(|k, _| dec.fwds.contains_key(k));
        m2.divs.retain(|k, _| dec.fwds.contains_key(k));
        m2.vols.retain(|k, _| dec.vols.contains_key(k));
        let md2 = data(c, &m2);
        let cut = price(&rc, &md2, d);
        c.check("declared data is enough", cut.as_ref().ok().map(|x| x.to_bits()) == full.as_ref().ok().map(|x| x.to_bits()), || format!("{:?} vs {:?}", cut.as_ref().ok(), full.as_ref().ok()));
        let mut dc = DependencyCollector::new(dj(m.base));
        dc.spot(&rc);
        let pre = PricingContextPrefetch::new(&md2, Arc::new(dc));
        match pre {
            Ok(p) => {
                let v = price(&rc, &p, d);
                match (&v, &full) {
                    (Ok(a), Ok(b)) => c.check("prefetched data gives the same price", a.to_bits() == b.to_bits() || close(*a, *b, 1e-12, 1e-12), || format!("{} vs {}", a, b)),
                    (Err(_), Err(_)) => c.ev("error both ways"),
                    (a, b) => c.fail(format!("prefetched {:?} vs {:?}", a.as_ref().ok(), b.as_ref().ok()))
                }
            }
            Err(e) => if full.is_ok() { c.fail(format!("prefetching failed: {}", e)) }
        }
        if !log.is_empty() { c.sig(&format!("{:?}", ins)) }
        c.sample(format!("{:?}", log.iter().map(|l| format!("{} {} {:?}", l.0, l.1, l.2.map(|d| d.to_string()))).collect::<Vec<_>>()));
    });
    ctx.group("option on a basket", 3200, 40000, |c| {
        // The finding: an option on a basket declares a forward for the basket but is priced from the forwards of its parts.
        let (mut m, eqs) = gen_mkt(&mut c.rng, 2);
        let b = InsM::Bask { id: "BASKET".into(), credit: "LSE".into(), rule: gen_rule(&mut c.rng, m.base), parts: eqs.iter().map(|e| (0.5, InsM::Eq(e.clone()))).collect() };
        m.vols.insert("BASKET".into(), VolM::Flat(0.2, crate::p_dates::Cal::Every, (m.base, 0.0)));
        m.spots.insert("BASKET".into(), 100.0);
        m.borrows.insert("BASKET".into(), CurveM::Zero(m.base));
        m.divs.insert("BASKET".into(), DivsM { divs: vec![], dy: CurveM::Zero(m.base) });
        let md = data(c, &m);
        let mut o = gen_option(&mut c.rng, &m, &b, "O");
        o.expiry.0 += 10;
        if let StrikeM::Fwd(..) = o.strike { o.strike = StrikeM::Fixed(100.0) }
        let full = c.ok("price", price(&o.rc(), &md, (m.base, OPEN)));
        match SelfPricer::new(vec![(1.0, o.rc())], &md).and_then(|p| p.price()) {
            Ok(p) => c.close("option on a basket", p, full, 1e-12, 1e-12),
            Err(e) => if e.to_string().contains("not found") { c.known("option-on-basket", "an option on a basket is priced from the forwards of the parts, which it does not declare") } else { c.fail(format!("option on a basket: {}", e)) }
        }
        c.sig(&format!("{:?}", o));
    });
}

fn i07(ctx: &mut Ctx) {
    ctx.group("forward starting", 120000, 3200000, |c| {
        let (mut m, eqs) = gen_mkt(&mut c.rng, 1);
        let id = eqs[0].id.clone();
        let mut o = gen_option(&mut c.rng, &m, &InsM::Eq(eqs[0].clone()), "F");
        o.credit = eqs[0].credit.clone();
        let (x, sd) = match o.strike { StrikeM::Fwd(x, d) => (x, d), _ => {
            o.expiry.0 += 5;
            let d = (m.base + c.rng.int(0, o.expiry.0 - m.base - 1), gen_tod(&mut c.rng)); (c.rng.f(0.6, 1.5), d) } };
        o.strike = StrikeM::Fwd(x, sd);
        let simple = c.rng.chance(0.5);
        if simple {
            for d in m.divs.get_mut(&id).unwrap().divs.iter_mut() { d.cash = 0.0 }
            let v = gen_flat_vol(&mut c.rng, (m.base, 0.0));
            m.vols.insert(id.clone(), v);
        }
        let md = data(c, &m);
        c.note(format!("{:?} {:?}", o, m));
        let ins = InsM::Opt(o.clone());
        let d = (m.base, OPEN);
        let rc = ins.rc();
        let got = price(&rc, &md, d);
        judge(c, "forward-starting price", price(&rc, &md, d), ins.price(&m, d, Disc::Own), ins.price(&m, d, Disc::Und));
        let fwd = |j| m.fwd(&eqs[0], j);
        if let (Ok(g), Some(fs), Some(fe), Some(df)) = (&got, fwd(sd.0), fwd(o.expiry.0), o.df(&m, d.0, Disc::Own)) {
            let other = OptM { call: !o.call, ..o.clone() };
            match price(&other.rc(), &md, d) {
                Ok(p) => {
                    let (call, put) = if o.call { (*g, p) } else { (p, *g) };
                    if g.is_finite() { c.close("parity on the forward strike", call - put, df * (fe - x * fs), 1e-9, 1e-9 * df * (fe.abs() + x * fs.abs())) }
                }
                Err(e) => c.fail(format!("the other side of parity: {}", e))
            }
            if simple {
                let l = c.rng.f(0.3, 3.0);
                let mut m2 = m.clone();
                *m2.spots.get_mut(&id).unwrap() *= l;
                let md2 = data(c, &m2);
                let p2 = c.ok("scaled spot", price(&rc, &md2, d));
                c.close("proportional to spot", p2, l * g, 1e-8, 1e-9 * l * fe);
            }
        }
        // once the strike fixes: exactly the option with that strike
        let s = gen_fixing(&mut c.rng, m.spots[&id]);
        let later = m.base + c.rng.int(0, (o.expiry.0 - m.base).max(0));
        let tab = Tab { until: m.base, v: vec![(id.clone(), sd, s)] };
        if sd == o.expiry { c.ev("strike and expiry together"); return }
        let v = c.ok("strike fixing", rc.fix(&tab.real()));
        let v = match v { Some(v) => v, None => { c.fail("strike fixing ignored"); return } };
        c.check("one option", v.len() == 1 && v[0].0 == 1.0, || format!("{} parts", v.len()));
        let spot = OptM { strike: StrikeM::Fixed(x * s), ..o.clone() };
        for (call, dd) in [(o.call, d), (o.call, (later, gen_tod(&mut c.rng)))].iter() {
            let _ = call;
            let (a, b) = (price_rc(&v, &md, *dd), price(&spot.rc(), &md, *dd));
            c.check("the equivalent spot-starting option", a.as_ref().ok().map(|x| x.to_bits()) == b.as_ref().ok().map(|x| x.to_bits()), || format!("{:?} vs {:?}", a.as_ref().ok(), b.as_ref().ok()));
            judge(c, "after the strike fixing", a, InsM::Opt(spot.clone()).price(&m, *dd, Disc::Own), Val::Skip);
        }
        // a strike date in the past without fixing is refused, not guessed
        let mut m3 = m.clone();
        m3.base = sd.0 + 1;
        if let Ok(md3) = m3.try_data() {
            c.check("unfixed past strike refused", price(&rc, &md3, (m3.base, OPEN)).is_err(), || "priced".into());
            c.check("unfixed past strike refused", rc.fix(&Tab { until: m3.base, v: vec![] }.real()).is_err(), || "accepted".into());
        }
        c.sig(&format!("{:?}{:?}", o, m.vols));
        c.sample(format!("{:?}", o));
    });
}

const MKT: &str = "The reference model re-implements curves, dividends, forwards, surfaces and Black's formula; \
cases whose outcome is decided by floating-point rounding (a date landing exactly between two, a variance within 1e-9 of zero) give no verdict.";

pub const PROPS: &[Prop] = &[
    Prop { id: "I01", run: i01,
        rule: "For generated markets and options: call and put prices are finite, differ by the discounted forward less strike, lie within the bounds, do not depend on the settlement style, and for a volatility flat in strike are monotone, 1-Lipschitz and convex in strike.",
        assumptions: &["Parity is taken on the curve that discounts the option, as checked by I02.", MKT],
        need: &[("put-call parity", 50), ("convex in strike", 50), ("displaced", 50), ("settlement does not matter", 50)] },
    Prop { id: "I02", run: i02,
        rule: "The price of every instrument at every valuation date equals the model's, errors included, and changing unrelated market data leaves it bit for bit the same.",
        assumptions: &[MKT],
        need: &[("price", 50), ("other market data does not matter", 50), ("non-zero value", 50), ("error where expected", 50), ("price by self-pricer", 50)] },
    Prop { id: "I03", run: i03,
        rule: "Fixing an option with any table gives the model's decomposition by value at several dates: payoff discounted on the option's curve, delivery against strike, spot-starting option, nothing, no change or an error for a missing past fixing; fixing in steps or twice gives the same.",
        assumptions: &["Values are compared up to expiry; after it the option has gone ex.", MKT],
        need: &[("fixed", 50), ("cash payoff", 50), ("delivery against strike", 50), ("expired worthless", 50), ("unaffected by other fixings", 50), ("missing past fixing reported", 50), ("fixing in steps", 50), ("fixed only once", 50)] },
    Prop { id: "I04", run: i04,
        rule: "A flow is worth the discount factor from its payment date to the settlement of the valuation date until its ex date and time, and nothing after; pricing several dates at once equals pricing each; an equity is its spot or forward; a currency is one.",
        assumptions: &[MKT],
        need: &[("discounted from settlement", 50), ("worthless after the ex date", 50), ("several dates at once", 50), ("spot today", 50), ("settles on the payment date", 50)] },
    Prop { id: "I05", run: i05,
        rule: "A basket's price, dependencies and fixed value equal the weighted combination over its parts, nested to depth three, and the model's value.",
        assumptions: &[MKT],
        need: &[("weighted sum", 50), ("basket value", 50), ("dependencies are those of the parts", 50), ("fixing the basket fixes the parts", 50), ("a part that cannot be priced", 50)] },
    Prop { id: "I06", run: i06,
        rule: "A recording context behind the instrument checks each request made while pricing on the spot date against what the instrument declared: kind, id, and date no later. A market cut down to the declared data, and the prefetching context over it, give the same price.",
        assumptions: &["Requests are judged for valuation on the spot date, which is what the pricers ask for."],
        need: &[("spot declared", 50), ("forward declared", 50), ("volatility declared", 50), ("yield curve declared", 50), ("fixing declared", 50), ("declared data is enough", 50), ("prefetched data gives the same price", 50), ("after fixing", 50)] },
    Prop { id: "I07", run: i07,
        rule: "A forward-starting option equals the model's value and obeys parity on the forward strike; without cash dividends it scales with spot; once its strike fixes it prices bit for bit as the spot-starting option; an unfixed past strike is refused.",
        assumptions: &[MKT],
        need: &[("forward-starting price", 50), ("parity on the forward strike", 50), ("proportional to spot", 50), ("the equivalent spot-starting option", 50), ("unfixed past strike refused", 50)] },
];
