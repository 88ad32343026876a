//! I08, I09, K09, K10: identity of instruments, units and dates, collected
//! dependencies, missing market data.

use crate::fw::{close, Case, Ctx, Prop};
use crate::mkt::*;
use crate::model::*;
use crate::p_dates::{dj, Cal};
use crate::p_instr::{data, price, OPEN};
use crate::p_risk::*;
use crate::rng::Rng;
use quantmath::core::qm;
use quantmath::dates::datetime::{DateTime, TimeOfDay};
use quantmath::dates::Date;
use quantmath::instruments::assets::{CreditEntity, Currency, Equity, RcCurrency};
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::{DependencyContext, RcInstrument, SpotRequirement};
use quantmath::models::blackdiffusion::{fetch_paths, BlackDiffusionFactory};
use quantmath::models::RcMonteCarloModelFactory;
use quantmath::pricers::montecarlo::MonteCarloPricer;
use quantmath::pricers::selfpricer::SelfPricer;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::deltagamma::{DeltaGammaReport, DeltaGammaReportGenerator};
use quantmath::risk::marketdata::MarketData;
use quantmath::risk::{Bumpable, Pricer, ReportGenerator};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

// ------------------------------------------------------------------ identity

fn gen_name(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "".into(),
        1 => (*r.pick(&["BP", "BP.L", "BP.LN", "bp.l", "BP.", "B"])).into(),
        2 => (*r.pick(&["Å", "A\u{30a}", "日経", "Ω1", "é"])).into(),
        3 => (*r.pick(&["a b", "a  b", " a", "a ", "\"", "\\", "a:payment", "a:fixed", "10", "9"])).into(),
        _ => (0..1 + r.below(6)).map(|_| *r.pick(&['a', 'b', 'A', '.', '1'])).collect()
    }
}

/// an instrument with what it was made from
#[derive(Clone)]
struct Made { rc: RcInstrument, kind: &'static str, id: String, credit: String, ccy: String, rule: RuleM, rates_only: bool, volatile: bool }

fn ccy(id: &str, rule: &RuleM) -> RcCurrency { RcCurrency::new(Arc::new(Currency::new(id, rule.rc()))) }

fn gen_made(r: &mut Rng, base: i32, depth: usize) -> Made {
    let (id, credit, cur) = (gen_name(r), gen_name(r), gen_name(r));
    let (rule, crule) = (gen_rule(r, base), gen_rule(r, base));
    let dt = |r: &mut Rng| DateTime::new(dj(base + r.int(0, 300)), gen_tod(r));
    let c = ccy(&cur, &crule);
    match r.below(if depth > 0 { 7 } else { 4 }) {
        0 => Made { rc: wrap(Currency::new(&id, rule.rc())), kind: "currency", credit: id.clone(), ccy: id.clone(), id, rule, rates_only: true, volatile: false },
        1 => Made { rc: wrap(CreditEntity::new(&id, c, rule.rc())), kind: "credit entity", credit: id.clone(), ccy: cur, id, rule, rates_only: true, volatile: false },
        2 => Made { rc: wrap(Equity::new(&id, &credit, c, rule.rc())), kind: "equity", credit, ccy: cur, id, rule, rates_only: false, volatile: true },
        3 => { let ex = dt(r); let pay = ex.date() + r.int(0, 30);
            Made { rc: wrap(ZeroCoupon::new(&id, &credit, c, ex, pay, rule.rc())), kind: "flow", credit, ccy: cur, id, rule, rates_only: true, volatile: false } }
        4 => {
            let parts: Vec<Made> = (0..r.below(4)).map(|_| gen_made(r, base, depth - 1)).collect();
            Made { rc: wrap(Basket::new(&id, &credit, c, rule.rc(), parts.iter().map(|p| (r.f(-1.0, 2.0), p.rc.clone())).collect()).unwrap()),
                kind: "basket", credit, ccy: cur, id, rule, rates_only: parts.iter().all(|p| p.rates_only), volatile: true }
        }
        k => {
            let und = loop { let u = gen_made(r, base, depth - 1); if u.volatile { break u } };
            let (pc, cs) = (*r.pick(&[PutOrCall::Put, PutOrCall::Call]), *r.pick(&[OptionSettlement::Cash, OptionSettlement::Physical]));
            let e = dt(r);
            let rc = if k == 5 { wrap(SpotStartingEuropean::new(&id, &credit, und.rc.clone(), rule.rc(), e, r.f(0.0, 200.0), pc, cs).unwrap()) }
                else { wrap(ForwardStartingEuropean::new(&id, &credit, und.rc.clone(), rule.rc(), e, r.f(0.1, 2.0), DateTime::new(dj(base), TimeOfDay::Open), pc, cs).unwrap()) };
            Made { rc, kind: if k == 5 { "option" } else { "forward-starting option" }, credit, ccy: und.ccy, id, rule, rates_only: false, volatile: false }
        }
    }
}

fn hash_of<T: Hash>(x: &T) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }

fn same_rule(c: &mut Case, what: &'static str, rc: &RcInstrument, rule: &RuleM, base: i32) {
    for j in base..base + 12 {
        let g = rc.settlement().apply(dj(j));
        c.check(what, g == dj(rule.apply(j)), || format!("{}: {} to {} want {}", rc.id(), dj(j), g, dj(rule.apply(j))));
    }
}

fn reports_itself(c: &mut Case, m: &Made, base: i32) {
    c.check("id as given", m.rc.id() == m.id, || format!("{:?} want {:?}", m.rc.id(), m.id));
    c.check("credit entity as given", m.rc.credit_id() == m.credit, || format!("{}: {:?} want {:?}", m.kind, m.rc.credit_id(), m.credit));
    c.check("currency as given", quantmath::core::dedup::InstanceId::id(m.rc.payoff_currency()) == m.ccy, || format!("{}: {:?} want {:?}", m.kind, m.rc.payoff_currency(), m.ccy));
    same_rule(c, "settlement as given", &m.rc, &m.rule, base);
    // rates only if nothing but yield curves is needed
    if m.rc.is_pure_rates() { c.check("pure rates needs only rates", m.rates_only, || m.kind.into()) }
    if m.kind == "flow" { c.check("a flow is pure rates", m.rc.is_pure_rates(), || "not".into()) }
    c.check("only futures are driftless", !m.rc.is_driftless(), || m.kind.into());
    for t in [TimeOfDay::Open, TimeOfDay::EDSP, TimeOfDay::Close].iter() {
        let d = m.rc.time_to_day_fraction(DateTime::new(dj(base), *t));
        match (d, m.volatile) {
            (Ok(d), true) => c.check("time of day", d.date() == dj(base) && d.day_fraction() == frac((base, *t)).1, || format!("{:?}", d)),
            (Err(_), false) => c.ev("no volatility, no time of day"),
            (d, _) => c.fail(format!("{}: time of day {:?}", m.kind, d.is_ok()))
        }
    }
    c.ev(m.kind);
}

fn i08(ctx: &mut Ctx) {
    ctx.group("identity", 40000, 1_000_000, |c| {
        let base = c.rng.int(12_000, 40_000);
        let v: Vec<Made> = (0..2 + c.rng.size(6, 30)).map(|_| gen_made(&mut c.rng, base, 2)).collect();
        c.note(format!("{:?}", v.iter().map(|m| (m.kind, &m.id)).collect::<Vec<_>>()));
        for m in v.iter() { reports_itself(c, m, base) }
        for a in v.iter() { for b in v.iter() {
            let (x, y) = (&a.rc, &b.rc);
            let want = a.id.cmp(&b.id);
            c.check("equal by id", (x == y) == (want == Ordering::Equal) && (x != y) == (want != Ordering::Equal), || format!("{} {:?} {} {:?}", a.kind, a.id, b.kind, b.id));
            c.check("ordered by id", x.cmp(y) == want && x.partial_cmp(y) == Some(want), || format!("{:?} {:?}: {:?}", a.id, b.id, x.cmp(y)));
            if want == Ordering::Equal { c.ev("the same id"); c.check("equal ones hash alike", hash_of(x) == hash_of(y), || a.id.clone()) }
        } }
        // as keys: one entry for each id
        let want: BTreeSet<&str> = v.iter().map(|m| m.id.as_str()).collect();
        let set: HashSet<RcInstrument> = v.iter().map(|m| m.rc.clone()).collect();
        c.check("one key for each id", set.len() == want.len(), || format!("{} want {}", set.len(), want.len()));
        let mut map: HashMap<RcInstrument, usize> = HashMap::new();
        for (i, m) in v.iter().enumerate() { map.insert(m.rc.clone(), i); }
        for m in v.iter() {
            let last = v.iter().rposition(|x| x.id == m.id);
            c.check("found by id", map.get(&m.rc).cloned() == last, || m.id.clone());
        }
        let mut sorted: Vec<RcInstrument> = v.iter().map(|m| m.rc.clone()).collect();
        sorted.sort();
        c.check("sorted by id", sorted.windows(2).all(|w| w[0].id() <= w[1].id()), || format!("{:?}", sorted.iter().map(|x| x.id().to_string()).collect::<Vec<_>>()));
        c.sig(&format!("{:?}", want));
    });
    ctx.group("plain types", 60000, 1_000_000, |c| {
        let base = 20_000;
        let (a, b) = (gen_name(&mut c.rng), if c.rng.chance(0.4) { None } else { Some(gen_name(&mut c.rng)) });
        let b = b.unwrap_or_else(|| a.clone());
        let (r1, r2) = (gen_rule(&mut c.rng, base), gen_rule(&mut c.rng, base));
        let (c1, c2) = (ccy(&gen_name(&mut c.rng), &r1), ccy(&gen_name(&mut c.rng), &r2));
        let (n1, n2) = (gen_name(&mut c.rng), gen_name(&mut c.rng));
        c.note(format!("{:?} {:?}", a, b));
        let want = a.cmp(&b);
        fn eq<T: PartialEq + Hash + std::fmt::Display>(c: &mut Case, kind: &str, x: &T, y: &T, a: &str, b: &str) {
            c.check("equal by id", (x == y) == (a == b) && (x != y) == (a != b), || format!("{} {:?} {:?}", kind, a, b));
            if a == b { c.check("equal ones hash alike", hash_of(x) == hash_of(y), || format!("{} {:?}", kind, a)) }
            c.check("shown by id", x.to_string() == a && y.to_string() == b, || format!("{} {} {}", kind, x, y));
        }
        fn ord<T: Ord>(c: &mut Case, kind: &str, x: &T, y: &T, want: Ordering) {
            c.check("ordered by id", x.cmp(y) == want && x.partial_cmp(y) == Some(want) && (x < y) == (want == Ordering::Less), || format!("{}: {:?} want {:?}", kind, x.cmp(y), want));
        }
        let (x, y) = (Currency::new(&a, r1.rc()), Currency::new(&b, r2.rc()));
        eq(c, "currency", &x, &y, &a, &b); ord(c, "currency", &x, &y, want);
        let (x, y) = (CreditEntity::new(&a, c1.clone(), r1.rc()), CreditEntity::new(&b, c2.clone(), r2.rc()));
        eq(c, "credit entity", &x, &y, &a, &b); ord(c, "credit entity", &x, &y, want);
        let (x, y) = (Equity::new(&a, &n1, c1.clone(), r1.rc()), Equity::new(&b, &n2, c2.clone(), r2.rc()));
        eq(c, "equity", &x, &y, &a, &b); ord(c, "equity", &x, &y, want);
        let part = vec![(1.0, wrap(x.clone()))];
        let (x, y) = (Basket::new(&a, &n1, c1.clone(), r1.rc(), part).unwrap(), Basket::new(&b, &n2, c2.clone(), r2.rc(), vec![]).unwrap());
        eq(c, "basket", &x, &y, &a, &b); ord(c, "basket", &x, &y, want);
        let t = DateTime::new(dj(base), TimeOfDay::Close);
        let (x, y) = (ZeroCoupon::new(&a, &n1, c1.clone(), t, dj(base + 5), r1.rc()), ZeroCoupon::new(&b, &n2, c2.clone(), t, dj(base + 9), r2.rc()));
        eq(c, "flow", &x, &y, &a, &b);
        c.sig(&format!("{:?}{:?}", a, b));
    });
    ctx.group("refusals", 40000, 400_000, |c| {
        let base = c.rng.int(12_000, 40_000);
        let u = gen_made(&mut c.rng, base, 1);
        let rule = gen_rule(&mut c.rng, base);
        let k = match c.rng.below(5) { 0 => 0.0, 1 => -1e-9, 2 => -c.rng.f(0.0, 100.0), 3 => -0.0, _ => c.rng.f(0.0, 100.0) };
        let (pc, cs) = (*c.rng.pick(&[PutOrCall::Put, PutOrCall::Call]), *c.rng.pick(&[OptionSettlement::Cash, OptionSettlement::Physical]));
        let (e, s) = (DateTime::new(dj(base + 100), gen_tod(&mut c.rng)), DateTime::new(dj(base), gen_tod(&mut c.rng)));
        c.note(format!("{} {}", u.kind, k));
        let got = SpotStartingEuropean::new("O", "C", u.rc.clone(), rule.rc(), e, k, pc, cs).is_ok();
        c.check("negative strikes refused", got == (k >= 0.0 && u.volatile), || format!("{} on {}: {}", k, u.kind, got));
        let got = ForwardStartingEuropean::new("O", "C", u.rc.clone(), rule.rc(), e, k, s, pc, cs).is_ok();
        c.check("fractions must be positive", got == (k > 0.0 && u.volatile), || format!("{} on {}: {}", k, u.kind, got));
        if !u.volatile { c.ev("no volatility to be had") }
        c.sig(&format!("{}{}", k, u.kind));
    });
    ctx.group("fixed instruments", 40000, 600_000, |c| {
        // flows and options that come from fixing an option are still its own
        let (m, eqs) = gen_mkt(&mut c.rng, 1);
        let name = gen_name(&mut c.rng);
        let cur = ccy(&name, &gen_rule(&mut c.rng, m.base));
        let e = &eqs[0];
        let und = wrap(Equity::new(&e.id, &e.credit, cur, e.rule.rc()));
        let o = gen_option(&mut c.rng, &m, &InsM::Eq(e.clone()), "O");
        let (pc, cs) = (if o.call { PutOrCall::Call } else { PutOrCall::Put }, if o.phys { OptionSettlement::Physical } else { OptionSettlement::Cash });
        let rc = match o.strike {
            StrikeM::Fixed(k) => wrap(SpotStartingEuropean::new(&o.id, &o.credit, und, o.rule.rc(), dtm(o.expiry), k, pc, cs).unwrap()),
            StrikeM::Fwd(f, d) => wrap(ForwardStartingEuropean::new(&o.id, &o.credit, und, o.rule.rc(), dtm(o.expiry), f, dtm(d), pc, cs).unwrap())
        };
        let s = m.spots[&e.id];
        let mut tab = Tab { until: m.base, v: Vec::new() };
        if let StrikeM::Fwd(_, d) = o.strike { tab.v.push((e.id.clone(), d, s * c.rng.f(0.5, 1.5))) }
        if c.rng.chance(0.6) && !tab.v.iter().any(|x| x.1 == o.expiry) { tab.v.push((e.id.clone(), o.expiry, s * c.rng.f(0.3, 2.0))) }
        c.note(format!("{:?} {:?}", o, tab));
        if tab.v.is_empty() { c.skip("nothing fixed") }
        let got = match c.ok("fix", rc.fix(&tab.real())) { Some(v) => v, None => c.skip("no change") };
        for (_, i) in got.iter() {
            c.check("currency of a fixed option", i.payoff_currency().to_string() == name, || format!("{} in {}", i.id(), i.payoff_currency()));
            if i.id() == e.id { c.ev("delivered"); c.check("credit entity of a delivery", i.credit_id() == e.credit, || i.credit_id().into()); continue }
            c.check("credit entity of a fixed option", i.credit_id() == o.credit, || format!("{} of {}", i.id(), i.credit_id()));
            same_rule(c, "settlement of a fixed option", i, &o.rule, m.base);
            if i.is_pure_rates() { c.ev("a payment"); c.check("a payment is not the option", i.id() != rc.id() && i.id().starts_with("O"), || i.id().into()) } else { c.ev("an option") }
        }
        c.sig(&format!("{:?}{:?}", o, tab));
    });
}

// ----------------------------------------------------------- units and dates

fn scaled_vol(v: &VolM, x: f64) -> VolM {
    let b = |v: &VolM| Box::new(scaled_vol(v, x));
    let pts = |p: &[(i32, f64)]| -> Vec<(i32, f64)> { p.iter().map(|q| (q.0, q.1 * x)).collect() };
    match v {
        VolM::Flat(..) => v.clone(),
        VolM::Prob(sm, c, base, f, fd, da) => VolM::Prob(sm.iter().map(|(d, s)| (*d, match s {
            SmileM::Flat(_) => s.clone(), SmileM::Spline(p) => SmileM::Spline(p.iter().map(|q| (q.0 * x, q.1)).collect()) })).collect(), c.clone(), *base, pts(f), pts(fd), *da),
        VolM::Const(v, o, n) => VolM::Const(b(v), *o, *n),
        VolM::Roll(v, o, n) => VolM::Roll(b(v), *o, *n),
        VolM::Par(v, y) => VolM::Par(b(v), *y),
        VolM::Scaled(v, y, f) => VolM::Scaled(b(v), *y, *f),
        VolM::Sticky(v, p) => VolM::Sticky(b(v), pts(p))
    }
}

/// the same market in other units of money
fn scaled_mkt(m: &Mkt, x: f64) -> Mkt {
    let mut o = m.clone();
    for s in o.spots.values_mut() { *s *= x }
    for d in o.divs.values_mut() { for v in d.divs.iter_mut() { v.cash *= x } }
    for v in o.vols.values_mut() { *v = scaled_vol(v, x) }
    o
}

/// the same position in other units: money amounts become larger weights
fn scaled_ins(w: f64, i: &InsM, x: f64) -> (f64, InsM) {
    match i {
        InsM::Cur(..) | InsM::Cred(..) | InsM::Zero { .. } => (w * x, i.clone()),
        InsM::Eq(_) => (w, i.clone()),
        InsM::Opt(o) => (w, InsM::Opt(OptM { strike: match o.strike { StrikeM::Fixed(k) => StrikeM::Fixed(k * x), ref s => s.clone() }, ..o.clone() })),
        InsM::Bask { id, credit, rule, parts } => (w, InsM::Bask { id: id.clone(), credit: credit.clone(), rule: rule.clone(), parts: parts.iter().map(|(w, i)| scaled_ins(*w, i, x)).collect() })
    }
}

fn later_cal(c: &Cal, n: i32) -> Cal {
    match c { Cal::Hols(h) => Cal::Hols(h.iter().map(|x| x + n).collect()), Cal::Vol(c, w) => Cal::Vol(Box::new(later_cal(c, n)), *w), _ => c.clone() }
}
/// a rule that knows weekdays and holidays but not months
fn later_rule(r: &RuleM, n: i32) -> RuleM {
    match r { RuleM::Null => RuleM::Null, RuleM::Step(c, k) => RuleM::Step(later_cal(c, n), *k), RuleM::Back(c, k) => RuleM::Back(later_cal(c, n), *k), RuleM::ModF(c) => RuleM::Step(later_cal(c, n), 0) }
}
fn later_curve(c: &CurveM, n: i32) -> CurveM {
    match c {
        CurveM::Zero(b) => CurveM::Zero(b + n),
        CurveM::Act(b, p, l, r) => CurveM::Act(b + n, later_pts(p, n), *l, *r),
        CurveM::Ann(c, x) => CurveM::Ann(Box::new(later_curve(c, n)), *x),
        CurveM::Cont(c, x) => CurveM::Cont(Box::new(later_curve(c, n)), *x),
        CurveM::Rel(c, x) => CurveM::Rel(Box::new(later_curve(c, n)), *x)
    }
}
fn later_pts(p: &[(i32, f64)], n: i32) -> Vec<(i32, f64)> { p.iter().map(|q| (q.0 + n, q.1)).collect() }
fn later_vol(v: &VolM, n: i32) -> VolM {
    let b = |v: &VolM| Box::new(later_vol(v, n));
    let dt = |d: &Dt| (d.0 + n, d.1);
    match v {
        VolM::Flat(x, c, d) => VolM::Flat(*x, later_cal(c, n), dt(d)),
        VolM::Prob(sm, c, base, f, fd, da) => VolM::Prob(sm.iter().map(|(d, s)| (dt(d), s.clone())).collect(), later_cal(c, n), dt(base), later_pts(f, n), later_pts(fd, n), *da),
        VolM::Const(v, o, d) => VolM::Const(b(v), *o, dt(d)),
        VolM::Roll(v, o, d) => VolM::Roll(b(v), *o, dt(d)),
        VolM::Par(v, y) => VolM::Par(b(v), *y),
        VolM::Scaled(v, y, f) => VolM::Scaled(b(v), *y, *f),
        VolM::Sticky(v, p) => VolM::Sticky(b(v), later_pts(p, n))
    }
}

/// the same market on other dates
fn later_mkt(m: &Mkt, n: i32) -> Mkt {
    let mut o = m.clone();
    o.base += n;
    for c in o.yields.values_mut().chain(o.borrows.values_mut()) { *c = later_curve(c, n) }
    for d in o.divs.values_mut() { d.dy = later_curve(&d.dy, n); for v in d.divs.iter_mut() { v.ex += n; v.pay += n } }
    for v in o.vols.values_mut() { *v = later_vol(v, n) }
    o
}
fn later_ins(i: &InsM, n: i32) -> InsM {
    let tm = |t: &Tm| (t.0 + n, t.1);
    match i {
        InsM::Cur(s, r) => InsM::Cur(s.clone(), later_rule(r, n)),
        InsM::Cred(s, r) => InsM::Cred(s.clone(), later_rule(r, n)),
        InsM::Eq(e) => InsM::Eq(EqM { rule: later_rule(&e.rule, n), ..e.clone() }),
        InsM::Zero { id, credit, ex, pay, rule } => InsM::Zero { id: id.clone(), credit: credit.clone(), ex: tm(ex), pay: pay + n, rule: later_rule(rule, n) },
        InsM::Opt(o) => InsM::Opt(OptM { und: Box::new(later_ins(&o.und, n)), rule: later_rule(&o.rule, n), expiry: tm(&o.expiry),
            strike: match &o.strike { StrikeM::Fwd(f, d) => StrikeM::Fwd(*f, tm(d)), s => s.clone() }, ..o.clone() }),
        InsM::Bask { id, credit, rule, parts } => InsM::Bask { id: id.clone(), credit: credit.clone(), rule: later_rule(rule, n), parts: parts.iter().map(|(w, i)| (*w, later_ins(i, n))).collect() }
    }
}

fn slack(port: &Port, m: &Mkt) -> Option<f64> {
    match (model(port, m, Disc::Own), model(port, m, Disc::Und)) { (Val::V(_, s), Val::V(_, t)) => Some(s.max(t)), (Val::Err, Val::Err) => Some(0.0), _ => None }
}

fn alike(c: &mut Case, what: &'static str, a: &Result<f64, qm::Error>, b: &Result<f64, qm::Error>, x: f64, tol: f64) {
    match (a, b) {
        (Ok(a), Ok(b)) => c.check(what, close(*b, a * x, 1e-11, x * tol) || (a.is_nan() && b.is_nan()), || format!("{} vs {}", b, a * x)),
        (Err(_), Err(_)) => c.ev("error both ways"),
        (a, b) => c.fail(format!("{}: {:?} vs {:?}", what, a.as_ref().map_err(|e| e.to_string()), b.as_ref().map_err(|e| e.to_string())))
    }
}

fn deltas(p: &mut SelfPricer, b: f64) -> Option<BTreeMap<String, (f64, f64)>> {
    let unb = p.price().ok()?;
    let mut s = p.new_saveable();
    let r = DeltaGammaReportGenerator::new(b).generate(p, &mut *s, unb).ok()?;
    Some(r.as_any().downcast_ref::<DeltaGammaReport>()?.results().iter().map(|(k, v)| (k.clone(), (v.delta(), v.gamma()))).collect())
}

fn i09(ctx: &mut Ctx) {
    ctx.group("units", 60000, 1_500_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let port = gen_port(&mut c.rng, &m, &eqs);
        let x = match c.rng.below(4) { 0 => *c.rng.pick(&[100.0, 0.01, 1000.0]), 1 => 10f64.powf(c.rng.f(-7.0, 7.0)), 2 => 2f64.powi(c.rng.int(-20, 20)), _ => c.rng.f(0.3, 3.0) };
        let (m2, port2) = (scaled_mkt(&m, x), port.iter().map(|(w, i)| scaled_ins(*w, i, x)).collect::<Port>());
        c.note(format!("times {} {:?} {:?}", x, port, m));
        let (md, md2) = (data(c, &m), match m2.try_data() { Ok(d) => d, Err(e) => { c.fail(format!("surface refused in other units: {}", e)); return } });
        let t = match slack(&port, &m) { Some(t) => t, None => c.skip("decided by rounding") };
        let sc = scale(&port, &m);
        let (mut p, mut q) = (c.ok("pricer", fresh(&rcs(&port), &md)), c.ok("pricer", fresh(&rcs(&port2), &md2)));
        alike(c, "price in other units", &p.price(), &q.price(), x, 2.0 * t + 1e-10 * sc);
        if c.rng.chance(0.3) {
            let b = 0.01;
            if let (Some(d1), Some(d2)) = (deltas(&mut p, b), deltas(&mut q, b)) {
                let up = |m: &Mkt, s: f64| { let mut n = m.clone(); for v in n.spots.values_mut() { *v *= 1.0 + s } n };
                let near: f64 = match (slack(&port, &up(&m, b)), slack(&port, &up(&m, -b))) { (Some(x), Some(y)) => x.max(y).max(t), _ => f64::INFINITY };
                for (k, v) in d1.iter() {
                    let h = b * m.spots[k];
                    let tol = 4.0 * near + 1e-10 * sc;
                    match d2.get(k) {
                        Some(w) => if near.is_finite() && v.0.is_finite() {
                            c.check("delta in other units", close(w.0, v.0, 1e-9, tol / h), || format!("{}: {} vs {}", k, w.0, v.0));
                            c.check("gamma in other units", close(w.1 * x, v.1, 1e-9, 4.0 * tol / (h * h)), || format!("{}: {} vs {}", k, w.1 * x, v.1));
                        },
                        None => c.fail("an entry is missing")
                    }
                }
            }
        }
        c.sig(&format!("{:?}{}", port, x));
        c.sample(format!("{} {:?}", x, port));
    });
    ctx.group("dates", 60000, 1_500_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let n = 7 * match c.rng.below(3) { 0 => c.rng.int(-4, 4), _ => c.rng.int(-1000, 400) };
        let m = later_mkt(&m, 0);
        let eqs: Vec<EqM> = eqs.into_iter().map(|e| EqM { rule: later_rule(&e.rule, 0), ..e }).collect();
        let port: Port = gen_port(&mut c.rng, &m, &eqs).iter().map(|(w, i)| (*w, later_ins(i, 0))).collect();
        let (m2, port2) = (later_mkt(&m, n), port.iter().map(|(w, i)| (*w, later_ins(i, n))).collect::<Port>());
        c.note(format!("{} days later {:?} {:?}", n, port, m));
        let (md, md2) = (data(c, &m), match m2.try_data() { Ok(d) => d, Err(e) => { c.fail(format!("surface refused on other dates: {}", e)); return } });
        let t = match slack(&port, &m) { Some(t) => t, None => c.skip("decided by rounding") };
        let sc = scale(&port, &m);
        let (p, q) = (c.ok("pricer", fresh(&rcs(&port), &md)), c.ok("pricer", fresh(&rcs(&port2), &md2)));
        alike(c, "price on other dates", &p.price(), &q.price(), 1.0, 2.0 * t + 1e-10 * sc);
        // valued later on as well, one instrument at a time
        let d = (m.base + c.rng.int(0, 300), gen_tod(&mut c.rng));
        let (i, i2) = (&port[0].1, &port2[0].1);
        if let (Val::V(_, t), Val::V(_, u)) = (i.price(&m, d, Disc::Own), i.price(&m, d, Disc::Und)) {
            alike(c, "later price on other dates", &price(&i.rc(), &md, d), &price(&i2.rc(), &md2, (d.0 + n, d.1)), 1.0, 2.0 * t.max(u) + 1e-10 * sc);
        }
        c.sig(&format!("{:?}{}", port, n));
    });
    ctx.group("positions", 60000, 1_500_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let port = gen_port(&mut c.rng, &m, &eqs);
        c.note(format!("{:?} {:?}", port, m));
        let sc = scale(&port, &m);
        let rc = rcs(&port);
        let of = |v: &[(f64, RcInstrument)]| fresh(v, &md).and_then(|p| p.price());
        let all = of(&rc);
        let tol = 1e-10 * sc;
        let parts: Result<Vec<f64>, qm::Error> = rc.iter().map(|(_, i)| of(&[(1.0, i.clone())])).collect();
        let sum = parts.map(|v| v.iter().zip(rc.iter()).map(|(p, (w, _))| p * w).sum::<f64>());
        alike(c, "sum over positions", &sum, &all, 1.0, tol);
        // in any order, split up, doubled and netted
        let mut other = rc.clone();
        for i in (1..other.len()).rev() { let j = c.rng.below(i + 1); other.swap(i, j) }
        alike(c, "in any order", &all, &of(&other), 1.0, tol);
        let split: Vec<(f64, RcInstrument)> = rc.iter().flat_map(|(w, i)| { let a = c.rng.f(-2.0, 2.0); vec![(a, i.clone()), (w - a, i.clone())] }).collect();
        let sc2: f64 = scale(&port.iter().map(|(w, i)| (w.abs() + 4.0, i.clone())).collect::<Port>(), &m);
        alike(c, "positions split up", &all, &of(&split), 1.0, 1e-10 * sc2);
        let y = c.rng.f(-5.0, 5.0);
        let times: Vec<(f64, RcInstrument)> = rc.iter().map(|(w, i)| (w * y, i.clone())).collect();
        match (&all, of(&times)) {
            (Ok(a), Ok(b)) => c.check("positions multiplied", close(b, a * y, 1e-11, 5.0 * tol) || a.is_nan(), || format!("{} vs {}", b, a * y)),
            (Err(_), Err(_)) => {}
            (a, b) => c.fail(format!("multiplied: {:?} vs {:?}", a.is_ok(), b.is_ok()))
        }
        c.sig(&format!("{:?}", port));
    });
    ctx.group("paths", 20000, 300_000, |c| {
        // the same random numbers give the same paths, whatever the units and the dates
        let (m, eqs) = gen_mkt(&mut c.rng, 1);
        let m = later_mkt(&m, 0);
        let e = later_ins(&InsM::Eq(eqs[0].clone()), 0);
        let units = c.rng.chance(0.5);
        let (x, n) = if units { (10f64.powf(c.rng.f(-4.0, 4.0)), 0) } else { (1.0, 7 * c.rng.int(-400, 400)) };
        let m2 = if units { scaled_mkt(&m, x) } else { later_mkt(&m, n) };
        let mut obs: Vec<i32> = (0..1 + c.rng.size(4, 15)).map(|_| c.rng.int(1, 700)).collect();
        obs.sort(); obs.dedup();
        c.note(format!("times {} later {} {:?} {:?}", x, n, obs, m));
        let subs: Vec<usize> = obs.iter().map(|_| 1 + c.rng.below(3)).collect();
        let (np, total) = (1 + c.rng.below(4), subs.iter().sum());
        let mut g = ndarray::Array3::<f64>::zeros((np, total, 1));
        for v in g.iter_mut() { *v = c.rng.normal() }
        let run = |e: &InsM, m: &Mkt, md: &MarketData| fetch_paths(&obs.iter().map(|j| ddf((m.base + j, 0.8))).collect::<Vec<_>>(), &g, md, &vec![e.rc()], &subs, np);
        let (md, md2) = (data(c, &m), data(c, &m2));
        match (run(&e, &m, &md), run(&later_ins(&e, n), &m2, &md2)) {
            (Ok(a), Ok(b)) => {
                let s = m.spots[e.id()] * x;
                let bad = a.iter().zip(b.iter()).find(|(a, b)| !close(**b, **a * x, 1e-7, 1e-7 * s) && !(a.is_nan() && b.is_nan()));
                c.check(if units { "paths in other units" } else { "paths on other dates" }, bad.is_none(), || format!("{:?}", bad));
                c.sig(&format!("{:?}{:?}", obs, subs));
            }
            (Err(_), Err(_)) => c.ev("error both ways"),
            // a variance that falls by a rounding error
            _ => c.skip("decided by rounding")
        }
    });
}

// ---------------------------------------------------- collected dependencies

/// what was asked for, one request at a time
#[derive(Default, Clone)]
struct Asked { base: i32, spots: Vec<String>, yields: Vec<(String, Date)>, fwds: Vec<(String, String, Date)>, vols: Vec<(String, Date)>, fixings: Vec<(String, DateTime)>, known: Vec<String> }

impl DependencyContext for Asked {
    fn spot_date(&self) -> Date { dj(self.base) }
    fn yield_curve(&mut self, id: &str, hwm: Date) { self.yields.push((id.into(), hwm)) }
    fn spot(&mut self, i: &RcInstrument) {
        if i.dependencies(self) != SpotRequirement::NotRequired { self.spots.push(i.id().into()); self.known.push(i.id().into()) }
    }
    fn forward_curve(&mut self, i: &RcInstrument, hwm: Date) {
        self.fwds.push((i.credit_id().into(), i.id().into(), hwm));
        self.yields.push((i.credit_id().into(), hwm));
        self.spot(i);
    }
    fn vol_surface(&mut self, i: &RcInstrument, hwm: Date) { self.vols.push((i.id().into(), hwm)); self.known.push(i.id().into()) }
    fn fixing(&mut self, id: &str, d: DateTime) { self.fixings.push((id.into(), d)) }
}

#[derive(Clone, Debug)]
enum Ask { Yield(String, i32), Spot(usize), Fwd(usize, i32), Vol(usize, i32), Fix(String, Tm) }

fn ask(a: &Ask, on: &mut dyn DependencyContext, ins: &[RcInstrument]) {
    match a {
        Ask::Yield(s, j) => on.yield_curve(s, dj(*j)), Ask::Spot(i) => on.spot(&ins[*i]), Ask::Fwd(i, j) => on.forward_curve(&ins[*i], dj(*j)),
        Ask::Vol(i, j) => on.vol_surface(&ins[*i], dj(*j)), Ask::Fix(s, t) => on.fixing(s, dtm(*t))
    }
}

fn furthest<'a, I: Iterator<Item = (&'a str, Date)>>(it: I) -> BTreeMap<String, Date> {
    let mut m: BTreeMap<String, Date> = BTreeMap::new();
    for (k, d) in it { let e = m.entry(k.to_string()).or_insert(d); if d > *e { *e = d } }
    m
}

fn collected(c: &mut Case, dc: &DependencyCollector, a: &Asked, ins: &[RcInstrument], names: &[String]) {
    c.check("spot date kept", dc.spot_date() == dj(a.base), || format!("{}", dc.spot_date()));
    let y = furthest(a.yields.iter().map(|x| (x.0.as_str(), x.1)));
    let f = furthest(a.fwds.iter().map(|x| (x.1.as_str(), x.2)));
    let v = furthest(a.vols.iter().map(|x| (x.0.as_str(), x.1)));
    for n in names {
        c.check("yield curve to the furthest date", dc.yield_curve_hwm(n) == y.get(n).cloned(), || format!("{}: {:?} want {:?}", n, dc.yield_curve_hwm(n), y.get(n)));
        let want: BTreeSet<&str> = a.fwds.iter().filter(|x| x.0 == *n).map(|x| x.1.as_str()).collect();
        let got = dc.forward_id_by_credit_id(n);
        c.check("forwards behind a credit entity", got.len() == want.len() && got.iter().all(|g| want.contains(g.as_str())), || format!("{}: {:?} want {:?}", n, got, want));
        if want.len() > 1 { c.ev("several forwards for one credit entity") }
        let want: BTreeSet<DateTime> = a.fixings.iter().filter(|x| x.0 == *n).map(|x| x.1).collect();
        let got = dc.fixings(n);
        c.check("fixings, each once", got.len() == want.len() && got.iter().all(|g| want.contains(g)), || format!("{}: {:?} want {:?}", n, got, want));
        if want.len() > 1 { c.ev("several fixings") }
        c.check("instrument by id", dc.instrument_by_id(n).map(|i| i.id().to_string()) == if a.known.contains(n) { Some(n.clone()) } else { None }, || n.clone());
    }
    for i in ins {
        let id = i.id();
        c.check("spot if asked for", dc.has_spot(i) == a.spots.iter().any(|s| s == id), || format!("{}: {}", id, dc.has_spot(i)));
        c.check("forward to the furthest date", dc.forward_curve_hwm(i) == f.get(id).cloned(), || format!("{}: {:?} want {:?}", id, dc.forward_curve_hwm(i), f.get(id)));
        c.check("volatility to the furthest date", dc.vol_surface_hwm(i) == v.get(id).cloned(), || format!("{}: {:?} want {:?}", id, dc.vol_surface_hwm(i), v.get(id)));
    }
    let flat = |m: &HashMap<RcInstrument, Date>| -> BTreeMap<String, Date> { m.iter().map(|(k, d)| (k.id().to_string(), *d)).collect() };
    c.check("all forwards", flat(dc.forward_curves()) == f && dc.forward_curves().len() == f.len(), || format!("{:?} want {:?}", flat(dc.forward_curves()), f));
    c.check("all surfaces", flat(dc.vol_surfaces()) == v && dc.vol_surfaces().len() == v.len(), || format!("{:?} want {:?}", flat(dc.vol_surfaces()), v));
    let known: BTreeSet<String> = a.known.iter().cloned().collect();
    let (x, y): (Vec<String>, Vec<String>) = (dc.instruments_clone(), dc.instruments_iter().map(|(k, i)| if k == i.id() { k.clone() } else { format!("{} under {}", i.id(), k) }).collect());
    for l in [x, y].iter() { c.check("all instruments", l.len() == known.len() && l.iter().cloned().collect::<BTreeSet<_>>() == known, || format!("{:?} want {:?}", l, known)) }
}

fn k09(ctx: &mut Ctx) {
    ctx.group("requests", 60000, 2_000_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let mut n = 0;
        let ms: Vec<InsM> = (0..3 + c.rng.below(4)).map(|i| if i < 3 { InsM::Eq(eqs[i].clone()) } else { let d = c.rng.below(3); gen_ins(&mut c.rng, &m, &eqs, d, &mut n) }).collect();
        let ins: Vec<RcInstrument> = ms.iter().map(|i| i.rc()).collect();
        let mut names: Vec<String> = CREDITS.iter().map(|s| s.to_string()).collect();
        names.extend(ins.iter().map(|i| i.id().to_string()));
        names.push("NOBODY".into()); names.push("".into());
        let j = |r: &mut Rng| m.base + match r.below(4) { 0 => 0, 1 => -r.int(0, 5), _ => r.int(0, 400) };
        let mut asks: Vec<Ask> = (0..c.rng.size(12, 80)).map(|_| match c.rng.below(5) {
            0 => Ask::Yield(c.rng.pick(&names[..4]).clone(), j(&mut c.rng)),
            1 => Ask::Spot(c.rng.below(ins.len())),
            2 => Ask::Fwd(c.rng.below(ins.len()), j(&mut c.rng)),
            3 => Ask::Vol(c.rng.below(ins.len()), j(&mut c.rng)),
            _ => { let t = (m.base + c.rng.int(0, 3), gen_tod(&mut c.rng)); Ask::Fix(c.rng.pick(&names).clone(), t) }
        }).collect();
        if c.rng.chance(0.3) { let k = asks.len(); asks.extend_from_within(..k) }
        c.note(format!("{:?} of {:?}", asks, ms));
        for _ in 0..2 {
            let (mut dc, mut a) = (DependencyCollector::new(dj(m.base)), Asked { base: m.base, ..Asked::default() });
            for x in asks.iter() { ask(x, &mut dc, &ins); ask(x, &mut a, &ins) }
            collected(c, &dc, &a, &ins, &names);
            // in another order it is the same
            for i in (1..asks.len()).rev() { let k = c.rng.below(i + 1); asks.swap(i, k) }
        }
        c.sig(&format!("{:?}", asks));
    });
    ctx.group("portfolios", 60000, 2_000_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let port = gen_port(&mut c.rng, &m, &eqs);
        c.note(format!("{:?}", port));
        let ins = rcs(&port);
        let (mut dc, mut a) = (DependencyCollector::new(dj(m.base)), Asked { base: m.base, ..Asked::default() });
        for (_, i) in ins.iter() { dc.spot(i); a.spot(i) }
        let names: Vec<String> = CREDITS.iter().map(|s| s.to_string()).chain(eqs.iter().map(|e| e.id.clone())).collect();
        let es: Vec<RcInstrument> = eqs.iter().map(|e| InsM::Eq(e.clone()).rc()).collect();
        collected(c, &dc, &a, &es, &names);
        // what an option must have asked for, however the rest is arranged
        let mut opts = Vec::new();
        for (_, i) in port.iter() { i.options(&mut opts) }
        for o in opts {
            let u = o.und.rc();
            let to = dj(o.expiry.0);
            c.check("an option needs its forward and volatility", dc.forward_curve_hwm(&u).map_or(false, |h| h >= to) && dc.vol_surface_hwm(&u).map_or(false, |h| h >= to) && dc.has_spot(&u), || o.id.clone());
            c.check("an option needs its discount curve", dc.yield_curve_hwm(&o.credit).map_or(false, |h| h >= dj(o.pay())), || o.id.clone());
            c.check("an option needs its fixings", dc.fixings(u.id()).contains(&dtm(o.expiry)) && match o.strike { StrikeM::Fwd(_, d) => dc.fixings(u.id()).contains(&dtm(d)), _ => true }, || o.id.clone());
        }
        c.sig(&format!("{:?}", port));
    });
}

// ------------------------------------------------------- missing market data

#[derive(Clone, Debug)]
enum Piece { Spot(String), Yield(String), Borrow(String), Divs(String), Vol(String) }

impl Piece {
    fn all(m: &Mkt) -> Vec<Piece> {
        m.spots.keys().cloned().map(Piece::Spot).chain(m.yields.keys().cloned().map(Piece::Yield)).chain(m.borrows.keys().cloned().map(Piece::Borrow))
            .chain(m.divs.keys().cloned().map(Piece::Divs)).chain(m.vols.keys().cloned().map(Piece::Vol)).collect()
    }
    fn without(&self, m: &Mkt) -> Mkt {
        let mut o = m.clone();
        match self { Piece::Spot(k) => { o.spots.remove(k); } Piece::Yield(k) => { o.yields.remove(k); } Piece::Borrow(k) => { o.borrows.remove(k); } Piece::Divs(k) => { o.divs.remove(k); } Piece::Vol(k) => { o.vols.remove(k); } }
        o
    }
    fn bump(&self) -> BumpM {
        match self { Piece::Spot(k) => BumpM::SpotRel(k.clone(), 0.013), Piece::Yield(k) => BumpM::YieldCont(k.clone(), 0.0037), Piece::Borrow(k) => BumpM::BorrowCont(k.clone(), 0.0041), Piece::Divs(k) => BumpM::Divs(k.clone(), 0.17), Piece::Vol(k) => BumpM::VolAdd(k.clone(), 0.011) }
    }
    fn kind(&self) -> &'static str { match self { Piece::Spot(_) => "a spot", Piece::Yield(_) => "a yield curve", Piece::Borrow(_) => "a borrow curve", Piece::Divs(_) => "a dividend stream", Piece::Vol(_) => "a surface" } }
}

fn k10(ctx: &mut Ctx) {
    ctx.group("missing", 30000, 1_000_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let port = gen_port(&mut c.rng, &m, &eqs);
        let md = data(c, &m);
        let rc = rcs(&port);
        c.note(format!("{:?} {:?}", port, m));
        let sc = scale(&port, &m);
        let full = match fresh(&rc, &md).and_then(|p| p.price()) { Ok(x) if x.is_finite() => x, _ => c.skip("not priceable") };
        for piece in Piece::all(&m) {
            let mut mb = m.clone();
            piece.bump().apply(&mut mb);
            // does the piece matter?
            let matters = match mb.try_data() { Ok(d) => match fresh(&rc, &d).and_then(|p| p.price()) { Ok(x) => !close(x, full, 1e-9, 1e-9 * sc), Err(_) => false }, Err(_) => false };
            let less = piece.without(&m);
            let md2 = match less.try_data() { Ok(d) => d, Err(_) => continue };
            let got = fresh(&rc, &md2).and_then(|p| p.price());
            match got {
                Ok(x) => {
                    c.check("needed data cannot be done without", !matters, || format!("{:?} missing: {} instead of {}", piece, x, full));
                    c.check("the same price without it", x.to_bits() == full.to_bits() || close(x, full, 1e-12, 1e-12 * sc), || format!("{:?} missing: {} instead of {}", piece, x, full));
                    c.ev("data not needed");
                }
                Err(_) => { c.ev("missing data reported"); if matters { c.ev(piece.kind()) } }
            }
            // and directly, through the market itself
            let one: Result<f64, qm::Error> = rc.iter().map(|(w, i)| Ok(w * price(i, &md2, (m.base, OPEN))?)).sum();
            if let Ok(x) = one { c.check("needed data cannot be done without", !matters, || format!("{:?} missing: priced directly at {}", piece, x)) }
            // a bump of what is not there says so, and changes nothing
            if let Ok(mut p) = fresh(&rc, &md2) {
                let before = p.price().ok().map(|x| x.to_bits());
                let did = p.bump(&piece.bump().real(), None);
                if let Ok(d) = did { c.check("a bump of missing data does nothing", !d && p.price().ok().map(|x| x.to_bits()) == before, || format!("{:?}: {}", piece, d)) }
            }
        }
        c.sig(&format!("{:?}", port));
        c.sample(format!("{:?}", port));
    });
    ctx.group("missing in a simulation", 4000, 100_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 1);
        let o = InsM::Opt(gen_option(&mut c.rng, &m, &InsM::Eq(eqs[0].clone()), "O"));
        c.note(format!("{:?} {:?}", o, m));
        // needed for the closed formula, so needed for the simulation
        let rc = vec![(1.0, o.rc())];
        let sc = scale(&vec![(1.0, o.clone())], &m);
        let exact = |m: &Mkt| m.try_data().ok().and_then(|d| fresh(&rc, &d).and_then(|p| p.price()).ok());
        let run = |m: &Mkt| m.try_data().ok().map(|d| MonteCarloPricer::new(rc.clone(), RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(20, 10.0, 5))), &d).and_then(|p| p.price()));
        let full = match (exact(&m), run(&m)) { (Some(x), Some(Ok(_))) if x.is_finite() => x, _ => c.skip("not priceable") };
        for piece in Piece::all(&m) {
            let mut mb = m.clone();
            piece.bump().apply(&mut mb);
            let matters = exact(&mb).map_or(false, |x| !close(x, full, 1e-9, 1e-9 * sc));
            match run(&piece.without(&m)) {
                Some(Ok(x)) => c.check("needed data cannot be simulated without", !matters, || format!("{:?} missing: {} instead of {}", piece, x, full)),
                Some(Err(_)) => c.ev("missing data reported by a simulation"),
                None => {}
            }
        }
        c.sig(&format!("{:?}", o));
    });
}

pub const PROPS: &[Prop] = &[
    Prop { id: "I08", run: i08,
        rule: "For generated instruments of every kind, with ids that share prefixes, differ in case or are not ASCII: equality, order, hash and text depend on the id alone, and id, credit entity, currency, settlement rule and time of day are those given; what fixing an option produces keeps them; impossible options are refused.",
        assumptions: &["An option pays in the currency of its underlying."],
        need: &[("equal by id", 50), ("ordered by id", 50), ("the same id", 50), ("found by id", 50), ("settlement as given", 50), ("shown by id", 50), ("negative strikes refused", 50), ("fractions must be positive", 50), ("no volatility to be had", 50), ("a payment", 50), ("an option", 50), ("delivered", 50)] },
    Prop { id: "I09", run: i09,
        rule: "Portfolios are priced again with all amounts of money multiplied by a constant, with all dates moved by whole weeks, and with positions reordered, split or multiplied; prices, deltas, gammas and simulated paths follow in proportion or stay the same.",
        assumptions: &["Settlement rules that look at months are replaced by ones that do not before dates are moved.", "Cases whose outcome is decided by floating-point rounding give no verdict."],
        need: &[("price in other units", 50), ("delta in other units", 50), ("gamma in other units", 50), ("price on other dates", 50), ("later price on other dates", 50), ("sum over positions", 50), ("in any order", 50), ("positions split up", 50), ("positions multiplied", 50), ("paths in other units", 20), ("paths on other dates", 20)] },
    Prop { id: "K09", run: k09,
        rule: "A collector given a sequence of requests, directly or by instruments, is compared with a plain list of the same requests: every lookup gives the furthest date, each fixing and forward once, and nothing for what was not asked; the order of requests does not matter.",
        assumptions: &[],
        need: &[("yield curve to the furthest date", 50), ("forward to the furthest date", 50), ("volatility to the furthest date", 50), ("fixings, each once", 50), ("several fixings", 50), ("several forwards for one credit entity", 50), ("all instruments", 50), ("an option needs its fixings", 50)] },
    Prop { id: "K10", run: k10,
        rule: "Every single piece of market data is taken away in turn: pricing reports an error or gives the same price, and it must report an error if a bump of the piece changes the price, in both pricers and when priced directly; a bump of missing data does nothing.",
        assumptions: &["A piece whose bump changes the price by less than one part in 1e9 counts as not needed."],
        need: &[("missing data reported", 50), ("data not needed", 50), ("a spot", 50), ("a yield curve", 50), ("a borrow curve", 50), ("a dividend stream", 50), ("a surface", 50), ("missing data reported by a simulation", 50)] },
];
