//! Reference model of a market, of instruments and of bumps: what anything is
//! worth, computed without the library's pricing code.

use crate::model::*;
use crate::nref::black;
use crate::p_dates::{dj, dow, gen_fraction, Cal};
use crate::rng::Rng;
use quantmath::core::factories::Qrc;
use quantmath::data::bump::Bump;
use quantmath::data::bumpdivs::BumpDivs;
use quantmath::data::bumpspot::BumpSpot;
use quantmath::data::bumpvol::BumpVol;
use quantmath::data::bumpyield::BumpYield;
use quantmath::data::fixings::FixingTable;
use quantmath::data::volsurface::DivAssumptions;
use quantmath::dates::datetime::{DateTime, TimeOfDay};
use quantmath::instruments::assets::{CreditEntity, Currency, Equity, RcCurrency};
use quantmath::instruments::basket::Basket;
use quantmath::instruments::bonds::ZeroCoupon;
use quantmath::instruments::options::*;
use quantmath::instruments::{Instrument, RcInstrument};
use quantmath::risk::marketdata::MarketData;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// a date and a time of day
pub type Tm = (i32, TimeOfDay);
pub fn dtm(t: Tm) -> DateTime { DateTime::new(dj(t.0), t.1) }
pub fn frac(t: Tm) -> Dt { (t.0, match t.1 { TimeOfDay::Open | TimeOfDay::EDSP => 0.0, TimeOfDay::Close => 0.8 }) }
fn rank(t: TimeOfDay) -> i32 { match t { TimeOfDay::Open => 0, TimeOfDay::EDSP => 1, TimeOfDay::Close => 2 } }
pub fn after(a: Tm, b: Tm) -> bool { (a.0, rank(a.1)) > (b.0, rank(b.1)) }
pub fn gen_tod(r: &mut Rng) -> TimeOfDay { *r.pick(&[TimeOfDay::Open, TimeOfDay::EDSP, TimeOfDay::Close]) }

#[derive(Clone, Debug)]
pub struct Mkt {
    pub base: i32,
    pub spots: BTreeMap<String, f64>,
    pub yields: BTreeMap<String, CurveM>,
    pub borrows: BTreeMap<String, CurveM>,
    pub divs: BTreeMap<String, DivsM>,
    pub vols: BTreeMap<String, VolM>
}

impl Mkt {
    pub fn try_data(&self) -> Result<MarketData, quantmath::core::qm::Error> {
        let mut vols = HashMap::new();
        for (k, v) in self.vols.iter() { vols.insert(k.clone(), v.try_rc()?); }
        Ok(MarketData::new(dj(self.base),
            self.spots.iter().map(|(k, v)| (k.clone(), *v)).collect(),
            self.yields.iter().map(|(k, v)| (k.clone(), v.rc())).collect(),
            self.borrows.iter().map(|(k, v)| (k.clone(), v.rc())).collect(),
            self.divs.iter().map(|(k, v)| (k.clone(), v.rc())).collect(), vols))
    }
    pub fn fwd(&self, e: &EqM, j: i32) -> Option<f64> {
        FwdM { base: self.base, spot: *self.spots.get(&e.id)?, rule: e.rule.clone(), rate: self.yields.get(&e.credit)?.clone(),
            borrow: self.borrows.get(&e.id)?.clone(), divs: self.divs.get(&e.id)?.clone(), hwm: j }.forward(j)
    }
}

#[derive(Clone, Debug)]
pub struct EqM { pub id: String, pub credit: String, pub rule: RuleM }

#[derive(Clone, Debug)]
pub enum StrikeM { Fixed(f64), Fwd(f64, Tm) }

#[derive(Clone, Debug)]
pub struct OptM { pub id: String, pub credit: String, pub und: Box<InsM>, pub rule: RuleM, pub expiry: Tm, pub strike: StrikeM, pub call: bool, pub phys: bool }

#[derive(Clone, Debug)]
pub enum InsM {
    Cur(String, RuleM),
    Cred(String, RuleM),
    Eq(EqM),
    Zero { id: String, credit: String, ex: Tm, pay: i32, rule: RuleM },
    Opt(OptM),
    Bask { id: String, credit: String, rule: RuleM, parts: Vec<(f64, InsM)> }
}

/// a value with the error that rounding may cause, an error, or no opinion
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val { V(f64, f64), Err, Skip }

impl Val {
    pub fn add(self, w: f64, o: Val) -> Val {
        match (self, o) {
            (Val::V(a, s), Val::V(b, t)) => Val::V(a + w * b, s + w.abs() * t + 1e-15 * (w * b).abs()),
            (Val::Skip, _) | (_, Val::Skip) => Val::Skip,
            _ => Val::Err
        }
    }
}

/// Which curve discounts an option: its own, or (a finding) its underlying's.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Disc { Own, Und }

/// known fixings
#[derive(Clone, Debug, Default)]
pub struct Tab { pub until: i32, pub v: Vec<(String, Tm, f64)> }

impl Tab {
    pub fn get(&self, id: &str, t: Tm) -> Result<Option<f64>, ()> {
        match self.v.iter().find(|x| x.0 == id && x.1 == t) {
            Some(x) => Ok(Some(x.2)),
            None => if t.0 < self.until { Err(()) } else { Ok(None) }
        }
    }
    pub fn real(&self) -> FixingTable {
        let mut m: BTreeMap<String, Vec<(DateTime, f64)>> = BTreeMap::new();
        for x in self.v.iter() { m.entry(x.0.clone()).or_default().push((dtm(x.1), x.2)) }
        FixingTable::from_iter_known_until(dj(self.until), m.into_iter()).unwrap()
    }
}

pub fn currency() -> RcCurrency { RcCurrency::new(Arc::new(Currency::new("GBP", RuleM::Null.rc()))) }
pub fn wrap<T: Instrument + 'static>(x: T) -> RcInstrument { RcInstrument::new(Qrc::new(Arc::new(x))) }
fn pc(call: bool) -> PutOrCall { if call { PutOrCall::Call } else { PutOrCall::Put } }
fn cs(phys: bool) -> OptionSettlement { if phys { OptionSettlement::Physical } else { OptionSettlement::Cash } }

impl InsM {
    pub fn id(&self) -> &str {
        match self { InsM::Cur(i, _) | InsM::Cred(i, _) => i, InsM::Eq(e) => &e.id, InsM::Zero { id, .. } => id, InsM::Opt(o) => &o.id, InsM::Bask { id, .. } => id }
    }
    pub fn credit(&self) -> &str {
        match self { InsM::Cur(i, _) | InsM::Cred(i, _) => i, InsM::Eq(e) => &e.credit, InsM::Zero { credit, .. } => credit, InsM::Opt(o) => &o.credit, InsM::Bask { credit, .. } => credit }
    }
    pub fn rc(&self) -> RcInstrument {
        match self {
            InsM::Cur(i, r) => wrap(Currency::new(i, r.rc())),
            InsM::Cred(i, r) => wrap(CreditEntity::new(i, currency(), r.rc())),
            InsM::Eq(e) => wrap(Equity::new(&e.id, &e.credit, currency(), e.rule.rc())),
            InsM::Zero { id, credit, ex, pay, rule } => wrap(ZeroCoupon::new(id, credit, currency(), dtm(*ex), dj(*pay), rule.rc())),
            InsM::Opt(o) => o.rc(),
            InsM::Bask { id, credit, rule, parts } => wrap(Basket::new(id, credit, currency(), rule.rc(),
                parts.iter().map(|(w, i)| (*w, i.rc())).collect()).unwrap())
        }
    }
    /// the value as of a date; `single` says that the price is asked for that date alone
    pub fn price(&self, m: &Mkt, d: Tm, disc: Disc) -> Val { self.price_as(m, d, disc, true) }
    pub fn price_as(&self, m: &Mkt, d: Tm, disc: Disc, single: bool) -> Val {
        let v = |x: Option<f64>| match x { Some(v) if v.is_finite() => Val::V(v, 1e-11 * v.abs()), Some(_) => Val::Skip, None => Val::Err };
        match self {
            InsM::Cur(..) | InsM::Cred(..) => Val::V(1.0, 0.0),
            InsM::Eq(e) => if single && d.0 == m.base { v(m.spots.get(&e.id).cloned()) } else { v(m.fwd(e, d.0)) },
            InsM::Zero { credit, ex, pay, rule, .. } => {
                let c = match m.yields.get(credit) { Some(c) => c, None => return Val::Err };
                let x = (|| Some((c.rt(rule.apply(d.0))? - c.rt(*pay)?).exp()))();
                if after(d, *ex) { return if x.is_some() { Val::V(0.0, 0.0) } else { Val::Skip } }
                v(x)
            }
            InsM::Opt(o) => o.price(m, d, disc),
            InsM::Bask { parts, .. } => {
                let mut t = Val::V(0.0, 0.0);
                for (w, i) in parts { t = t.add(*w, i.price_as(m, d, disc, single)) }
                t
            }
        }
    }
    /// what fixings turn it into: Err for a missing past fixing, None for no change
    pub fn fix(&self, t: &Tab) -> Result<Option<Vec<(f64, InsM)>>, ()> {
        match self {
            InsM::Opt(o) => o.fix(t),
            InsM::Bask { id, credit, rule, parts } => {
                let mut out = Vec::new();
                let mut changed = false;
                for (w, i) in parts {
                    match i.fix(t)? {
                        Some(v) => { changed = true; for (x, j) in v { out.push((w * x, j)) } }
                        None => out.push((*w, i.clone()))
                    }
                }
                if !changed { return Ok(None) }
                Ok(Some(vec![(1.0, InsM::Bask { id: format!("{}:fixed", id), credit: credit.clone(), rule: rule.clone(), parts: out })]))
            }
            _ => Ok(None)
        }
    }
    pub fn fixed(&self, t: &Tab) -> Result<Vec<(f64, InsM)>, ()> { Ok(self.fix(t)?.unwrap_or_else(|| vec![(1.0, self.clone())])) }
    /// the fixings it will ever consult
    pub fn fixings(&self, out: &mut Vec<(String, Tm)>) {
        match self {
            InsM::Opt(o) => {
                if let StrikeM::Fwd(_, d) = o.strike { out.push((o.und.id().to_string(), d)) }
                out.push((o.und.id().to_string(), o.expiry));
            }
            InsM::Bask { parts, .. } => for p in parts { p.1.fixings(out) },
            _ => {}
        }
    }
    pub fn options<'a>(&'a self, out: &mut Vec<&'a OptM>) {
        match self { InsM::Opt(o) => out.push(o), InsM::Bask { parts, .. } => for p in parts { p.1.options(out) }, _ => {} }
    }
    /// equities whose spot the value depends on
    pub fn spots(&self, out: &mut Vec<String>) {
        match self {
            InsM::Eq(e) => out.push(e.id.clone()),
            InsM::Opt(o) => o.und.spots(out),
            InsM::Bask { parts, .. } => for p in parts { p.1.spots(out) },
            _ => {}
        }
    }
}

pub fn price_all(v: &[(f64, InsM)], m: &Mkt, d: Tm, disc: Disc) -> Val {
    let mut t = Val::V(0.0, 0.0);
    for (w, i) in v { t = t.add(*w, i.price(m, d, disc)) }
    t
}

impl OptM {
    pub fn rc(&self) -> RcInstrument {
        match self.strike {
            StrikeM::Fixed(k) => wrap(SpotStartingEuropean::new(&self.id, &self.credit, self.und.rc(), self.rule.rc(), dtm(self.expiry), k, pc(self.call), cs(self.phys)).unwrap()),
            StrikeM::Fwd(f, d) => wrap(ForwardStartingEuropean::new(&self.id, &self.credit, self.und.rc(), self.rule.rc(), dtm(self.expiry), f, dtm(d), pc(self.call), cs(self.phys)).unwrap())
        }
    }
    pub fn pay(&self) -> i32 { self.rule.apply(self.expiry.0) }
    /// strike, forward
    pub fn kf(&self, m: &Mkt) -> Val2 {
        match self.strike {
            StrikeM::Fixed(k) => match self.und.price_as(m, self.expiry, Disc::Own, true) { Val::V(f, _) => Val2::V(k, f), Val::Err => Val2::Err, Val::Skip => Val2::Skip },
            StrikeM::Fwd(x, d) => match (self.und.price_as(m, d, Disc::Own, false), self.und.price_as(m, self.expiry, Disc::Own, false)) {
                (Val::V(s, _), Val::V(f, _)) => Val2::V(s * x, f), (Val::Skip, _) | (_, Val::Skip) => Val2::Skip, _ => Val2::Err }
        }
    }
    pub fn df(&self, m: &Mkt, d: i32, disc: Disc) -> Option<f64> {
        let c = m.yields.get(if disc == Disc::Own { self.credit.as_str() } else { self.und.credit() })?;
        Some((c.rt(self.rule.apply(d))? - c.rt(self.pay())?).exp())
    }
    pub fn price(&self, m: &Mkt, d: Tm, disc: Disc) -> Val {
        if let StrikeM::Fwd(_, s) = self.strike { if m.base > s.0 { return Val::Err } }
        let vol = match m.vols.get(self.und.id()) { Some(v) => v.evolved(m.base), None => return Val::Err };
        let (k, f) = match self.kf(m) { Val2::V(k, f) => (k, f), Val2::Err => return Val::Err, Val2::Skip => return Val::Skip };
        let df = match self.df(m, d.0, disc) { Some(x) => x, None => return Val::Err };
        let dis = match vol.displacement(self.expiry.0) { Some(x) => x, None => return Val::Err };
        let (fd, kd) = (f - dis, k - dis);
        if fd.abs() < 1e-9 * f.abs() { return Val::Skip }
        if fd < 0.0 { return Val::Err }
        if after(d, self.expiry) { return Val::V(0.0, 0.0) }
        let val = frac(d);
        let from = match self.strike { StrikeM::Fwd(_, s) => { let s = frac(s); if s > val { s } else { val } }, _ => val };
        let var = match vol.fwd_var(from, frac(self.expiry), k) { Err(()) => return Val::Skip, Ok(None) => return Val::Err, Ok(Some(v)) => v };
        if var.is_nan() { return Val::Skip }
        if var.abs() < 1e-8 && (var != 0.0 || vol.has_forward()) { return Val::Skip }
        // no variance before the surface starts: its sign decides
        if var == 0.0 && frac(self.expiry) < vol.base() { return Val::Skip }
        if var < 0.0 { return Val::Err }
        let scale = df * (fd.abs() + kd.abs());
        if kd <= 0.0 { return Val::V(if self.call { df * (fd - kd) } else { 0.0 }, 1e-11 * scale) }
        let p = |v: f64| black(self.call, df, fd, kd, v.max(0.0).sqrt());
        let e = if var == 0.0 { 1e-12 } else { 1e-9 + 1e-8 * var };
        Val::V(p(var), 2e-10 * scale + (p(var + e) - p(var - e)).abs())
    }
    pub fn payoff(&self, s: f64, k: f64) -> f64 { (if self.call { s - k } else { k - s }).max(0.0) }
    pub fn fix(&self, t: &Tab) -> Result<Option<Vec<(f64, InsM)>>, ()> {
        let (k, fresh) = match self.strike {
            StrikeM::Fixed(k) => (k, false),
            StrikeM::Fwd(x, d) => match t.get(self.und.id(), d)? { Some(v) => (x * v, true), None => return Ok(None) }
        };
        match t.get(self.und.id(), self.expiry)? {
            None => Ok(if fresh { Some(vec![(1.0, InsM::Opt(OptM { strike: StrikeM::Fixed(k), ..self.clone() }))]) } else { None }),
            Some(s) => {
                let pay = InsM::Zero { id: format!("{}:payment", self.id), credit: self.credit.clone(), ex: self.expiry, pay: self.pay(), rule: self.rule.clone() };
                let x = self.payoff(s, k);
                let sg = if self.call { 1.0 } else { -1.0 };
                Ok(Some(if x <= 0.0 { vec![] } else if self.phys { vec![(-sg * k, pay), (sg, (*self.und).clone())] } else { vec![(x, pay)] }))
            }
        }
    }
}

pub enum Val2 { V(f64, f64), Err, Skip }

// ---------------------------------------------------------------- generation

pub fn gen_inst_vol(r: &mut Rng, base: i32, spot: f64) -> VolM {
    let b = if r.chance(0.3) { base - r.int(1, 40) } else { base };
    let b = (b, if r.chance(0.6) { 0.0 } else { gen_fraction(r) });
    let mut v = if r.chance(0.45) { gen_flat_vol(r, b) } else { gen_prob_vol(r, b, spot) };
    if let VolM::Prob(_, _, _, _, fd, da) = &mut v {
        for x in fd.iter_mut() { x.1 *= spot / 100.0 }
        if *da == DivAssumptions::JumpDivs && r.chance(0.8) { *da = DivAssumptions::FixedDivs }
    }
    if r.chance(0.1) { v = VolM::Par(Box::new(v), r.f(0.0, 0.05)) }
    v
}

pub const CREDITS: [&str; 3] = ["OPT", "LSE", "XETR"];

pub const IDS: [&str; 12] = ["BP.L", "GSK.L", "SIE.DE", "AZN.L", "BMW.DE", "CNA.L", "DTE.DE", "EZJ.L", "FRE.DE", "HSBA.L", "IMB.L", "KGF.L"];

/// a market with some equities, and curves for the credit entities of CREDITS
pub fn gen_mkt(r: &mut Rng, n: usize) -> (Mkt, Vec<EqM>) {
    let mut base = r.int(12_000, 40_000);
    if r.chance(0.7) { while dow(base) > 4 { base += 1 } }
    let mut m = Mkt { base, spots: BTreeMap::new(), yields: BTreeMap::new(), borrows: BTreeMap::new(), divs: BTreeMap::new(), vols: BTreeMap::new() };
    for c in CREDITS.iter() {
        let b = base - if r.chance(0.5) { 0 } else { r.int(1, 10) };
        m.yields.insert(c.to_string(), gen_tame_curve(r, b, 0.08));
    }
    let mut eqs = Vec::new();
    let rule = gen_rule(r, base);
    for i in 0..n {
        let e = EqM { id: IDS[i].to_string(), credit: CREDITS[1 + r.below(2)].to_string(),
            rule: if r.chance(0.5) { rule.clone() } else { gen_rule(r, base) } };
        let s = *r.pick(&[100.0, 37.5, 812.0]) * r.f(0.8, 1.2);
        m.spots.insert(e.id.clone(), s);
        let b = base - if r.chance(0.5) { 0 } else { r.int(1, 10) };
        m.borrows.insert(e.id.clone(), gen_tame_curve(r, b, 0.03));
        m.divs.insert(e.id.clone(), gen_divs(r, base, 1200, s));
        m.vols.insert(e.id.clone(), gen_inst_vol(r, base, s));
        eqs.push(e);
    }
    (m, eqs)
}

pub fn gen_option(r: &mut Rng, m: &Mkt, und: &InsM, id: &str) -> OptM {
    let base = m.base;
    let expiry = (base + match r.below(6) { 0 => 0, 1 => r.int(1, 10), 2 if r.chance(0.2) => r.int(1, 6000), _ => r.int(1, 900) }, gen_tod(r));
    let s = match und.price(m, (base, TimeOfDay::Open), Disc::Own) { Val::V(v, _) => v, _ => 100.0 };
    let strike = if r.chance(0.35) {
        let sd = base + match r.below(4) { 0 => 0, _ => r.int(0, expiry.0 - base) };
        let mut d = (sd, gen_tod(r));
        if after(d, expiry) { d.1 = TimeOfDay::Open }
        StrikeM::Fwd(r.f(0.6, 1.5), d)
    } else if r.chance(0.04) { StrikeM::Fixed(0.0) } else if r.chance(0.1) { StrikeM::Fixed(s.abs() * r.f(0.001, 5.0)) } else { StrikeM::Fixed(s.abs() * r.f(0.6, 1.5)) };
    OptM { id: id.to_string(), credit: if r.chance(0.75) { und.credit().to_string() } else { CREDITS[r.below(3)].to_string() },
        und: Box::new(und.clone()), rule: gen_rule(r, expiry.0), expiry, strike, call: r.chance(0.5), phys: r.chance(0.5) }
}

pub fn gen_zero(r: &mut Rng, m: &Mkt, id: &str) -> InsM {
    let ex = (m.base + r.int(-3, 300), gen_tod(r));
    InsM::Zero { id: id.to_string(), credit: CREDITS[r.below(3)].to_string(), ex, pay: ex.0 + r.int(0, 30), rule: gen_rule(r, m.base) }
}

/// weights as found in portfolios, negative and zero ones included
pub fn gen_w(r: &mut Rng) -> f64 { match r.below(6) { 0 => if r.chance(0.25) { 0.0 } else { 1.0 }, 1 => -1.0, 2 => r.f(-3.0, 3.0), 3 => r.int(-100, 100) as f64, _ => r.f(0.0, 2.0) } }

/// an instrument over the equities, nested up to a depth
pub fn gen_ins(r: &mut Rng, m: &Mkt, eqs: &[EqM], depth: usize, name: &mut usize) -> InsM {
    *name += 1;
    let id = format!("I{}", name);
    let k = r.below(if depth > 0 { 12 } else { 9 });
    match k {
        0 => InsM::Cur(CREDITS[r.below(3)].to_string(), gen_rule(r, m.base)),
        1 => InsM::Cred(CREDITS[r.below(3)].to_string(), gen_rule(r, m.base)),
        2 => InsM::Eq(r.pick(eqs).clone()),
        3 => gen_zero(r, m, &id),
        4..=8 => { let u = InsM::Eq(r.pick(eqs).clone()); InsM::Opt(gen_option(r, m, &u, &id)) }
        _ => {
            let n = r.size(5, 14);
            let parts = (0..n).map(|_| { let w = gen_w(r); (w, gen_ins(r, m, eqs, depth - 1, name)) }).collect();
            InsM::Bask { id, credit: CREDITS[r.below(3)].to_string(), rule: gen_rule(r, m.base), parts }
        }
    }
}

// --------------------------------------------------------------------- bumps

#[derive(Clone, Debug)]
pub enum BumpM { SpotRel(String, f64), SpotSet(String, f64), Divs(String, f64), BorrowAnn(String, f64), BorrowCont(String, f64),
    YieldAnn(String, f64), YieldCont(String, f64), VolAdd(String, f64), VolScaled(String, f64, f64), VolSet(String, f64) }

impl BumpM {
    pub fn id(&self) -> &str {
        match self { BumpM::SpotRel(i, _) | BumpM::SpotSet(i, _) | BumpM::Divs(i, _) | BumpM::BorrowAnn(i, _) | BumpM::BorrowCont(i, _)
            | BumpM::YieldAnn(i, _) | BumpM::YieldCont(i, _) | BumpM::VolAdd(i, _) | BumpM::VolScaled(i, _, _) | BumpM::VolSet(i, _) => i }
    }
    pub fn real(&self) -> Bump {
        match self {
            BumpM::SpotRel(i, b) => Bump::new_spot(i, BumpSpot::new_relative(*b)),
            BumpM::SpotSet(i, b) => Bump::new_spot(i, BumpSpot::new_replace(*b)),
            BumpM::Divs(i, b) => Bump::new_divs(i, BumpDivs::new_all_relative(*b)),
            BumpM::BorrowAnn(i, b) => Bump::new_borrow(i, BumpYield::new_flat_annualised(*b)),
            BumpM::BorrowCont(i, b) => Bump::new_borrow(i, BumpYield::new_flat_continuously_compounded(*b)),
            BumpM::YieldAnn(i, b) => Bump::new_yield(i, BumpYield::new_flat_annualised(*b)),
            BumpM::YieldCont(i, b) => Bump::new_yield(i, BumpYield::new_flat_continuously_compounded(*b)),
            BumpM::VolAdd(i, b) => Bump::new_vol(i, BumpVol::new_flat_additive(*b)),
            BumpM::VolScaled(i, b, f) => Bump::new_vol(i, BumpVol::new_time_scaled(*b, *f)),
            BumpM::VolSet(i, b) => Bump::new_vol(i, BumpVol::new_replace(*b))
        }
    }
    /// apply to the model; true if there was anything to bump
    pub fn apply(&self, m: &mut Mkt) -> bool {
        fn on<T, F: FnOnce(&mut T)>(x: Option<&mut T>, f: F) -> bool { match x { Some(v) => { f(v); true } None => false } }
        match self {
            BumpM::SpotRel(i, b) => on(m.spots.get_mut(i), |s| *s = *s * (1.0 + b)),
            BumpM::SpotSet(i, b) => on(m.spots.get_mut(i), |s| *s = *b),
            BumpM::Divs(i, b) => on(m.divs.get_mut(i), |d| *d = d.scaled(*b)),
            BumpM::BorrowAnn(i, b) => on(m.borrows.get_mut(i), |c| *c = CurveM::Ann(Box::new(c.clone()), *b)),
            BumpM::BorrowCont(i, b) => on(m.borrows.get_mut(i), |c| *c = CurveM::Cont(Box::new(c.clone()), *b)),
            BumpM::YieldAnn(i, b) => on(m.yields.get_mut(i), |c| *c = CurveM::Ann(Box::new(c.clone()), *b)),
            BumpM::YieldCont(i, b) => on(m.yields.get_mut(i), |c| *c = CurveM::Cont(Box::new(c.clone()), *b)),
            BumpM::VolAdd(i, b) => on(m.vols.get_mut(i), |v| *v = VolM::Par(Box::new(v.clone()), *b)),
            BumpM::VolScaled(i, b, f) => on(m.vols.get_mut(i), |v| *v = VolM::Scaled(Box::new(v.clone()), *b, *f)),
            BumpM::VolSet(i, b) => on(m.vols.get_mut(i), |v| *v = VolM::Flat(*b, v.cal().clone(), v.base()))
        }
    }
}

/// a bump of something in the market, now and then of something that is not
pub fn gen_bump(r: &mut Rng, eqs: &[EqM]) -> BumpM {
    let id = if r.chance(0.06) { "NOBODY".to_string() } else { r.pick(eqs).id.clone() };
    let cr = if r.chance(0.06) { "NOBODY".to_string() } else { CREDITS[r.below(3)].to_string() };
    let b = r.f(-0.02, 0.03);
    match r.below(10) {
        0 => BumpM::SpotRel(id, r.f(-0.2, 0.25)),
        1 => BumpM::SpotSet(id, r.f(50.0, 200.0)),
        2 => BumpM::Divs(id, r.f(-1.0, 1.0)),
        3 => BumpM::BorrowAnn(id, b),
        4 => BumpM::BorrowCont(id, b),
        5 => BumpM::YieldAnn(cr, b),
        6 => BumpM::YieldCont(cr, b),
        7 => BumpM::VolAdd(id, r.f(-0.01, 0.05)),
        8 => BumpM::VolScaled(id, r.f(-0.01, 0.05), r.f(0.02, 0.3)),
        _ => BumpM::VolSet(id, r.f(0.05, 0.5))
    }
}

pub fn calendar_of(m: &Mkt, id: &str) -> Option<Cal> { m.vols.get(id).map(|v| v.cal().clone()) }
