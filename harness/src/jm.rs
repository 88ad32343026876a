//! The JSON documents that describe the reference models, written without the
//! library.

use crate::mkt::*;
use crate::model::*;
use crate::nref::Ex;
use crate::p_dates::{civil, unix_of, Cal};
use quantmath::data::volsurface::DivAssumptions;
use quantmath::dates::datetime::TimeOfDay;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub fn jdate(j: i32) -> Value { let (y, m, d) = civil(unix_of(j)); json!(format!("{:04}-{:02}-{:02}", y, m, d)) }
pub fn jtod(t: TimeOfDay) -> Value { json!(match t { TimeOfDay::Open => "Open", TimeOfDay::EDSP => "EDSP", TimeOfDay::Close => "Close" }) }
pub fn jtm(t: Tm) -> Value { json!({"date": jdate(t.0), "time_of_day": jtod(t.1)}) }
pub fn jdt(d: Dt) -> Value { json!({"date": jdate(d.0), "day_fraction": d.1}) }
pub fn jex(e: Ex) -> Value { json!(match e { Ex::Flat => "Flat", Ex::Natural => "Natural", Ex::Nan => "NotANumber", Ex::Zero => "Zero", Ex::Throw => "Throw" }) }
pub fn jlin(p: &[(i32, f64)], l: Ex, r: Ex) -> Value {
    json!({"left": jex(l), "right": jex(r), "points": p.iter().map(|x| json!([jdate(x.0), x.1])).collect::<Vec<_>>()})
}
pub fn jpts(p: &[(f64, f64)], l: Ex, r: Ex) -> Value {
    json!({"left": jex(l), "right": jex(r), "points": p.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()})
}
fn tag(t: &str, v: Value) -> Value { let mut m = Map::new(); m.insert(t.to_string(), v); Value::Object(m) }
fn map<T, F: Fn(&T) -> Value>(m: &BTreeMap<String, T>, f: F) -> Value { Value::Object(m.iter().map(|(k, v)| (k.clone(), f(v))).collect()) }

impl Cal {
    pub fn js(&self) -> Value {
        match self {
            Cal::Every => json!({"EveryDayCalendar": []}),
            Cal::Week => json!({"WeekdayCalendar": []}),
            Cal::Hols(h) => json!({"WeekdayAndHolidayCalendar": {"name": "TST", "holidays": h.iter().map(|j| jdate(*j)).collect::<Vec<_>>()}}),
            Cal::Vol(c, w) => json!({"VolatilityCalendar": {"name": "VOL", "calendar": c.js(), "holiday_weight": w}})
        }
    }
}

impl RuleM {
    pub fn js(&self) -> Value {
        match self {
            RuleM::Null => json!({"NullRule": {}}),
            RuleM::Step(c, n) => json!({"BusinessDays": {"calendar": c.js(), "step": n, "slip_forward": true}}),
            RuleM::Back(c, n) => json!({"BusinessDays": {"calendar": c.js(), "step": -n, "slip_forward": false}}),
            RuleM::ModF(c) => json!({"ModifiedFollowing": {"calendar": c.js()}})
        }
    }
}

impl CurveM {
    pub fn js(&self) -> Value {
        match self {
            CurveM::Zero(b) => json!({"ZeroRateCurve": {"base": jdate(*b)}}),
            CurveM::Act(b, p, l, r) => json!({"RateCurveAct365": {"base": jdate(*b), "interp": jlin(p, *l, *r)}}),
            CurveM::Ann(c, b) => json!({"AnnualisedFlatBump": {"curve": c.js(), "bump": b}}),
            CurveM::Cont(c, b) => json!({"ContinuouslyCompoundedFlatBump": {"curve": c.js(), "bump": b}}),
            CurveM::Rel(c, m) => json!({"RelativeBump": {"curve": c.js(), "one_plus_bump": m}})
        }
    }
}

impl DivsM {
    pub fn js(&self) -> Value {
        json!({"dividends": self.divs.iter().map(|d| json!({"cash": d.cash, "relative": d.rel, "ex_date": jdate(d.ex), "pay_date": jdate(d.pay)})).collect::<Vec<_>>(),
            "div_yield": self.dy.js(), "last_cash_ex_date": jdate(self.last_cash())})
    }
}

impl VolM {
    /// None for the one kind of surface that has no JSON form
    pub fn js(&self) -> Option<Value> {
        Some(match self {
            VolM::Flat(v, c, b) => json!({"FlatVolSurface": {"vol": v, "calendar": c.js(), "base_date": jdt(*b)}}),
            VolM::Prob(sm, c, b, f, fd, da) => {
                let flat = sm.iter().all(|s| matches!(s.1, SmileM::Flat(_)));
                let s: Vec<Value> = sm.iter().map(|s| json!([jdt(s.0), match &s.1 {
                    SmileM::Flat(v) if flat => json!({"vol": v}),
                    SmileM::Flat(v) => json!({"smile": jpts(&[(10.0, *v), (100.0, *v)], Ex::Natural, Ex::Natural)}),
                    SmileM::Spline(p) => json!({"smile": jpts(p, Ex::Natural, Ex::Natural)}) }])).collect();
                let da = match da { DivAssumptions::NoCashDivs => "NoCashDivs", DivAssumptions::IndependentLogNormals => "IndependentLogNormals",
                    DivAssumptions::FixedDivs => "FixedDivs", DivAssumptions::JumpDivs => "JumpDivs" };
                tag(if flat { "VolByProbabilityFlatSmile" } else { "VolByProbabilityCubicSplineSmile" },
                    json!({"smiles": s, "calendar": c.js(), "base_date": jdt(*b), "forward": jlin(f, Ex::Flat, Ex::Flat),
                        "fixed_divs_after": jlin(fd, Ex::Flat, Ex::Flat), "div_assumptions": da}))
            }
            VolM::Const(v, o, b) => json!({"ConstantExpiryTimeEvolution": {"base_vol": v.js()?, "vol_time_offset": o, "base_date": jdt(*b)}}),
            VolM::Roll(v, o, b) => json!({"RollingExpiryTimeEvolution": {"base_vol": v.js()?, "vol_time_offset": o, "base_date": jdt(*b)}}),
            VolM::Par(v, b) => json!({"ParallelBumpVol": {"base_vol": v.js()?, "bump": b}}),
            VolM::Scaled(v, b, f) => json!({"TimeScaledBumpVol": {"base_vol": v.js()?, "bump": b, "vol_time_floor": f}}),
            VolM::Sticky(..) => return None
        })
    }
}

impl Mkt {
    pub fn js(&self) -> Option<Value> {
        for v in self.vols.values() { v.js()?; }
        Some(json!({"spot_date": jdate(self.base), "spots": map(&self.spots, |x| json!(x)), "yield_curves": map(&self.yields, |x| x.js()),
            "borrow_curves": map(&self.borrows, |x| x.js()), "dividends": map(&self.divs, |x| x.js()), "vol_surfaces": map(&self.vols, |x| x.js().unwrap())}))
    }
}

impl Tab {
    pub fn js(&self) -> Value {
        let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for x in self.v.iter() { m.entry(x.0.clone()).or_default().push(json!([jtm(x.1), x.2])) }
        json!({"fixings_known_until": jdate(self.until), "fixings_by_id": map(&m, |x| json!({"fixing_by_date": x}))})
    }
}

pub fn jccy(id: &str, r: &RuleM) -> Value { json!({"id": id, "settlement": r.js()}) }

/// How children appear: in full or as a name
pub trait Refs { fn ccy(&mut self, id: &str, r: &RuleM) -> Value; fn ins(&mut self, i: &InsM) -> Value; }

/// everything in full
pub struct Full;
impl Refs for Full {
    fn ccy(&mut self, id: &str, r: &RuleM) -> Value { jccy(id, r) }
    fn ins(&mut self, i: &InsM) -> Value { i.js_with(self) }
}

impl InsM {
    pub fn js(&self) -> Value { self.js_with(&mut Full) }
    pub fn js_with(&self, f: &mut dyn Refs) -> Value {
        match self {
            InsM::Cur(i, r) => json!({"Currency": jccy(i, r)}),
            InsM::Cred(i, r) => json!({"CreditEntity": {"id": i, "currency": f.ccy("GBP", &RuleM::Null), "settlement": r.js()}}),
            InsM::Eq(e) => json!({"Equity": {"id": e.id, "credit_id": e.credit, "currency": f.ccy("GBP", &RuleM::Null), "settlement": e.rule.js()}}),
            InsM::Zero { id, credit, ex, pay, rule } => json!({"ZeroCoupon": {"id": id, "credit_id": credit, "currency": f.ccy("GBP", &RuleM::Null),
                "ex_date": jtm(*ex), "payment_date": jdate(*pay), "settlement": rule.js()}}),
            InsM::Bask { id, credit, rule, parts } => {
                // the members come first in text order, as the names are sorted
                let b: Vec<Value> = parts.iter().map(|(w, i)| json!([w, f.ins(i)])).collect();
                json!({"Basket": {"id": id, "credit_id": credit, "currency": f.ccy("GBP", &RuleM::Null), "settlement": rule.js(), "basket": b}})
            }
            InsM::Opt(o) => {
                let mut v = json!({"id": o.id, "credit_id": o.credit, "underlying": f.ins(&o.und), "settlement": o.rule.js(), "expiry": jtm(o.expiry),
                    "put_or_call": if o.call { "Call" } else { "Put" }, "cash_or_physical": if o.phys { "Physical" } else { "Cash" },
                    "expiry_time": jdt(frac(o.expiry)), "pay_date": jdate(o.pay())});
                match &o.strike {
                    StrikeM::Fixed(k) => { v["strike"] = json!(k); tag("SpotStartingEuropean", v) }
                    StrikeM::Fwd(k, t) => { v["strike_fraction"] = json!(k); v["strike_date"] = jtm(*t); v["strike_time"] = jdt(frac(*t)); tag("ForwardStartingEuropean", v) }
                }
            }
        }
    }
}

/// How two documents differ, ignoring the order of fixings and the last bits of numbers
pub fn differ(a: &Value, b: &Value, ulps: f64) -> Option<String> { diff(a, b, ulps, "") }

fn diff(a: &Value, b: &Value, ulps: f64, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if x == y || (x - y).abs() <= ulps * 2.3e-16 * x.abs().max(y.abs()) { None } else { Some(format!("{}: {:e} against {:e}", path, x, y)) }
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() { return Some(format!("{}: {} elements against {}", path, x.len(), y.len())) }
            let (mut p, mut q): (Vec<&Value>, Vec<&Value>) = (x.iter().collect(), y.iter().collect());
            if path.ends_with("fixing_by_date") {
                p.sort_by_key(|v| v[0].to_string());
                q.sort_by_key(|v| v[0].to_string());
            }
            p.iter().zip(q.iter()).enumerate().find_map(|(i, (u, v))| diff(u, v, ulps, &format!("{}[{}]", path, i)))
        }
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys() { if !y.contains_key(k) { return Some(format!("{}.{} missing on the right", path, k)) } }
            for k in y.keys() { if !x.contains_key(k) { return Some(format!("{}.{} missing on the left", path, k)) } }
            x.iter().find_map(|(k, v)| diff(v, &y[k], ulps, &format!("{}.{}", path, k)))
        }
        _ => if a == b { None } else { Some(format!("{}: {} against {}", path, a, b)) }
    }
}
