//! Random sequences of C-interface calls, following the documented ownership
//! rules, with a model of what every handle holds. Also built on its own to
//! run in Miri, so it uses nothing of the framework.

use crate::rng::Rng;
use quantmath::core::dedup::DedupControl;
use quantmath::data::fixings::RcFixingTable;
use quantmath::facade;
use quantmath::facade::c_interface::*;
use quantmath::instruments::assets::RcCurrency;
use quantmath::instruments::RcInstrument;
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::marketdata::RcMarketData;
use quantmath::risk::RcReportGenerator;
use serde_json::Value;
use std::ffi::{CStr, CString};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K { Empty, Ins, Ccy, Mkt, Fix, Pf, Gen, Rep, Err }

#[derive(Clone)]
pub enum Obj { Ins(RcInstrument), Ccy(RcCurrency), Mkt(RcMarketData), Fix(RcFixingTable), Pf(RcPricerFactory), Gen(RcReportGenerator), Rep(Value), Bad }

impl Obj {
    pub fn kind(&self) -> K { match self { Obj::Ins(_) => K::Ins, Obj::Ccy(_) => K::Ccy, Obj::Mkt(_) => K::Mkt, Obj::Fix(_) => K::Fix, Obj::Pf(_) => K::Pf, Obj::Gen(_) => K::Gen, Obj::Rep(_) => K::Rep, Obj::Bad => K::Err } }
}

/// a document, what it is read as, and the documents whose handles it refers to by name
pub struct CDoc { pub kind: K, pub text: CString, pub obj: Obj, pub needs: Vec<usize> }

pub struct World { pub docs: Vec<CDoc>, pub dir: Option<String> }

impl World {
    pub fn add(&mut self, kind: K, text: &str, needs: Vec<usize>) {
        let b = &mut text.as_bytes();
        let mut ccys = Vec::new();
        let mut ins = Vec::new();
        for n in needs.iter() { match &self.docs[*n].obj { Obj::Ccy(c) => ccys.push(c.clone()), Obj::Ins(i) => ins.push(i.clone()), _ => panic!("needs") } }
        let obj = match kind {
            K::Ins => facade::instrument_from_json(b, DedupControl::WriteOnce, &ccys, DedupControl::WriteOnce, &ins).map(Obj::Ins),
            K::Ccy => facade::currency_from_json(b).map(Obj::Ccy),
            K::Mkt => facade::market_data_from_json(b).map(Obj::Mkt),
            K::Fix => facade::fixing_table_from_json(b).map(Obj::Fix),
            K::Pf => facade::pricer_factory_from_json(b).map(Obj::Pf),
            K::Gen => facade::report_generator_from_json(b).map(Obj::Gen),
            K::Rep => facade::reports_from_json(b).map(|_| Obj::Rep(serde_json::from_str(text).unwrap())),
            _ => panic!("kind")
        }.unwrap_or(Obj::Bad);
        let i = self.docs.len();
        if let Some(d) = &self.dir { std::fs::write(format!("{}/{}.json", d, i), text).unwrap() }
        self.docs.push(CDoc { kind, text: CString::new(text).unwrap(), obj, needs })
    }
    fn file(&self, i: usize) -> Option<CString> { self.dir.as_ref().map(|d| CString::new(format!("{}/{}.json", d, i)).unwrap()) }
}

struct H { h: u64, k: K, src: usize, msg: String, rep: Value }

pub const STATS: [&str; 16] = ["handles created", "handles created from files", "error handles created", "handles cloned", "reports refused to clone", "calculations", "failed calculations",
    "comparisons consumed two handles", "errors propagated", "wrong kinds refused", "strings freed", "handles freed", "uses after the original was freed", "instruments with members given as handles", "report texts equal", "equal reports"];

pub fn message(h: u64) -> Result<String, String> {
    let p = qm_error_string(h);
    if p.is_null() { return Err("no error string".into()) }
    let s = unsafe { CStr::from_ptr(p) }.to_str().map(|s| s.to_string()).map_err(|_| "error string is not UTF-8".to_string());
    qm_free_string(p);
    let s = s?;
    if s.is_empty() { return Err("empty error string".into()) }
    Ok(s)
}

pub fn report_text(h: u64) -> Result<String, String> {
    let p = qm_reports_as_json_string(h);
    if p.is_null() { return Err("no report string".into()) }
    let s = unsafe { CStr::from_ptr(p) }.to_str().map(|s| s.to_string()).map_err(|_| "report string is not UTF-8".to_string());
    qm_free_string(p);
    s
}

pub fn ctl(k: usize) -> QmDedupControl { match k { 0 => QmDedupControl::QmErrorIfMissing, 1 => QmDedupControl::QmInline, _ => QmDedupControl::QmWriteOnce } }

/// an instrument, with the two ways of resolving names given apart
pub fn create_ins(t: *const libc::c_char, file: bool, modes: (usize, usize), ccys: &[u64], ins: &[u64]) -> u64 {
    if file { qm_instrument_from_json_file(t, ctl(modes.0), ccys.len() as u32, ccys.as_ptr(), ctl(modes.1), ins.len() as u32, ins.as_ptr()) }
    else { qm_instrument_from_json_string(t, ctl(modes.0), ccys.len() as u32, ccys.as_ptr(), ctl(modes.1), ins.len() as u32, ins.as_ptr()) }
}

pub fn create(kind: K, t: *const libc::c_char, file: bool, mode: usize, ccys: &[u64], ins: &[u64]) -> u64 {
    match (kind, file) {
        (K::Ins, file) => create_ins(t, file, (mode, mode), ccys, ins),
        (K::Ccy, false) => qm_currency_from_json_string(t), (K::Ccy, true) => qm_currency_from_json_file(t),
        (K::Mkt, false) => qm_market_data_from_json_string(t), (K::Mkt, true) => qm_market_data_from_json_file(t),
        (K::Fix, false) => qm_fixing_table_from_json_string(t), (K::Fix, true) => qm_fixing_table_from_json_file(t),
        (K::Pf, false) => qm_pricer_factory_from_json_string(t), (K::Pf, true) => qm_pricer_factory_from_json_file(t),
        (K::Gen, false) => qm_report_generator_from_json_string(t), (K::Gen, true) => qm_report_generator_from_json_file(t),
        (K::Rep, false) => qm_reports_from_json_string(t), (K::Rep, true) => qm_reports_from_json_file(t),
        _ => panic!("kind")
    }
}

/// Reports up to the last bits: the parser of the text is not exact
pub fn near(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => { let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap()); x == y || (x - y).abs() <= 1e-9 * (1.0 + x.abs() + y.abs()) }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| near(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map(|w| near(v, w)).unwrap_or(false)),
        _ => a == b
    }
}

/// Make a handle for a document; Err if it is not what the model says
fn make(w: &World, i: usize, file: bool, live: &[H], n: &mut [u64; 16], r: &mut Rng) -> Result<H, String> {
    let d = &w.docs[i];
    let (mut ccys, mut ins) = (Vec::new(), Vec::new());
    let mut missing = false;
    let mut first: Option<(K, String)> = None;
    for s in d.needs.iter() {
        let k = w.docs[*s].kind;
        match live.iter().find(|h| h.src == *s && h.k == k) { Some(h) => if k == K::Ccy { ccys.push(h.h) } else { ins.push(h.h) }, None => missing = true }
    }
    // now and then something that does not belong there
    if d.kind == K::Ins && r.chance(0.1) && !live.is_empty() {
        let h = &live[r.below(live.len())];
        if r.chance(0.5) { if h.k != K::Ccy { first = Some((h.k, h.msg.clone())) } ccys.push(h.h) } else { if h.k != K::Ins { first = Some((h.k, h.msg.clone())) } ins.push(h.h) }
    }
    let name = if file { w.file(i) } else { None };
    let mode = if d.needs.is_empty() { r.below(3) } else { 2 };
    let h = match &name { Some(f) => { n[1] += 1; create(d.kind, f.as_ptr(), true, mode, &ccys, &ins) } None => { n[0] += 1; create(d.kind, d.text.as_ptr(), false, mode, &ccys, &ins) } };
    let e = qm_is_error(h);
    let bad = matches!(d.obj, Obj::Bad) || missing || first.is_some();
    if e != bad { let m = message(h)?; qm_free_handle(h); return Err(format!("document {} read {} an error: {}", i, if e { "as" } else { "without" }, m)) }
    if !d.needs.is_empty() && !e { n[13] += 1 }
    let mut x = H { h, k: d.kind, src: i, msg: String::new(), rep: Value::Null };
    if e {
        n[2] += 1;
        x.k = K::Err;
        x.msg = message(h)?;
        n[10] += 1;
        if let Some((K::Err, m)) = first { n[8] += 1; if x.msg != m { return Err(format!("error {:?} passed on as {:?}", m, x.msg)) } } else if first.is_some() { n[9] += 1 }
    } else if let Obj::Rep(v) = &d.obj { x.rep = v.clone() }
    Ok(x)
}

/// A document to read, often of a kind that a calculation still lacks
fn wanted(w: &World, r: &mut Rng, live: &[H]) -> usize {
    let lacks = [K::Pf, K::Ins, K::Fix, K::Mkt, K::Gen].iter().find(|k| !live.iter().any(|h| h.k == **k));
    if let (Some(k), true) = (lacks, r.chance(0.7)) {
        let v: Vec<usize> = (0..w.docs.len()).filter(|i| w.docs[*i].kind == *k && w.docs[*i].obj.kind() == *k && w.docs[*i].needs.is_empty()).collect();
        return v[r.below(v.len())]
    }
    r.below(w.docs.len())
}

/// Run a sequence; on success everything made has been freed.
pub fn run(w: &World, r: &mut Rng, steps: usize, n: &mut [u64; 16]) -> Result<(), String> {
    let mut live: Vec<H> = Vec::new();
    let mut last = "";
    for step in 0..steps {
        if live.len() > 14 {
            let spent: Vec<usize> = (0..live.len()).filter(|i| live[*i].k == K::Err || live[*i].k == K::Empty).collect();
            let i = if !spent.is_empty() && r.chance(0.7) { spent[r.below(spent.len())] } else { r.below(live.len()) };
            let h = live.remove(i); qm_free_handle(h.h); n[11] += 1 }
        // mostly things that can be used together
        let op = if live.len() < 4 { 0 } else { r.below(12) };
        match op {
            0 | 1 | 2 => { last = "create"; let i = wanted(w, r, &live); let f = r.chance(0.2); let h = make(w, i, f, &live, n, r).map_err(|e| format!("step {}: {}", step, e))?; live.push(h) }
            3 => {
                last = "clone";
                let i = r.below(live.len());
                let c = qm_clone(live[i].h);
                let o = &live[i];
                let mut x = H { h: c, k: o.k, src: o.src, msg: o.msg.clone(), rep: Value::Null };
                if o.k == K::Rep {
                    n[4] += 1;
                    if !qm_is_error(c) { return Err(format!("step {}: a clone of reports is not an error", step)) }
                    x.k = K::Err;
                    x.msg = message(c)?;
                } else { n[3] += 1; if qm_is_error(c) != (o.k == K::Err) { return Err(format!("step {}: clone of {:?} is an error: {}", step, o.k, qm_is_error(c))) } }
                // either of the two may go first
                if r.chance(0.4) { n[12] += 1; if r.chance(0.5) && o.k != K::Rep { qm_free_handle(live[i].h); live[i] = x } else { qm_free_handle(x.h) } n[11] += 1 } else { live.push(x) }
            }
            4 | 5 => {
                last = "calculate";
                // usually one of each kind
                let arg = |k: K, r: &mut Rng| -> usize { let v: Vec<usize> = (0..live.len()).filter(|i| live[*i].k == k).collect(); if v.is_empty() || r.chance(0.05) { r.below(live.len()) } else { v[r.below(v.len())] } };
                let (p, s, f, m) = (arg(K::Pf, r), arg(K::Ins, r), arg(K::Fix, r), arg(K::Mkt, r));
                let g: Vec<usize> = (0..r.size(4, 12)).map(|_| arg(K::Gen, r)).collect();
                let gs: Vec<u64> = g.iter().map(|i| live[*i].h).collect();
                let h = qm_calculate(live[p].h, live[s].h, live[f].h, live[m].h, gs.len() as u32, gs.as_ptr());
                let wanted: Vec<(usize, K)> = [(p, K::Pf), (s, K::Ins), (f, K::Fix), (m, K::Mkt)].iter().cloned().chain(g.iter().map(|i| (*i, K::Gen))).collect();
                let wrong = wanted.iter().find(|x| live[x.0].k != x.1);
                let x = match wrong {
                    Some(x) => {
                        if !qm_is_error(h) { return Err(format!("step {}: calculated with {:?} for {:?}", step, live[x.0].k, x.1)) }
                        let t = message(h)?;
                        if live[x.0].k == K::Err { n[8] += 1; if t != live[x.0].msg { return Err(format!("step {}: error {:?} passed on as {:?}", step, live[x.0].msg, t)) } } else { n[9] += 1 }
                        H { h, k: K::Err, src: usize::MAX, msg: t, rep: Value::Null }
                    }
                    None => {
                        let o = |i: usize| &w.docs[live[i].src].obj;
                        let want = match (o(p), o(s), o(f), o(m)) {
                            (Obj::Pf(a), Obj::Ins(b), Obj::Fix(c), Obj::Mkt(d)) => {
                                let gens: Vec<RcReportGenerator> = g.iter().map(|i| match o(*i) { Obj::Gen(g) => g.clone(), _ => panic!("kind") }).collect();
                                facade::calculate(a.clone(), b.clone(), c.clone(), d.clone(), &gens)
                            }
                            _ => panic!("kind")
                        };
                        match want {
                            Ok(v) => {
                                n[5] += 1;
                                let want = serde_json::to_value(&v).map_err(|e| e.to_string())?;
                                if qm_is_error(h) { return Err(format!("step {}: calculation failed: {}", step, message(h)?)) }
                                H { h, k: K::Rep, src: usize::MAX, msg: String::new(), rep: want }
                            }
                            Err(_) => {
                                n[6] += 1;
                                if !qm_is_error(h) { return Err(format!("step {}: calculation should have failed", step)) }
                                H { h, k: K::Err, src: usize::MAX, msg: message(h)?, rep: Value::Null }
                            }
                        }
                    }
                };
                live.push(x);
            }
            6 => {
                last = "compare";
                let reps: Vec<usize> = (0..live.len()).filter(|i| live[*i].k == K::Rep).collect();
                let mut a = if reps.len() > 0 && r.chance(0.8) { reps[r.below(reps.len())] } else { r.below(live.len()) };
                let mut b = if reps.len() > 1 && r.chance(0.8) { reps[r.below(reps.len())] } else { r.below(live.len()) };
                if a == b { continue }
                let h = qm_assert_approx_eq_reports(live[a].h, live[b].h, 1e-6, 1e-6, 1e-6);
                n[7] += 1;
                let ok = live[a].k == K::Rep && live[b].k == K::Rep && near(&live[a].rep, &live[b].rep);
                if ok && qm_is_error(h) { return Err(format!("step {}: equal reports differ: {}", step, message(h)?)) }
                if ok { n[15] += 1 }
                let far = live[a].k != K::Rep || live[b].k != K::Rep || live[a].rep.as_array().map(|v| v.len()) != live[b].rep.as_array().map(|v| v.len());
                if far && !qm_is_error(h) { return Err(format!("step {}: {:?} and {:?} found equal", step, live[a].k, live[b].k)) }
                let k = if qm_is_error(h) { K::Err } else { K::Empty };
                let msg = if k == K::Err { message(h)? } else { String::new() };
                if a < b { std::mem::swap(&mut a, &mut b) }
                live.remove(a);
                live.remove(b);
                live.push(H { h, k, src: usize::MAX, msg, rep: Value::Null });
            }
            7 => {
                last = "report text";
                let i = r.below(live.len());
                let t = report_text(live[i].h).map_err(|e| format!("step {}: {}", step, e))?;
                n[10] += 1;
                match live[i].k {
                    K::Rep => {
                        let v: Value = serde_json::from_str(&t).map_err(|e| format!("step {}: {} in {}", step, e, t))?;
                        if !near(&v, &live[i].rep) { return Err(format!("step {}: reports {} should be {}", step, v, live[i].rep)) }
                        n[14] += 1
                    }
                    K::Err => if t != live[i].msg { return Err(format!("step {}: {:?} should be {:?}", step, t, live[i].msg)) },
                    _ => if t.is_empty() { return Err(format!("step {}: no message", step)) }
                }
            }
            8 => {
                last = "error text";
                let i = r.below(live.len());
                let t = message(live[i].h).map_err(|e| format!("step {}: {}", step, e))?;
                n[10] += 1;
                if live[i].k == K::Err && t != live[i].msg { return Err(format!("step {}: {:?} should be {:?}", step, t, live[i].msg)) }
            }
            9 => { for h in live.iter() { if qm_is_error(h.h) != (h.k == K::Err) { return Err(format!("step {}: {:?} is an error: {}", step, h.k, qm_is_error(h.h))) } } }
            _ => { last = "free"; let h = live.remove(r.below(live.len())); qm_free_handle(h.h); n[11] += 1 }
        }
    }
    let _ = last;
    r.shuffle(&mut live);
    for h in live { qm_free_handle(h.h); n[11] += 1 }
    Ok(())
}

/// A few small documents
pub fn small(dir: Option<String>) -> World {
    let mut w = World { docs: Vec::new(), dir };
    let ccy = "{\"id\":\"GBP\",\"settlement\":{\"NullRule\":{}}}";
    let eq = |id: &str, c: &str| format!("{{\"Equity\":{{\"id\":\"{}\",\"credit_id\":\"LSE\",\"currency\":{},\"settlement\":{{\"NullRule\":{{}}}}}}}}", id, c);
    let opt = |u: &str, k: f64| format!("{{\"SpotStartingEuropean\":{{\"id\":\"O\",\"credit_id\":\"LSE\",\"underlying\":{},\"settlement\":{{\"NullRule\":{{}}}},\"expiry\":{{\"date\":\"2018-12-01\",\"time_of_day\":\"Close\"}},\"put_or_call\":\"Call\",\"cash_or_physical\":\"Cash\",\"expiry_time\":{{\"date\":\"2018-12-01\",\"day_fraction\":0.8}},\"pay_date\":\"2018-12-01\",\"strike\":{:?}}}}}", u, k);
    w.add(K::Ccy, ccy, vec![]);
    w.add(K::Ins, &eq("A", ccy), vec![]);
    w.add(K::Ins, &eq("B", "\"GBP\""), vec![0]);
    w.add(K::Ins, &opt("\"A\"", 90.0), vec![1]);
    w.add(K::Ins, &format!("{{\"Basket\":{{\"id\":\"BK\",\"credit_id\":\"LSE\",\"currency\":\"GBP\",\"settlement\":{{\"NullRule\":{{}}}},\"basket\":[[1.5,\"A\"],[-2.0,\"B\"]]}}}}"), vec![0, 1, 2]);
    let curve = "{\"RateCurveAct365\":{\"base\":\"2018-06-01\",\"interp\":{\"left\":\"Flat\",\"right\":\"Flat\",\"points\":[[\"2018-06-01\",0.02],[\"2020-06-01\",0.03]]}}}";
    let divs = "{\"dividends\":[],\"div_yield\":{\"ZeroRateCurve\":{\"base\":\"2018-06-01\"}},\"last_cash_ex_date\":\"1968-05-23\"}";
    let vol = "{\"FlatVolSurface\":{\"vol\":0.3,\"calendar\":{\"WeekdayCalendar\":[]},\"base_date\":{\"date\":\"2018-06-01\",\"day_fraction\":0.0}}}";
    let mkt = |s: f64, b: bool| if b { format!("{{\"spot_date\":\"2018-06-01\",\"spots\":{{\"A\":{:?},\"B\":50.0}},\"yield_curves\":{{\"LSE\":{}}},\"borrow_curves\":{{\"A\":{},\"B\":{}}},\"dividends\":{{\"A\":{},\"B\":{}}},\"vol_surfaces\":{{\"A\":{},\"B\":{}}}}}", s, curve, curve, curve, divs, divs, vol, vol) }
        else { "{\"spot_date\":\"2018-06-01\",\"spots\":{},\"yield_curves\":{},\"borrow_curves\":{},\"dividends\":{},\"vol_surfaces\":{}}".to_string() };
    w.add(K::Mkt, &mkt(100.0, true), vec![]);
    w.add(K::Mkt, &mkt(0.0, false), vec![]);
    w.add(K::Fix, "{\"fixings_known_until\":\"2018-06-01\",\"fixings_by_id\":{\"A\":{\"fixing_by_date\":[[{\"date\":\"2018-05-01\",\"time_of_day\":\"Close\"},99.0]]}}}", vec![]);
    w.add(K::Pf, "{\"SelfPricerFactory\":{}}", vec![]);
    w.add(K::Gen, "{\"DeltaGammaReportGenerator\":{\"bumpsize\":0.01}}", vec![]);
    w.add(K::Gen, "{\"TimeBumpedReportGenerator\":{\"bump\":{\"spot_date_bump\":{\"spot_date\":\"2018-06-02\",\"spot_dynamics\":\"StickyForward\"},\"_ex_from\":\"2018-06-02\"},\"subgenerators\":[{\"VegaVolgaReportGenerator\":{\"bump\":{\"FlatAdditive\":{\"size\":0.01}}}}]}}", vec![]);
    w.add(K::Rep, "[{\"DeltaGammaReport\":{\"bumpsize\":0.01,\"results\":{\"A\":{\"delta\":0.5,\"gamma\":0.25}}}}]", vec![]);
    w.add(K::Rep, "[]", vec![]);
    // and some that are refused
    w.add(K::Ins, "{\"Equity\":{\"id\":\"A\"", vec![]);
    w.add(K::Ins, &opt("\"nobody\"", 90.0), vec![]);
    w.add(K::Ins, &opt(&eq("A", ccy), -90.0), vec![]);
    w.add(K::Mkt, "[1, 2]", vec![]);
    w.add(K::Pf, "", vec![]);
    w.add(K::Rep, "[{\"NoSuchReport\":{}}]", vec![]);
    w.add(K::Gen, "{\"DeltaGammaReportGenerator\":{\"bumpsize\":\"big\"}}", vec![]);
    w
}
