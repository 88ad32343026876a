//! A01-A04: the facade, the C interface and threads.

use crate::alloc;
use crate::cseq::{self, create, create_ins, message, report_text, CDoc, World, K};
use crate::fw::{quiet, Case, Ctx, Prop};
use crate::jm::*;
use crate::mkt::*;
use crate::model::*;
use crate::p_instr::data;
use crate::p_json::{gen_doc, gen_gen, gen_tab, rough, spoil, value, GenM};
use crate::p_risk::{all_eq, gen_rep, perturb, RepM};
use crate::rng::{mix, Rng};
use quantmath::core::dedup::{Dedup, DedupControl};
use quantmath::core::factories::Qrc;
use quantmath::core::qm;
use quantmath::data::fixings::RcFixingTable;
use quantmath::facade;
use quantmath::facade::c_interface::*;
use quantmath::instruments::assets::*;
use quantmath::instruments::{Instrument, RcInstrument, DEDUP_INSTRUMENT};
use quantmath::pricers::RcPricerFactory;
use quantmath::risk::marketdata::RcMarketData;
use quantmath::risk::{BoxReport, RcReportGenerator};
use serde_json::{json, Value};
use std::ffi::CString;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Barrier};

/// a directory of our own for files, removed with its contents
pub struct Dir(pub String);
static DIRS: AtomicU64 = AtomicU64::new(0);
impl Dir {
    pub fn new() -> Dir {
        let p = format!("{}/work/files-{}-{}", crate::fw::verif_dir(), std::process::id(), DIRS.fetch_add(1, Ordering::SeqCst));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Dir(p)
    }
    fn put(&self, name: &str, text: &[u8]) -> CString { let p = format!("{}/{}", self.0, name); std::fs::write(&p, text).expect("scratch file"); CString::new(p).unwrap() }
}
impl Drop for Dir {
    fn drop(&mut self) {
        if let Ok(d) = std::fs::read_dir(&self.0) { for f in d.flatten() { let _ = std::fs::remove_file(f.path()); } }
        let _ = std::fs::remove_dir(&self.0);
    }
}

fn cs(s: &str) -> CString { CString::new(s).expect("no NUL") }

/// a handle that is freed when done with
struct Hd(u64);
impl Drop for Hd { fn drop(&mut self) { qm_free_handle(self.0) } }
impl Hd {
    fn new(k: K, text: &str, file: Option<&Dir>) -> Hd {
        match file { Some(d) => { let f = d.put("doc.json", text.as_bytes()); Hd(create(k, f.as_ptr(), true, 1, &[], &[])) } None => { let t = cs(text); Hd(create(k, t.as_ptr(), false, 1, &[], &[])) } }
    }
    fn good(self, c: &mut Case, what: &str) -> Hd {
        if qm_is_error(self.0) { let m = message(self.0).unwrap_or_default(); c.abort(format!("{} refused: {}", what, m)) }
        self
    }
    fn take(self) -> u64 { let h = self.0; std::mem::forget(self); h }
}

#[derive(Clone, Debug)]
struct Deal { m: Mkt, ins: InsM, tab: Tab, gens: Vec<GenM>, js: Value }

fn gen_deal(c: &mut Case) -> (Deal, Vec<EqM>) {
    loop {
        let n = 1 + c.rng.below(3);
        let (m, eqs) = gen_mkt(&mut c.rng, n);
        let js = match m.js() { Some(j) => j, None => continue };
        let depth = c.rng.below(3);
        let mut name = 0;
        let ins = gen_ins(&mut c.rng, &m, &eqs, depth, &mut name);
        let ids: Vec<&str> = eqs.iter().map(|e| &e.id[..]).collect();
        let mut tab = gen_tab(&mut c.rng, &ids, m.base);
        if c.rng.chance(0.7) { tab.until = m.base - 4000 }
        let k = c.rng.size(5, 12);
        let gens = (0..k).map(|_| gen_gen(&mut c.rng, m.base, 1)).collect();
        return (Deal { m, ins, tab, gens, js }, eqs)
    }
}

type Res = Result<Value, String>;

fn js_reports(r: Result<Vec<BoxReport>, qm::Error>) -> Res { r.map_err(|e| e.to_string()).map(|v| serde_json::to_value(&v).unwrap()) }

/// each report from a pricer of its own, without the facade
fn direct(pf: &RcPricerFactory, ins: &RcInstrument, fix: &RcFixingTable, md: &RcMarketData, gens: &[RcReportGenerator]) -> Res {
    let one = |g: Option<&RcReportGenerator>| -> Result<Option<BoxReport>, qm::Error> {
        let mut p = pf.new(ins.clone(), fix.clone(), md.clone())?;
        let u = p.price()?;
        let mut s = p.as_bumpable().new_saveable();
        Ok(match g { Some(g) => Some(g.generate(&mut *p, &mut *s, u)?), None => None })
    };
    one(None).map_err(|e| e.to_string())?;
    let mut v = Vec::new();
    for g in gens { v.push(one(Some(g)).map_err(|e| e.to_string())?.unwrap()) }
    Ok(serde_json::to_value(&v).unwrap())
}

/// equal up to what the order of bumps in hash maps may do to the last bits
fn tight(a: &Value, b: &Value, size: f64) -> Option<String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => { let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap()); if x == y || (x - y).abs() <= 1e-9 * (x.abs() + size) { None } else { Some(format!("{:e} {:e}", x, y)) } }
        (Value::Array(x), Value::Array(y)) => if x.len() == y.len() { x.iter().zip(y.iter()).find_map(|(p, q)| tight(p, q, size)) } else { Some(format!("{} against {} reports", x.len(), y.len())) },
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => x.iter().find_map(|(k, v)| tight(v, &y[k], size)),
        _ => if a == b { None } else { Some(format!("{} {}", a, b)) }
    }
}

fn agree(c: &mut Case, what: &str, want: &Res, got: &Res, size: f64) {
    let d = match (want, got) { (Ok(a), Ok(b)) => tight(a, b, size), (Err(_), Err(_)) => None, (a, b) => Some(format!("{:?} against {:?}", a.is_ok(), b)) };
    c.check(what, d.is_none(), || format!("{} want {:?} got {:?}", d.clone().unwrap(), want, got));
}

fn by_c(c: &mut Case, pf: &Hd, ins: &Hd, fix: &Hd, mkt: &Hd, gens: &[Hd]) -> (Res, Hd) {
    let g: Vec<u64> = gens.iter().map(|g| g.0).collect();
    let h = Hd(qm_calculate(pf.0, ins.0, fix.0, mkt.0, g.len() as u32, if g.is_empty() { std::ptr::null() } else { g.as_ptr() }));
    if qm_is_error(h.0) { let m = message(h.0); let m = c.ok("an error message", m); return (Err(m), h) }
    let t = report_text(h.0);
    let t = c.ok("reports as text", t);
    (Ok(value(c, "reports", &t)), h)
}

fn scale_of(d: &Deal) -> f64 { crate::p_risk::scale(&vec![(1.0, d.ins.clone())], &d.m) }

fn a01(ctx: &mut Ctx) {
    quiet();
    a01_groups(ctx, 1.0)
}

fn a01_groups(ctx: &mut Ctx, f: f64) {
    let n = |x: u64| (x as f64 * f) as u64;
    ctx.group("three ways", n(5000), n(150000), |c| {
        let (d, _) = gen_deal(c);
        c.note(format!("{:?}", d));
        let _ = data(c, &d.m);
        let size = scale_of(&d);
        let (it, ft, mt) = (d.ins.js().to_string(), d.tab.js().to_string(), d.js.to_string());
        let pt = json!({"SelfPricerFactory": {}}).to_string();
        let gts: Vec<String> = d.gens.iter().map(|g| g.js().to_string()).collect();
        // straight from the library
        let pf: RcPricerFactory = serde_json::from_str(&pt).unwrap();
        let ins = serde_json::from_str::<RcInstrument>(&it);
        let ins = c.ok("the instrument", ins);
        let fix = serde_json::from_str::<RcFixingTable>(&ft);
        let fix = c.ok("the fixings", fix);
        let md = serde_json::from_str::<RcMarketData>(&mt);
        let md = c.ok("the market", md);
        let gens: Vec<RcReportGenerator> = gts.iter().map(|g| serde_json::from_str(g).unwrap()).collect();
        let want = direct(&pf, &ins, &fix, &md, &gens);
        match &want { Ok(_) => c.ev("calculations that succeed"), Err(_) => c.ev("calculations that fail") }
        // objects that were not read from text
        let built: Vec<RcReportGenerator> = d.gens.iter().map(|g| g.rc()).collect();
        if let Ok(x) = d.m.try_data() {
            let got = direct(&pf, &d.ins.rc(), &RcFixingTable::new(Arc::new(d.tab.real())), &RcMarketData::new(Arc::new(x)), &built);
            if let (Ok(a), Ok(b)) = (&want, &got) { if let Some(e) = rough(a, b) { if !a.to_string().contains("null") { c.ev("built differs from read"); let _ = e; } } }
        }
        // the facade
        let got = facade::calculate(pf.clone(), ins.clone(), fix.clone(), md.clone(), &gens);
        let got = js_reports(got);
        agree(c, "facade with objects", &want, &got, size);
        let read = || -> Result<Vec<BoxReport>, qm::Error> {
            let g: Result<Vec<RcReportGenerator>, qm::Error> = gts.iter().map(|g| facade::report_generator_from_json(&mut g.as_bytes())).collect();
            facade::calculate(facade::pricer_factory_from_json(&mut pt.as_bytes())?, facade::instrument_from_json(&mut it.as_bytes(), DedupControl::Inline, &[], DedupControl::Inline, &[])?,
                facade::fixing_table_from_json(&mut ft.as_bytes())?, facade::market_data_from_json(&mut mt.as_bytes())?, &g?)
        };
        let reps = read();
        let got = match &reps { Ok(v) => Ok(serde_json::to_value(v).unwrap()), Err(e) => Err(e.to_string()) };
        agree(c, "facade with text", &want, &got, size);
        // the C interface
        let dir = if c.rng.chance(0.15) { Some(Dir::new()) } else { None };
        let hp = Hd::new(K::Pf, &pt, dir.as_ref()).good(c, "pricer");
        let hi = Hd::new(K::Ins, &it, dir.as_ref()).good(c, "instrument");
        let hf = Hd::new(K::Fix, &ft, dir.as_ref()).good(c, "fixings");
        let hm = Hd::new(K::Mkt, &mt, dir.as_ref()).good(c, "market");
        let hg: Vec<Hd> = gts.iter().map(|g| Hd::new(K::Gen, g, dir.as_ref()).good(c, "generator")).collect();
        let (got, h) = by_c(c, &hp, &hi, &hf, &hm, &hg);
        agree(c, if dir.is_some() { "C interface with files" } else { "C interface with strings" }, &want, &got, size);
        let (again, h2) = by_c(c, &hp, &hi, &hf, &hm, &hg);
        agree(c, "the same a second time", &want, &again, size);
        if let (Ok(v), Ok(reps)) = (&want, &reps) {
            let list = v.as_array().unwrap();
            c.check("one report for each generator", list.len() == d.gens.len(), || format!("{}", v));
            for (g, r) in d.gens.iter().zip(list.iter()) {
                let k = r.as_object().unwrap().keys().next().unwrap().clone();
                let w = match g { GenM::Delta(_) => "DeltaGammaReport", GenM::Time(..) => "TimeBumpedReport", _ => "VegaVolgaReport" };
                c.check("reports in the order of the generators", k == w, || format!("{} {:?}", k, g));
                if let GenM::Delta(b) = g { c.check("the report of this generator", r[w]["bumpsize"] == json!(b), || format!("{} {:?}", r, g)) }
            }
            if v.to_string().contains("null") { c.ev("reports with no value"); return }
            // delivered and read back
            for pretty in [false, true] {
                let mut out = Vec::new();
                let w = facade::write_results(reps, pretty, &mut out);
                c.ok("writing results", w);
                let t = String::from_utf8(out).unwrap();
                let e = tight(v, &value(c, "results", &t), size);
                c.check("results written in full", e.is_none(), || e.clone().unwrap());
                let b = facade::reports_from_json(&mut t.as_bytes());
                let b = c.ok("reading results", b);
                let e = tight(v, &serde_json::to_value(&b).unwrap(), size);
                c.check("results read back", e.is_none(), || e.clone().unwrap());
            }
            // comparing through the C interface uses up both
            let tol = 1e-9 * (1.0 + size);
            let k = Hd::new(K::Rep, &v.to_string(), None).good(c, "reports");
            let e = Hd(qm_assert_approx_eq_reports(h.take(), k.take(), tol, tol, tol));
            c.check("equal to itself", !qm_is_error(e.0), || message(e.0).unwrap_or_default());
            let mut more = list.clone();
            if more.is_empty() || c.rng.chance(0.5) { more.push(json!({"DeltaGammaReport": {"bumpsize": 0.01, "results": {}}})) } else { more.pop(); }
            let k = Hd::new(K::Rep, &Value::Array(more).to_string(), None).good(c, "reports");
            let e = Hd(qm_assert_approx_eq_reports(h2.take(), k.take(), 1e9, 1e9, 1e9));
            c.check("a report more or less is a difference", qm_is_error(e.0), || "".into());
        }
        c.sig(&format!("{} {:?}", it, gts));
        c.sample(format!("{} with {:?}", it, gts));
    });
    ctx.group("members as handles", n(3000), n(100000), |c| {
        // a basket whose members and currency are given as handles
        let (d, eqs) = gen_deal(c);
        let _ = data(c, &d.m);
        let mut parts: Vec<(f64, InsM)> = Vec::new();
        for e in eqs.iter() { parts.push((gen_w(&mut c.rng), InsM::Eq(e.clone()))) }
        if c.rng.chance(0.5) { let u = parts[0].1.clone(); parts.push((1.0, InsM::Opt(gen_option(&mut c.rng, &d.m, &u, "OO")))) }
        let b = InsM::Bask { id: "BK".into(), credit: eqs[0].credit.clone(), rule: RuleM::Null, parts: parts.clone() };
        struct Names;
        impl Refs for Names { fn ccy(&mut self, id: &str, _: &RuleM) -> Value { json!(id) } fn ins(&mut self, i: &InsM) -> Value { json!(i.id()) } }
        let text = b.js_with(&mut Names).to_string();
        c.note(format!("{} {:?}", text, d.m));
        let gens = vec![GenM::Time(d.m.base, d.m.base, quantmath::data::bumpspotdate::SpotDynamics::StickySpot, vec![GenM::Delta(0.01)])];
        let mt = d.js.to_string();
        let hm = Hd::new(K::Mkt, &mt, None).good(c, "market");
        let hf = Hd::new(K::Fix, &Tab { until: d.m.base - 4000, v: vec![] }.js().to_string(), None).good(c, "fixings");
        let hp = Hd::new(K::Pf, "{\"SelfPricerFactory\":{}}", None).good(c, "pricer");
        let hg: Vec<Hd> = gens.iter().map(|g| Hd::new(K::Gen, &g.js().to_string(), None).good(c, "generator")).collect();
        let hi = Hd::new(K::Ins, &b.js().to_string(), None).good(c, "basket in full");
        let (want, _h) = by_c(c, &hp, &hi, &hf, &hm, &hg);
        let size = crate::p_risk::scale(&vec![(1.0, b.clone())], &d.m);
        let ccy = Hd::new(K::Ccy, &jccy("GBP", &RuleM::Null).to_string(), None).good(c, "currency");
        let ms: Vec<Hd> = parts.iter().map(|p| Hd::new(K::Ins, &p.1.js().to_string(), None).good(c, "member")).collect();
        let mut ids: Vec<u64> = ms.iter().map(|m| m.0).collect();
        c.rng.shuffle(&mut ids);
        for mode in 0..3 {
            let t = cs(&text);
            let h = Hd(create(K::Ins, t.as_ptr(), false, mode, &[ccy.0], &ids)).good(c, "basket by names");
            let (got, _h) = by_c(c, &hp, &h, &hf, &hm, &hg);
            agree(c, "members by name give the same", &want, &got, size);
            // one too few
            let k = c.rng.below(ids.len());
            let mut less = ids.clone();
            let gone = less.remove(k);
            let h = Hd(create(K::Ins, t.as_ptr(), false, mode, &[ccy.0], &less));
            c.check("a missing member is an error", qm_is_error(h.0), || format!("{}", gone));
            let h = Hd(create(K::Ins, t.as_ptr(), false, mode, &[], &ids));
            c.check("a missing currency is an error", qm_is_error(h.0), || "".into());
            // defined at its first appearance, then by name
            let twice = json!({"Basket": {"basket": [[1.0, parts[0].1.js()], [2.0, parts[0].1.id()]], "id": "TW", "credit_id": "LSE", "currency": jccy("GBP", &RuleM::Null), "settlement": RuleM::Null.js()}}).to_string();
            let t = cs(&twice);
            let h = Hd(create(K::Ins, t.as_ptr(), false, mode, &[], &[]));
            c.check("names of things in the same document only when asked", qm_is_error(h.0) == (mode != 2), || format!("{}", mode));
            let d = match mode { 0 => DedupControl::ErrorIfMissing, 1 => DedupControl::Inline, _ => DedupControl::WriteOnce };
            let r = facade::instrument_from_json(&mut twice.as_bytes(), DedupControl::Inline, &[], d, &[]);
            c.check("facade resolves names likewise", r.is_ok() == (mode == 2), || format!("{}", mode));
        }
        // currencies and instruments are resolved each in its own way, from strings and from files
        let (by_ccy, by_ins) = (c.rng.chance(0.5), c.rng.chance(0.5));
        let own = json!({"Basket": {"basket": [[1.0, parts[0].1.js()], [2.0, if by_ins { json!(parts[0].1.id()) } else { parts[0].1.js() }]], "id": "TW", "credit_id": "LSE",
            "currency": if by_ccy { json!("GBP") } else { jccy("GBP", &RuleM::Null) }, "settlement": RuleM::Null.js()}}).to_string();
        let dir = if c.idx % 4 == 0 { Some(Dir::new()) } else { None };
        // others that nobody asks for may be among those supplied
        let more = if c.rng.chance(0.3) { c.rng.below(40) } else { 0 };
        let mut spare = Vec::new();
        let (mut ccys, mut ids) = (vec![ccy.0], ids);
        for i in 0..more {
            let t = cs(&jccy(&format!("C{}", i), &RuleM::Null).to_string());
            let h = Hd(create(K::Ccy, t.as_ptr(), false, 1, &[], &[])).good(c, "another currency");
            ccys.push(h.0); spare.push(h);
            let z = gen_zero(&mut c.rng, &d.m, &format!("SPARE{}", i));
            let t = cs(&z.js().to_string());
            let h = Hd(create(K::Ins, t.as_ptr(), false, 1, &[], &[])).good(c, "another instrument");
            ids.push(h.0); spare.push(h);
        }
        if more > 20 { c.ev("dozens supplied") }
        c.rng.shuffle(&mut ids);
        c.rng.shuffle(&mut ccys);
        for modes in (0..9).map(|k| (k / 3, k % 3)) {
            let t = match &dir { Some(d) => d.put("own.json", own.as_bytes()), None => cs(&own) };
            let h = Hd(create_ins(t.as_ptr(), dir.is_some(), modes, &[], &[]));
            let good = (!by_ccy || modes.0 == 2) && (!by_ins || modes.1 == 2);
            c.check(if dir.is_some() { "names resolved apart, files" } else { "names resolved apart, strings" }, qm_is_error(h.0) != good, || format!("{:?} currency {} instrument {}", modes, by_ccy, by_ins));
            if modes.0 == modes.1 { continue }
            let t = match &dir { Some(d) => d.put("names.json", text.as_bytes()), None => cs(&text) };
            let h = Hd(create_ins(t.as_ptr(), dir.is_some(), modes, &ccys, &ids)).good(c, "basket by names");
            if modes.0 == 0 { let (got, _h) = by_c(c, &hp, &h, &hf, &hm, &hg); agree(c, "members by name give the same", &want, &got, size) }
        }
        c.sig(&text);
    });
    ctx.group("Monte-Carlo", n(400), n(10000), |c| {
        // with next to no volatility the simulated price is known
        let (mut d, eqs) = gen_deal(c);
        let e = &eqs[0];
        let und = InsM::Eq(e.clone());
        let spot = d.m.spots[&e.id];
        let v = VolM::Flat(1e-7, crate::p_dates::Cal::Week, (d.m.base, 0.0));
        d.m.vols.insert(e.id.clone(), v);
        d.m.divs.insert(e.id.clone(), DivsM { divs: vec![], dy: CurveM::Zero(d.m.base) });
        let mut o = gen_option(&mut c.rng, &d.m, &und, "MC");
        o.expiry = (d.m.base + 30 + c.rng.int(0, 300), quantmath::dates::datetime::TimeOfDay::Close);
        o.strike = StrikeM::Fixed(spot * c.rng.f(0.3, 0.8));
        o.call = true;
        o.phys = false;
        // where the two disagree about discounting is not the point here
        o.credit = e.credit.clone();
        let js = match d.m.js() { Some(j) => j, None => return };
        let pay = o.pay();
        if pay < o.expiry.0 { return }
        c.note(format!("{:?} {}", o, js));
        let ins = InsM::Opt(o);
        let hm = Hd::new(K::Mkt, &js.to_string(), None).good(c, "market");
        let hf = Hd::new(K::Fix, &Tab { until: d.m.base - 4000, v: vec![] }.js().to_string(), None).good(c, "fixings");
        let hs = Hd::new(K::Pf, "{\"SelfPricerFactory\":{}}", None).good(c, "pricer");
        let hp = Hd::new(K::Pf, &json!({"MonteCarloPricerFactory": {"model_factory": {"BlackDiffusionFactory": {"correlation_substep": 20, "path_substep": 0.05, "number_of_paths": 50}}}}).to_string(), None).good(c, "pricer");
        let g = GenM::Time(d.m.base, d.m.base, quantmath::data::bumpspotdate::SpotDynamics::StickySpot, vec![GenM::Delta(0.01)]);
        let hg = vec![Hd::new(K::Gen, &g.js().to_string(), None).good(c, "generator")];
        let hi = Hd::new(K::Ins, &ins.js().to_string(), None).good(c, "option");
        let (a, _x) = by_c(c, &hs, &hi, &hf, &hm, &hg);
        let (b, _y) = by_c(c, &hp, &hi, &hf, &hm, &hg);
        match (&a, &b) {
            (Ok(x), Ok(y)) => { let f = |v: &Value| v[0]["TimeBumpedReport"]["price"].as_f64();
                let (p, q) = (f(x), f(y));
                let ok = match (p, q) { (Some(p), Some(q)) => (p - q).abs() <= 1e-4 * spot, (None, None) => true, _ => false };
                c.check("simulated price through the interface", ok, || format!("{:?} {:?}", p, q)) }
            _ => c.ev("simulation refused")
        }
        c.sig(&ins.js().to_string());
    });
    ctx.group("long reports", n(300), n(10000), |c| {
        // more text than any buffer of a fixed size would hold
        let k = 200 + c.rng.below(1200);
        let mut a: Vec<RepM> = (0..k).map(|_| gen_rep(&mut c.rng, 0.01, 2)).collect();
        a.push(RepM::Delta(0.01, (0..c.rng.below(600)).map(|i| (format!("{}-{}", "long name ".repeat(1 + i % 9), i), (0.5, 0.25))).collect()));
        let js = format!("[{}]", a.iter().map(|x| x.json()).collect::<Vec<_>>().join(","));
        c.note(format!("{} reports, {} bytes", a.len(), js.len()));
        let dir = if c.rng.chance(0.3) { Some(Dir::new()) } else { None };
        let h = Hd::new(K::Rep, &js, dir.as_ref()).good(c, "long reports");
        let t = report_text(h.0);
        let t = c.ok("reports as text", t);
        let got = serde_json::from_str::<Value>(&t);
        let got = c.ok("complete text", got);
        let want = value(c, "reports", &js);
        c.check("long reports delivered in full", cseq::near(&want, &got), || format!("{} bytes given, {} delivered", js.len(), t.len()));
        if t.len() > 1 << 16 { c.ev("reports over 64 KiB") }
        let mut out = Vec::new();
        let reps = facade::reports_from_json(&mut js.as_bytes());
        let reps = c.ok("reading results", reps);
        let pretty = c.rng.chance(0.5);
        let w = facade::write_results(&reps, pretty, &mut out);
        c.ok("writing results", w);
        let got = serde_json::from_slice::<Value>(&out);
        let got = c.ok("complete text", got);
        c.check("long reports written in full", cseq::near(&want, &got), || format!("{} bytes given, {} written", js.len(), out.len()));
        c.sig(&format!("{} {}", a.len(), js.len()));
        c.sample(format!("{} reports, {} bytes", a.len(), js.len()));
    });
    ctx.group("tolerances", n(20000), n(600000), |c| {
        let t = (*c.rng.pick(&[1e-3, 0.1, 5.0]), *c.rng.pick(&[1e-3, 0.1, 5.0]), *c.rng.pick(&[1e-5, 1e-3, 0.1]));
        let k = 1 + c.rng.below(3);
        let a: Vec<RepM> = (0..k).map(|_| gen_rep(&mut c.rng, 0.01, 2)).collect();
        let mut b = a.clone();
        let size = *c.rng.pick(&[0.2, 0.8, 1.3, 4.0]);
        perturb(&mut c.rng, &mut b, size, t);
        let js = |v: &[RepM]| format!("[{}]", v.iter().map(|x| x.json()).collect::<Vec<_>>().join(","));
        c.note(format!("{} {} {:?}", js(&a), js(&b), t));
        let want = match all_eq(&a, &b, t) { Some(w) => w, None => return };
        let (x, y) = (Hd::new(K::Rep, &js(&a), None).good(c, "reports"), Hd::new(K::Rep, &js(&b), None).good(c, "reports"));
        let e = Hd(qm_assert_approx_eq_reports(x.take(), y.take(), t.0, t.1, t.2));
        c.check("compared within the tolerances", qm_is_error(e.0) != want, || format!("{} {:?}", want, message(e.0)));
        if want { c.ev("reports within tolerance") } else { c.ev("reports beyond tolerance") }
        c.sig(&js(&b));
    });
}

// ------------------------------------------------------------------ A02

fn world(c: &mut Case, dir: Option<String>) -> World {
    let mut w = cseq::small(dir);
    let (d, _) = gen_deal(c);
    w.add(K::Mkt, &d.js.to_string(), vec![]);
    w.add(K::Ins, &d.ins.js().to_string(), vec![]);
    w.add(K::Ins, &d.ins.js().to_string(), vec![]);
    w.add(K::Fix, &d.tab.js().to_string(), vec![]);
    for g in d.gens.iter() { w.add(K::Gen, &g.js().to_string(), vec![]) }
    w.add(K::Pf, "{\"SelfPricerFactory\":{}}", vec![]);
    for _ in 0..4 {
        let x = gen_doc(&mut c.rng);
        let k = match kind_of(x.kind) { Some(k) => k, None => continue };
        let mut v = x.js.clone();
        if spoil(&mut c.rng, x.kind, &mut v).is_some() { w.add(k, &v.to_string(), vec![]) }
    }
    w
}

fn sequence(c: &mut Case, w: &World, steps: usize) {
    let seed = c.rng.u64();
    let mut grown = Vec::new();
    // what is allocated once and kept is there after the first time
    for pass in 0..3 {
        let mut n = [0u64; 16];
        let mut r = Rng::new(seed);
        let before = alloc::live();
        let e = cseq::run(w, &mut r, steps, &mut n);
        let failed = e.is_err();
        if let Err(m) = e { c.fail(m) }
        let _ = crate::fw::take_panic();
        let after = alloc::live();
        if failed { return }
        if pass > 0 { grown.push((after.0 - before.0, after.1 - before.1)) }
        if pass == 0 { for (i, s) in cseq::STATS.iter().enumerate() { if n[i] > 0 { c.evn(s, n[i]) } } }
    }
    let leak = grown.iter().all(|g| g.0 > 0 || g.1 > 0);
    let lost = grown.iter().all(|g| g.0 < 0 || g.1 < 0);
    c.check("nothing left allocated", !leak && !lost, || format!("blocks and bytes after each of two runs of {} calls: {:?} seed {}", steps, grown, seed));
    c.evn("calls", steps as u64);
    c.sample(format!("{} calls from seed {}, left behind {:?}", steps, seed, grown));
}

fn a02(ctx: &mut Ctx) {
    quiet();
    ctx.group("small documents", 8000, 300000, |c| {
        let dir = if c.rng.chance(0.1) { Some(Dir::new()) } else { None };
        let w = cseq::small(dir.as_ref().map(|d| d.0.clone()));
        let steps = 10 + c.rng.below(120);
        c.note(format!("{} calls", steps));
        sequence(c, &w, steps);
        let s = c.rng.u64(); c.sig_u(s);
    });
    ctx.group("generated documents", 2500, 100000, |c| {
        let dir = if c.rng.chance(0.1) { Some(Dir::new()) } else { None };
        let w = world(c, dir.as_ref().map(|d| d.0.clone()));
        let steps = 10 + c.rng.below(150);
        c.note(format!("{} calls; {}", steps, w.docs.iter().map(|d| d.text.to_str().unwrap().to_string()).collect::<Vec<_>>().join(" ")));
        sequence(c, &w, steps);
        let s = c.rng.u64(); c.sig_u(s);
    });
    // single calls, so that a leak is found where it is
    ctx.group("single calls", 3000, 100000, |c| {
        let w = world(c, None);
        let i = c.rng.below(w.docs.len());
        let d: &CDoc = &w.docs[i];
        c.note(format!("{:?} {:?}", d.kind, d.text));
        let mut grown = Vec::new();
        for _ in 0..3 {
            let before = alloc::live();
            let h = create(d.kind, d.text.as_ptr(), false, 1, &[], &[]);
            let k = qm_clone(h);
            qm_free_string(qm_error_string(h));
            qm_free_string(qm_reports_as_json_string(h));
            if c.rng.chance(0.5) { qm_free_handle(h); qm_free_handle(k) } else { qm_free_handle(k); qm_free_handle(h) }
            let _ = crate::fw::take_panic();
            let after = alloc::live();
            grown.push((after.0 - before.0, after.1 - before.1));
        }
        let bad = grown[1..].iter().all(|g| *g != (0, 0));
        c.check("single calls free what they make", !bad, || format!("{:?}", grown));
        // comparisons free both, whatever they are
        let j = c.rng.below(w.docs.len());
        let mut grown = Vec::new();
        for _ in 0..3 {
            let before = alloc::live();
            let a = create(w.docs[i].kind, w.docs[i].text.as_ptr(), false, 1, &[], &[]);
            let b = create(w.docs[j].kind, w.docs[j].text.as_ptr(), false, 1, &[], &[]);
            qm_free_handle(qm_assert_approx_eq_reports(a, b, 1.0, 1.0, 1.0));
            let _ = crate::fw::take_panic();
            let after = alloc::live();
            grown.push((after.0 - before.0, after.1 - before.1));
        }
        let bad = grown[1..].iter().all(|g| *g != (0, 0));
        c.check("comparisons free both", !bad, || format!("{:?} with {:?}: {:?}", w.docs[i].kind, w.docs[j].kind, grown));
        // a calculation uses its arguments without taking them
        let of = |k: K| w.docs.iter().find(|d| d.kind == k && d.obj.kind() == k && d.needs.is_empty()).unwrap();
        let ops: Vec<&CDoc> = w.docs.iter().filter(|d| d.kind == K::Gen && d.obj.kind() == K::Gen).collect();
        let h: Vec<u64> = [K::Pf, K::Ins, K::Fix, K::Mkt].iter().map(|k| { let d = of(*k); create(*k, d.text.as_ptr(), false, 1, &[], &[]) }).collect();
        let g: Vec<u64> = ops.iter().map(|d| create(K::Gen, d.text.as_ptr(), false, 1, &[], &[])).collect();
        let mut grown = Vec::new();
        for _ in 0..3 {
            let before = alloc::live();
            qm_free_handle(qm_calculate(h[0], h[1], h[2], h[3], g.len() as u32, g.as_ptr()));
            let after = alloc::live();
            grown.push((after.0 - before.0, after.1 - before.1));
        }
        for x in h.iter().chain(g.iter()) { c.check("arguments still usable", !qm_is_error(*x), || "".into()); qm_free_handle(*x) }
        let bad = grown[1..].iter().all(|g| *g != (0, 0));
        c.check("calculations keep nothing", !bad, || format!("{:?}", grown));
        let s = c.rng.u64(); c.sig_u(s);
    });
    if ctx.part == "asan" {
        // the rest of the interface under the sanitizer as well, where only the
        // sanitizer decides: wrong results are for A01 and A03 to report
        let own = ctx.rec.viols.len();
        a01_groups(ctx, 0.3);
        a03_groups(ctx, 0.3);
        ctx.rec.viols.truncate(own);
    }
}

// ------------------------------------------------------------------ A03

fn kind_of(k: &str) -> Option<K> {
    Some(match k { "market" => K::Mkt, "instrument" => K::Ins, "fixings" => K::Fix, "pricer" => K::Pf, "generator" => K::Gen, "reports" => K::Rep, "currency" => K::Ccy, _ => return None })
}

/// an error whose message can be read, as often as one likes
fn is_bad(c: &mut Case, what: &str, h: u64, why: &dyn Fn() -> String) -> String {
    c.check(what, qm_is_error(h), || format!("no error for {}", why()));
    let m = message(h);
    let m = c.ok("an error message", m);
    let again = message(h);
    c.check("the same message again", again.as_ref().ok() == Some(&m), || format!("{:?} {:?}", m, again));
    let k = Hd(qm_clone(h));
    c.check("a clone of an error is that error", qm_is_error(k.0) && message(k.0).ok().as_ref() == Some(&m), || m.clone());
    if qm_is_error(h) {
        let t = report_text(h);
        c.check("the message instead of reports", t.as_ref().ok() == Some(&m), || format!("{:?} {:?}", m, t));
    }
    m
}

/// handles that have nothing to do with what goes wrong elsewhere
struct Base { h: Vec<u64>, want: Value }
impl Base {
    fn new() -> Base {
        let w = cseq::small(None);
        let of = |k: K, n: usize| { let d = w.docs.iter().filter(|d| d.kind == k && d.obj.kind() == k && d.needs.is_empty()).nth(n).unwrap(); create(k, d.text.as_ptr(), false, 1, &[], &[]) };
        let h = vec![of(K::Pf, 0), of(K::Ins, 0), of(K::Fix, 0), of(K::Mkt, 0), of(K::Gen, 0), of(K::Gen, 1)];
        let r = qm_calculate(h[0], h[1], h[2], h[3], 2, h[4..].as_ptr());
        let want = serde_json::from_str(&report_text(r).unwrap()).unwrap_or(Value::Null);
        qm_free_handle(r);
        Base { h, want }
    }
    fn still(&self, c: &mut Case) {
        let r = Hd(qm_calculate(self.h[0], self.h[1], self.h[2], self.h[3], 2, self.h[4..].as_ptr()));
        let t = report_text(r.0).unwrap_or_default();
        let v: Value = serde_json::from_str(&t).unwrap_or(Value::Null);
        c.check("unrelated handles keep working", v.is_array() && tight(&self.want, &v, 1.0).is_none(), || t.clone());
        let _ = crate::fw::take_panic();
    }
}
impl Drop for Base { fn drop(&mut self) { for h in self.h.iter() { qm_free_handle(*h) } } }

/// numbers that are legal in a document but may be too much for a calculation
fn extreme(r: &mut Rng, v: &mut Value, key: &str) {
    match v {
        Value::Number(_) if r.chance(0.15) => {
            *v = match key {
                "step" => json!(*r.pick(&[-5000, -1, 0, 1, 5000])),
                "number_of_paths" => json!(*r.pick(&[0, 1, 2])),
                "correlation_substep" => json!(*r.pick(&[0, 1, 1000])),
                "path_substep" => json!(*r.pick(&[0.5, 1.0, 0.05])),
                _ => json!(*r.pick(&[0.0, -1.0, 1.0, 1e308, -1e308, 1e-308, 1e9, -1e9]))
            }
        }
        Value::Bool(b) if r.chance(0.2) => *b = !*b,
        Value::String(s) if s.len() == 10 && s.as_bytes()[4] == b'-' && r.chance(0.1) => *s = r.pick(&["1968-06-01", "2168-01-01", "2020-01-04", "2018-06-02"]).to_string(),
        Value::Array(a) => { if a.len() > 30 { return } for x in a.iter_mut() { extreme(r, x, key) } }
        Value::Object(o) => { let ks: Vec<String> = o.keys().cloned().collect(); for k in ks { extreme(r, o.get_mut(&k).unwrap(), &k) } }
        _ => {}
    }
}

fn set_key(v: &mut Value, key: &str, x: f64) {
    match v {
        Value::Array(a) => for y in a.iter_mut() { set_key(y, key, x) },
        Value::Object(o) => for (k, y) in o.iter_mut() { if k == key { *y = json!(x) } else { set_key(y, key, x) } },
        _ => {}
    }
}

/// a settlement rule that can be read but not used
fn odd_rule(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Array(a) => for x in a.iter_mut() { odd_rule(r, x) },
        Value::Object(o) => {
            if o.contains_key("settlement") && o.contains_key("credit_id") && r.chance(0.7) {
                let w = *r.pick(&[0.1, 0.0, 0.5]);
                let (n, f) = *r.pick(&[(2, false), (-2, true), (-3, false), (1, true)]);
                o.insert("settlement".into(), json!({"BusinessDays": {"calendar": {"VolatilityCalendar": {"name": "V", "calendar": {"WeekdayCalendar": []}, "holiday_weight": w}}, "step": n, "slip_forward": f}}));
            }
            for (_, x) in o.iter_mut() { odd_rule(r, x) }
        }
        _ => {}
    }
}

fn a03(ctx: &mut Ctx) {
    quiet();
    a03_groups(ctx, 1.0)
}

fn a03_groups(ctx: &mut Ctx, f: f64) {
    let n = |x: u64| (x as f64 * f) as u64;
    ctx.group("bad text", n(6000), n(200000), |c| {
        let base = Base::new();
        let x = gen_doc(&mut c.rng);
        let k = match kind_of(x.kind) { Some(k) => k, None => c.skip("not a document of the interface") };
        c.note(format!("{} {}", x.kind, x.js));
        let dir = if c.rng.chance(0.2) { Some(Dir::new()) } else { None };
        for _ in 0..6 {
            let mut v = x.js.clone();
            let mut what = None;
            for _ in 0..30 { what = spoil(&mut c.rng, x.kind, &mut v); if what.is_some() { break } v = x.js.clone(); }
            if let Some(w) = what { let h = Hd::new(k, &v.to_string(), dir.as_ref()); is_bad(c, "spoiled document is an error", h.0, &|| w.clone()); }
            let t = x.js.to_string();
            let mut cut = c.rng.below(t.len());
            while !t.is_char_boundary(cut) { cut -= 1 }
            let h = Hd::new(k, &t[..cut], dir.as_ref());
            is_bad(c, "truncated document is an error", h.0, &|| format!("{} bytes", cut));
            // any bytes but NUL
            let mut b = t.into_bytes();
            for _ in 0..1 + c.rng.below(4) { let i = c.rng.below(b.len()); b[i] = 1 + c.rng.below(255) as u8; }
            let s = CString::new(b.clone()).unwrap();
            let h = match &dir { Some(d) => { let f = d.put("x.json", &b); Hd(create(k, f.as_ptr(), true, 2, &[], &[])) } None => Hd(create(k, s.as_ptr(), false, 2, &[], &[])) };
            if qm_is_error(h.0) { is_bad(c, "scrambled document is an error", h.0, &|| "".into()); } else { c.ev("scrambled document read") }
        }
        // the wrong kind of document
        let other = *c.rng.pick(&[K::Ins, K::Ccy, K::Mkt, K::Fix, K::Pf, K::Gen, K::Rep]);
        if other != k { let h = Hd::new(other, &x.js.to_string(), None); if qm_is_error(h.0) { is_bad(c, "document of another kind is an error", h.0, &|| "".into()); } else { c.check("document of another kind is an error", false, || format!("{:?}", other)) } }
        let h = Hd::new(k, &x.js.to_string(), None);
        c.check("the document itself is read", !qm_is_error(h.0), || message(h.0).unwrap_or_default());
        base.still(c);
        c.sig(&x.js.to_string());
    });
    ctx.group("bad files", n(300), n(4000), |c| {
        let base = Base::new();
        let dir = Dir::new();
        let k = *c.rng.pick(&[K::Ins, K::Ccy, K::Mkt, K::Fix, K::Pf, K::Gen, K::Rep]);
        let name = match c.rng.below(7) {
            0 => cs(&format!("{}/nothing here", dir.0)), 1 => cs(&dir.0), 2 => cs(""),
            3 => CString::new(vec![b'/', 0xff, 0xfe, b'x']).unwrap(), 4 => dir.put("empty", b""), 5 => cs("/dev/null"),
            _ => dir.put("binary", &[0, 1, 2, 0xff, 0, b'{'])
        };
        c.note(format!("{:?} {:?}", k, name));
        let h = Hd(create(k, name.as_ptr(), true, c.rng.below(3), &[], &[]));
        is_bad(c, "unreadable file is an error", h.0, &|| format!("{:?}", name));
        base.still(c);
        c.sig(&format!("{:?}{:?}", k, name.as_bytes().iter().rev().take(6).collect::<Vec<_>>()));
    });
    ctx.group("wrong handles", n(400), n(4000), |c| {
        let base = Base::new();
        let w = cseq::small(None);
        let doc = |k: K| { let d = w.docs.iter().find(|d| d.kind == k && d.obj.kind() == k && d.needs.is_empty()).unwrap(); create(k, d.text.as_ptr(), false, 1, &[], &[]) };
        let kinds = [K::Empty, K::Ins, K::Ccy, K::Mkt, K::Fix, K::Pf, K::Gen, K::Rep, K::Err];
        let make = |k: K| Hd(match k { K::Empty => qm_assert_approx_eq_reports(doc(K::Rep), doc(K::Rep), 1.0, 1.0, 1.0), K::Err => { let t = cs("{"); create(K::Mkt, t.as_ptr(), false, 1, &[], &[]) } k => doc(k) });
        let bad = *c.rng.pick(&kinds);
        c.note(format!("{:?}", bad));
        let b = make(bad);
        c.check("kind of handle", qm_is_error(b.0) == (bad == K::Err), || format!("{:?}", bad));
        let same = |c: &mut Case, m: String| { if bad == K::Err { let w = message(b.0).unwrap_or_default(); c.check("the error is passed on", m == w, || format!("{:?} {:?}", m, w)) } };
        // each argument of a calculation
        let need = [K::Pf, K::Ins, K::Fix, K::Mkt, K::Gen, K::Gen];
        for p in 0..6 {
            if need[p] == bad { continue }
            let mut a = base.h.clone();
            a[p] = b.0;
            let h = Hd(qm_calculate(a[0], a[1], a[2], a[3], 2, a[4..].as_ptr()));
            let m = is_bad(c, "wrong argument is an error", h.0, &|| format!("{:?} for {:?}", bad, need[p]));
            same(c, m);
            let m2 = message(h.0).unwrap_or_default();
            c.check("message names something", m2.len() > 3, || m2.clone());
        }
        // arguments of instruments
        let t = cs("{\"Currency\":{\"id\":\"GBP\",\"settlement\":{\"NullRule\":{}}}}");
        if bad != K::Ccy { let h = Hd(create(K::Ins, t.as_ptr(), false, c.rng.below(3), &[b.0], &[])); let m = is_bad(c, "wrong currency is an error", h.0, &|| format!("{:?}", bad)); same(c, m) }
        if bad != K::Ins { let h = Hd(create(K::Ins, t.as_ptr(), false, c.rng.below(3), &[], &[b.0])); let m = is_bad(c, "wrong member is an error", h.0, &|| format!("{:?}", bad)); same(c, m) }
        // comparisons
        if bad != K::Rep {
            let h = Hd(qm_assert_approx_eq_reports(make(bad).take(), doc(K::Rep), 1.0, 1.0, 1.0));
            let m = is_bad(c, "comparing something else is an error", h.0, &|| format!("{:?}", bad));
            same(c, m);
            let h = Hd(qm_assert_approx_eq_reports(doc(K::Rep), make(bad).take(), 1.0, 1.0, 1.0));
            let m = is_bad(c, "comparing something else is an error", h.0, &|| format!("{:?}", bad));
            same(c, m);
            let t = report_text(b.0);
            let t = c.ok("text of something else", t);
            c.check("text of something else is a message", serde_json::from_str::<Value>(&t).map(|v| !v.is_array()).unwrap_or(true) && !t.is_empty(), || t.clone());
        } else {
            let k = Hd(qm_clone(b.0));
            is_bad(c, "clone of reports is an error", k.0, &|| "".into());
        }
        let m = message(b.0);
        c.ok("message of anything", m);
        base.still(c);
        let s = c.rng.u64(); c.sig_u(mix(bad as u64, s));
    });
    ctx.group("failing calculations", n(8000), n(300000), |c| {
        let base = Base::new();
        let (d, _) = gen_deal(c);
        let mut js = d.js.clone();
        let mut ins = d.ins.js();
        let mc = c.rng.chance(0.2);
        let mut pf = if mc { json!({"MonteCarloPricerFactory": {"model_factory": {"BlackDiffusionFactory": {"correlation_substep": 20, "path_substep": 0.1, "number_of_paths": 8}}}}) } else { json!({"SelfPricerFactory": {}}) };
        let mut gens: Vec<Value> = d.gens.iter().map(|g| g.js()).collect();
        if gens.is_empty() { gens.push(GenM::Delta(0.01).js()) }
        let how = c.rng.below(3);
        match how {
            0 => for _ in 0..1 + c.rng.below(2) {
                let k = *c.rng.pick(&["spots", "yield_curves", "borrow_curves", "dividends", "vol_surfaces"]);
                let ids: Vec<String> = js[k].as_object().unwrap().keys().cloned().collect();
                if !ids.is_empty() { let i = c.rng.pick(&ids).clone(); js[k].as_object_mut().unwrap().remove(&i); }
            },
            1 => { extreme(&mut c.rng, &mut js, ""); if c.rng.chance(0.5) { extreme(&mut c.rng, &mut ins, "") } if c.rng.chance(0.3) { for g in gens.iter_mut() { extreme(&mut c.rng, g, "") } extreme(&mut c.rng, &mut pf, "") } }
            _ => { extreme(&mut c.rng, &mut ins, ""); if c.rng.chance(0.4) { odd_rule(&mut c.rng, &mut ins) } }
        }
        // volatilities that ask for more memory than there is
        if mc && c.rng.chance(0.1) { let v = *c.rng.pick(&[1e9, 1e11]); set_key(&mut js["vol_surfaces"], "vol", v); c.ev("absurd volatility in Monte-Carlo") }
        c.note(format!("{} {} {} {:?}", ins, js, pf, gens));
        let hs = vec![Hd::new(K::Pf, &pf.to_string(), None), Hd::new(K::Ins, &ins.to_string(), None), Hd::new(K::Fix, &d.tab.js().to_string(), None), Hd::new(K::Mkt, &js.to_string(), None)];
        let hg: Vec<Hd> = gens.iter().map(|g| Hd::new(K::Gen, &g.to_string(), None)).collect();
        let g: Vec<u64> = hg.iter().map(|g| g.0).collect();
        let _ = crate::fw::take_panic();
        let h = Hd(qm_calculate(hs[0].0, hs[1].0, hs[2].0, hs[3].0, g.len() as u32, g.as_ptr()));
        let panicked = crate::fw::take_panic();
        if qm_is_error(h.0) {
            let first = hs.iter().chain(hg.iter()).find(|x| qm_is_error(x.0));
            let m = is_bad(c, "failed calculation is an error", h.0, &|| "".into());
            if let Some(x) = first { let w = message(x.0).unwrap_or_default(); c.check("the first error is passed on", w == m, || format!("{:?} {:?}", w, m)) }
            if let Some(p) = panicked { c.ev("calculations that panicked inside"); c.sample(format!("{} at {}: {}", m, p.0, p.1)) }
        } else {
            c.check("no error from errors", !hs.iter().chain(hg.iter()).any(|x| qm_is_error(x.0)), || "".into());
            c.check("no error after a panic", panicked.is_none(), || format!("{:?}", panicked));
            let t = report_text(h.0);
            let t = c.ok("reports as text", t);
            c.check("calculated reports are reports", serde_json::from_str::<Value>(&t).map(|v| v.is_array()).unwrap_or(false), || t.clone());
            c.ev("calculations that succeed")
        }
        for x in hs.iter().chain(hg.iter()) { let _ = qm_is_error(x.0); }
        // the same market and so on in an unharmed calculation
        let good = Hd::new(K::Mkt, &d.js.to_string(), None);
        c.check("later documents are read", !qm_is_error(good.0), || message(good.0).unwrap_or_default());
        base.still(c);
        c.sig(&format!("{}{}", js, ins));
    });
    ctx.group("NUL", n(100), n(1000), |c| {
        // names may contain what a C string cannot
        let base = Base::new();
        let id = format!("a\u{0}b{}", c.rng.below(5));
        let opt = cseq::small(None).docs[3].text.to_str().unwrap().to_string();
        let t = opt.replace("\"A\"", &json!(id).to_string());
        let h = Hd::new(K::Ins, &t, None);
        is_bad(c, "unknown name with NUL is an error", h.0, &|| t.clone());
        let rep = json!([{"DeltaGammaReport": {"bumpsize": 0.01, "results": {(id.clone()): {"delta": 1.0, "gamma": 2.0}}}}]).to_string();
        let h = Hd::new(K::Rep, &rep, None);
        c.check("reports with NUL in a name", !qm_is_error(h.0), || "".into());
        let x = report_text(h.0);
        let x = c.ok("reports as text", x);
        let v: Value = serde_json::from_str(&x).unwrap_or(Value::Null);
        c.check("NUL survives", v[0]["DeltaGammaReport"]["results"][&id]["delta"] == json!(1.0), || x.clone());
        let other = rep.replace("1.0", "5.0");
        let k = Hd::new(K::Rep, &other, None);
        let e = Hd(qm_assert_approx_eq_reports(h.take(), k.take(), 1e-3, 1e-3, 1e-3));
        is_bad_nul(c, e.0);
        base.still(c);
        c.sig(&id);
    });
}

fn is_bad_nul(c: &mut Case, h: u64) {
    c.check("different reports with NUL differ", qm_is_error(h), || "".into());
    let m = message(h);
    c.ok("an error message", m);
    let t = report_text(h);
    c.ok("text of an error", t);
}

// ------------------------------------------------------------------ A04

#[derive(Clone, Debug)]
enum Op { Price(usize), Reports(usize, Vec<usize>), Bumps(usize, Vec<BumpM>), Write(usize, usize), Read(usize), Move(usize, i32), C(usize, Vec<usize>), Clone(usize, BumpM) }

struct Shared { pf: RcPricerFactory, ins: Vec<RcInstrument>, texts: Vec<String>, fix: RcFixingTable, md: RcMarketData, gens: Vec<RcReportGenerator>, handles: Vec<u64>, base: i32 }

fn num(r: Result<f64, qm::Error>) -> Value { match r { Ok(x) if x.is_finite() => json!(x), Ok(x) => json!(format!("{}", x)), Err(_) => json!("error") } }

/// what one thread does, and everything it saw
fn perform(s: &Shared, ops: &[Op]) -> Vec<Value> {
    let mut out = Vec::new();
    for op in ops {
        let new = |i: usize| s.pf.new(s.ins[i].clone(), s.fix.clone(), s.md.clone());
        out.push(match op {
            Op::Price(i) => num(new(*i).and_then(|p| p.price())),
            Op::Reports(i, g) => { let gs: Vec<RcReportGenerator> = g.iter().map(|k| s.gens[*k].clone()).collect(); js_reports(facade::calculate(s.pf.clone(), s.ins[*i].clone(), s.fix.clone(), s.md.clone(), &gs)).unwrap_or(json!("error")) }
            Op::Bumps(i, b) => match new(*i) {
                Ok(mut p) => {
                    let mut v = Vec::new();
                    let mut save = p.as_bumpable().new_saveable();
                    for x in b { let r = p.as_mut_bumpable().bump(&x.real(), Some(&mut *save)); v.push(json!(format!("{:?}", r.ok()))); v.push(num(p.price())) }
                    let _ = p.as_mut_bumpable().restore(&*save);
                    v.push(num(p.price()));
                    Value::Array(v)
                }
                Err(_) => json!("error")
            },
            Op::Clone(i, b) => match new(*i) {
                Ok(p) => {
                    let mut q = p.clone_box();
                    let r = q.as_mut_bumpable().bump(&b.real(), None);
                    json!([num(p.price()), format!("{:?}", r.ok()), num(q.price()), num(p.price())])
                }
                Err(_) => json!("error")
            },
            Op::Write(i, mode) => {
                let mut dc = Dedup::<Currency, Arc<Currency>>::new(ctl(*mode), Default::default());
                let mut di = Dedup::<dyn Instrument, Qrc<dyn Instrument>>::new(ctl(*mode), Default::default());
                let t = dc.with(&DEDUP_CURRENCY, || di.with(&DEDUP_INSTRUMENT, || serde_json::to_string(&s.ins[*i])));
                let plain = serde_json::to_string(&s.ins[*i]);
                json!([t.ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()), plain.ok().and_then(|t| serde_json::from_str::<Value>(&t).ok())])
            }
            Op::Read(i) => {
                let r = facade::instrument_from_json(&mut s.texts[*i].as_bytes(), DedupControl::WriteOnce, &[], DedupControl::WriteOnce, &[]);
                match r { Ok(x) => json!([num(s.pf.new(x.clone(), s.fix.clone(), s.md.clone()).and_then(|p| p.price())), serde_json::to_value(&x).ok()]), Err(e) => json!(e.to_string()) }
            }
            Op::Move(i, n) => match new(*i) {
                Ok(mut p) => {
                    let b = quantmath::risk::bumptime::BumpTime::new(crate::p_dates::dj(s.base + n), crate::p_dates::dj(s.base + n), quantmath::data::bumpspotdate::SpotDynamics::StickyForward);
                    let r = p.as_mut_time_bumpable().bump_time(&b);
                    json!([format!("{:?}", r.is_ok()), num(p.price())])
                }
                Err(_) => json!("error")
            },
            Op::C(i, g) => {
                // handles of our own, cloned from the shared ones
                let k = s.ins.len();
                let pick = |j: usize| Hd(qm_clone(s.handles[j]));
                let a = [pick(0), pick(1), pick(2), pick(3 + i)];
                let gs: Vec<Hd> = g.iter().map(|x| pick(3 + k + x)).collect();
                let gh: Vec<u64> = gs.iter().map(|x| x.0).collect();
                let h = Hd(qm_calculate(a[0].0, a[3].0, a[1].0, a[2].0, gh.len() as u32, gh.as_ptr()));
                if qm_is_error(h.0) { json!("error") } else { report_text(h.0).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(json!("no text")) }
            }
        })
    }
    out
}

fn ctl(k: usize) -> DedupControl { if k == 0 { DedupControl::Inline } else { DedupControl::WriteOnce } }

fn a04(ctx: &mut Ctx) {
    quiet();
    let t = if ctx.part == "tsan" { 2 } else { 4 };
    ctx.group_t("first use", 40, 400, 1, 600_000, |c| {
        // threads that have never used the library before, all starting with it
        let n = 8;
        let gate = Barrier::new(n);
        c.note("first use".to_string());
        let seed = c.rng.u64();
        let r: Vec<std::thread::Result<Result<[u64; 16], String>>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n).map(|k| { let gate = &gate; sc.spawn(move || { gate.wait(); let w = cseq::small(None); let mut n = [0; 16]; let mut r = Rng::new(mix(seed, k as u64)); cseq::run(&w, &mut r, 60, &mut n).map(|_| n) }) }).collect();
            hs.into_iter().map(|h| h.join()).collect()
        });
        for x in r {
            match x { Ok(Ok(n)) => { c.ev("sequences of calls"); for (i, s) in cseq::STATS.iter().enumerate() { if n[i] > 0 { c.evn(s, n[i]) } } }
                Ok(Err(m)) => c.fail(m), Err(_) => c.fail("a thread panicked") }
        }
        c.sig_u(seed);
    });
    ctx.group_t("threads", 1500, 40000, t, 600_000, |c| {
        let (d, eqs) = gen_deal(c);
        let md = data(c, &d.m);
        let mut name = 10;
        let mut models = vec![d.ins.clone()];
        for _ in 0..1 + c.rng.below(2) { let depth = c.rng.below(3); models.push(gen_ins(&mut c.rng, &d.m, &eqs, depth, &mut name)) }
        let gens: Vec<GenM> = (0..3).map(|_| gen_gen(&mut c.rng, d.m.base, 1)).collect();
        let texts: Vec<String> = models.iter().map(|m| m.js().to_string()).collect();
        let pt = "{\"SelfPricerFactory\":{}}";
        let mut handles = vec![Hd::new(K::Pf, pt, None), Hd::new(K::Fix, &d.tab.js().to_string(), None), Hd::new(K::Mkt, &d.js.to_string(), None)];
        for t in texts.iter() { handles.push(Hd::new(K::Ins, t, None)) }
        for g in gens.iter() { handles.push(Hd::new(K::Gen, &g.js().to_string(), None)) }
        let s = Shared { pf: serde_json::from_str(pt).unwrap(), ins: models.iter().map(|m| m.rc()).collect(), texts, fix: RcFixingTable::new(Arc::new(d.tab.real())), md: RcMarketData::new(Arc::new(md)),
            gens: gens.iter().map(|g| g.rc()).collect(), handles: handles.iter().map(|h| h.0).collect(), base: d.m.base };
        let n = 2 + c.rng.below(5);
        let scripts: Vec<Vec<Op>> = (0..n).map(|_| (0..3 + c.rng.below(8)).map(|_| {
            let i = c.rng.below(models.len());
            let gs: Vec<usize> = (0..c.rng.size(3, 8)).map(|_| c.rng.below(gens.len())).collect();
            match c.rng.below(8) {
                0 => Op::Price(i), 1 => Op::Reports(i, gs), 2 => { let k = 1 + c.rng.below(4); Op::Bumps(i, (0..k).map(|_| gen_bump(&mut c.rng, &eqs)).collect()) }
                3 => Op::Write(i, c.rng.below(2)), 4 => Op::Read(i), 5 => Op::Move(i, c.rng.int(0, 20)), 6 => Op::C(i, gs), _ => Op::Clone(i, gen_bump(&mut c.rng, &eqs))
            }
        }).collect()).collect();
        c.note(format!("{:?} {:?} {:?}", models, scripts, d.m));
        // alone
        let alone: Vec<Vec<Value>> = scripts.iter().map(|o| perform(&s, o)).collect();
        // all at once, a few times over
        for round in 0..2 {
            let gate = Barrier::new(n);
            let got: Vec<std::thread::Result<Vec<Value>>> = std::thread::scope(|sc| {
                let hs: Vec<_> = scripts.iter().map(|o| { let (s, gate) = (&s, &gate); std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { gate.wait(); perform(s, o) }).expect("thread") }).collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            for (k, g) in got.into_iter().enumerate() {
                match g {
                    Err(_) => { c.fail(format!("thread {} panicked in round {}", k, round)); return }
                    Ok(v) => for (i, (x, y)) in v.iter().zip(alone[k].iter()).enumerate() {
                        let e = tight(y, x, 1.0);
                        c.check("same result as alone", e.is_none(), || format!("thread {} step {} {:?}: {}", k, i, scripts[k][i], e.clone().unwrap()));
                        c.ev(match scripts[k][i] { Op::Price(_) => "prices", Op::Reports(..) => "reports", Op::Bumps(..) => "bumps", Op::Clone(..) => "clones", Op::Write(..) => "documents written", Op::Read(_) => "documents read", Op::Move(..) => "moves in time", Op::C(..) => "calculations over the C interface" });
                    }
                }
            }
            c.evn("threads", n as u64);
        }
        c.sig(&format!("{:?}", scripts));
        c.sample(format!("{:?}", scripts));
    });
}

pub static PROPS: &[Prop] = &[
    Prop { id: "A01", run: a01,
        rule: "Generated instruments, markets, fixings and generators are calculated in four ways: directly with a pricer for each report, through the facade with objects and with text, and through the C interface with strings or files; all reports must agree, one for each generator and in their order. Written results must read back as they were. Baskets whose members and currency are given as handles must give what the full document gives in every mode, with the modes of currencies and instruments set apart, from strings and from files. Reports of hundreds of kilobytes must be delivered in full. Simulation and comparison with tolerances are checked through the interface as well.",
        assumptions: &["results may differ by 1e-9 of the size of the position, as hash maps decide the order of bumps"],
        need: &[("facade with objects", 1000), ("facade with text", 1000), ("C interface with strings", 800), ("C interface with files", 100), ("calculations that succeed", 500), ("reports in the order of the generators", 1000), ("results read back", 500), ("equal to itself", 300),
            ("members by name give the same", 1000), ("a missing member is an error", 1000), ("names resolved apart, strings", 1000), ("names resolved apart, files", 300), ("dozens supplied", 50), ("reports over 64 KiB", 50), ("simulated price through the interface", 10), ("compared within the tolerances", 1000), ("reports beyond tolerance", 200), ("reports within tolerance", 200)] },
    Prop { id: "A02", run: a02,
        rule: "Random sequences of C-interface calls that follow the ownership rules, with a model of what each handle holds, run in a build with AddressSanitizer and LeakSanitizer and in a plain build whose allocator counts what each thread holds: after a sequence has freed its handles nothing may be left. In the thorough tier sequences also run in Miri. Single calls are measured on their own, so that each of them frees what it makes, uses up exactly what it is documented to use up, and keeps nothing else.",
        assumptions: &["memory kept by the first call of a kind and never growing is not a leak"],
        need: &[("nothing left allocated", 1000), ("handles created", 20000), ("handles created from files", 100), ("error handles created", 3000), ("handles cloned", 3000), ("reports refused to clone", 100), ("calculations", 500), ("comparisons consumed two handles", 500), ("errors propagated", 500), ("strings freed", 5000),
            ("handles freed", 20000), ("uses after the original was freed", 1000), ("instruments with members given as handles", 300), ("single calls free what they make", 300), ("comparisons free both", 300), ("calculations keep nothing", 300)] },
    Prop { id: "A03", run: a03,
        rule: "Every function of the C interface is given spoiled, truncated, scrambled and misplaced documents, unreadable files, every kind of handle in every position, errors, and calculations that fail or panic inside; each must come back as an error handle whose message can be read repeatedly, survives cloning and is passed on unchanged when the handle is used. After each failure a set of unrelated handles must still give its result. A process that dies is noticed by the parent process, which finds the case to blame.",
        assumptions: &["sizes that exhaust memory or take hours are left out"],
        need: &[("spoiled document is an error", 5000), ("truncated document is an error", 5000), ("scrambled document is an error", 3000), ("document of another kind is an error", 500), ("unreadable file is an error", 200), ("wrong argument is an error", 1000), ("wrong currency is an error", 200), ("wrong member is an error", 200),
            ("comparing something else is an error", 400), ("the error is passed on", 100), ("failed calculation is an error", 200), ("unrelated handles keep working", 3000), ("unknown name with NUL is an error", 50)] },
    Prop { id: "A04", run: a04,
        rule: "Threads that share instruments, market data, fixings, generators, pricer factories and C handles each run their own random sequence of pricing, reporting, bumping, cloning, moving in time, writing with and without deduplication, reading, and calls to the C interface. Everything each of them observes must equal what the same sequence gives alone. The same runs in a build with ThreadSanitizer, whose report of a data race is a violation.",
        assumptions: &["interleavings are those that the scheduler gave; the sanitizer also sees races that did not show in results"],
        need: &[("same result as alone", 2000), ("prices", 200), ("reports", 200), ("bumps", 200), ("clones", 200), ("documents written", 200), ("documents read", 200), ("moves in time", 200), ("calculations over the C interface", 200), ("sequences of calls", 100)] },
];
