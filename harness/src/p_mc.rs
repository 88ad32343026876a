//! P01-P04: Monte-Carlo paths, prices and risk.

use crate::fw::{close, Case, Ctx, Prop};
use crate::mkt::*;
use crate::model::*;
use crate::nref::{black, ncdf};
use crate::p_dates::dj;
use crate::p_instr::data;
use crate::p_risk::*;
use crate::rng::Rng;
use ndarray::{Array2, Array3, ArrayView2, Axis};
use quantmath::core::qm;
use quantmath::data::bump::Bump;
use quantmath::data::bumpspotdate::{BumpSpotDate, SpotDynamics};
use quantmath::data::curves::RcRateCurve;
use quantmath::data::fixings::{FixingTable, RcFixingTable};
use quantmath::data::forward::Forward;
use quantmath::data::volsurface::RcVolSurface;
use quantmath::dates::datetime::DateDayFraction;
use quantmath::dates::Date;
use quantmath::instruments::{DependencyContext, Instrument, MonteCarloContext, MonteCarloDependencies, PricingContext, RcInstrument};
use quantmath::models::blackdiffusion::*;
use quantmath::models::{MonteCarloTimeline, RcMonteCarloModelFactory};
use quantmath::pricers::montecarlo::{MonteCarloPricer, MonteCarloPricerFactory};
use quantmath::pricers::PricerFactory;
use quantmath::risk::bumptime::BumpTime;
use quantmath::risk::cache::PricingContextPrefetch;
use quantmath::risk::dependencies::DependencyCollector;
use quantmath::risk::marketdata::{MarketData, RcMarketData};
use quantmath::risk::{Bumpable, BumpablePricingContext, Pricer, Saveable, TimeBumpable};
use std::cell::RefCell;
use std::sync::Arc;

/// forward, variance at the forward and displacement at each observation
struct Obs { f: f64, var: f64, dis: f64 }

fn observed(ctx: &dyn PricingContext, rc: &RcInstrument, obs: &[DateDayFraction]) -> Option<Vec<Obs>> {
    let hwm = obs.last()?.date();
    let f = ctx.forward_curve(&**rc, hwm).ok()?;
    let s = ctx.vol_surface(&**rc, hwm, &|| ctx.forward_curve(&**rc, hwm)).ok()?;
    let mut out = Vec::new();
    for o in obs {
        let x = f.forward(o.date()).ok()?;
        out.push(Obs { f: x, var: s.variance(*o, x).ok()?, dis: s.displacement(o.date()).ok()? });
    }
    if out.iter().any(|o| !o.f.is_finite() || !o.var.is_finite() || !o.dis.is_finite()) { return None }
    Some(out)
}

/// forward variances between observations: None if one is negative
fn steps(o: &[Obs]) -> Option<Vec<f64>> {
    let mut p = 0.0;
    let mut out = Vec::new();
    for x in o { if x.var - p < 0.0 { return None } out.push(x.var - p); p = x.var }
    Some(out)
}

fn gen_obs(r: &mut Rng, base: i32) -> Vec<DateDayFraction> {
    let n = 1 + r.size(6, 25);
    let mut v: Vec<(i32, f64)> = (0..n).map(|_| (base + r.int(0, 700), *r.pick(&[0.0, 0.8, 0.25, 0.5]))).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v.into_iter().map(ddf).collect()
}

fn p01(ctx: &mut Ctx) {
    ctx.group("paths", 120000, 800_000, |c| {
        let k = 1 + c.rng.below(3);
        let (m, eqs) = gen_mkt(&mut c.rng, k);
        let md = data(c, &m);
        let rcs: Vec<RcInstrument> = eqs.iter().map(|e| InsM::Eq(e.clone()).rc()).collect();
        let obs = gen_obs(&mut c.rng, m.base);
        let sub = 10f64.powf(c.rng.f(-3.0, 0.0));
        c.note(format!("{:?} sub {} {:?}", obs, sub, m));
        let seen: Option<Vec<Vec<Obs>>> = rcs.iter().map(|i| observed(&md, i, &obs)).collect();
        let seen = match seen { Some(x) => x, None => c.skip("market not usable") };
        let st: Option<Vec<Vec<f64>>> = seen.iter().map(|o| steps(o)).collect();
        let got = calculate_substepping(&obs, &md, &rcs, sub);
        let st = match st {
            Some(s) => s,
            None => { c.check("falling variance refused", got.is_err(), || format!("{:?}", got.as_ref().ok())); return }
        };
        let got = c.ok("substepping", got);
        c.check("one number of substeps for each observation", got.len() == obs.len(), || format!("{:?}", got));
        for (i, n) in got.iter().enumerate() {
            let x = st.iter().map(|s| s[i] / sub).fold(0.0, f64::max);
            let (lo, hi) = ((x * (1.0 - 1e-9) - 1e-12).ceil().max(1.0), (x * (1.0 + 1e-9) + 1e-12).ceil().max(1.0));
            c.check("substeps as small as asked", *n as f64 >= lo && *n as f64 <= hi, || format!("{} for {}", n, x));
            if *n > 1 { c.ev("more than one substep") }
        }
        // as calculated, or any others
        let subs: Vec<usize> = if c.rng.chance(0.6) && got.iter().sum::<usize>() < 60 { got } else { (0..obs.len()).map(|_| 1 + c.rng.below(4)).collect() };
        let total: usize = subs.iter().sum();
        let np = 1 + c.rng.size(5, 30);
        let calm = c.rng.chance(0.15);
        let extra = if c.rng.chance(0.2) { c.rng.below(3) } else { 0 };
        let mut g = Array3::<f64>::zeros((np, total + extra, k));
        for x in g.iter_mut() { *x = if calm { 0.0 } else { c.rng.normal() } }
        let paths = c.ok("paths", fetch_paths(&obs, &g, &md, &rcs, &subs, np));
        c.check("shape of the paths", paths.shape() == [np, obs.len(), k], || format!("{:?}", paths.shape()));
        for a in 0..k {
            let mut one = Array2::<f64>::zeros((np, obs.len()));
            c.ok("path", fetch_path(&*rcs[a], &md, &obs, g.subview(Axis(2), a), &subs, one.view_mut()));
            for p in 0..np {
                let (mut level, mut i) = (1.0f64, 0);
                for (j, o) in seen[a].iter().enumerate() {
                    let sd = (st[a][j] / subs[j] as f64).sqrt();
                    for _ in 0..subs[j] { level *= 1.0 + g[(p, i, a)] * sd; i += 1 }
                    let want = level * (o.f - o.dis) + o.dis;
                    c.close("point on a path", paths[(p, j, a)], want, 1e-10, 1e-10 * o.f.abs());
                    c.check("paths one at a time", one[(p, j)].to_bits() == paths[(p, j, a)].to_bits(), || format!("{} vs {}", one[(p, j)], paths[(p, j, a)]));
                    if calm { c.close("no randomness, the forward", paths[(p, j, a)], o.f, 1e-12, 1e-12) }
                }
            }
            // the same forward and variance by the reference model
            for (o, d) in seen[a].iter().zip(obs.iter()) {
                if let Some(f) = m.fwd(&eqs[a], d.date().truncated_julian()) { c.close("forward by the model", o.f, f, 1e-10, 1e-10) }
            }
        }
        c.sig(&format!("{:?}{:?}", obs, subs));
        c.sample(format!("{:?} {:?}", obs, subs));
    });
    ctx.group("timeline", 25000, 100_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 3);
        let rcs: Vec<RcInstrument> = eqs.iter().map(|e| InsM::Eq(e.clone()).rc()).collect();
        let mut t = MonteCarloTimeline::new(dj(m.base));
        let mut want: Vec<Vec<DateDayFraction>> = vec![Vec::new(); 3];
        let mut flows = Vec::new();
        for i in 0..c.rng.below(12) {
            if c.rng.chance(0.5) { let a = c.rng.below(3); let d = ddf((m.base + c.rng.int(0, 50), 0.8)); t.observation(&rcs[a], d); want[a].push(d) }
            else { let z = gen_zero(&mut c.rng, &m, &format!("Z{}", i)).rc(); for _ in 0..if c.rng.chance(0.2) { 2 } else { 1 } { flows.push(z.id().to_string()); t.flow(&z) } }
        }
        c.ok("collate", t.collate());
        let got: Vec<String> = t.flows().iter().map(|f| f.id().to_string()).collect();
        c.check("flows in order", got == flows, || format!("{:?} want {:?}", got, flows));
        for (a, w) in want.iter().enumerate() {
            let g = t.observations().get(&rcs[a]).cloned().unwrap_or_default();
            c.check("observations in order", g == *w, || format!("{:?} want {:?}", g, w));
        }
        let md = data(c, &m);
        c.check("refused without observations", calculate_substepping(&[], &md, &rcs, 0.1).is_err(), || "accepted".into());
        c.sig(&format!("{:?}", flows));
        // an option asks for its strike date and its expiry, and pays once
        let und = InsM::Eq(eqs[0].clone());
        let o = gen_option(&mut c.rng, &m, &und, "O");
        let rc = o.rc();
        let mut t = MonteCarloTimeline::new(dj(m.base));
        if let Some(mc) = rc.as_mc_priceable() {
            c.ok("dependencies", mc.mc_dependencies(&[], &mut t));
            c.ok("collate", t.collate());
            let mut w = Vec::new();
            if let StrikeM::Fwd(_, d) = o.strike { w.push(ddf(frac(d))) }
            w.push(ddf(frac(o.expiry)));
            let g = t.observations().get(&rcs[0]).cloned().unwrap_or_default();
            c.check("observations of an option", g == w, || format!("{:?} want {:?}", g, w));
            c.check("one flow of an option", t.flows().len() == 1 && t.flows()[0].credit_id() == o.credit, || format!("{:?}", t.flows()));
        } else { c.fail("not priceable by Monte-Carlo") }
    });
}

/// a market that knows only correlations
struct Correl { ids: Vec<String>, rho: Vec<Vec<f64>> }

impl PricingContext for Correl {
    fn spot_date(&self) -> Date { dj(20_000) }
    fn yield_curve(&self, _: &str, _: Date) -> Result<RcRateCurve, qm::Error> { Err(qm::Error::new("none")) }
    fn spot(&self, _: &str) -> Result<f64, qm::Error> { Err(qm::Error::new("none")) }
    fn forward_curve(&self, _: &dyn Instrument, _: Date) -> Result<Arc<dyn Forward>, qm::Error> { Err(qm::Error::new("none")) }
    fn vol_surface(&self, _: &dyn Instrument, _: Date, _: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { Err(qm::Error::new("none")) }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> {
        let at = |i: &dyn Instrument| self.ids.iter().position(|x| x == i.id()).unwrap();
        Ok(self.rho[at(a)][at(b)])
    }
}

/// passes everything on, but knows correlations too
struct Both<'a> { md: &'a MarketData, co: &'a Correl }

impl<'a> PricingContext for Both<'a> {
    fn spot_date(&self) -> Date { self.md.spot_date() }
    fn yield_curve(&self, c: &str, h: Date) -> Result<RcRateCurve, qm::Error> { self.md.yield_curve(c, h) }
    fn spot(&self, i: &str) -> Result<f64, qm::Error> { self.md.spot(i) }
    fn forward_curve(&self, i: &dyn Instrument, h: Date) -> Result<Arc<dyn Forward>, qm::Error> { self.md.forward_curve(i, h) }
    fn vol_surface(&self, i: &dyn Instrument, h: Date, f: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { self.md.vol_surface(i, h, f) }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> { self.co.correlation(a, b) }
}

/// a market that can be bumped, and knows correlations too
#[derive(Clone)]
struct Multi { pc: PricingContextPrefetch, co: Arc<Correl> }

impl PricingContext for Multi {
    fn spot_date(&self) -> Date { self.pc.spot_date() }
    fn yield_curve(&self, c: &str, h: Date) -> Result<RcRateCurve, qm::Error> { self.pc.yield_curve(c, h) }
    fn spot(&self, i: &str) -> Result<f64, qm::Error> { self.pc.spot(i) }
    fn forward_curve(&self, i: &dyn Instrument, h: Date) -> Result<Arc<dyn Forward>, qm::Error> { self.pc.forward_curve(i, h) }
    fn vol_surface(&self, i: &dyn Instrument, h: Date, f: &dyn Fn() -> Result<Arc<dyn Forward>, qm::Error>) -> Result<RcVolSurface, qm::Error> { self.pc.vol_surface(i, h, f) }
    fn correlation(&self, a: &dyn Instrument, b: &dyn Instrument) -> Result<f64, qm::Error> { self.co.correlation(a, b) }
}

impl Bumpable for Multi {
    fn bump(&mut self, b: &Bump, s: Option<&mut dyn Saveable>) -> Result<bool, qm::Error> { self.pc.bump(b, s) }
    fn dependencies(&self) -> Result<&DependencyCollector, qm::Error> { self.pc.dependencies() }
    fn context(&self) -> &dyn PricingContext { self }
    fn new_saveable(&self) -> Box<dyn Saveable> { self.pc.new_saveable() }
    fn restore(&mut self, s: &dyn Saveable) -> Result<(), qm::Error> { self.pc.restore(s) }
}

impl BumpablePricingContext for Multi {
    fn as_bumpable(&self) -> &dyn Bumpable { self }
    fn as_mut_bumpable(&mut self) -> &mut dyn Bumpable { self }
    fn as_pricing_context(&self) -> &dyn PricingContext { self }
    fn raw_market_data(&self) -> &MarketData { self.pc.raw_market_data() }
}

fn gen_correl(r: &mut Rng, ids: Vec<String>) -> Correl {
    let n = ids.len();
    let a: Vec<Vec<f64>> = (0..n).map(|_| (0..n + 1).map(|_| r.normal()).collect()).collect();
    let dot = |x: &[f64], y: &[f64]| x.iter().zip(y).map(|(a, b)| a * b).sum::<f64>();
    let rho = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.98 * dot(&a[i], &a[j]) / (dot(&a[i], &a[i]) * dot(&a[j], &a[j])).sqrt() }).collect()).collect();
    Correl { ids, rho }
}

/// The library seeds its own generator, so these bounds are chosen to be
/// exceeded by chance less than once in 1e11 observations.
const Z: f64 = 8.0;

fn within(c: &mut Case, what: &str, got: f64, want: f64, sd: f64, n: f64) {
    let z = (got - want) / (sd / n.sqrt());
    c.check(what, z.abs() < Z, || format!("{} want {} which is {:.1} standard errors of {} samples", got, want, z, n));
}

fn p02(ctx: &mut Ctx) {
    ctx.group("gaussians", 450, 4_000, |c| {
        let k = 1 + c.rng.below(4);
        let ids: Vec<String> = (0..k).map(|i| format!("EQ{}", i)).collect();
        let co = gen_correl(&mut c.rng, ids.clone());
        let rcs: Vec<RcInstrument> = ids.iter().map(|i| InsM::Eq(EqM { id: i.clone(), credit: "LSE".into(), rule: RuleM::Null }).rc()).collect();
        let subs: Vec<usize> = (0..1 + c.rng.below(3)).map(|_| 1 + c.rng.below(3)).collect();
        let total: usize = subs.iter().sum();
        let np = 4000 + c.rng.below(4000);
        c.note(format!("{} paths {:?} {:?}", np, subs, co.rho));
        let g = c.ok("gaussians", fetch_correlated_gaussians(&co, &rcs, 20, &subs, np));
        c.check("shape of the gaussians", g.shape() == [np, total, k], || format!("{:?}", g.shape()));
        let n = (np * total) as f64;
        let sum = |f: &dyn Fn(usize, usize) -> f64, steps: usize, paths: usize| { let mut t = 0.0; for p in 0..paths { for s in 0..steps { t += f(p, s) } } t / (steps * paths) as f64 };
        for a in 0..k {
            within(c, "mean", sum(&|p, s| g[(p, s, a)], total, np), 0.0, 1.0, n);
            within(c, "variance", sum(&|p, s| g[(p, s, a)].powi(2), total, np), 1.0, 2f64.sqrt(), n);
            let mut v: Vec<f64> = g.subview(Axis(2), a).iter().cloned().collect();
            v.sort_by(|x, y| x.partial_cmp(y).unwrap());
            let mut d: f64 = 0.0;
            for (i, x) in v.iter().enumerate() { let f = ncdf(*x); d = d.max((f - i as f64 / n).abs()).max((f - (i + 1) as f64 / n).abs()) }
            c.check("normally distributed", d * n.sqrt() < 4.0, || format!("distance {} of {} samples", d, n));
            for b in 0..k {
                let rho = co.rho[a][b];
                if b < a { within(c, "correlation", sum(&|p, s| g[(p, s, a)] * g[(p, s, b)], total, np), rho, (1.0 + rho * rho).sqrt(), n) }
                if total > 1 { within(c, "no dependence across time", sum(&|p, s| g[(p, s, a)] * g[(p, s + 1, b)], total - 1, np), 0.0, 1.0, ((total - 1) * np) as f64) }
                within(c, "no dependence across paths", sum(&|p, s| g[(p, s, a)] * g[(p + 1, s, b)], total, np - 1), 0.0, 1.0, (total * (np - 1)) as f64);
            }
        }
        let h = c.ok("gaussians", fetch_correlated_gaussians(&co, &rcs, 20, &subs, 3));
        let same = (0..3).filter(|p| h[(*p, 0, 0)] == g[(*p, 0, 0)]).count();
        c.check("another run draws other numbers", same == 0, || "the same".into());
        c.sig(&format!("{:?}{}", co.rho, np));
        c.sample(format!("{} paths {:?} {:?}", np, subs, co.rho));
    });
    ctx.group("levels", 450, 4_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let rcs: Vec<RcInstrument> = eqs.iter().map(|e| InsM::Eq(e.clone()).rc()).collect();
        let co = gen_correl(&mut c.rng, eqs.iter().map(|e| e.id.clone()).collect());
        let ctxt = Both { md: &md, co: &co };
        let obs = gen_obs(&mut c.rng, m.base);
        let np = 10_000;
        c.note(format!("{:?} {:?}", obs, m));
        let seen: Option<Vec<Vec<Obs>>> = rcs.iter().map(|i| observed(&md, i, &obs)).collect();
        let seen = match seen { Some(x) => x, None => c.skip("market not usable") };
        let st: Option<Vec<Vec<f64>>> = seen.iter().map(|o| steps(o)).collect();
        let st = match st { Some(s) => s, None => c.skip("falling variance") };
        if st.iter().any(|s| s.iter().sum::<f64>() > 0.25) { c.skip("too much variance to sample") }
        let subs = c.ok("substepping", calculate_substepping(&obs, &ctxt, &rcs, 0.01));
        let g = c.ok("gaussians", fetch_correlated_gaussians(&ctxt, &rcs, 20, &subs, np));
        let paths = c.ok("paths", fetch_paths(&obs, &g, &ctxt, &rcs, &subs, np));
        let n = np as f64;
        for a in 0..2 {
            let (mut m2, mut m4) = (1.0f64, 1.0f64);
            let sd_max = st[a].iter().zip(subs.iter()).map(|(v, s)| (v / *s as f64).sqrt()).fold(0.0, f64::max);
            for (j, o) in seen[a].iter().enumerate() {
                let v = st[a][j] / subs[j] as f64;
                m2 *= (1.0 + v).powi(subs[j] as i32);
                m4 *= (1.0 + 6.0 * v + 3.0 * v * v).powi(subs[j] as i32);
                if (o.f - o.dis).abs() < 1e-6 * o.f { continue }
                let p: Vec<f64> = (0..np).map(|i| (paths[(i, j, a)] - o.dis) / (o.f - o.dis)).collect();
                if m2 > 1.0 + 1e-12 {
                    within(c, "levels average to the forward", p.iter().sum::<f64>() / n, 1.0, (m2 - 1.0).sqrt() + 1e-9, n);
                    within(c, "variance of the levels", p.iter().map(|x| x * x).sum::<f64>() / n, m2, (m4 - m2 * m2).max(0.0).sqrt() + 1e-9, n);
                    // to first order in the step, the variance of the logarithm is the surface's
                    if p.iter().all(|x| *x > 0.0) && o.var > 1e-6 {
                        let l: Vec<f64> = p.iter().map(|x| x.ln()).collect();
                        let mean = l.iter().sum::<f64>() / n;
                        let lv = l.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / n;
                        c.check("log-variance of the levels", (lv / o.var - 1.0).abs() < Z * (2.2 / n).sqrt() + 4.0 * sd_max * sd_max, || format!("{} want {}", lv, o.var));
                    }
                }
                let worst = g.subview(Axis(2), a).iter().fold(0.0f64, |x, y| x.max(y.abs()));
                if worst * sd_max < 1.0 && o.f > o.dis { c.check("positive for small steps", p.iter().all(|x| *x > 0.0), || "negative".into()) }
            }
        }
        // the requested correlation, in the first step's levels
        let p = |i: usize, a: usize| (paths[(i, 0, a)] - seen[a][0].dis) / (seen[a][0].f - seen[a][0].dis) - 1.0;
        let (v0, v1, rho) = (st[0][0] / subs[0] as f64, st[1][0] / subs[0] as f64, co.rho[0][1]);
        if v0 > 1e-8 && v1 > 1e-8 {
            let want = (1.0 + rho * (v0 * v1).sqrt()).powi(subs[0] as i32) - 1.0;
            let got = (0..np).map(|i| p(i, 0) * p(i, 1)).sum::<f64>() / n;
            let scale = (subs[0] as f64) * (v0 * v1).sqrt();
            c.check("correlation of the levels", (got - want).abs() < 2.0 * Z * scale / n.sqrt(), || format!("{} want {} scale {}", got, want, scale));
        }
        c.sig(&format!("{:?}", obs));
        c.sample(format!("{:?} {:?}", obs, subs));
    });
    ctx.group("correlation refused", 200, 3_000, |c| {
        // no set of variables has these correlations
        let ids: Vec<String> = (0..3).map(|i| format!("EQ{}", i)).collect();
        let x = c.rng.f(0.75, 0.99);
        let co = Correl { ids: ids.clone(), rho: vec![vec![1.0, x, -x], vec![x, 1.0, x], vec![-x, x, 1.0]] };
        let rcs: Vec<RcInstrument> = ids.iter().map(|i| InsM::Eq(EqM { id: i.clone(), credit: "LSE".into(), rule: RuleM::Null }).rc()).collect();
        c.note(format!("{}", x));
        c.check("impossible correlations refused", fetch_correlated_gaussians(&co, &rcs, 20, &[1], 2).is_err(), || "accepted".into());
        c.sig(&format!("{}", x));
    });
}

fn prefetch(c: &mut Case, rc: &RcInstrument, md: &MarketData) -> Box<PricingContextPrefetch> {
    let mut d = DependencyCollector::new(md.spot_date());
    d.spot(rc);
    Box::new(c.ok("context", PricingContextPrefetch::new(md, Arc::new(d))))
}

fn timeline(c: &mut Case, rc: &RcInstrument, base: i32) -> MonteCarloTimeline {
    let mut t = MonteCarloTimeline::new(dj(base));
    match rc.as_mc_priceable() { Some(mc) => c.ok("dependencies", mc.mc_dependencies(&[], &mut t)), None => c.abort("not priceable by Monte-Carlo") }
    c.ok("collate", t.collate());
    t
}

/// supplies given paths, and records what is made of them
struct Given<'a> { md: &'a MarketData, und: String, paths: Array2<f64>, got: RefCell<Option<Array2<f64>>>, answer: f64 }

impl<'a> MonteCarloContext for Given<'a> {
    fn paths(&self, i: &RcInstrument) -> Result<ArrayView2<f64>, qm::Error> { if i.id() == self.und { Ok(self.paths.view()) } else { Err(qm::Error::new("no paths")) } }
    fn evaluate_flows(&self, q: ArrayView2<f64>) -> Result<f64, qm::Error> { *self.got.borrow_mut() = Some(q.to_owned()); Ok(self.answer) }
    fn pricing_context(&self) -> &dyn PricingContext { self.md }
}

/// an option that Monte-Carlo can price, with its observations in order and in the future
fn mc_option(r: &mut Rng, m: &Mkt, e: &EqM) -> OptM {
    let mut o = gen_option(r, m, &InsM::Eq(e.clone()), "O");
    o.expiry.0 += r.int(2, 60);
    if let StrikeM::Fwd(_, d) = &mut o.strike { if d.0 == m.base { d.0 += 1 } }
    o
}

fn obs_of(o: &OptM) -> Vec<DateDayFraction> {
    let mut v = Vec::new();
    if let StrikeM::Fwd(_, d) = o.strike { v.push(ddf(frac(d))) }
    v.push(ddf(frac(o.expiry)));
    v
}

fn payoff(o: &OptM, path: &[f64]) -> f64 {
    match o.strike { StrikeM::Fixed(k) => o.payoff(path[0], k), StrikeM::Fwd(x, _) => o.payoff(path[1], x * path[0]) }
}

fn factory(sub: f64, n: usize) -> RcMonteCarloModelFactory { RcMonteCarloModelFactory::new(Arc::new(BlackDiffusionFactory::new(20, sub, n))) }

/// what the simulation should come to, and a bound on the standard deviation of one path
fn expected(o: &OptM, m: &Mkt, seen: &[Obs]) -> Option<(f64, f64)> {
    let df = o.df(m, m.base, Disc::Own)?;
    let e = seen.last()?;
    let (fd, sd) = (e.f - e.dis, e.var);
    if fd <= 0.0 { return None }
    match o.strike {
        StrikeM::Fixed(k) => {
            let kd = k - e.dis;
            let p = if kd <= 0.0 { if o.call { df * (fd - kd) } else { 0.0 } } else { black(o.call, df, fd, kd, sd.sqrt()) };
            Some((p, df * fd * (sd.exp() - 1.0).sqrt()))
        }
        StrikeM::Fwd(x, _) => {
            let s = &seen[0];
            if s.dis != 0.0 || e.dis != 0.0 || e.var < s.var { return None }
            Some((black(o.call, df, fd, x * s.f, (e.var - s.var).sqrt()), df * (fd + x * s.f) * (sd.exp() - 1.0).sqrt()))
        }
    }
}

fn p03(ctx: &mut Ctx) {
    ctx.group("payoffs", 100000, 800_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 1);
        let md = data(c, &m);
        let o = mc_option(&mut c.rng, &m, &eqs[0]);
        c.note(format!("{:?}", o));
        let np = 1 + c.rng.below(20);
        let no = obs_of(&o).len();
        let mut paths = Array2::<f64>::zeros((np, no));
        for x in paths.iter_mut() { *x = m.spots[&eqs[0].id] * c.rng.f(0.0, 3.0) }
        let g = Given { md: &md, und: eqs[0].id.clone(), paths, got: RefCell::new(None), answer: c.rng.normal() };
        let rc = o.rc();
        let p = c.ok("price", rc.as_mc_priceable().unwrap().mc_price(&g));
        c.check("the price is what the flows are worth", p.to_bits() == g.answer.to_bits(), || format!("{} vs {}", p, g.answer));
        let q = g.got.borrow().clone();
        let q = match q { Some(q) => q, None => { c.fail("no flows valued"); return } };
        c.check("shape of the flows", q.shape() == [np, 1], || format!("{:?}", q.shape()));
        for i in 0..np {
            let row: Vec<f64> = g.paths.subview(Axis(0), i).iter().cloned().collect();
            c.close("payoff on a path", q[(i, 0)], payoff(&o, &row), 1e-12, 1e-12 * row[0].abs());
        }
        c.sig(&format!("{:?}", o));
    });
    ctx.group("average", 30000, 200_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 1);
        let md = data(c, &m);
        let o = mc_option(&mut c.rng, &m, &eqs[0]);
        c.note(format!("{:?} {:?}", o, m));
        let rc = o.rc();
        let np = 1 + c.rng.size(60, 600);
        let t = timeline(c, &rc, m.base);
        let ct = prefetch(c, &rc, &md);
        let und = InsM::Eq(eqs[0].clone()).rc();
        let ok = observed(&md, &und, &obs_of(&o)).and_then(|s| steps(&s)).is_some();
        let sub = c.rng.f(0.02, 0.5);
        let model = match BlackDiffusion::new(&t, ct, 20, sub, np) { Ok(m) => m, Err(e) => { if ok { c.fail(format!("model: {}", e)) } else { c.ev("falling variance refused") } return } };
        let p = rc.as_mc_priceable().unwrap().mc_price(&model);
        let df = o.df(&m, m.base, Disc::Own);
        let paths = c.ok("paths", model.paths(&und)).to_owned();
        c.check("shape of the paths", paths.shape() == [np, obs_of(&o).len()], || format!("{:?}", paths.shape()));
        match (p, df) {
            (Ok(p), Some(df)) => {
                let pays: Vec<f64> = (0..np).map(|i| { let row: Vec<f64> = paths.subview(Axis(0), i).iter().cloned().collect(); payoff(&o, &row) }).collect();
                let want = pays.iter().sum::<f64>() / np as f64 * df;
                c.close("discounted average of the payoff", p, want, 1e-10, 1e-10 * m.spots[&eqs[0].id]);
                // each flow on its own, in full
                let mut q = Array2::<f64>::zeros((np, 1));
                let i = c.rng.below(np);
                q[(i, 0)] = np as f64;
                let v = c.ok("flows", model.evaluate_flows(q.view()));
                c.close("a flow is discounted from its payment", v, df, 1e-10, 1e-12);
            }
            (Err(_), None) => c.ev("error both ways"),
            (p, d) => c.fail(format!("price {:?} discount {:?}", p.ok(), d))
        }
        c.check("unknown underlyings refused", model.paths(&InsM::Eq(EqM { id: "NOBODY".into(), credit: "LSE".into(), rule: RuleM::Null }).rc()).is_err(), || "accepted".into());
        c.sig(&format!("{:?}", o));
        c.sample(format!("{:?}", o));
    });
    ctx.group("convergence", 1600, 12_000, |c| {
        let (mut m, eqs) = gen_mkt(&mut c.rng, 1);
        if c.rng.chance(0.5) { let v = gen_flat_vol(&mut c.rng, (m.base, 0.0)); m.vols.insert(eqs[0].id.clone(), v); }
        let md = data(c, &m);
        let o = mc_option(&mut c.rng, &m, &eqs[0]);
        let np = *c.rng.pick(&[300, 1_000, 3_000, 10_000]);
        c.note(format!("{} paths {:?} {:?}", np, o, m));
        let rc = o.rc();
        let und = InsM::Eq(eqs[0].clone()).rc();
        let seen = match observed(&md, &und, &obs_of(&o)) { Some(s) => s, None => c.skip("market not usable") };
        if steps(&seen).is_none() { c.skip("falling variance") }
        let var = seen.last().unwrap().var;
        if var > 0.15 { c.skip("too much variance to sample") }
        let (want, sd) = match expected(&o, &m, &seen) { Some(x) => x, None => c.skip("no formula") };
        let sub = 0.001;
        let f = MonteCarloPricerFactory::new(factory(sub, np));
        let t = RcFixingTable::new(Arc::new(FixingTable::from_fixings(dj(m.base), &[]).unwrap()));
        let p = c.ok("pricer", PricerFactory::new(&f, rc.clone(), t, RcMarketData::new(Arc::new(m.try_data().unwrap()))));
        let got = c.ok("price", p.price());
        // finite steps distort the distribution slightly
        let bias = 3.0 * sub.sqrt() * sd * var.sqrt() + 1e-9 * seen[0].f;
        let tol = Z * sd / (np as f64).sqrt() + bias;
        c.check("price converges", (got - want).abs() <= tol, || format!("{} want {} within {}", got, want, tol));
        if want > 4.0 * tol { c.ev("converged to a few percent") }
        if let (VolM::Flat(..), true) = (&m.vols[&eqs[0].id], o.credit == eqs[0].credit) {
            if let Ok(a) = fresh(&[(1.0, rc.clone())], &md).and_then(|p| p.price()) { c.check("agrees with the self-pricer", (got - a).abs() <= tol, || format!("{} vs {} within {}", got, a, tol)) }
        }
        // several of them, or some sold
        if c.rng.chance(0.3) {
            let w = match c.rng.below(3) { 0 => -1.0, 1 => 0.0, _ => c.rng.f(-4.0, 4.0) };
            c.add_note(format!("weight {}", w));
            let p = c.ok("pricer", MonteCarloPricer::new(vec![(w, rc.clone())], factory(sub, np), &md));
            let got = c.ok("price", p.price());
            c.check("a weighted price", (got - w * want).abs() <= w.abs() * tol, || format!("{} want {} times {} within {}", got, w, want, w.abs() * tol));
        }
        c.sig(&format!("{:?}", o));
        c.sample(format!("{} paths {:?}", np, o));
    });
    ctx.group("fixings", 1_000, 8_000, |c| {
        // the strike fixed before today, or the whole option long past
        let (mut m, eqs) = gen_mkt(&mut c.rng, 1);
        if c.rng.chance(0.5) { let v = gen_flat_vol(&mut c.rng, (m.base, 0.0)); m.vols.insert(eqs[0].id.clone(), v); }
        let md = data(c, &m);
        let mut o = mc_option(&mut c.rng, &m, &eqs[0]);
        let id = eqs[0].id.clone();
        let level = m.spots[&id] * c.rng.f(0.7, 1.4);
        let at = (m.base - c.rng.int(1, 60), quantmath::dates::datetime::TimeOfDay::Close);
        let np = *c.rng.pick(&[300, 1_000, 3_000]);
        let table = |t: (i32, quantmath::dates::datetime::TimeOfDay), v: f64| RcFixingTable::new(Arc::new(Tab { until: m.base, v: vec![(id.clone(), t, v)] }.real()));
        let sub = 0.001;
        let f = MonteCarloPricerFactory::new(factory(sub, np));
        let rm = RcMarketData::new(Arc::new(m.try_data().unwrap()));
        if c.rng.chance(0.2) {
            o.expiry = at;
            o.phys = false;
            let out = if o.call { 1.2 } else { 0.8 };
            o.strike = StrikeM::Fixed(level * out);
            c.note(format!("expired {:?} at {} {:?}", o, level, m));
            match PricerFactory::new(&f, o.rc(), table(at, level), rm).and_then(|p| p.price()) {
                Ok(p) => c.check("expired without value", p == 0.0, || format!("{}", p)),
                Err(_) => c.ev("nothing left to simulate")
            }
            c.sig(&format!("{:?}", o));
            return
        }
        let x = c.rng.f(0.7, 1.3);
        o.strike = StrikeM::Fwd(x, at);
        let mut s = o.clone();
        s.strike = StrikeM::Fixed(x * level);
        c.note(format!("{} paths {:?} fixed at {} {:?}", np, o, level, m));
        let und = InsM::Eq(eqs[0].clone()).rc();
        let seen = match observed(&md, &und, &obs_of(&s)) { Some(s) => s, None => c.skip("market not usable") };
        if steps(&seen).is_none() { c.skip("falling variance") }
        let var = seen.last().unwrap().var;
        if var > 0.15 { c.skip("too much variance to sample") }
        let (want, sd) = match expected(&s, &m, &seen) { Some(x) => x, None => c.skip("no formula") };
        let p = c.ok("pricer", PricerFactory::new(&f, o.rc(), table(at, level), rm));
        let got = c.ok("price", p.price());
        let tol = Z * sd / (np as f64).sqrt() + 3.0 * sub.sqrt() * sd * var.sqrt() + 1e-9 * seen[0].f;
        c.check("price with a fixed strike", (got - want).abs() <= tol, || format!("{} want {} within {}", got, want, tol));
        c.sig(&format!("{:?}", o));
    });
    ctx.group("refusals", 2_000, 20_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let mut n = 0;
        let i = gen_ins(&mut c.rng, &m, &eqs, 1, &mut n);
        if let InsM::Opt(_) = i { c.skip("an option") }
        c.note(format!("{:?}", i));
        c.check("what cannot be simulated is refused", MonteCarloPricer::new(vec![(1.0, i.rc())], factory(0.1, 2), &md).is_err(), || "accepted".into());
        c.sig(&format!("{:?}", i));
    });
}

fn rows(model: &BlackDiffusion, und: &RcInstrument) -> Option<Vec<Vec<u64>>> {
    let p = model.paths(und).ok()?;
    Some(p.axis_iter(Axis(0)).map(|r| r.iter().map(|x| x.to_bits()).collect()).collect())
}

fn p04(ctx: &mut Ctx) {
    ctx.group("same numbers", 40000, 300_000, |c| {
        // with one substep the random numbers can be read off the paths,
        // and the paths after a bump predicted exactly
        let (m0, eqs) = gen_mkt(&mut c.rng, 2);
        let mut md = data(c, &m0);
        let o = mc_option(&mut c.rng, &m0, &eqs[0]);
        let rc = o.rc();
        let und = InsM::Eq(eqs[0].clone()).rc();
        let obs = obs_of(&o);
        let np = 1 + c.rng.size(10, 200);
        c.note(format!("{:?} {:?}", o, m0));
        let seen = match observed(&md, &und, &obs) { Some(s) => s, None => c.skip("market not usable") };
        let st = match steps(&seen) { Some(s) => s, None => c.skip("falling variance") };
        if st.iter().any(|v| *v < 1e-6) || seen.iter().any(|o| o.f - o.dis < 1e-3 * o.f) { c.skip("nothing to see") }
        let t = timeline(c, &rc, m0.base);
        let ct = prefetch(c, &rc, &md);
        let mut model = c.ok("model", BlackDiffusion::new(&t, ct, 20, 1e9, np));
        let first = model.paths(&und).unwrap().to_owned();
        let g: Vec<Vec<f64>> = (0..np).map(|p| { let mut prev = 1.0; (0..obs.len()).map(|j| {
            let level = (first[(p, j)] - seen[j].dis) / (seen[j].f - seen[j].dis);
            let x = (level / prev - 1.0) / st[j].sqrt(); prev = level; x }).collect() }).collect();
        let mut m = m0.clone();
        // market data cannot be moved in time on its own
        let mut pc = *prefetch(c, &rc, &md);
        let mut moved = false;
        let mut stack: Vec<(Box<dyn Saveable>, Mkt, MarketData, PricingContextPrefetch, Vec<Vec<u64>>)> = Vec::new();
        for _ in 0..1 + c.rng.below(6) {
            match c.rng.below(10) {
                0..=5 => {
                    let b = gen_bump(&mut c.rng, &eqs);
                    c.add_note(format!("{:?}", b));
                    let keep = (m.clone(), md.clone(), pc.clone(), rows(&model, &und).unwrap());
                    let eff = b.apply(&mut m);
                    if obs.iter().any(|d| m.fwd(&eqs[0], d.date().truncated_julian()).map_or(false, |f| f <= 0.0)) { c.skip("worth less than its dividends") }
                    c.ok("plain bump", md.bump(&b.real(), None));
                    let known = pc.bump(&b.real(), None).is_ok();
                    let usable = known && observed(if moved { &pc as &dyn PricingContext } else { &md }, &und, &obs).and_then(|s| steps(&s)).is_some();
                    let mut s = model.new_saveable();
                    match model.bump(&b.real(), Some(&mut *s)) {
                        Ok(x) => { c.check("bump reports its effect", x == eff, || format!("{:?}: {}", b, x));
                            if b.id() != eqs[0].id && b.id() != eqs[0].credit { c.check("bump of something else", rows(&model, &und).unwrap() == keep.3, || format!("{:?}", b)) } }
                        Err(e) => { if usable { c.fail(format!("{:?}: {}", b, e)) } c.ev("falling variance refused"); return }
                    }
                    stack.push((s, keep.0, keep.1, keep.2, keep.3));
                }
                6 | 7 => if let Some((s, a, b, d, p)) = stack.pop() {
                    c.add_note("restore".to_string());
                    c.ok("restore", model.restore(&*s));
                    c.check("paths restored exactly", rows(&model, &und).unwrap() == p, || "differ".into());
                    m = a; md = b; pc = d;
                },
                8 => {
                    let q = model.clone();
                    c.check("a clone has the same paths", rows(&q, &und) == rows(&model, &und), || "differ".into());
                    let b = BumpM::SpotRel(eqs[0].id.clone(), 0.1);
                    if model.bump(&b.real(), None).is_err() { c.ev("falling variance refused"); return }
                    b.apply(&mut m);
                    c.ok("plain bump", md.bump(&b.real(), None));
                    c.ok("plain bump", pc.bump(&b.real(), None));
                    c.check("a clone stays put", rows(&q, &und) != rows(&model, &und), || "moved along".into());
                    stack.clear();
                }
                _ => {
                    let to = m.base + c.rng.int(0, 30);
                    if to >= obs[0].date().truncated_julian() { continue }
                    let b = Bump::new_spot_date(BumpSpotDate::new(dj(to), SpotDynamics::StickySpot));
                    c.add_note(format!("to {}", to));
                    let mut pc2 = pc.clone();
                    c.ok("plain move", pc2.bump(&b, None));
                    if observed(&pc2, &und, &obs).and_then(|s| steps(&s)).is_none() { continue }
                    c.ok("move", model.bump(&b, None));
                    m.base = to;
                    pc = pc2;
                    moved = true;
                    stack.clear();
                    c.ev("moved in time");
                }
            }
            let now = match observed(if moved { &pc as &dyn PricingContext } else { &md }, &und, &obs) { Some(s) => s, None => c.skip("market not usable") };
            let st = match steps(&now) { Some(s) => s, None => c.skip("falling variance") };
            let p = model.paths(&und).unwrap().to_owned();
            for (i, g) in g.iter().enumerate() {
                let mut level = 1.0;
                let mut size = 1.0;
                for j in 0..obs.len() {
                    level *= 1.0 + g[j] * st[j].sqrt();
                    size *= 1.0 + g[j].abs() * st[j].sqrt();
                    c.close("same random numbers after a bump", p[(i, j)], level * (now[j].f - now[j].dis) + now[j].dis, 1e-8, 1e-9 * size * (now[j].f.abs() + now[j].dis.abs()));
                }
            }
        }
        c.sig(&format!("{:?}", o));
        c.sample(format!("{:?}", o));
    });
    ctx.group("several assets", 30000, 300_000, |c| {
        // the same with several assets that move together, often of one credit entity
        let k = 2 + c.rng.below(3);
        let (m0, mut eqs) = gen_mkt(&mut c.rng, k);
        if c.rng.chance(0.5) { for e in eqs.iter_mut() { e.credit = "LSE".into() } }
        let mut md = data(c, &m0);
        let rcs: Vec<RcInstrument> = eqs.iter().map(|e| InsM::Eq(e.clone()).rc()).collect();
        let obs = gen_obs(&mut c.rng, m0.base);
        let np = 1 + c.rng.below(6);
        c.note(format!("{:?} {:?} {:?}", obs, eqs, m0));
        let look = |md: &MarketData| -> Option<Vec<(Vec<Obs>, Vec<f64>)>> { rcs.iter().map(|i| { let s = observed(md, i, &obs)?; let t = steps(&s)?; Some((s, t)) }).collect() };
        let seen = match look(&md) { Some(s) => s, None => c.skip("market not usable") };
        if seen.iter().any(|(s, t)| t.iter().any(|v| *v < 1e-6) || s.iter().any(|o| o.f - o.dis < 1e-3 * o.f)) { c.skip("nothing to see") }
        let co = gen_correl(&mut c.rng, eqs.iter().map(|e| e.id.clone()).collect());
        let mut t = MonteCarloTimeline::new(dj(m0.base));
        let mut d = DependencyCollector::new(dj(m0.base));
        let last = obs[obs.len() - 1].date();
        for rc in rcs.iter() { d.spot(rc); d.forward_curve(rc, last); d.vol_surface(rc, last); for o in obs.iter() { t.observation(rc, *o) } }
        c.ok("collate", t.collate());
        let pc = c.ok("context", PricingContextPrefetch::new(&md, Arc::new(d)));
        let mut model = c.ok("model", BlackDiffusion::new(&t, Box::new(Multi { pc, co: Arc::new(co) }), 20, 1e9, np));
        let g: Vec<Vec<Vec<f64>>> = rcs.iter().zip(seen.iter()).map(|(i, (s, st))| { let first = model.paths(i).unwrap().to_owned();
            (0..np).map(|p| { let mut prev = 1.0; (0..obs.len()).map(|j| {
                let level = (first[(p, j)] - s[j].dis) / (s[j].f - s[j].dis);
                let x = (level / prev - 1.0) / st[j].sqrt(); prev = level; x }).collect() }).collect() }).collect();
        let mut m = m0.clone();
        let all = |model: &BlackDiffusion| -> Vec<Vec<Vec<u64>>> { rcs.iter().map(|i| rows(model, i).unwrap()).collect() };
        let mut stack: Vec<(Box<dyn Saveable>, Mkt, MarketData, Vec<Vec<Vec<u64>>>)> = Vec::new();
        for _ in 0..1 + c.rng.below(5) {
            if c.rng.chance(0.7) || stack.is_empty() {
                let b = if c.rng.chance(0.35) { BumpM::YieldCont(eqs[0].credit.clone(), c.rng.f(-0.02, 0.03)) } else { gen_bump(&mut c.rng, &eqs) };
                let save = !stack.is_empty() || c.rng.chance(0.6);
                c.add_note(format!("{:?} saved {}", b, save));
                let keep = (m.clone(), md.clone(), all(&model));
                let eff = b.apply(&mut m);
                if eqs.iter().any(|e| obs.iter().any(|d| m.fwd(e, d.date().truncated_julian()).map_or(false, |f| f <= 0.0))) { c.skip("worth less than its dividends") }
                c.ok("plain bump", md.bump(&b.real(), None));
                let usable = look(&md).is_some();
                let mut s = model.new_saveable();
                match model.bump(&b.real(), if save { Some(&mut *s) } else { None }) {
                    Ok(x) => c.check("bump reports its effect", x == eff, || format!("{:?}: {}", b, x)),
                    Err(e) => { if usable { c.fail(format!("{:?}: {}", b, e)) } c.ev("falling variance refused"); return }
                }
                for (i, (e, old)) in eqs.iter().zip(keep.2.iter()).enumerate() {
                    if b.id() != e.id && b.id() != e.credit { c.check("bump of something else", rows(&model, &rcs[i]).unwrap() == *old, || format!("{:?} moved {}", b, e.id)) }
                }
                if save { stack.push((s, keep.0, keep.1, keep.2)) }
            } else if let Some((s, a, b, p)) = stack.pop() {
                c.add_note("restore".to_string());
                c.ok("restore", model.restore(&*s));
                c.check("all paths restored exactly", all(&model) == p, || "differ".into());
                m = a; md = b;
            }
            let now = match look(&md) { Some(s) => s, None => c.skip("market not usable") };
            for (a, (s, st)) in now.iter().enumerate() {
                let p = model.paths(&rcs[a]).unwrap().to_owned();
                for i in 0..np {
                    let (mut level, mut size) = (1.0, 1.0);
                    for j in 0..obs.len() {
                        let x = g[a][i][j] * st[j].sqrt();
                        level *= 1.0 + x;
                        size *= 1.0 + x.abs();
                        c.close("same random numbers for every asset", p[(i, j)], level * (s[j].f - s[j].dis) + s[j].dis, 1e-8, 1e-8 * size * (s[j].f.abs() + s[j].dis.abs()));
                    }
                }
            }
        }
        c.sig(&format!("{:?}{:?}", obs, eqs));
        c.sample(format!("{:?} {:?}", obs, eqs));
    });
    ctx.group("pricer", 15000, 100_000, |c| {
        let (m, eqs) = gen_mkt(&mut c.rng, 2);
        let md = data(c, &m);
        let o = mc_option(&mut c.rng, &m, &eqs[0]);
        c.note(format!("{:?} {:?}", o, m));
        let rc = o.rc();
        let mut p = match MonteCarloPricer::new(vec![(c.rng.f(-3.0, 3.0), rc.clone())], factory(0.1, 50), &md) { Ok(p) => p, Err(_) => c.skip("market not usable") };
        let base = c.ok("price", p.price());
        c.check("the same price again", c.ok2(p.price()) == Some(base.to_bits()), || "differs".into());
        let mut mb = m.clone();
        let mut stack: Vec<(Box<dyn Saveable>, u64)> = Vec::new();
        for _ in 0..1 + c.rng.below(8) {
            match c.rng.below(6) {
                0 | 1 | 2 => {
                    let b = gen_bump(&mut c.rng, &eqs);
                    c.add_note(format!("{:?}", b));
                    b.apply(&mut mb);
                    if obs_of(&o).iter().any(|d| mb.fwd(&eqs[0], d.date().truncated_julian()).map_or(false, |f| f <= 0.0)) { c.skip("worth less than its dividends") }
                    let before = c.ok("price", p.price());
                    let mut s = p.new_saveable();
                    match p.bump(&b.real(), Some(&mut *s)) { Ok(_) => {}, Err(_) => { c.ok("restore", p.restore(&*s)); c.check("restored after failure", c.ok2(p.price()) == Some(before.to_bits()), || "differs".into()); continue } }
                    let after = c.ok("price", p.price());
                    let mine = b.id() == eqs[0].id || b.id() == eqs[0].credit || b.id() == o.credit;
                    if !mine { c.check("irrelevant bumps leave the price alone", after.to_bits() == before.to_bits(), || format!("{:?}", b)) } else if after != before { c.ev("price changed by a bump") }
                    stack.push((s, before.to_bits()));
                }
                3 => if let Some((s, v)) = stack.pop() { c.ok("restore", p.restore(&*s)); c.check("restored exactly", c.ok2(p.price()) == Some(v), || "differs".into()) },
                4 => {
                    let before = c.ok("price", p.price());
                    let mut q = p.clone();
                    c.check("a clone has the same price", c.ok2(q.price()) == Some(before.to_bits()), || "differs".into());
                    let _ = q.bump(&BumpM::SpotRel(eqs[0].id.clone(), 0.2).real(), None);
                    c.check("the original stays put", c.ok2(p.price()) == Some(before.to_bits()), || "moved along".into());
                }
                _ => {
                    // moving by no time at all
                    let before = c.ok("price", p.price());
                    let mut q = p.clone();
                    match q.bump_time(&BumpTime::new(dj(m.base), dj(m.base), SpotDynamics::StickySpot)) {
                        Ok(()) => c.check("moving by no time leaves the price alone", q.price().ok().map_or(false, |v| close(v, before, 1e-11, 1e-11 * m.spots[&eqs[0].id])), || format!("{:?} vs {}", q.price().ok(), before)),
                        Err(e) => c.fail(format!("moving by no time: {}", e))
                    }
                }
            }
        }
        while let Some((s, v)) = stack.pop() { c.ok("restore", p.restore(&*s)); c.check("restored exactly", c.ok2(p.price()) == Some(v), || "differs".into()) }
        c.check("back to the start", c.ok2(p.price()) == Some(base.to_bits()), || "differs".into());
        c.sig(&format!("{:?}", o));
    });
    ctx.group("differences", 1200, 10_000, |c| {
        let (mut m, eqs) = gen_mkt(&mut c.rng, 1);
        let v = VolM::Flat(c.rng.f(0.05, 0.3), gen_volcal(&mut c.rng, m.base), (m.base, 0.0));
        m.vols.insert(eqs[0].id.clone(), v);
        let md = data(c, &m);
        let mut o = mc_option(&mut c.rng, &m, &eqs[0]);
        o.credit = eqs[0].credit.clone();
        let (np, sub) = (2_000, 0.001);
        c.note(format!("{:?} {:?}", o, m));
        let rc = o.rc();
        let und = InsM::Eq(eqs[0].clone()).rc();
        let seen = match observed(&md, &und, &obs_of(&o)) { Some(s) => s, None => c.skip("market not usable") };
        let var = seen.last().unwrap().var;
        if steps(&seen).is_none() || var > 0.1 || var < 1e-4 { c.skip("variance out of range") }
        let mut p = c.ok("pricer", MonteCarloPricer::new(vec![(1.0, rc.clone())], factory(sub, np), &md));
        let mut a = c.ok("self-pricer", fresh(&[(1.0, rc.clone())], &md));
        let b = c.rng.f(0.0005, 0.005);
        let bump = if c.rng.chance(0.5) { BumpM::SpotRel(eqs[0].id.clone(), b) } else { BumpM::YieldCont(eqs[0].credit.clone(), b) };
        let (p0, a0) = (c.ok("price", p.price()), c.ok("price", a.price()));
        if c.rng.chance(0.5) {
            c.ok("bump", p.bump(&bump.real(), None));
            c.ok("bump", a.bump(&bump.real(), None));
            let (dp, da) = (c.ok("price", p.price()) - p0, c.ok("price", a.price()) - a0);
            // each path moves by about the bump, whatever its level
            let f = seen.last().unwrap().f * match o.strike { StrikeM::Fwd(x, _) => 1.0 + x, _ => 1.0 };
            let tol = b * f * 4.0 * (Z / (np as f64).sqrt() * 1.0 + 3.0 * sub.sqrt() * var.sqrt());
            c.check("difference like the analytic one", (dp - da).abs() <= tol, || format!("{:?}: {} vs {} within {}", bump, dp, da, tol));
            // other random numbers would show
            if 2.0 * tol < seen.last().unwrap().f * var.sqrt() / (np as f64).sqrt() { c.ev("sharper than independent draws") }
        } else {
            let days = c.rng.int(1, 40);
            let to = m.base + days;
            if to >= o.expiry.0 { c.skip("past the expiry") }
            let sticky = if c.rng.chance(0.5) { SpotDynamics::StickyForward } else { SpotDynamics::StickySpot };
            c.add_note(format!("to {}", to));
            let t = BumpTime::new(dj(to), dj(to), sticky);
            match (p.bump_time(&t), a.bump_time(&t)) {
                (Ok(()), Ok(())) => {
                    let (x, y) = (c.ok("price", p.price()), c.ok("price", a.price()));
                    let sd = seen.last().unwrap().f * 2.5 * ((var * 1.3).exp() - 1.0).sqrt();
                    let tol = Z * sd / (np as f64).sqrt() + 3.0 * sub.sqrt() * sd * var.sqrt();
                    c.check("price after moving in time", (x - y).abs() <= tol, || format!("{} vs {} within {}", x, y, tol));
                    if let StrikeM::Fwd(_, d) = o.strike { if d.0 < to { c.ev("moved past the strike date") } }
                }
                (x, y) => c.fail(format!("moving: {:?} {:?}", x.err().map(|e| e.to_string()), y.err().map(|e| e.to_string())))
            }
        }
        c.sig(&format!("{:?}", o));
        c.sample(format!("{:?} {:?}", bump, o));
    });
}

const CHANCE: &str = "The library draws its own random numbers; statistical bounds are set at eight standard errors, so a chance alarm is less likely than one in 1e11 observations.";

pub const PROPS: &[Prop] = &[
    Prop { id: "P01", run: p01,
        rule: "For generated markets, observation dates, substeps and given Gaussians, every point of every path equals the stated recursion evaluated independently; the number of substeps is the least that meets the bound; zero Gaussians give the forward; timelines keep observations and flows in order.",
        assumptions: &["Forward, variance and displacement at each date are taken from the market data, which other checks compare with the reference model."],
        need: &[("point on a path", 2000), ("paths one at a time", 2000), ("no randomness, the forward", 500), ("substeps as small as asked", 2000), ("more than one substep", 500), ("flows in order", 500), ("observations of an option", 500)] },
    Prop { id: "P02", run: p02,
        rule: "Sampled Gaussians and levels are compared with their exact moments: mean, variance, distribution function, correlation, independence across steps and paths, mean and second moment of the levels, log-variance.",
        assumptions: &[CHANCE],
        need: &[("mean", 50), ("variance", 50), ("normally distributed", 50), ("correlation", 50), ("no dependence across time", 50), ("no dependence across paths", 50), ("levels average to the forward", 50), ("variance of the levels", 50), ("log-variance of the levels", 50), ("another run draws other numbers", 50), ("impossible correlations refused", 50), ("positive for small steps", 50)] },
    Prop { id: "P03", run: p03,
        rule: "On given paths every payoff equals the contract's; on simulated paths the price equals the discounted average of the payoff; with fine steps the price agrees with the closed formula, and with the self-pricer for flat volatility, within a bound shrinking with the number of paths; a weighted position is worth its weight, and an option whose strike has been fixed is worth the fixed one.",
        assumptions: &[CHANCE, "The bound includes an allowance for finite steps."],
        need: &[("payoff on a path", 2000), ("discounted average of the payoff", 1000), ("price converges", 100), ("converged to a few percent", 20), ("agrees with the self-pricer", 30), ("a weighted price", 20), ("price with a fixed strike", 50), ("what cannot be simulated is refused", 200)] },
    Prop { id: "P04", run: p04,
        rule: "With one substep the Gaussians are read off the paths and the paths after every bump, restore, clone and move in time are predicted exactly; restored paths and prices are compared bit for bit; price differences agree with the self-pricer's far more closely than independent draws could.",
        assumptions: &[CHANCE, "Saved bumps are undone latest first."],
        need: &[("same random numbers after a bump", 2000), ("same random numbers for every asset", 2000), ("all paths restored exactly", 500), ("paths restored exactly", 500), ("restored exactly", 1000), ("irrelevant bumps leave the price alone", 500), ("price changed by a bump", 500), ("moved in time", 200), ("difference like the analytic one", 50), ("price after moving in time", 50), ("moved past the strike date", 5), ("sharper than independent draws", 10), ("moving by no time leaves the price alone", 200)] },
];
