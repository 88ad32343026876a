//! D01-D06: dates, calendars and date rules against brute-force day walking.

use crate::fw::{Case, Ctx, Prop};
use crate::rng::Rng;
use quantmath::core::factories::Qrc;
use quantmath::dates::calendar::*;
use quantmath::dates::datetime::{DateDayFraction, DateTime, TimeOfDay};
use quantmath::dates::rules::*;
use quantmath::dates::Date;
use std::str::FromStr;
use std::sync::Arc;

pub const MAXJ: i32 = 200 * 365;

/// Civil date from days since 1970-01-01 (algorithm of Howard Hinnant)
pub fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

/// days since 1970-01-01 of a truncated julian day number (588 = 1970-01-01)
pub fn unix_of(j: i32) -> i64 { j as i64 - 588 }
/// 0 = Monday. 1970-01-01 was a Thursday.
pub fn dow(j: i32) -> i32 { (unix_of(j) + 3).rem_euclid(7) as i32 }
pub fn dj(j: i32) -> Date { Date::from_truncated_julian(j) }

/// Reference model of a calendar: which days are holidays, and what they weigh
#[derive(Clone, Debug)]
pub enum Cal { Every, Week, Hols(Vec<i32>), Vol(Box<Cal>, f64) }

impl Cal {
    pub fn hol(&self, j: i32) -> bool {
        match self {
            Cal::Every => false,
            Cal::Week => dow(j) > 4,
            Cal::Hols(h) => dow(j) > 4 || h.contains(&j),
            Cal::Vol(c, _) => c.hol(j)
        }
    }
    pub fn weight(&self, j: i32) -> f64 {
        match self {
            Cal::Vol(c, w) => if c.hol(j) { *w } else { 1.0 },
            _ => if self.hol(j) { 0.0 } else { 1.0 }
        }
    }
    pub fn basis(&self) -> f64 {
        match self {
            Cal::Every => 365.0,
            Cal::Week | Cal::Hols(_) => 252.0,
            Cal::Vol(c, w) => c.basis() * (1.0 - w) + 365.0 * w
        }
    }
    pub fn rc(&self) -> RcCalendar {
        match self {
            Cal::Every => Qrc::new(Arc::new(EveryDayCalendar::new())),
            Cal::Week => Qrc::new(Arc::new(WeekdayCalendar::new())),
            Cal::Hols(h) => {
                let d: Vec<Date> = h.iter().map(|j| dj(*j)).collect();
                Qrc::new(Arc::new(WeekdayAndHolidayCalendar::new("TST", &d)))
            }
            Cal::Vol(c, w) => Qrc::new(Arc::new(VolatilityCalendar::new("VOL", c.rc(), *w)))
        }
    }
    pub fn count(&self, a: i32, fa: f64, b: i32, fb: f64) -> f64 {
        if a > b { return 0.0 }
        let mut s = 0.0;
        for j in a..=b { s += self.weight(j); }
        s - self.weight(a) * fa - self.weight(b) * (1.0 - fb)
    }
    /// the day reached by slipping off any holiday and then making single moves
    pub fn step(&self, from: i32, step: i32, fwd: bool) -> i32 {
        let dir = if fwd { 1 } else { -1 };
        let mut d = from;
        while self.hol(d) { d += dir; }
        let sdir = step.signum();
        for _ in 0..step.abs() {
            d += sdir;
            while self.hol(d) { d += sdir; }
        }
        d
    }
}

/// a sorted list of distinct weekday holidays around a date, often clustered
pub fn gen_holidays(r: &mut Rng, centre: i32, span: i32) -> Vec<i32> {
    let mut h = Vec::new();
    let mode = r.below(4);
    let p = match mode { 0 => 0.03, 1 => 0.2, 2 => 0.5, _ => 0.8 };
    let mut j = (centre - span).max(10);
    let hi = (centre + span).min(MAXJ - 10);
    let mut run = 0;
    while j < hi {
        if dow(j) <= 4 {
            if run > 0 || r.chance(p) {
                // keep runs finite so that business days always exist nearby
                if h.len() < 2000 && !(h.len() >= 12 && h[h.len() - 12] == j - 15) { h.push(j); }
                if run > 0 { run -= 1 } else if r.chance(0.2) { run = r.int(1, 6) }
            }
        }
        j += 1;
        if mode == 0 && r.chance(0.02) { j += r.int(0, 60) }
    }
    h
}

pub fn gen_basic_cal(r: &mut Rng, centre: i32, span: i32) -> Cal {
    match r.below(6) {
        0 => Cal::Every,
        1 => Cal::Week,
        _ => Cal::Hols(gen_holidays(r, centre, span))
    }
}

pub fn gen_weight(r: &mut Rng) -> f64 {
    match r.below(8) {
        0 => 0.0, 1 => 1.0, 2 => 0.25, 3 => 0.5, 4 => 0.75, 5 => r.f(0.0, 0.1), _ => r.unit()
    }
}

pub fn gen_cal(r: &mut Rng, centre: i32, span: i32) -> Cal {
    if r.chance(0.35) {
        let c = gen_basic_cal(r, centre, span);
        let w = gen_weight(r);
        Cal::Vol(Box::new(c), w)
    } else { gen_basic_cal(r, centre, span) }
}

pub fn gen_fraction(r: &mut Rng) -> f64 {
    match r.below(5) { 0 => 0.0, 1 => 0.999, 2 => 0.5, _ => r.unit() }
}

// ------------------------------------------------------------------ D01
fn d01(ctx: &mut Ctx) {
    // exhaustive over the supported range, in blocks
    ctx.group("every-day", 73, 73, |c| {
        let lo = (c.idx as i32) * 1000;
        for j in lo.max(1)..(lo + 1000).min(MAXJ) {
            let d = dj(j);
            let (y, m, dd) = civil(unix_of(j));
            let got = d.ymd();
            c.check("ymd of day number", got == (y as i32, m as i32, dd as i32),
                || format!("day {} is {:?}, expected {}-{}-{}", j, got, y, m, dd));
            let back = Date::from_ymd(y as i32, m as i32, dd as i32);
            c.check("day number of ymd", back.truncated_julian() == j && back == d,
                || format!("{}-{}-{} is day {}, expected {}", y, m, dd, back.truncated_julian(), j));
            c.check("valid", d.is_valid(), || format!("day {} not valid", j));
            let w = d.day_of_week();
            c.check("day of week", w == dow(j), || format!("{}: {} expected {}", d, w, dow(j)));
            let t = d.to_string();
            let e = format!("{:04}-{:02}-{:02}", y, m, dd);
            c.check("display", t == e, || format!("{} expected {}", t, e));
            let dbg = format!("{:?}", d);
            let names = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
            let e2 = format!("{} {}", names[dow(j) as usize], e);
            c.check("debug display", dbg == e2, || format!("{} expected {}", dbg, e2));
            c.sig_u(j as u64);
        }
        if c.idx == 0 { c.sample(format!("all days {}..{}", lo.max(1), lo + 999)); }
        c.check("nil invalid", !Date::from_nil().is_valid(), || "nil is valid".into());
        for (y, m, d) in [(1900, 1, 1), (1960, 5, 5), (2200, 1, 1), (2500, 6, 6)] {
            c.check("out of range invalid", !Date::from_ymd(y, m, d).is_valid(),
                || format!("{}-{}-{} is valid", y, m, d));
        }
    });
    ctx.group("arithmetic", 1000000, 3_000_000, |c| {
        let a = c.rng.int(1, MAXJ - 1);
        let b = if c.rng.chance(0.5) { c.rng.int(1, MAXJ - 1) } else { (a + c.rng.int(-40, 40)).max(1).min(MAXJ - 1) };
        let (da, db) = (dj(a), dj(b));
        c.note(format!("a={} b={}", a, b));
        c.check("difference", db - da == b - a, || format!("{}", db - da));
        c.check("add", da + (b - a) == db, || "sum".into());
        c.check("subtract", db - (b - a) == da, || "sub".into());
        let mut x = da; x += b - a;
        c.check("add-assign", x == db, || "add-assign".into());
        let mut x = db; x -= b - a;
        c.check("sub-assign", x == da, || "sub-assign".into());
        c.check("order", da.cmp(&db) == a.cmp(&b) && (da < db) == (a < b) && (da == db) == (a == b),
            || "order".into());
        c.check("round trip", (da + (b - a)).ymd() == db.ymd(), || "ymd".into());
        // days that overflow the month, or precede it, roll over
        let (y, m, d) = civil(unix_of(a));
        let k = c.rng.int(-400, 400);
        if a + k > 0 && a + k < MAXJ {
            let r = Date::from_ymd(y as i32, m as i32, d as i32 + k);
            c.check("day overflow", r == dj(a + k), || format!("{}-{}-{} is {:?}", y, m, d as i32 + k, r));
        }
        // date-times and day fractions move with their date
        let tod = *c.rng.pick(&[TimeOfDay::Open, TimeOfDay::EDSP, TimeOfDay::Close]);
        let dt = DateTime::new(da, tod) + (b - a);
        c.check("date-time add", dt.date() == db && dt.time_of_day() == tod, || format!("{}", dt));
        let mut dt = DateTime::new(da, tod); dt += b - a;
        c.check("date-time add-assign", dt.date() == db && dt.time_of_day() == tod, || format!("{}", dt));
        let fr = c.rng.unit();
        let df = DateDayFraction::new(da, fr) + (b - a);
        c.check("day-fraction add", df.date() == db && df.day_fraction() == fr, || format!("{:?}", df));
        let mut df = DateDayFraction::new(da, fr); df += b - a;
        c.check("day-fraction add-assign", df.date() == db && df.day_fraction() == fr, || format!("{:?}", df));
        c.sig_u((a as u64) << 32 | b as u64);
        c.sample(format!("{} + {} days = {}", da, b - a, db));
    });
}

// ------------------------------------------------------------------ D02
fn rand_string(r: &mut Rng) -> String {
    let alphabet: Vec<char> = "0123456789-- /:T.+eE\u{e9}\u{4e00}abNaN\"\\\n".chars().collect();
    let n = r.below(14);
    (0..n).map(|_| *r.pick(&alphabet)).collect()
}

fn d02(ctx: &mut Ctx) {
    ctx.group("round-trip", 73, 73, |c| {
        let lo = (c.idx as i32) * 1000;
        for j in lo.max(1)..(lo + 1000).min(MAXJ) {
            let d = dj(j);
            let (y, m, dd) = civil(unix_of(j));
            let iso = format!("{:04}-{:02}-{:02}", y, m, dd);
            c.check("text form", d.to_string() == iso, || format!("{} vs {}", d, iso));
            match Date::from_str(&iso) {
                Ok(b) => c.check("text round trip", b == d, || format!("{} read as {}", iso, b)),
                Err(e) => c.fail(format!("{} not readable: {}", iso, e))
            }
            let js = serde_json::to_string(&d).unwrap();
            c.check("json form", js == format!("\"{}\"", iso), || js.clone());
            match serde_json::from_str::<Date>(&js) {
                Ok(b) => c.check("json round trip", b == d, || format!("{} read as {}", js, b)),
                Err(e) => c.fail(format!("{} not readable: {}", js, e))
            }
            c.sig_u(j as u64);
        }
        c.sample(format!("all days {}..{}", lo.max(1), lo + 999));
    });
    ctx.group("malformed", 600000, 2_000_000, |c| {
        let r = &mut c.rng;
        let (y, m, d) = (r.int(1970, 2160), r.int(1, 12), r.int(1, 28));
        // must_fail: this text does not name a supported date in ISO form
        let (s, must_fail) = match r.below(15) {
            0 => (format!("{:04}", y), true),
            1 => (format!("{:04}-{:02}", y, m), true),
            2 => (String::new(), true),
            3 => (format!("{:04}-{:02}-", y, m), true),
            4 => (format!("{:04}-{:02}-x{}", y, m, d), true),
            5 => (format!("{:04}-{:02}-{:02}", r.int(0, 1967), m, d), true),
            6 => (format!("{:04}-{:02}-{:02}", r.int(2170, 9999), m, d), true),
            7 => { let big = *r.pick(&["2147483647", "99999999999", "-2147483648", "1000000", "5000000"]);
                   let k = r.below(3);
                   let v = [if k == 0 { big.into() } else { y.to_string() },
                            if k == 1 { big.into() } else { m.to_string() },
                            if k == 2 { big.into() } else { d.to_string() }];
                   (v.join("-"), true) }
            8 => (format!("{:04}/{:02}/{:02}", y, m, d), true),
            9 => (format!("{:04}-{:02}.5-{:02}", y, m, d), true),
            10 => { let mut t: Vec<char> = format!("{:04}-{:02}-{:02}", y, m, d).chars().collect();
                    let n = r.int(1, 3);
                    for _ in 0..n { if t.is_empty() { break }
                        let i = r.below(t.len());
                        match r.below(3) { 0 => { t.remove(i); }, 1 => { let ch = *r.pick(&['-', '9', 'x', ' ', '0', '\u{e9}']); t.insert(i, ch) },
                            _ => { let ch = *r.pick(&['-', '9', 'x', ' ', '0']); t[i] = ch; } } }
                    (t.into_iter().collect(), false) }
            11 => { let bad_m = if r.chance(0.3) { 0 } else { r.int(13, 99) };
                    let bad_d = if r.chance(0.3) { 0 } else { r.int(32, 99) };
                    match r.below(3) { 0 => (format!("{:04}-{:02}-{:02}", y, bad_m, d), true), 1 => (format!("{:04}-{:02}-{:02}", y, m, bad_d), true),
                        _ => { let last = [31, if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize];
                               (format!("{:04}-{:02}-{:02}", y, m, r.int(last + 1, 32)), true) } } }
            12 => { let tail = *r.pick(&["-", "-01", "-2018", "-x", "-01-01", "T00:00:00", "x", ".0", "/Open"]);
                    (format!("{:04}-{:02}-{:02}{}", y, m, d, tail), true) }
            13 => match r.below(4) { 0 => (format!("{:04} -{:02}-{:02}", y, m, d), true), 1 => (format!("{:04}- {:02}-{:02}", y, m, d), true),
                2 => (format!("{:04}-{:02} -{:02}", y, m, d), true), _ => (format!("-{:04}-{:02}-{:02}", y, m, d), true) },
            _ => (rand_string(r), false)
        };
        c.note(format!("text {:?}", s));
        c.sig(&s);
        let got = match c.catch(|| Date::from_str(&s)) {
            Ok(g) => g,
            Err(p) => c.abort(format!("reading a date panicked: {}", p))
        };
        match got {
            Ok(d) => {
                c.ev("accepted");
                c.check("accepted dates are valid", d.is_valid(), || format!("{}", d.truncated_julian()));
                c.check("bad text rejected", !must_fail, || format!("read as {}", d));
            }
            Err(_) => { c.ev("rejected"); if must_fail { c.ev("bad text rejected") } }
        }
        let js = serde_json::to_string(&s).unwrap();
        match c.catch(|| serde_json::from_str::<Date>(&js)) {
            Ok(Ok(d)) => { c.check("json accepted dates are valid", d.is_valid(), || "invalid".into());
                           c.check("bad json rejected", !must_fail, || format!("read as {}", d)); }
            Ok(Err(_)) => c.ev("json rejected"),
            Err(p) => c.fail(format!("reading a JSON date panicked: {}", p))
        }
        let junk = *c.rng.pick(&["1", "null", "[]", "{}", "true", "1.5", "[2018,1,1]"]);
        match c.catch(|| serde_json::from_str::<Date>(junk)) {
            Ok(Ok(d)) => c.fail(format!("{} read as {}", junk, d)),
            Ok(Err(_)) => c.ev("non-string json rejected"),
            Err(p) => c.fail(format!("reading {} panicked: {}", junk, p))
        }
        c.sample(format!("{:?}", s));
    });
    ctx.group("date-times", 480000, 1_000_000, |c| {
        let tods = [TimeOfDay::Open, TimeOfDay::EDSP, TimeOfDay::Close];
        let a = c.rng.int(1, MAXJ - 1);
        let b = if c.rng.chance(0.5) { a } else { (a + c.rng.int(-3, 3)).max(1).min(MAXJ - 1) };
        let (i, k) = (c.rng.below(3), c.rng.below(3));
        let (x, y) = (DateTime::new(dj(a), tods[i]), DateTime::new(dj(b), tods[k]));
        c.check("date-time order", x.cmp(&y) == (a, i).cmp(&(b, k)) && (x == y) == ((a, i) == (b, k)),
            || format!("{} vs {}", x, y));
        let names = ["Open", "EDSP", "Close"];
        c.check("date-time text", x.to_string() == format!("{}/{}", dj(a), names[i]), || x.to_string());
        let js = serde_json::to_string(&x).unwrap();
        match serde_json::from_str::<DateTime>(&js) {
            Ok(z) => c.check("date-time json", z == x, || format!("{} read as {}", js, z)),
            Err(e) => c.fail(format!("{}: {}", js, e))
        }
        let (f, g) = (gen_fraction(&mut c.rng), gen_fraction(&mut c.rng));
        let (p, q) = (DateDayFraction::new(dj(a), f), DateDayFraction::new(dj(b), g));
        let want = a.cmp(&b).then(f.partial_cmp(&g).unwrap());
        c.check("day-fraction order", p.cmp(&q) == want && (p < q) == (want == std::cmp::Ordering::Less),
            || format!("{:?} vs {:?}", p, q));
        use quantmath::math::interpolation::Interpolable;
        c.check("day-fraction interp order", p.interp_cmp(q) == want, || format!("{:?} vs {:?}", p, q));
        c.close("day-fraction interp difference", p.interp_diff(q), (b - a) as f64 + g - f, 1e-12, 1e-12);
        let js = serde_json::to_string(&p).unwrap();
        match serde_json::from_str::<DateDayFraction>(&js) {
            Ok(z) => c.check("day-fraction json", z.date() == p.date()
                && (z.day_fraction() - p.day_fraction()).abs() < 1e-14, || format!("{} read as {:?}", js, z)),
            Err(e) => c.fail(format!("{}: {}", js, e))
        }
        c.sig_u(((a as u64) << 24) ^ ((b as u64) << 4) ^ (i * 3 + k) as u64);
        c.sample(format!("{} vs {}, {:?} vs {:?}", x, y, p, q));
    });
}

// ------------------------------------------------------------------ D03
fn d03(ctx: &mut Ctx) {
    ctx.group("step", 180000, 2_000_000, |c| {
        let from = c.rng.int(3000, MAXJ - 3000);
        let cal = gen_basic_cal(&mut c.rng, from, 500);
        let rc = cal.rc();
        c.note(format!("calendar {:?}", short_cal(&cal, from)));
        for _ in 0..6 {
            let from = from + c.rng.int(-30, 30);
            let n = match c.rng.below(5) { 0 => 0, 1 => c.rng.int(-5, 5), 2 => c.rng.int(-30, 30), 3 if c.rng.chance(0.05) => c.rng.int(-1500, 1500), _ => c.rng.int(-150, 150) };
            // the two usual directions, sometimes the opposite one
            let fwd = if n == 0 { c.rng.chance(0.5) } else if c.rng.chance(0.15) { n < 0 } else { n > 0 };
            let got = rc.step(dj(from), n, fwd).truncated_julian();
            let want = cal.step(from, n, fwd);
            c.check(if n == 0 { "zero step" } else if n > 0 { "forward step" } else { "backward step" },
                got == want, || format!("from {} step {} slip_forward {}: got {} want {}",
                    dj(from), n, fwd, dj(got), dj(want)));
            let h = rc.is_holiday(dj(from));
            c.check("is_holiday", h == cal.hol(from), || format!("{} holiday {}", dj(from), h));
            c.check("day weight", rc.day_weight(dj(from)) == cal.weight(from), || "weight".into());
            if n.abs() > 1 { c.sig(&format!("{:?}{}{}{}", short_cal(&cal, from), from, n, fwd)); }
            // whole-number partial steps agree with steps
            let got = rc.step_partial(dj(from), n as f64, fwd).truncated_julian();
            c.check("whole partial step", got == want, || format!("from {} step {}: got {} want {}",
                    dj(from), n, dj(got), dj(want)));
        }
        c.sample(format!("from {} in {}", dj(from), short_cal(&cal, from)));
    });
    // every weekday, every small step, every pattern of holidays over three weeks
    ctx.group("small-worlds", 16000, 150_000, |c| {
        let base = 18000 + c.rng.int(0, 6);
        let pattern = c.rng.u64() & 0x1ff_ffff;
        let hols: Vec<i32> = (0..25).filter(|k| pattern >> k & 1 == 1).map(|k| base + k)
            .filter(|j| dow(*j) <= 4).collect();
        let cal = Cal::Hols(hols);
        let rc = cal.rc();
        c.note(format!("{:?}", cal));
        for from in (base - 2)..(base + 27) {
            for n in -8..=8 {
                for fwd in [false, true] {
                    let got = rc.step(dj(from), n, fwd).truncated_julian();
                    let want = cal.step(from, n, fwd);
                    c.check("small-world step", got == want, || format!("from {} step {} slip_forward {}: got {} want {}",
                        dj(from), n, fwd, dj(got), dj(want)));
                }
            }
        }
        c.sig_u(pattern << 3 | (base - 18000) as u64);
        c.sample(format!("holiday pattern {:#x} from {}", pattern, dj(base)));
    });
}

pub fn short_cal(c: &Cal, near: i32) -> String {
    match c {
        Cal::Hols(h) => {
            let n: Vec<String> = h.iter().filter(|j| (**j - near).abs() < 40).map(|j| dj(*j).to_string()).collect();
            format!("Hols({} total, near: {:?})", h.len(), n)
        }
        Cal::Vol(c, w) => format!("Vol({}, {})", short_cal(c, near), w),
        _ => format!("{:?}", c)
    }
}

// ------------------------------------------------------------------ D04
fn d04(ctx: &mut Ctx) {
    ctx.group("count", 360000, 2_000_000, |c| {
        let a = c.rng.int(3000, MAXJ - 3000);
        let cal = gen_cal(&mut c.rng, a, 450);
        let rc = cal.rc();
        c.note(format!("{}", short_cal(&cal, a)));
        let mut days: Vec<i32> = (0..3).map(|_| {
            let span = if c.rng.chance(0.02) { 9000 } else { *c.rng.pick(&[2, 10, 60, 400]) }; a + c.rng.int(0, span).min(MAXJ - 5 - a) }).collect();
        days.sort();
        let fr: Vec<f64> = (0..3).map(|_| gen_fraction(&mut c.rng)).collect();
        let cnt = |i: usize, k: usize| rc.count_business_days(dj(days[i]), fr[i], dj(days[k]), fr[k]);
        for (i, k) in [(0, 1), (1, 2), (0, 2), (2, 0), (1, 0)] {
            let want = cal.count(days[i], fr[i], days[k], fr[k]);
            let got = cnt(i, k);
            c.check(if days[i] > days[k] { "reversed count" } else { "count" }, (got - want).abs() < 1e-9,
                || format!("{}+{} to {}+{}: got {} want {}", dj(days[i]), fr[i], dj(days[k]), fr[k], got, want));
        }
        let (ab, bc, ac) = (cnt(0, 1), cnt(1, 2), cnt(0, 2));
        c.close("counts add up", ab + bc, ac, 0.0, 1e-9);
        if days[0] < days[2] {
            let later = rc.count_business_days(dj(days[0]), fr[0], dj(days[2] + 1), fr[2]);
            c.check("count does not fall as the end moves", later >= ac - 1e-9, || format!("{} then {}", ac, later));
        }
        let (x, y) = (DateDayFraction::new(dj(days[0]), fr[0]), DateDayFraction::new(dj(days[2]), fr[2]));
        c.close("year fraction", rc.year_fraction(x, y), cal.count(days[0], fr[0], days[2], fr[2]) / cal.basis(), 0.0, 1e-11);
        c.close("basis", rc.standard_basis(), cal.basis(), 1e-12, 0.0);
        c.close("day weight", rc.day_weight(dj(days[1])), cal.weight(days[1]), 0.0, 0.0);
        if days[2] - days[0] > 2 { c.sig(&format!("{:?}{:?}{}", days, fr, short_cal(&cal, a))); }
        c.sample(format!("{:?} {:?} in {}", days, fr, short_cal(&cal, a)));
    });
}

// ------------------------------------------------------------------ D05
fn d05(ctx: &mut Ctx) {
    ctx.group("rules", 300000, 1_500_000, |c| {
        // month ends are where the rules differ
        let mut j = c.rng.int(3000, MAXJ - 3000);
        if c.rng.chance(0.5) {
            let (y, m, _) = civil(unix_of(j));
            j = dj_of(y, m, 28) + c.rng.int(0, 6);
        }
        let cal = gen_basic_cal(&mut c.rng, j, 300);
        let rc = cal.rc();
        let n = if c.rng.chance(0.05) { c.rng.int(0, 700) } else { c.rng.int(0, 25) };
        c.note(format!("date {} n {} {}", dj(j), n, short_cal(&cal, j)));
        let next = cal.step(j, 0, true);
        let prev = cal.step(j, 0, false);
        let same_month = { let (a, b) = (civil(unix_of(j)), civil(unix_of(next))); (a.0, a.1) == (b.0, b.1) };
        let rules: Vec<(&str, RcDateRule, i32)> = vec![
            ("null", RcDateRule::new(Arc::new(NullRule::new())), j),
            ("next", RcDateRule::new(Arc::new(BusinessDays::new_next(rc.clone()))), next),
            ("previous", RcDateRule::new(Arc::new(BusinessDays::new_prev(rc.clone()))), prev),
            ("step", RcDateRule::new(Arc::new(BusinessDays::new_step(rc.clone(), n as u32))), cal.step(j, n, true)),
            ("back", RcDateRule::new(Arc::new(BusinessDays::new_back(rc.clone(), n as u32))), cal.step(j, -n, false)),
            ("modified following", RcDateRule::new(Arc::new(ModifiedFollowing::new(rc.clone()))),
                if same_month { next } else { prev }),
        ];
        for (name, rule, want) in rules.iter() {
            let got = rule.apply(dj(j)).truncated_julian();
            c.check(name, got == *want, || format!("got {} want {}", dj(got), dj(*want)));
            if c.idx % 8 == 0 {
                let js = serde_json::to_string(rule).unwrap();
                match serde_json::from_str::<RcDateRule>(&js) {
                    Ok(r2) => {
                        let got = r2.apply(dj(j)).truncated_julian();
                        c.check("rule after json", got == *want, || format!("{}: got {} want {}", name, dj(got), dj(*want)));
                        let js2 = serde_json::to_string(&r2).unwrap();
                        c.check("rule json stable", js == js2, || format!("{} vs {}", js, js2));
                    }
                    Err(e) => c.fail(format!("{} not readable: {}", js, e))
                }
            }
        }
        if !same_month { c.ev("month end crossed") }
        if next != j { c.sig(&format!("{}{}{}", j, n, short_cal(&cal, j))); }
        c.sample(format!("{} n={} in {}", dj(j), n, short_cal(&cal, j)));
    });
}

pub fn dj_of(y: i64, m: i64, d: i64) -> i32 { (days_from_civil(y, m, d) + 588) as i32 }

// ------------------------------------------------------------------ D06
fn d06(ctx: &mut Ctx) {
    ctx.group("weighted", 300000, 1_500_000, |c| {
        let from = c.rng.int(3000, MAXJ - 3000);
        let inner = gen_basic_cal(&mut c.rng, from, 500);
        let w = gen_weight(&mut c.rng);
        let cal = Cal::Vol(Box::new(inner.clone()), w);
        let rc = cal.rc();
        c.note(format!("from {} {}", dj(from), short_cal(&cal, from)));
        c.close("basis", rc.standard_basis(), cal.basis(), 1e-12, 0.0);
        c.check("holidays as underlying", rc.is_holiday(dj(from)) == inner.hol(from), || "".into());
        c.close("weight", rc.day_weight(dj(from)), cal.weight(from), 0.0, 0.0);
        let to = from + if c.rng.chance(0.05) { c.rng.int(0, 9000).min(MAXJ - 5 - from) } else { c.rng.int(0, 200) };
        let (fa, fb) = (gen_fraction(&mut c.rng), gen_fraction(&mut c.rng));
        c.close("weighted count", rc.count_business_days(dj(from), fa, dj(to), fb), cal.count(from, fa, to, fb), 0.0, 1e-9);
        for _ in 0..4 {
            let n = match c.rng.below(5) { 0 => 0.0, 1 => c.rng.int(0, 60) as f64,
                // the exact weight of some period, give or take rounding
                4 => { let to = from + c.rng.int(1, 80); (cal.count(from, 0.0, to, 0.0) / cal.basis() * cal.basis() + *c.rng.pick(&[0.0, 1e-15, 1e-14, -1e-14])).max(0.0) }
                2 => c.rng.int(0, 40) as f64 * 0.25, _ => if c.rng.chance(0.05) { c.rng.f(0.0, 1000.0) } else { c.rng.f(0.0, 80.0) } };
            let fwd = c.rng.chance(0.5);
            let signed = if fwd { n } else { -n };
            let got = rc.step_partial(dj(from), signed, fwd).truncated_julian();
            step_check(c, &cal, &inner, w, from, n, fwd, got);
            if n == n.trunc() {
                let got = rc.step(dj(from), signed as i32, fwd).truncated_julian();
                step_check(c, &cal, &inner, w, from, n, fwd, got);
            }
            if n > 0.0 && w > 0.0 { c.sig(&format!("{}{}{}{}", from, w, n, fwd)); }
        }
        c.sample(format!("from {} in {}", dj(from), short_cal(&cal, from)));
    });
}

fn step_check(c: &mut Case, cal: &Cal, inner: &Cal, w: f64, from: i32, n: f64, fwd: bool, got: i32) {
    if w < 1e-12 {
        // the underlying calendar decides; fractional steps round to nearest
        let frac = (n - n.trunc()).abs();
        if (frac - 0.5).abs() < 1e-9 { return }
        let k = n.round() as i32;
        let want = inner.step(from, if fwd { k } else { -k }, fwd);
        c.check("zero-weight step", got == want, || format!("step {} forward {}: got {} want {}", n, fwd, dj(got), dj(want)));
        return
    }
    let dist = |d: i32| -> f64 {
        // signed weighted distance in the stepping direction
        let mut s = 0.0;
        if fwd { for j in from.min(d)..from.max(d) { s += cal.weight(j) } if d < from { s = -s } }
        else { for j in (from.min(d) + 1)..=from.max(d) { s += cal.weight(j) } if d > from { s = -s } }
        s
    };
    let e = (dist(got) - n).abs();
    let dir = if fwd { 1 } else { -1 };
    c.check("direction", (got - from) * dir >= 0, || format!("step {} forward {} moved to {}", n, fwd, dj(got)));
    c.check("within half a day's weight", e <= 0.5 + 1e-9, || format!("step {} forward {}: {} is {} away", n, fwd, dj(got), e));
    let better = (dist(got + 1) - n).abs().min((dist(got - 1) - n).abs());
    c.check("nearest date", e <= better + 1e-9 , || format!("step {} forward {}: {} misses by {}, a neighbour by {}", n, fwd, dj(got), e, better));
}

pub const PROPS: &[Prop] = &[
    Prop { id: "D01", run: d01,
        rule: "every day number of the supported range exhaustively, plus random pairs of dates and offsets; a case is a distinct day or pair",
        assumptions: &["reference: the days-from-civil algorithm, independent of the library's"],
        need: &[("ymd of day number", 70_000), ("difference", 1000)] },
    Prop { id: "D02", run: d02,
        rule: "every supported date through text and JSON, random mutations of date text, and random date-times; distinct texts and dates count",
        assumptions: &[], need: &[("text round trip", 70_000), ("bad text rejected", 1000)] },
    Prop { id: "D03", run: d03,
        rule: "random calendars with clustered holidays, start dates, steps and directions against walking day by day; non-trivial when more than one step is taken",
        assumptions: &["holiday lists are sorted, distinct and contain no weekend days, as documented"],
        need: &[("forward step", 1000), ("backward step", 1000), ("small-world step", 1000)] },
    Prop { id: "D04", run: d04,
        rule: "random calendars (weighted ones included), date triples and day fractions against summing day weights; non-trivial when the period exceeds two days",
        assumptions: &["holiday lists are sorted, distinct and contain no weekend days, as documented"],
        need: &[("count", 1000), ("reversed count", 1000)] },
    Prop { id: "D05", run: d05,
        rule: "random rules, calendars and dates (half near month ends) against walking day by day; non-trivial when the date is not a business day",
        assumptions: &["holiday lists are sorted, distinct and contain no weekend days, as documented"],
        need: &[("modified following", 1000), ("month end crossed", 100)] },
    Prop { id: "D06", run: d06,
        rule: "random underlying calendars, weights, dates, whole and fractional steps; non-trivial when both weight and step are positive",
        assumptions: &["steps have the sign of the direction, as the library requires"],
        need: &[("within half a day's weight", 1000), ("zero-weight step", 100)] },
];
