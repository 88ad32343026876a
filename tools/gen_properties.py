#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit this file, not the output."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

# ---------------------------------------------------------------- dates
p("D01", "Dates are an exact proleptic Gregorian day count",
  "Every supported date corresponds to exactly one year-month-day and back, consecutive day numbers are consecutive calendar days including every leap year and century rule, and the day of the week is the true one. Adding, subtracting and comparing dates agree with counting days, and a day number past the end of its month rolls over into the following months.",
  ["inputs"], "for every date in the supported range 1968-2168 and every day offset between two of them",
  "tests round-trip one range and spot-check a few dates; a wrong leap rule or rollover shows only on particular years, months or offsets",
  ["src/dates/mod.rs"], [("truncated_julian_from_ymd", "src/dates/mod.rs"), ("ymd_from_truncated_julian", "src/dates/mod.rs"), ("Date::day_of_week", "src/dates/mod.rs")],
  ["Date::from_ymd/ymd/+/-/cmp/day_of_week"])
p("D02", "Date text and JSON forms round-trip; malformed text is an error",
  "Writing any supported date as text or JSON gives the ISO form YYYY-MM-DD and reading it back gives the same date, and date-times, times of day and day fractions survive JSON likewise and keep chronological order. Text that does not name a supported date is reported as an error and never crashes or yields some invalid date.",
  ["inputs"], "for every supported date and every string, well formed or not",
  "tests parse two or three good dates; the space of malformed strings and all dates is not sampled",
  ["src/dates/mod.rs", "src/dates/datetime.rs"], [("FromStr for Date", "src/dates/mod.rs"), ("Display for Date", "src/dates/mod.rs"), ("DateTime/DateDayFraction ordering", "src/dates/datetime.rs")],
  ["Date::from_str, Display, serde_json"])
p("D03", "Business-day stepping lands exactly the requested number of days away",
  "In every calendar, stepping n business days always ends on a business day: a zero step stays put on a business day and otherwise slips to the nearest business day in the requested direction, and an n step equals that followed by n single-day moves, forwards or backwards, however holidays and weekends cluster. Whether a day is a holiday depends only on weekends and the calendar's holiday list.",
  ["inputs", "configurations"], "for every calendar (including arbitrary sorted holiday lists), start date, step count and direction",
  "tests walk 500 days of one calendar whose holidays never cluster; stepping uses closed-form week arithmetic plus a correction loop that misbehaves only for particular holiday clusters or weekdays",
  ["src/dates/calendar.rs"], [("Calendar::step", "src/dates/calendar.rs"), ("WeekdayAndHolidayCalendar::step/count_holidays", "src/dates/calendar.rs")],
  ["Calendar::step, is_holiday"])
p("D04", "Business-day counts equal the sum of day weights and add up",
  "In every calendar the business-day count between two dated day-fractions is the sum of the weights of the days between them, with each end day included in proportion to its fraction, and zero when the dates are out of order. Consequently counts over adjacent periods add up, year fractions are the count over the calendar's annual basis, and counts never decrease as the end moves later.",
  ["inputs", "configurations"], "for every calendar, pair of dates in either order and pair of day fractions",
  "tests fix the fractions at 0.2 and 0.9 over one holiday list and never test fractions on holidays at both ends, reversed dates or year fractions",
  ["src/dates/calendar.rs"], [("Calendar::count_business_days", "src/dates/calendar.rs"), ("Calendar::year_fraction", "src/dates/calendar.rs"), ("Calendar::standard_basis", "src/dates/calendar.rs")],
  ["Calendar::count_business_days/year_fraction/day_weight"])
p("D05", "Date rules move dates onto the right business day",
  "The null rule returns its date, the next/previous rules give the nearest business day on or after/before it, stepping rules give the date that many business days away, and modified-following gives the next business day unless that is in another month, in which case the previous one. Every rule depends only on its calendar and its argument and survives JSON unchanged.",
  ["inputs", "configurations"], "for every rule, calendar and date",
  "tests use the weekday calendar around one new year only; month-end with holidays is never reached",
  ["src/dates/rules.rs"], [("DateRule::apply", "src/dates/rules.rs"), ("ModifiedFollowing::apply", "src/dates/rules.rs")], ["DateRule::apply"])
p("D06", "Volatility calendars weight holidays and step to the nearest date",
  "A volatility calendar counts one for every business day of its underlying calendar and the holiday weight for every other day, and its annual basis blends 365 and the underlying basis by that weight. Stepping by a whole or fractional number of weighted days always terminates and reaches, in the requested direction, a date whose weighted distance is within half a day's weight of the request; a zero weight steps as the underlying calendar does.",
  ["inputs", "configurations"], "for every underlying calendar, holiday weight in [0,1], date and step",
  "tests use one weight (0.25) with a tolerance of a whole day",
  ["src/dates/calendar.rs"], [("VolatilityCalendar::step_partial", "src/dates/calendar.rs"), ("VolatilityCalendar::count_business_days", "src/dates/calendar.rs")],
  ["Calendar::step_partial/count_business_days/standard_basis"])

# ---------------------------------------------------------------- math
p("M01", "Piecewise-linear curves hit every point and extrapolate as configured",
  "Linear interpolation returns each supplied ordinate at its abscissa, the straight-line value between neighbours, and outside the range either the end value, the continuation of the end segment, zero, not-a-number or an error, as chosen independently for the left and the right. Abscissae that are not strictly increasing, or an empty set, are rejected when the curve is built.",
  ["inputs", "configurations"], "for every point set, evaluation point and pair of extrapolation choices",
  "tests sample one curve and always pass the same extrapolation on both sides in the combinations that matter",
  ["src/math/interpolation.rs"], [("Linear / FixedInterp / DynInterp", "src/math/interpolation.rs"), ("extrapolate_left/right", "src/math/interpolation.rs")], ["Interpolate::interpolate"])
p("M02", "Cubic splines are smooth, exact at their knots and extrapolate as set",
  "A cubic spline returns each supplied ordinate at its abscissa, is twice continuously differentiable between the end knots with the end conditions asked for, and so, with natural ends, reproduces any straight line. Outside the knots it follows the extrapolation chosen for that side only, and it works or reports an error, never crashing, for any number of knots.",
  ["inputs", "configurations"], "for every knot set, evaluation point and pair of extrapolation choices",
  "tests compare a handful of values of one spline; continuity of derivatives and mixed end conditions are not observed",
  ["src/math/interpolation.rs"], [("CubicSpline", "src/math/interpolation.rs"), ("nr_spline", "src/math/interpolation.rs")], ["Interpolate::interpolate"])
p("M03", "Option formula values obey Black's model and its no-arbitrage bounds",
  "For any positive forward, non-negative strike, discount factor and non-negative standard deviation, the call and put values are finite, equal the Black formula, satisfy put-call parity, lie between discounted intrinsic value and their upper bounds, and are monotone in strike, forward and volatility. At zero volatility they equal discounted intrinsic value, including at the money.",
  ["inputs"], "for all forwards, strikes, discount factors and standard deviations, including limits",
  "tests check seven strikes at one volatility",
  ["src/math/optionpricing.rs"], [("Black76::call_price/put_price/cdf", "src/math/optionpricing.rs")], ["Black76::call_price/put_price"])
p("M04", "The root finder returns a true root inside its bracket",
  "Given a function whose values at the ends of the bracket do not have the same sign, the solver evaluates the function only inside the bracket, converges for any continuous function given enough iterations, and returns a point within tolerance of a sign change. If the root is not bracketed, the iterations run out, or the function fails, it returns an error rather than a wrong answer.",
  ["inputs"], "for every continuous function, bracket, tolerance and iteration limit",
  "tests solve arcsin for four values; bad interpolation steps outside the bracket arise only for particular function shapes",
  ["src/math/brent.rs"], [("zbrent", "src/math/brent.rs")], ["arguments at which the objective function is called"])

# ---------------------------------------------------------------- data
p("C01", "Rate curves interpolate rates and give consistent discount factors",
  "A rate curve gives the supplied rate at each pillar, the configured interpolation between pillars and extrapolation beyond them, on an actual/365 basis from its base date; a zero curve discounts nothing. Discount factors over adjacent periods multiply, the factor from a date to itself is one, and swapping the dates inverts it.",
  ["inputs", "configurations"], "for every curve and triple of dates, before, between and after its pillars",
  "tests evaluate two fixed curves at a few dates",
  ["src/data/curves.rs"], [("RateCurve::rt/df", "src/data/curves.rs"), ("RateCurveAct365", "src/data/curves.rs")], ["RateCurve::r_and_t/rt/df"])
p("C02", "Each market-data bump changes exactly what it says, by the stated amount",
  "A spot bump replaces the spot or scales it by one plus the bump; a rate bump shifts the annualised or continuously compounded rate by the stated amount, or scales it, at every maturity; a dividend bump scales every cash and proportional dividend and the dividend yield by one plus the bump, a zero bump changing nothing; a volatility bump shifts or replaces volatility at every date and strike. The object being bumped is itself left unchanged.",
  ["inputs", "configurations"], "for every bump kind and size and every bumped object",
  "tests apply one or two sizes of each bump to one price; scaling applied to the wrong quantity is invisible when yields are zero",
  ["src/data/bump*.rs", "src/data/curves.rs", "src/data/divstream.rs", "src/data/voldecorators.rs"],
  [("BumpSpot/BumpYield/BumpDivs/BumpVol::apply", "src/data"), ("DividendStream::new_bump_all", "src/data/divstream.rs"), ("RelativeBump/AnnualisedFlatBump", "src/data/curves.rs")], ["Bumper::apply results"])
p("C03", "Dividend sums account for every dividend exactly once",
  "The undiscounted and discounted dividend sums between two dates equal the sum over dividends going ex in that interval of the cash amount plus the proportional amount of the forward just before it goes ex, discounted at rate plus borrow cost where asked. Sums over adjacent periods add up, and the remaining cash dividends after a date equal those still to go ex, so the total before and after any date is constant.",
  ["inputs", "configurations"], "for every dividend schedule (cash and proportional mixed, any ex/pay dates), pair of curves and pair of dates",
  "tests use one stream and check only sums at a few dates; the remaining-dividends query is never tested",
  ["src/data/divstream.rs"], [("DividendBootstrap::new", "src/data/divstream.rs"), ("discounted_cash_divs_after", "src/data/divstream.rs")], ["DividendBootstrap sums"])
p("C04", "Equity forwards follow carry and drop by each dividend",
  "A forward equals the spot on its base date, grows at rate minus borrow between ex-dates (measured to settlement), drops on each ex-date by the cash plus proportional dividend as valued from its payment date, and is lowered by the dividend yield. It is proportional to spot when there are no cash dividends, and forwards from a driftless or interpolated source return what they were given.",
  ["inputs", "configurations"], "for every spot, curve, borrow, dividend stream and date",
  "tests pin seven values of one example",
  ["src/data/forward.rs", "src/data/divstream.rs"], [("EquityForward::forward", "src/data/forward.rs"), ("log_discount_with_borrow", "src/data/forward.rs")], ["Forward::forward"])
p("V01", "Volatility surfaces reproduce their inputs and interpolate variance",
  "A surface returns the smile it was given on each of its pillar dates, interpolates variance linearly in volatility time between pillars at constant normalised strike, and extrapolates flat in volatility at constant normalised strike beyond them. Volatility and variance queries agree (variance is squared volatility times volatility time), variance at the base date is zero, and evaluating many strikes at once equals evaluating them one at a time.",
  ["inputs", "configurations"], "for every surface, smile set, calendar, date and vector of strikes",
  "tests pin one surface at a dozen points",
  ["src/data/volsurface.rs", "src/data/volsmile.rs"], [("VolByProbability::interpolate/extrapolate", "src/data/volsurface.rs"), ("VolSurface::variances", "src/data/volsurface.rs"), ("CubicSplineSmile", "src/data/volsmile.rs")], ["VolSurface::volatilities/variances"])
p("V02", "Forward variance is the difference of the two total variances",
  "The variance between two dates equals the total variance when starting at the base date, is zero at the money for equal dates, and at the at-the-money strike equals the later total at-the-money variance less the earlier one, so at-the-money forward variances over adjacent periods add up. Away from the money it adds the smile of an option of the same length starting at the base date, and reversed dates are reported rather than giving a number.",
  ["inputs", "configurations"], "for every surface, pair of dates and strike vector",
  "the existing tests never call the forward-variance query with two different forwards",
  ["src/data/volsurface.rs"], [("VolSurface::forward_variances", "src/data/volsurface.rs"), ("find_smile_date", "src/data/volsurface.rs")], ["VolSurface::forward_variances"])
p("V03", "Volatility surface adaptors shift, roll and pin surfaces exactly",
  "A bumped surface returns the inner volatility plus the bump (in volatility or volatility-time terms as chosen), a rolled surface returns the inner surface at the date rolled back by the roll period or at the same expiry as configured, and a sticky-delta style surface returns the inner volatility at the strike moved with the forward. Adaptors with a zero shift or unchanged forward change nothing, adaptors compose, and displacements and dividend assumptions are passed on (a sticky-delta surface displaces by its new forward).",
  ["inputs", "configurations"], "for every inner surface, adaptor, nesting, date and strike",
  "tests pin one value per adaptor and no nesting",
  ["src/data/voldecorators.rs", "src/data/volsurface.rs"], [("ConstantExpiryTimeEvolution/RollingExpiryTimeEvolution", "src/data/voldecorators.rs"), ("StickyDeltaBumpVol/ParallelBumpVol/TimeScaledBumpVol", "src/data/voldecorators.rs"), ("VolTimeDynamics/VolForwardDynamics::modify", "src/data/volsurface.rs")], ["VolSurface::variances"])
p("F01", "Fixing tables return exactly the fixings supplied, and demand past ones",
  "A fixing table returns the value supplied for an instrument and date-time, reports an error for a missing fixing that should already be known, and reports absence without error for one in the future. Building it fails on conflicting or repeated entries, the order of entries is irrelevant, and it survives JSON unchanged.",
  ["inputs", "histories"], "for every set of fixings, query and table date",
  "tests query one table of a few entries",
  ["src/data/fixings.rs"], [("FixingTable", "src/data/fixings.rs"), ("Fixings", "src/data/fixings.rs")], ["FixingTable::get"])

# ---------------------------------------------------------------- instruments
p("I01", "Vanilla option prices obey put-call parity, bounds and convexity",
  "For any market, European call and put prices on the same underlying, strike, expiry and settlement are finite, satisfy put-call parity against the underlying's forward, and lie within their no-arbitrage bounds. Where the volatility does not vary with strike they are monotone and convex in strike. This holds for cash and physical settlement and whatever the dividends, rates, borrow, volatility and dividend treatment of the volatility surface.",
  ["inputs", "configurations"], "for every market, strike, expiry, settlement type and dividend assumption",
  "tests pin a few prices with one market and one dividend treatment",
  ["src/instruments/options.rs"], [("SpotStartingEuropean::price", "src/instruments/options.rs"), ("price_european", "src/instruments/options.rs")], ["Pricer::price"])
p("I02", "Instrument prices equal an independent valuation from the market data",
  "The price of an equity, cash amount, bond, spot-starting or forward-starting European option computed by the library equals the value obtained independently from the published market data: forward from spot, rate, borrow and dividends; discounting to the settlement date on the option's curve; Black's formula with the surface variance at the strike. No instrument's price depends on market data other than its own.",
  ["inputs", "configurations"], "for every market, instrument and valuation date",
  "tests pin numbers produced by the code itself for one market",
  ["src/instruments/options.rs", "src/instruments/assets.rs", "src/instruments/bonds.rs", "src/pricers/selfpricer.rs"], [("Priceable::price", "src/instruments"), ("discount_date_or_time", "src/instruments")], ["Pricer::price"])
p("I03", "Fixing an instrument conserves its value",
  "When a fixing becomes known, an instrument turns into settled cash flows or a fixed-strike option whose total value equals the contractual payoff discounted to its payment date: an in-the-money option pays intrinsic, an out-of-the-money one nothing, physical exercise delivers the underlying against the strike, and a forward-starting strike is the stated fraction of its strike fixing. Nothing is created, lost or paid twice, in any order in which fixings arrive, and fixings for other instruments or dates change nothing.",
  ["inputs", "histories"], "for every instrument, fixing value and order of arrival of fixings",
  "tests fix a few options once each, all fixings at the same time",
  ["src/instruments/options.rs", "src/instruments/basket.rs", "src/instruments/mod.rs"], [("Instrument::fix / fix_all", "src/instruments/mod.rs"), ("SpotStartingEuropean::fix", "src/instruments/options.rs"), ("ForwardStartingEuropean::fix", "src/instruments/options.rs")], ["instrument decompositions, Pricer::price"])
p("I04", "Cash flows are discounted from settlement, and vanish once paid",
  "A fixed cash flow is worth its amount discounted on its own credit curve from its payment date to the date value settles, an equity or currency is worth its spot adjusted for settlement, and a flow whose ex date-time has passed is worth nothing. Settlement dates are those given by the instrument's settlement rule, and valuing a flow at several dates at once equals valuing it at each.",
  ["inputs", "configurations"], "for every amount, ex/payment date-time, valuation date, settlement rule and curve",
  "tests cover one settlement rule and dates before payment only",
  ["src/instruments/bonds.rs", "src/instruments/assets.rs"], [("ZeroCoupon::price/prices", "src/instruments/bonds.rs"), ("Currency/Equity::price", "src/instruments/assets.rs")], ["Priceable::price/prices"])
p("I05", "A basket is worth the weighted sum of its parts",
  "The price, cash flows, fixings and dependencies of a basket are those of its components times their weights, for any nesting of baskets, any sign of weights and any mix of instruments. Fixing a basket's components one by one or together gives the same value.",
  ["inputs", "configurations", "histories"], "for every basket, nesting, weights, market and fixing set",
  "tests use one two-component basket",
  ["src/instruments/basket.rs"], [("Basket::price/fix/dependencies", "src/instruments/basket.rs")], ["Pricer::price, Bumpable::dependencies"])
p("I06", "Pricing only requests market data the instrument declared",
  "Whatever an instrument asks of the market while being priced as of the spot date - spots, curves, forwards, volatilities, up to which date - was declared by it beforehand for that id and at least that date, and whatever fixing it consults was declared too. A pricer holding only the declared data gives exactly the same price as one holding everything.",
  ["inputs", "configurations", "histories"], "for every instrument, valuation date and stage of its life",
  "tests check the collected dependencies of two instruments; nothing watches the requests made during pricing",
  ["src/risk/dependencies.rs", "src/instruments"], [("DependencyContext/DependencyCollector", "src/risk/dependencies.rs"), ("Instrument::dependencies", "src/instruments")], ["PricingContext calls recorded by a wrapping context"])
p("I07", "Forward-starting options become the equivalent spot-starting option",
  "Before its strike fixes, a forward-starting option's value is proportional to spot when nothing else is fixed in cash, equals Black's formula on the forward strike and forward variance, and obeys put-call parity on the forward strike. Once its strike fixes it is worth exactly the spot-starting option with that strike.",
  ["inputs", "configurations", "histories"], "for every market, strike fraction, strike date, expiry and settlement",
  "tests pin prices with one flat set-up",
  ["src/instruments/options.rs"], [("ForwardStartingEuropean::price/fix", "src/instruments/options.rs")], ["Pricer::price"])
p("I08", "Instruments are identified by their id and keep the terms they were given",
  "Equality, order, hash and text form of instruments depend on the id alone, and every instrument reports the id, credit entity, currency, settlement and time of day it was made with, including the payments and options that fixing turns it into. Options that make no sense (negative strike, non-positive strike fraction, underlying without volatility) are refused when made.",
  ["inputs", "configurations", "histories"], "for every kind of instrument, id, credit entity, currency and settlement rule, before and after fixing",
  "tests look at the prices of a few well formed instruments, hardly ever at their terms",
  ["src/instruments"], [("Instrument::id/credit_id/payoff_currency/settlement/time_to_day_fraction", "src/instruments/mod.rs"), ("RcInstrument Eq/Ord/Hash", "src/instruments/mod.rs"), ("SpotStartingEuropean::new/ForwardStartingEuropean::new", "src/instruments/options.rs")], ["instrument accessors, comparisons and constructor results"])
p("I09", "Values do not depend on units, on the calendar year or on the order of positions",
  "Multiplying every amount of money by a constant multiplies prices, leaves deltas and divides gammas; moving all dates by whole weeks changes nothing. A portfolio is worth the sum of its positions in any order, split or multiplied, and simulated paths follow the same rules.",
  ["inputs", "configurations"], "for every market, portfolio, constant and number of weeks",
  "tests use one currency scale, one date and one-position portfolios",
  ["src/instruments", "src/data", "src/pricers", "src/models"], [("Priceable::price", "src/instruments/options.rs"), ("SelfPricer::price", "src/pricers/selfpricer.rs"), ("fetch_paths", "src/models/blackdiffusion.rs")], ["Pricer::price, DeltaGamma reports, fetch_paths"])

# ---------------------------------------------------------------- risk
p("K01", "Prices after any sequence of bumps equal a full recalculation",
  "After any sequence of bumps of any kind and restores, the latest saved bump undone first, a pricer's price equals that of a freshly built pricer on market data changed in the same way. Caching and selective refetching never leave a stale or half-updated forward, curve or volatility behind, and a bump reports whether it had any effect truthfully.",
  ["histories", "inputs"], "for every sequence of bumps and restores and every instrument",
  "tests apply a few single bumps; stale caches show only for particular bump orders and dependency combinations",
  ["src/risk/cache.rs", "src/risk/marketdata.rs", "src/pricers/selfpricer.rs"], [("PricingContextPrefetch::bump/refetch", "src/risk/cache.rs"), ("MarketData::bump", "src/risk/marketdata.rs")], ["Pricer::price after Bumpable::bump"])
p("K02", "Restoring after a bump brings back exactly the previous state",
  "Undoing the latest saved bump returns every market quantity and every price to exactly its previous value, whatever the bump, whatever earlier bumps remain applied, however often bump and restore are repeated with the same saved state, and after a bump that failed or had no effect. Cleared saved state restores nothing.",
  ["histories", "inputs"], "for every sequence of bump, restore and clear and every instrument",
  "tests restore after single bumps of one kind each",
  ["src/risk/marketdata.rs", "src/risk/cache.rs", "src/risk/mod.rs"], [("Bumpable::restore", "src/risk/mod.rs"), ("SavedData", "src/risk/marketdata.rs"), ("SavedPrefetch", "src/risk/cache.rs")], ["Pricer::price after Bumpable::restore"])
p("K03", "Delta and gamma reports are the finite differences of real repricings",
  "A delta/gamma report contains one entry for every underlying the instrument depends on and no other, each equal to the stated finite difference of prices recomputed from scratch on bumped market data, and for a linear position the delta is its size and the gamma zero. Generating a report leaves the pricer's price unchanged, and reports work for every instrument that can be priced.",
  ["inputs", "configurations"], "for every instrument, market and bump size",
  "tests pin one report of one instrument",
  ["src/risk/deltagamma.rs", "src/risk/cache.rs"], [("DeltaGammaReportGenerator::generate", "src/risk/deltagamma.rs")], ["generated reports"])
p("K04", "Vega and volga reports are the finite differences of real repricings",
  "A vega/volga report contains an entry for every volatility surface the instrument depends on, and none for anything it does not depend on, each equal to the stated finite difference of prices recomputed from scratch with volatility moved up and down, which is zero without volatility dependence. Generating a report leaves the pricer's price unchanged.",
  ["inputs", "configurations"], "for every instrument, market and bump definition",
  "tests pin one report of one instrument",
  ["src/risk/vegavolga.rs", "src/data/bumpvol.rs"], [("VegaVolgaReportGenerator::generate", "src/risk/vegavolga.rs"), ("BumpVol::opposite", "src/data/bumpvol.rs")], ["generated reports"])
p("K05", "Moving time forward equals rebuilding the pricer on the later date",
  "After a time bump, the price equals that of a pricer built afresh on the later date with the spot dynamics applied, any fixings that have come to pass taken from the forward or spot as configured, and the instrument evolved accordingly. Theta is the change in price, sub-reports are those of the moved pricer, and the original pricer is untouched.",
  ["inputs", "configurations", "histories"], "for every instrument mix, number of days moved and dynamics, including moves past fixings and expiries",
  "tests move one option by one day",
  ["src/risk/bumptime.rs", "src/risk/timebumped.rs", "src/pricers/selfpricer.rs"], [("BumpTime::apply/update_instruments", "src/risk/bumptime.rs"), ("TimeBumpedReportGenerator::generate", "src/risk/timebumped.rs")], ["Pricer::price after bump_time, generated reports"])
p("K06", "Bumps and clones stay isolated from everything they do not name",
  "A bump to one id changes nothing for any other id, the market data supplied by the caller is never modified by pricers built from it, and bumping or restoring a cloned pricer never affects the original or other clones, in either direction. Bumping an id that is absent is reported as having no effect and changes nothing.",
  ["histories", "configurations"], "for every set of pricers sharing market data and every interleaving of operations on them",
  "tests use one pricer at a time",
  ["src/risk/marketdata.rs", "src/risk/cache.rs", "src/pricers"], [("Pricer::clone_box", "src/risk/mod.rs"), ("Arc sharing in MarketData", "src/risk/marketdata.rs")], ["Pricer::price of all live pricers after each operation"])
p("K07", "Implied volatility inverts the pricer",
  "Solving for the volatility that gives a target price returns a volatility at which the pricer gives that price, within tolerance, recovering the volatility used to make the target when the price is sensitive to it. Unreachable targets and instruments with no or several volatilities are reported as errors.",
  ["inputs"], "for every option, market, volatility, bracket and tolerance",
  "tests solve one case",
  ["src/solvers/impliedvol.rs"], [("ImpliedVol::solve", "src/solvers/impliedvol.rs")], ["OneDimensionalSolver::solve result and Pricer::price"])
p("K08", "Report comparison accepts equal reports and rejects different ones",
  "Comparing two sets of reports accepts exactly those of the same kinds, instruments and ids whose every number agrees within the tolerance scaled as documented, and names a difference for all others, including a missing, extra or renamed entry or a nested difference. With positive tolerances, comparing a report with itself always succeeds, and between reports of the same bump size comparison is symmetric.",
  ["inputs"], "for every pair of report sets, whatever single field differs",
  "tests compare reports that agree, plus very few differing ones",
  ["src/risk/mod.rs", "src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/timebumped.rs", "src/facade/mod.rs"], [("ApproxEq::validate", "src/math/numerics.rs"), ("assert_approx_eq_reports", "src/facade/mod.rs")], ["assert_approx_eq_reports result"])
p("K09", "The collected dependencies are exactly what was asked for, to the furthest date",
  "Whatever instruments or requests it is given and in whatever order, the dependency collector remembers for each curve, forward and surface the furthest date asked for, each fixing and each underlying of a credit entity once, and nothing else. Every option in a portfolio makes it ask for the spot, forward, surface, discount curve and fixings it needs.",
  ["inputs", "histories"], "for every sequence of requests and every portfolio",
  "tests collect the dependencies of one or two single instruments in one order",
  ["src/risk/dependencies.rs", "src/instruments"], [("DependencyCollector", "src/risk/dependencies.rs"), ("Instrument::dependencies", "src/instruments")], ["DependencyCollector lookups"])
p("K10", "Missing market data is reported, never replaced by a guess",
  "With any one piece of market data taken away (a spot, yield curve, borrow curve, dividend stream or volatility surface), pricing reports an error or gives the same price as before. It reports an error whenever a bump of that piece would have changed the price, in the self-pricer and in the simulation, and a bump of the missing piece has no effect.",
  ["inputs", "configurations"], "for every market, portfolio and piece of market data",
  "tests always supply complete market data",
  ["src/risk/marketdata.rs", "src/risk/cache.rs", "src/pricers"], [("MarketData::spot/yield_curve/forward_curve/vol_surface", "src/risk/marketdata.rs"), ("PricingContextPrefetch", "src/risk/cache.rs")], ["pricer construction and Pricer::price results"])

# ---------------------------------------------------------------- Monte Carlo
p("P01", "Monte-Carlo paths follow exactly from their random numbers",
  "Given the random numbers, each simulated path multiplies the starting level by one plus the Gaussian times the forward standard deviation at each step, sub-stepped as configured and recombined with the forward and displacement, so that zero randomness gives the forward curve. Observation dates, sub-steps and paths are laid out without gaps, repeats or mixing of paths or instruments.",
  ["inputs", "configurations"], "for every timeline, substepping, path count and set of Gaussians",
  "tests check a single path shape",
  ["src/models/blackdiffusion.rs", "src/models/mod.rs"], [("fetch_path/fetch_paths/calculate_substepping", "src/models/blackdiffusion.rs"), ("MonteCarloTimeline", "src/models/mod.rs")], ["public path-construction functions and MonteCarloContext paths"])
p("P02", "Monte-Carlo paths have the right distribution",
  "The simulated Gaussians have zero mean, unit variance, the requested correlation and no dependence across time, so simulated levels average to the forward and their log-variance matches the surface within sampling error. Paths are non-negative wherever the model's steps are small enough to guarantee it, and different runs use different random numbers.",
  ["inputs", "configurations"], "for every market, timeline and path count",
  "Monte-Carlo tests are excluded from the stable tests",
  ["src/models/blackdiffusion.rs"], [("fetch_correlated_gaussians", "src/models/blackdiffusion.rs")], ["MonteCarloContext paths"])
p("P03", "Monte-Carlo prices converge to the analytic price",
  "The Monte-Carlo price of any supported instrument agrees with the self-pricing one within sampling error that shrinks as paths increase, and equals the discounted average of the payoff over the simulated paths.",
  ["inputs", "configurations"], "for every instrument, market and path count",
  "Monte-Carlo tests are excluded from the stable tests and check one option",
  ["src/pricers/montecarlo.rs", "src/instruments/mod.rs"], [("MonteCarloPricer::price", "src/pricers/montecarlo.rs"), ("MonteCarloPriceable", "src/instruments/mod.rs")], ["Pricer::price"])
p("P04", "Monte-Carlo risk responds to bumps and restores like analytic risk",
  "Bumping, restoring, cloning and moving time (short of the expiry) on a Monte-Carlo pricer uses the same random numbers, so that a bump that has no effect leaves the price exactly unchanged, restoring returns exactly the previous price, and bumped price differences agree with analytic ones within sampling error.",
  ["histories", "inputs"], "for every sequence of bumps and restores and every instrument",
  "Monte-Carlo tests are excluded from the stable tests and check single bumps",
  ["src/pricers/montecarlo.rs", "src/models/blackdiffusion.rs"], [("MonteCarloPricer as Bumpable", "src/pricers/montecarlo.rs"), ("BlackDiffusion as Bumpable", "src/models/blackdiffusion.rs")], ["Pricer::price after Bumpable::bump/restore"])

# ---------------------------------------------------------------- serialization
p("S01", "Everything written as JSON reads back as the same thing",
  "Every serializable object - dates, calendars, rules, curves, dividends, surfaces, fixings, market data, instruments, pricer factories, report generators and reports - is written in the form of the documented examples, and reads back from the JSON it writes as an object that behaves identically and writes the same JSON again, any number of times. A priced object gives the same price before and after.",
  ["inputs", "configurations"], "for every object of every registered type, nested arbitrarily",
  "tests round-trip one instance of some types, once",
  ["src/core/factories.rs", "src/data", "src/instruments", "src/risk"], [("Qrc / Qbox / Registry", "src/core/factories.rs"), ("from_serial of each type", "src")], ["serde_json output and behaviour of the result"])
p("S02", "Shared references survive deduplicated JSON with identity and content",
  "With deduplication switched on, an object shared by several owners is written once (or by name only, as configured), and reading back resolves every reference to one shared object with the same content, for any depth of sharing and order of first appearance. A reference to an unknown name is an error, and deduplication state never leaks from one read or write into another, even after a failure.",
  ["inputs", "configurations", "histories"], "for every graph of shared instruments and currencies, dedup mode and sequence of reads, failing ones included",
  "tests cover one two-level example per mode, all successful",
  ["src/core/dedup.rs", "src/facade/mod.rs"], [("Dedup::with / dedup_to_drc", "src/core/dedup.rs")], ["instrument_from_json and its output"])
p("S03", "Malformed JSON is always an error, never a crash or a bad object",
  "Reading any JSON text that is truncated, has wrong types, unknown type tags, missing fields, or invalid contents returns an error; it never crashes the process, and never yields an object that later misbehaves in a way the constructor would have refused. After a failed read, later reads work normally.",
  ["inputs", "fault_sequences"], "for every mutation of every document kind",
  "tests only read well-formed documents",
  ["src/facade/mod.rs", "src/core/factories.rs", "src/math/interpolation.rs"], [("*_from_json", "src/facade/mod.rs"), ("Deserialize implementations", "src")], ["*_from_json results"])

# ---------------------------------------------------------------- facade
p("A01", "Results through the facade and C interface equal the direct ones",
  "Building the same instruments, market data, fixings, pricer and reports through the text facade or the C interface and calculating gives the same prices and reports as direct use of the library. Results are delivered completely, in order, and read back as they were written.",
  ["inputs", "configurations"], "for every instrument, market, pricer and set of reports",
  "tests run one or two fixed documents",
  ["src/facade/mod.rs", "src/facade/c_interface.rs"], [("calculate", "src/facade/mod.rs"), ("qm_* functions", "src/facade/c_interface.rs")], ["qm_calculate and write_results output"])
p("A02", "C handles and strings are owned exactly once",
  "Following the documented ownership rules, any sequence of C-interface calls neither leaks, double-frees, nor touches freed or foreign memory: every handle and string returned is freed exactly once, calls that consume handles free them, calls that do not leave them usable, and clones are independent of the original.",
  ["histories", "inputs"], "for every sequence of creations, clones, uses, failures and frees",
  "tests run a single successful sequence and nothing observes memory",
  ["src/facade/handle.rs", "src/facade/c_interface.rs"], [("extern_handle / from_extern_handle", "src/facade/handle.rs"), ("qm_free_handle / qm_free_string", "src/facade/c_interface.rs")], ["allocator events; AddressSanitizer and Miri reports"])
p("A03", "C-interface failures come back as readable errors, never as crashes",
  "Any failure behind the C interface - bad text, wrong kind of handle, a handle that already holds an error, a failing calculation or an internal panic - comes back as an error handle whose message can be read, and never unwinds or aborts across the interface. After a failure, unrelated handles and later calls keep working.",
  ["inputs", "fault_sequences"], "for every argument, handle kind and failing position in a call sequence",
  "tests exercise only success",
  ["src/facade/c_interface.rs", "src/facade/handle.rs"], [("catch_unwind in qm_* functions", "src/facade/c_interface.rs"), ("Handle::Err", "src/facade/handle.rs")], ["qm_* results"])
p("A04", "Concurrent use gives the same results as sequential use",
  "Instruments, market data and pricer factories shared between threads, with each thread building, bumping, reporting on and serializing its own pricers, give every thread exactly the results it would get alone, with no data race. Deduplication state is per thread.",
  ["schedules", "histories"], "for every number of threads and interleaving of operations",
  "all tests are effectively single-threaded",
  ["src/core/dedup.rs", "src/core/factories.rs", "src/risk", "src/facade"], [("Arc-shared objects and thread-local dedup", "src/core")], ["per-thread results; ThreadSanitizer and Miri reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
