#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
L = "src/lib.rs"; S = "src/statements.rs"; B = "src/fixedincomes/bonds.rs"; R = "src/fixedincomes/bonds/rates.rs"; M = "src/fixedincomes/moneymarkets.rs"

def p(id, title, statement, over, text, why, files, mech, obs=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=obs or [n for n, _ in mech], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

# ---------------------------------------------------------------- calendar and day counts
p("C01", "Leap years and year lengths follow the Gregorian calendar",
  "A year is reported as a leap year exactly when it is divisible by 4 and not by 100, or divisible by 400; the number of days of a year is 366 for those years and 365 for all others. Both answers agree with the calendar type used for dates (a year has a day 366 iff it is a leap year).",
  ["inputs"], "every 32-bit year (and every year the date type supports for the agreement with the calendar)",
  "four sample years are tested; the centuries rule can only be settled for all residues", [L],
  [("is_leap_year", L), ("days_in_year", L)])
p("C02", "Converting a date to a year-fraction float and back returns the same date",
  "For every date, converting it to a floating-point year and back yields the same date without failing. The conversion is strictly increasing in the date, and equals the year plus the day-of-year divided by the number of days in that year.",
  ["inputs"], "every date of the years 1 to 9999, every pair of such dates",
  "no test calls the float-to-date direction at all, and year ends and leap days are rare points", [L],
  [("date_to_float", L), ("date_from_float", L)])
p("C03", "US 30/360 year fraction follows the NASD rule for every pair of dates",
  "The US 30/360 year fraction is (360*dy + 30*dm + dd)/360 with the day numbers adjusted by the NASD rules (both last-of-February: second day becomes 30; first last-of-February: becomes 30; second 31 with first at least 30 becomes 30; first 31 becomes 30). The period year-fraction helper gives the same number as asking for this convention explicitly.",
  ["inputs"], "every pair of valid dates in the years 1 to 9999, in either order",
  "seven sample pairs are tested; the rules interact on a handful of month-end combinations in leap and common years", [L],
  [("yearfrac (US30360)", L), ("yrfrac", L)])
p("C04", "EU 30/360 year fraction follows its rule for every pair of dates",
  "The EU 30/360 year fraction is (360*dy + 30*dm + dd)/360 with every day 31 counted as 30 and no other adjustment. Swapping the two dates flips the sign exactly.",
  ["inputs"], "every pair of valid dates in the years 1 to 9999, in either order",
  "seven sample pairs are tested", [L], [("yearfrac (EU30360)", L)])
p("C05", "Actual-day conventions count the real days between the dates",
  "Act/360 and Act/365 are the signed number of calendar days between the two dates divided by 360 and 365; Act/Act is the difference of the two dates' positions in their years (each year weighted by its own length of 365 or 366 days). All three flip sign when the dates are swapped, and a day count over adjacent intervals adds up.",
  ["inputs"], "every pair (and triple) of dates in the years 1 to 9999",
  "seven sample pairs are tested; leap days and century boundaries are sampled once", [L],
  [("yearfrac (ACT360, ACT365, ACTACT)", L), ("date_to_float", L)])
p("C06", "Year fractions are zero on equal dates and never negative going forward",
  "Under every day-count convention the year fraction from a date to itself is zero, going forward in time it is never negative (strictly positive for the actual conventions), and going backward it is never positive. It stays close to the true elapsed time, within six days' worth of a 360-day year per year elapsed plus three days.",
  ["inputs"], "every ordered pair of dates in the years 1 to 9999 and every convention",
  "tests fix a few pairs per convention; the month-end adjustments could invert order at rare dates", [L],
  [("yearfrac", L)])
# ---------------------------------------------------------------- time value of money
p("C07", "Present and future value are inverse and agree with the discount factors",
  "Taking the future value of an amount and then its present value under the same rate and horizon returns the amount, and vice versa; this holds for periodic, m-times-per-period, continuous and dated compounding. Each present value equals the amount times the corresponding discount factor, dated variants equal the undated ones at the US 30/360 year fraction of the period, and a future value is the amount grown by (1+r)^n (or (1+r/m)^(n*m), or e^(r*n)).",
  ["inputs"], "every amount, rate above -100%, horizon (positive or negative), compounding count and date pair in range",
  "one sample point per function", [L],
  [("pv, fv, pvm, fvm, pvc, fvc, xpv, xfv", L), ("dis_fact, xdis_fact", L)])
p("C08", "Discount factors compose over time",
  "The discount factor over n periods is 1/(1+r)^n: it is 1 at horizon 0, the one-period factor is 1/(1+r), and factors over consecutive horizons at one rate multiply to the factor over the total. The forward discount factor between two horizons times the factor to the first horizon equals the factor to the second.",
  ["inputs"], "every rate above -100% and every pair of horizons",
  "one sample point per function", [L], [("dis_fact, dis_fact_annual, fwd_dis_fact, xdis_fact", L)])
p("C09", "Present value falls as the rate or the horizon grows",
  "For a positive amount, the present value strictly decreases when the rate increases over a positive horizon and when a positive-rate horizon lengthens, lies between 0 and the amount for non-negative rate and horizon, and scales linearly with the amount; future value moves the opposite way. The same holds for the continuous and multiply-compounded variants.",
  ["inputs"], "every pair of rates/horizons/amounts in range",
  "monotonicity is a statement about pairs of inputs; tests look at single points", [L],
  [("pv, fv, pvm, fvm, pvc, fvc, dis_fact", L)])
p("C10", "Annuity present value equals the sum of its discounted payments",
  "The present value of an annuity of n*m level payments with a final amount is minus (the sum of the payments each discounted at r/m per payment, plus the final amount discounted over all payments), for every positive, negative or zero rate. It is linear in the payment and in the final amount.",
  ["inputs"], "every payment, final amount, rate in range (including exactly zero), payments per period m and number of payments up to the bound",
  "one sample point; no test compares the closed form with the sum it stands for", [L], [("pv_annuity", L)])
p("C11", "Annuity payment and annuity present value are inverse",
  "The payment computed for a present value, rate, term and final amount is the one whose annuity present value is that present value, and the payment computed from an annuity's present value is that annuity's payment; both also at zero rate.",
  ["inputs"], "every amount, non-negative rate, term and payment frequency in range",
  "one sample point", [L], [("pmt", L), ("pv_annuity", L)])
p("C12", "Nominal, effective and exponential rate conversions are consistent inverses",
  "Converting a rate nominal->effective->nominal, effective->exponential->effective or nominal->exponential->nominal returns it; the effective rate of a nominal rate is (1+r/m)^m - 1 and of an exponential rate is e^r - 1. Converted rates describe the same growth, keep the sign of the rate, increase with the rate, and satisfy effective >= nominal >= exponential for m >= 1.",
  ["inputs"], "every rate in range above -100% per compounding and every compounding count",
  "four sample points checked to six digits", [L],
  [("nom_eff_rate, eff_nom_rate, exp_eff_rate, eff_exp_rate, nom_exp_rate, exp_nom_rate", L)])
p("C13", "NPV is the sum of individually discounted cash flows",
  "The net present value of a list of timed cash flows equals the sum of each flow discounted on its own, so it does not depend on the order of the flows and is linear in them; a zero rate gives the plain sum. Valuing at another time t0 multiplies by (1+r)^t0, and the dated version uses US 30/360 year fractions from the valuation date.",
  ["inputs"], "every rate above -100%, times (positive and negative), and up to the bounded number of cash flows",
  "one vector per function is tested", [L], [("npv_t0, npv, xnpv", L)])
p("C14", "The root finder only reports converged Newton steps and always stops",
  "For any function whatsoever, when the root finder reports a root x, the last step taken there was smaller than 1e-8, and that step was the Newton step f/f' from the last point evaluated, with f' measured by a forward difference of one tenth of the tolerance. It gives up (reports no root) when the measured slope vanishes or after 100 steps, and never evaluates the function more than 200 times; for a linear function it reports the exact root.",
  ["inputs", "histories"], "every function (arbitrary answers at every evaluation), every start and tolerance",
  "three fixed quadratics are tested; the contract is over arbitrary functions", [L], [("newt_raph", L)])
p("C15", "IRR and XIRR report rates at which the net present value vanishes",
  "A reported internal rate of return is the converged Newton solution, started at 10%, of the net present value of exactly the given flows, so that discounting the flows at it gives zero up to solver tolerance. The dated variant measures times as US 30/360 year fractions from the first date.",
  ["inputs"], "every list of cash flows and times within the bound for which the solver converges within the bound",
  "three vectors are tested", [L], [("irr, xirr", L), ("npv_t0, newt_raph", L)])
p("C16", "Approximate comparison is a symmetric relative-tolerance test",
  "Two numbers compare as approximately equal exactly when both are below 1e-8 in magnitude or their difference is less than one millionth of the larger magnitude; the comparison is reflexive and symmetric. A number is zero-like exactly when its magnitude is below 1e-8.",
  ["inputs"], "every pair of finite doubles",
  "a single pair is tested", [L], [("approx, is_zero", L)])
# ---------------------------------------------------------------- fixed income
p("C17", "A coupon bond is priced at the present value of its own cash flows",
  "The price of a coupon bond at a nominal rate equals the sum of its generated cash flows each discounted at rate/frequency per coupon period, including at a zero rate. It equals par when the rate equals the coupon rate, and is above (below) par when the rate is below (above) the coupon.",
  ["inputs"], "every par, coupon, rate in range, frequency 1,2,4,12 and number of coupons up to the bound",
  "one bond at one rate; par and zero-rate behaviour are never tested", [B], [("CouponBond::price", B), ("CouponBond::generate_cashflow", B), ("pv_annuity, pvm", L)])
p("C18", "A coupon bond's schedule has every coupon and one redemption",
  "The generated schedule of a bond whose life spans k coupon periods has exactly k entries, each par*coupon/frequency, with par added to the last one only; the total is par plus all coupons.",
  ["inputs"], "every par, coupon, frequency in {1,2,3,4,6,12} and k up to the bound, life written as k/frequency",
  "never asserted by a test; float truncation of frequency*life matters only for particular k", [B], [("CouponBond::generate_cashflow", B)])
p("C19", "Yield to maturity is the rate that reprices the bond",
  "The yield reported for a price is the converged Newton solution, started at 5%, of price(rate) = given price, so that repricing the bond at it gives the price back; asking for the yield of a par-priced bond with a 5% coupon gives 5%.",
  ["inputs"], "every bond and price within the bound for which the solver converges within the bound",
  "two prices of one bond are tested", [B], [("CouponBond::ytm", B), ("newt_raph", L)])
p("C20", "Full price, flat price and accrued interest reconcile between coupons",
  "At time t into the coupon cycle the full price is the price at the start of the cycle grown at rate/frequency per coupon period for t, the accrued interest is t*coupon*par, and the flat price is the full price minus the accrued interest. At t = 0 all prices coincide, and at the end of a cycle the full price equals the next price plus the coupon.",
  ["inputs"], "every bond, rate and t in range",
  "one bond at one t", [B], [("CouponBond::pv_full, pv_flat, accrued_interest, price", B)])
p("C21", "A floating-rate note is priced consistently with its margins",
  "The price of a floating-rate note equals the sum of its projected coupons (index plus quoted margin, divided by frequency, times par) and par, each discounted at (index plus discount margin)/frequency per period; it equals par when the quoted and discount margins agree. The discount margin reported for a price is the converged Newton solution, started at 0.5%, of that pricing.",
  ["inputs"], "every note, index rate and margin in range, frequency 1,2,4 and number of payments up to the bound",
  "one price and one margin are tested", [B], [("FloatingRateNotes::price, discount_margin", B)])
p("C22", "Rate curves interpolate linearly between their own points",
  "At the time of its i-th point a rate curve returns that point's rate, and between two neighbouring points it returns their linear interpolation, hence a value between them; this holds for all three curve kinds and for spot, par and forward rate sets alike. It never reads a point that does not exist for times from the first to the last point.",
  ["inputs"], "every curve of 1 to 6 points, frequency and time between the first and the last point",
  "two times on one curve are tested", [R], [("RateCurve::rate_estim", R), ("Rates::rate_estim", R)])
p("C23", "Curve conversions keep the discounting a curve implies",
  "Converting a rate curve between nominal, effective and exponential keeps its frequency, its number of points and the present value of any cash flow at any of its points, and converting back returns the original rates; converting to the kind it already has changes nothing. The present value under a curve uses the compounding of the curve's kind at the interpolated rate.",
  ["inputs"], "every curve of 1 to 4 points, rates in range, frequency, cash flow and point",
  "one curve is converted and compared approximately; present values are never compared", [R],
  [("RateCurve::to_nominal, to_effective, to_exponential", R), ("RateCurve::pv", R)])
p("C24", "Par and spot curves are inverse and price par bonds at par",
  "Converting par rates to spot rates and back returns the par rates (and spot to par and back returns the spot rates); the first rate is unchanged and a flat curve stays flat. A bond paying the i-th par rate is worth exactly par when discounted at the spot rates.",
  ["inputs"], "every nominal curve of 1 to 4 points with rates in range, frequency",
  "one six-point curve is tested", [R], [("Rates::to_spot, to_par", R)])
p("C25", "Forward rates are consistent with the spot curve",
  "Investing to the start of a forward period at the spot rate and then at the forward rate over its tenor gives the same growth as investing at the spot rate to the end; on a flat curve every forward rate equals the flat rate.",
  ["inputs"], "every nominal spot curve of up to 6 points, frequency, start and tenor on the curve",
  "one start and tenor on one curve", [R], [("Rates::forward_rate", R)])
p("C26", "Pricing a bond on a rate curve discounts each flow at its own rate",
  "The price of a bond on a rate curve is the sum over its cash flows of the present value of that flow at its payment time under the curve; on a flat nominal curve of the same frequency it equals the price at that rate, and it is the same on the converted effective or exponential curve.",
  ["inputs"], "every bond with up to the bounded number of coupons, every curve covering it",
  "one bond on one curve", [B, R], [("CouponBond::price_ratecurve", B), ("RateCurve::pv", R)])
p("C27", "Money-market yields and T-bill discounts are consistent",
  "A T-bill's discount from its quoted rate and the quoted rate from its price are inverse. The holding-period yield is (end value + income)/start - 1; the money-market yield is that yield scaled by 360/t, and the effective annual yield is its compounding over 365/t, so they agree with the holding-period yield at t = 360 and t = 365 and have the same sign as it.",
  ["inputs"], "every price, face, income and tenor in range",
  "one sample point per formula", [M], [("t_bill_r, t_bill_d, holding_per_yield, eff_ann_yield, money_mkt_yield", M)])
p("C28", "Time-weighted return chains sub-period growth and ignores flows",
  "The time-weighted return over n periods compounds to the product of each sub-period's end value over its start value after flows; it is unchanged by scaling all amounts, is the common growth rate when all sub-periods grow alike, and the default number of periods is the number of sub-periods.",
  ["inputs"], "every list of 2 to 6 balances with flows such that starting balances are positive",
  "two vectors are tested", [M], [("twrr_n, twrr", M)])
# ---------------------------------------------------------------- statements
p("C29", "Balance-sheet totals are the signed sums of their entries",
  "After calculation every balance-sheet total equals the signed sum of its own entries: contra items (accumulated depreciation and amortization) reduce their asset, every entered item is counted exactly once in assets, liabilities or equity, and the balance check is assets minus liabilities minus equity. A total within 1e-5 of zero is absent.",
  ["inputs"], "every assignment of amounts to every subset of balance-sheet items",
  "one data file is summed; a missing, doubled or wrongly signed item among 55 shows only when that item is non-zero", [S],
  [("calc_elements for balance sheets", S), ("balance sheet composition table", S)])
p("C30", "Profit-and-loss totals follow the income-statement cascade",
  "After calculation revenue, COGS, gross profit, EBITDA, EBIT, EBT, net income, retained contribution, comprehensive income and the gain on asset sales each equal the signed sum of their own entries, every revenue/gain adding and every cost/tax/dividend subtracting exactly once along the cascade. Totals are consistent with each other whatever subset of entries is present.",
  ["inputs"], "every assignment of amounts to every subset of profit-and-loss items",
  "one data file is summed", [S], [("calc_elements for profit and loss", S), ("profit and loss composition table", S)])
p("C31", "Cash-flow totals and free cash flows are the signed sums of their lines",
  "After calculation operating, investing and financing cash flow are the signed sums of their lines and net cash flow is the sum of the three. Free cash flow to the firm equals free cash flow to equity plus debt cash flow minus the tax shield, and debt cash flow is interest paid minus new debt.",
  ["inputs"], "every assignment of amounts to every subset of cash-flow items",
  "one data file is summed", [S], [("calc_elements for cash flows", S), ("cash flow composition table", S)])
p("C32", "Recalculation is idempotent, keeps entries, and ignores stale totals",
  "Calculating totals never changes an entered item, gives the same result when repeated, and does not depend on stale values of totals already present. Removing totals deletes exactly the calculated items and the entries within 1e-5 of zero, and recalculating afterwards restores the same totals; cleaning removes exactly the near-zero items.",
  ["inputs", "histories"], "every content of a statement map, every sequence of calculate/remove/clean",
  "tests calculate one file once", [S], [("calc_elements, remove_calc_clean, clean", S)])
p("C33", "Entry updates accumulate or replace, and calculated items are refused",
  "Adding to an item increases its value by the amount, upserting replaces it, an absent item reads as zero, and the vector forms act as the same operations in order; other items are untouched. Adding or upserting a calculated item is refused without changing the map, and an item is 'calculated' exactly when it is a total of its statement.",
  ["inputs", "histories"], "every item of every statement type, every amount, sequences of updates",
  "a few items are updated in one test; refusal is never tested", [S], [("add, upsert, add_vec, upsert_vec, value, is_calc", S)])
p("C34", "Double-entry transactions keep the balance sheet in balance",
  "A debit increases asset items and decreases contra-asset, liability and equity items, a credit does the opposite, and a transaction debits one item and credits another by the same amount, so assets minus liabilities minus equity is unchanged by any series of transactions. Debiting or crediting a calculated item is refused.",
  ["inputs", "histories"], "every pair of entered items, every amount, every starting sheet, series of transactions",
  "no test executes a transaction", [S], [("debit, credit, transact, transact_series", S), ("debit/credit direction table", S)])
p("C35", "The derived cash-flow statement reconciles with the change in cash",
  "For balanced opening and closing balance sheets and any profit-and-loss statement, the net cash flow of the cash-flow statement derived from them equals closing cash minus opening cash. In general it differs from it by exactly the change in the balance check.",
  ["inputs"], "every pair of balance sheets and profit-and-loss statement (every subset of items, every amount)",
  "one data file at two periods; an item missing from the derivation shows only if it changed in that period", [S],
  [("calc_cash_flow", S), ("cash flow derivation tables", S)])
p("C36", "Each derived cash-flow line comes from its own balance and income items",
  "Each line of a derived cash-flow statement is the change between the two balance sheets of its own items, or the amount of its own income-statement items: interest and dividends paid, the sale-of-assets adjustments, and so on. The tax shield of interest is the corporate-tax saving on interest paid, capped by the tax in excess of the minimum revenue tax and never negative.",
  ["inputs"], "every pair of balance sheets, income statement and tax rates in range",
  "three cells of one file are compared", [S], [("calc_cash_flow", S), ("depreciation_tax_adjust", S)])
p("C37", "Current tax is the larger of income tax and the minimum revenue tax",
  "After the tax calculation every profit-and-loss period carries as current tax the larger of (pre-tax income adjusted for tax depreciation) times the corporate rate plus EBITDA times the gross-profit rate, and revenue times the revenue rate, using that period's own rates; absent rates count as zero. No other entered item of any statement changes, and setting tax rates applies the three rates to every profit-and-loss period and keeps other stored ratios.",
  ["inputs", "histories"], "every income statement, tax rates and number of periods within the bound",
  "never asserted by a test", [S], [("calc_tax, set_tax_rates", S)])
p("C38", "Common-size statements divide every item by the statement's base",
  "A common-size statement has the same items, each divided by total assets, revenue or net cash flow respectively, so the base itself becomes 1 and ratios between items are preserved; the original is unchanged.",
  ["inputs"], "every statement with a non-zero base item",
  "never tested", [S], [("common_size", S)])
p("C39", "Splitting a report into statements and joining them returns the report",
  "Splitting a financial report into its statements gives each statement the report's own dates and items, with absent parts absent, and joining those statements returns the same report. Joining statements whose dates do not match the profit-and-loss period returns nothing.",
  ["inputs"], "every combination of present and absent parts, every period and item values, every mismatch of dates",
  "never tested", [S], [("FinancialReport::to_statements, from_statements and the statement accessors", S)])
p("C40", "Account cells are independent and reports are read from the right dates",
  "Writing an entered item at a date or period and reading it back gives the value written, all other cells stay as they were, absent items read as zero and calculated items are refused. The report for a period consists of that period's profit-and-loss, cash flow and ratios, and the balance sheets of exactly its start and end dates where they exist; there is a report for exactly the periods with a profit-and-loss statement.",
  ["inputs", "histories"], "every item, value, date and period within the bound",
  "a handful of cells of one file are written and read", [S], [("get_*/put_* of Accounts, get_account, to_financial_reports", S)])
p("C41", "A period sequence is valid exactly when each period starts where the last ended",
  "A non-empty sequence of periods is accepted exactly when every period starts no later than it ends and every period after the first starts on the date the previous one ended; an account's own date check applies the same rule to its profit-and-loss periods in order. Deriving the dates of an account collects exactly the start and end dates of its profit-and-loss periods and refuses a period that ends before it starts.",
  ["inputs"], "every sequence of up to 4 periods with arbitrary dates",
  "never tested", [S], [("check_dates, Accounts::check_dates, set_dates_from_profit_loss, valid_date", S)])
p("C42", "Period selection partitions by length and follows one unbroken chain",
  "Every profit-and-loss period is classed as exactly one of long (120 days or more) or short. The consecutive periods of a set are periods of that set forming one unbroken chain of quarters or years (same day of month, three or twelve months apart, quarters preferred) back from the latest end date, and selecting them never fails. Restricting an account to periods keeps exactly those periods' statements and their boundary balance sheets, unchanged.",
  ["inputs"], "every set of up to 3 periods with arbitrary dates in the years 1900 to 2200",
  "one data file of first-of-month dates is used and the result is not asserted", [S],
  [("split_periods, consecutive_periods, from_periods, consecutive_profit_loss, consecutive_cash_flow", S)])
p("C43", "Account-wide and report-wide calculation agree with the single statements",
  "Calculating an account's totals or cash flows gives, for every period, what calculating that period's statements on their own gives, using that period's balance sheets, profit and loss and tax rates; periods lacking a balance sheet get no derived cash flow. A report's own calculation gives the same totals and derived cash flow.",
  ["inputs"], "every account of up to 2 periods with arbitrary amounts, presence of sheets and tax rates",
  "one file is calculated and six cells are compared", [S], [("Accounts::calc_elements, calc_cash_flow, remove_calc_clean", S), ("FinancialReport::calc_elements", S)])
p("C44", "The printed table shows every non-zero item once per column",
  "In the table and CSV rendering every row of a section has one cell per date or period column, every item that is non-zero in some column appears in its section with its own values divided by the display unit, and nothing that is zero everywhere appears.",
  ["inputs"], "every account content within the bound",
  "the rendering is only printed, never compared", [S], [("Accounts::format_table, to_csv", S)])
p("C45", "Saving and loading an account returns the same account",
  "Serialising reports, accounts and valuation models to RON or JSON and reading them back yields an equal value.",
  ["inputs"], "every account content",
  "one report is round-tripped and one item compared", [S, "src/valuations.rs"], [("serde derives", S)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
