//! Statement items by group and the totals as signed sums of groups, written down independently of the library.
#![allow(dead_code)]
use crate::api::*;
use financelib::statements::{BsType::*, CfType::*, PlType::*, *};
use std::collections::HashMap;
use std::hash::Hash;

pub type Groups<K> = &'static [&'static [K]];
pub type Totals<K> = &'static [(K, &'static [(usize, i32)])];

pub const BS: Groups<BsType> = &[
    &[RawMaterials, WorkInProgress, FinishedGoods],
    &[Cash, CurrentReceivables, CurrentLoans, CurrentAdvances, OtherCurrentAssets, CurrentInvestments],
    &[AccountReceivables, LongTermLoanAssets, LongTermAdvances, LongTermInvestments, OtherLongTermAssets, Goodwill, CapitalWip, OtherTangibleAssets],
    &[PlantPropertyEquipment],
    &[AccumulatedDepreciation],
    &[LeasingRentalAssets],
    &[AccumulatedAmortizationLease],
    &[IntangibleAssets, IntangibleAssetsDevelopment],
    &[AccumulatedAmortization],
    &[CurrentPayables, CurrentBorrowings, CurrentNotesPayable, OtherCurrentLiabilities, InterestPayable, CurrentProvisions, CurrentTaxPayables, LiabilitiesSaleAssets, CurrentLeasesLiability],
    &[AccountPayables, LongTermBorrowings, BondsPayable, DeferredTaxLiabilities, LongTermLeasesLiability, DeferredCompensation, DeferredRevenues, CustomerDeposits, OtherLongTermLiabilities, PensionProvision, TaxProvision, LongTermProvision],
    &[CommonStock, PreferredStock, PdInCapAbovePar, PdInCapTreasuryStock, RevaluationReserves, Reserves, RetainedEarnings, AccumulatedOCI, MinorityInterests],
];
pub const BST: Totals<BsType> = &[
    (Inventories, &[(0, 1)]),
    (CurrentAssets, &[(0, 1), (1, 1)]),
    (NetPlantPropertyEquipment, &[(3, 1), (4, -1)]),
    (NetLeaseRentalAssets, &[(5, 1), (6, -1)]),
    (NetIntangibleAssets, &[(7, 1), (8, -1)]),
    (LongTermAssets, &[(2, 1), (3, 1), (4, -1), (5, 1), (6, -1), (7, 1), (8, -1)]),
    (Assets, &[(0, 1), (1, 1), (2, 1), (3, 1), (4, -1), (5, 1), (6, -1), (7, 1), (8, -1)]),
    (CurrentLiabilities, &[(9, 1)]),
    (LongTermLiabilities, &[(10, 1)]),
    (Liabilities, &[(9, 1), (10, 1)]),
    (Equity, &[(11, 1)]),
    (BalanceSheetCheck, &[(0, 1), (1, 1), (2, 1), (3, 1), (4, -1), (5, 1), (6, -1), (7, 1), (8, -1), (9, -1), (10, -1), (11, -1)]),
];
pub const PL: Groups<PlType> = &[
    &[OperatingRevenue, NonOperatingRevenue],
    &[ExciseStaxLevy],
    &[CostMaterial, DirectExpenses],
    &[OtherIncome],
    &[Salaries, AdministrativeExpenses, ResearchNDevelopment, OtherOverheads, OtherOperativeExpenses, OtherExpenses, ExceptionalItems],
    &[Depreciation, AssetImpairment, LossDivestitures, Amortization],
    &[InterestRevenue, OtherFinancialRevenue],
    &[InterestExpense, CostDebt],
    &[ExtraordinaryItems, PriorYears],
    &[TaxesCurrent, TaxesDeferred],
    &[NetIncomeDiscontinuedOps],
    &[Dividends],
    &[SalesAmountPPE, SalesAmountLeaseRentalAssets, SalesAmountIntangibleAssets, AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible],
    &[GrossSalesPPE, GrossSalesLeaseRentalAssets, GrossSalesIntangibleAssets],
    &[GainsLossesForex, GainsLossesActurial, FvChangeAvlSale],
    &[OtherDeferredTaxes],
    &[TaxDepreciation],
];
pub const PLT: Totals<PlType> = &[
    (Revenue, &[(0, 1), (1, -1)]),
    (COGS, &[(2, 1)]),
    (GrossProfit, &[(0, 1), (1, -1), (2, -1)]),
    (EBITDA, &[(0, 1), (1, -1), (2, -1), (3, 1), (4, -1)]),
    (EBITX, &[(0, 1), (1, -1), (2, -1), (3, 1), (4, -1), (5, -1)]),
    (EBTX, &[(0, 1), (1, -1), (2, -1), (3, 1), (4, -1), (5, -1), (6, 1), (7, -1)]),
    (EBT, &[(0, 1), (1, -1), (2, -1), (3, 1), (4, -1), (5, -1), (6, 1), (7, -1), (8, -1)]),
    (EAT, &[(0, 1), (1, -1), (2, -1), (3, 1), (4, -1), (5, -1), (6, 1), (7, -1), (8, -1), (9, -1)]),
    (NetIncome, &[(0, 1), (1, -1), (2, -1), (3, 1), (4, -1), (5, -1), (6, 1), (7, -1), (8, -1), (9, -1), (10, 1)]),
    (ContributionRetainedEarnings, &[(0, 1), (1, -1), (2, -1), (3, 1), (4, -1), (5, -1), (6, 1), (7, -1), (8, -1), (9, -1), (10, 1), (11, -1)]),
    (GainsLossesSales, &[(12, 1), (13, -1)]),
    (OtherComprehensiveIncome, &[(12, 1), (13, -1), (14, 1), (15, -1)]),
    (TotalComprehensiveIncome, &[(0, 1), (1, -1), (2, -1), (3, 1), (4, -1), (5, -1), (6, 1), (7, -1), (8, -1), (9, -1), (10, 1), (12, 1), (13, -1), (14, 1), (15, -1)]),
];
pub const CF: Groups<CfType> = &[
    &[ChangeCurrentLiabilities, ChangeLongTermLiabilities, ChangeProvisions, ChangeRetainedEarnings, AdjustmentsRetainedEarnings, ChangeAccumulatedOci, OtherCashFlowOperations],
    &[ChangeCurrentAssets, ChangeLongTermAssets],
    &[OtherCashFlowInvestments],
    &[AdjustmentsSalesAssets, ChangeReserves],
    &[ChangePPE],
    &[InvestmentsCapDevp, InvestmentsLoans, ChangeEquityAssets, ChangeInvestments],
    &[StockSalesAndPurchase, DonorContribution, OtherCashFlowFinancing],
    &[ChangeDebt],
    &[CashFlowInterests],
    &[CashFlowDividends],
    &[CashFlowTaxShield],
];
pub const CFT: Totals<CfType> = &[
    (CashFlowOperations, &[(0, 1), (1, -1)]),
    (CashFlowInvestments, &[(2, 1), (3, 1), (4, -1), (5, -1)]),
    (CashFlowFinancing, &[(6, 1), (7, 1), (8, -1), (9, -1)]),
    (NetCashFlow, &[(0, 1), (1, -1), (2, 1), (3, 1), (4, -1), (5, -1), (6, 1), (7, 1), (8, -1), (9, -1)]),
    (FreeCashFlowEquity, &[(0, 1), (1, -1), (3, 1), (4, -1), (7, 1), (8, -1)]),
    (CashFlowDebt, &[(8, 1), (7, -1)]),
    (FreeCashFlowFirm, &[(0, 1), (1, -1), (3, 1), (4, -1), (10, -1)]),
];
pub fn val<K: Copy + Eq + Hash>(m: &HashMap<K, f64>, k: K) -> f64 { match m.get(&k) { Some(v) => *v, None => 0.0 } }
/// the total as the signed sum of the entries of its groups
pub fn sum<K: Copy + Eq + Hash>(m: &HashMap<K, f64>, g: Groups<K>, t: &[(usize, i32)]) -> f64 {
    let mut s = 0.0;
    for &(i, sign) in t { for k in g[i] { if sign > 0 { s += val(m, *k); } else { s -= val(m, *k); } } }
    s
}
/// amounts are multiples of 2^-16, just above the 1e-5 below which the library drops items
pub fn amount() -> f64 { grid(-1e6, 1e6, -16) }
pub fn fill<K: Copy + Eq + Hash>(m: &mut HashMap<K, f64>, ks: &[K]) { for k in ks { m.insert(*k, amount()); } }
/// amounts as whole units up to a trillion
pub fn big() -> f64 { grid(-1e12, 1e12, 0) }
/// like `amount`, but positive: its sums never need a case split on being dropped
pub fn positive() -> f64 { grid(1.0, 1e6, -16) }
/// every total of a freshly calculated map is the signed sum of the entries, absent when that is (near) zero
pub fn totals<K: Copy + Eq + Hash>(m: &HashMap<K, f64>, e: &HashMap<K, f64>, g: Groups<K>, t: Totals<K>, what: &str, gone: &str) {
    for &(k, def) in t {
        let s = sum(e, g, def);
        same(val(m, k), if s.abs() > 1e-5 { s } else { 0.0 }, what);
        check(m.contains_key(&k) == (s.abs() > 1e-5), gone);
    }
}
/// one group of entries alone, each entry present or not
pub fn one_group<K: Copy + Eq + Hash>(g: Groups<K>, large: bool) -> HashMap<K, f64> {
    let mut m = HashMap::new();
    let i = choice(g.len() as u32) as usize;
    for k in g[i] { m.insert(*k, if large { big() } else { amount() }); }
    m
}
/// two different groups of entries
pub fn two_groups<K: Copy + Eq + Hash>(g: Groups<K>) -> HashMap<K, f64> {
    let mut m = HashMap::new();
    let i = choice(g.len() as u32) as usize;
    let j = choice(g.len() as u32) as usize;
    assume(i < j);
    fill(&mut m, g[i]);
    fill(&mut m, g[j]);
    m
}
/// a single entry, also far below the threshold
pub fn one_entry<K: Copy + Eq + Hash>(g: Groups<K>) -> HashMap<K, f64> {
    let mut m = HashMap::new();
    let n: usize = g.iter().map(|x| x.len()).sum();
    let i = choice(n as u32) as usize;
    let k = g.iter().flat_map(|x| x.iter()).nth(i).unwrap();
    m.insert(*k, grid(-1e-4, 1e-4, -40));
    m
}
/// all entries at once, all of them positive
pub fn all_groups<K: Copy + Eq + Hash>(g: Groups<K>) -> HashMap<K, f64> {
    let mut m = HashMap::new();
    for x in g { for k in *x { m.insert(*k, positive()); } }
    m
}

pub fn leaves<K: Copy>(g: Groups<K>) -> Vec<K> { g.iter().flat_map(|x| x.iter().copied()).collect() }
pub fn names<K: Copy>(t: Totals<K>) -> Vec<K> { t.iter().map(|x| x.0).collect() }
pub fn keys<K: Copy>(g: Groups<K>, t: Totals<K>) -> Vec<K> { let mut v = leaves(g); v.extend(names(t)); v }
/// the two maps agree on the given items
pub fn agree<K: Copy + Eq + Hash>(a: &HashMap<K, f64>, b: &HashMap<K, f64>, ks: &[K], what: &str) {
    for k in ks {
        check(a.contains_key(k) == b.contains_key(k), what);
        same(val(a, *k), val(b, *k), what);
    }
}

/// the balance-sheet items behind each derived cash-flow line: increases add, decreases subtract (or the reverse)
pub const FROM_BS: &[(CfType, &[BsType], &[BsType])] = &[
    (ChangeCurrentAssets, &[CurrentReceivables, CurrentLoans, CurrentAdvances, OtherCurrentAssets, CurrentInvestments, RawMaterials, WorkInProgress, FinishedGoods], &[]),
    (ChangeLongTermAssets, &[AccountReceivables, LongTermAdvances, CapitalWip], &[AccumulatedDepreciation, AccumulatedAmortizationLease, AccumulatedAmortization]),
    (ChangeCurrentLiabilities, &[CurrentPayables, CurrentBorrowings, CurrentNotesPayable, OtherCurrentLiabilities, InterestPayable, CurrentProvisions, CurrentTaxPayables, LiabilitiesSaleAssets, CurrentLeasesLiability], &[]),
    (ChangeLongTermLiabilities, &[AccountPayables, DeferredTaxLiabilities, DeferredCompensation, DeferredRevenues, CustomerDeposits, OtherLongTermLiabilities], &[]),
    (ChangeProvisions, &[PensionProvision, TaxProvision, LongTermProvision], &[]),
    (ChangeRetainedEarnings, &[RetainedEarnings], &[]),
    (ChangeAccumulatedOci, &[AccumulatedOCI], &[]),
    (ChangePPE, &[PlantPropertyEquipment, LeasingRentalAssets], &[]),
    (ChangeReserves, &[RevaluationReserves, Reserves], &[]),
    (InvestmentsCapDevp, &[IntangibleAssetsDevelopment], &[]),
    (InvestmentsLoans, &[LongTermLoanAssets], &[]),
    (ChangeEquityAssets, &[IntangibleAssets], &[]),
    (ChangeInvestments, &[LongTermInvestments, Goodwill], &[]),
    (OtherCashFlowInvestments, &[], &[OtherLongTermAssets, OtherTangibleAssets]),
    (StockSalesAndPurchase, &[CommonStock, PreferredStock, PdInCapAbovePar, PdInCapTreasuryStock], &[]),
    (ChangeDebt, &[LongTermBorrowings, BondsPayable, LongTermLeasesLiability], &[]),
    (OtherCashFlowFinancing, &[MinorityInterests], &[]),
];
/// the income-statement items behind each derived cash-flow line
pub const FROM_PL: &[(CfType, &[PlType], &[PlType])] = &[
    (CashFlowInterests, &[InterestExpense, CostDebt], &[]),
    (CashFlowDividends, &[Dividends], &[]),
    (AdjustmentsRetainedEarnings, &[InterestExpense, CostDebt, Dividends, AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible], &[GainsLossesSales]),
    (AdjustmentsSalesAssets, &[GainsLossesSales], &[AccAmortSalesPPE, AccAmortSalesLeaseRental, AccAmortSalesIntangible]),
];
pub fn diff<K: Copy + Eq + Hash>(m: &HashMap<K, f64>, plus: &[K], minus: &[K]) -> f64 {
    let mut s = 0.0;
    for k in plus { s += val(m, *k); }
    for k in minus { s -= val(m, *k); }
    s
}

use chrono::NaiveDate as Nd;
use std::collections::{BTreeMap, BTreeSet};
pub type P = (Nd, Nd);
pub fn ymd(y: i32, m: u32, d: u32) -> Nd { Nd::from_ymd_opt(y, m, d).unwrap() }
pub fn account() -> Accounts {
    Accounts { currency: financelib::Currency::INR, consolidated: true, dates: BTreeSet::new(), balance_sheet: BTreeMap::new(), profit_loss: BTreeMap::new(), cash_flow: BTreeMap::new(), others: BTreeMap::new() }
}
pub fn any_day() -> Nd { crate::util::any_yo(1900, 2100).nd }
pub const RATIOS: &[FinOthersTyp] = &[FinOthersTyp::CorporateTaxRate, FinOthersTyp::GrossProfitTaxRate, FinOthersTyp::RevenueTaxRate, FinOthersTyp::CurrentRatio, FinOthersTyp::AcidRatio, FinOthersTyp::DaysOfInventory, FinOthersTyp::InventoryTurnoverRatio];
/// the two maps hold the same items with the same values
pub fn equal<K: Copy + Eq + Hash>(a: &HashMap<K, f64>, b: &HashMap<K, f64>) -> bool {
    let mut ok = a.len() == b.len();
    for (k, v) in a { match b.get(k) { Some(w) => ok &= *v == *w, None => ok = false } }
    ok
}
pub fn equal_opt<K: Copy + Eq + Hash>(a: &Option<HashMap<K, f64>>, b: &Option<HashMap<K, f64>>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => equal(x, y), _ => false }
}
/// any day of the four years 2020 to 2023
pub fn near_day() -> Nd {
    let (y, o) = (int(2020, 2023), int(1, 366));
    assume(o <= 365 || y == 2020);
    let d = Nd::from_yo_opt(y, o as u32);
    assume(d.is_some());
    d.unwrap()
}
/// a map and a copy of it from before a refused operation
pub struct Kept<K> { pub m: HashMap<K, f64>, pub e: HashMap<K, f64>, pub what: &'static str }
pub extern "C" fn kept<K: Copy + Eq + Hash>(p: *mut u8) {
    let w = unsafe { &*(p as *const Kept<K>) };
    unchanged(&w.m, &w.e, w.what);
}
pub fn unchanged<K: Copy + Eq + Hash>(m: &HashMap<K, f64>, e: &HashMap<K, f64>, what: &str) {
    check(m.len() == e.len(), what);
    for (k, x) in e { check(m.contains_key(k), what); same(val(m, *k), *x, what); }
}
