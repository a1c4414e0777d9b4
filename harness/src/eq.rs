//! Running the calculators and comparing their results with the oracle.

use crate::engine::*;
use crate::gen::EqCase;
use crate::oracle::*;
use pokers::{approx_equity, exact_equity, HandRange, SimulationResults, SimulatorError};
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, Mutex};

pub fn ranges_of(c: &EqCase) -> Vec<HandRange> {
    HandRange::from_strings(c.ranges.clone())
}

pub fn err_name(e: &SimulatorError) -> &'static str {
    match e {
        SimulatorError::TooManyPlayers => "TooManyPlayers",
        SimulatorError::TooFewPlayers => "TooFewPlayers",
        SimulatorError::TooManyBoardCards => "TooManyBoardCards",
        SimulatorError::TooManyDeadCards => "TooManyDeadCards",
        SimulatorError::ConflictingRanges => "ConflictingRanges",
    }
}

pub type Outcome = Result<SimulationResults, &'static str>;

pub fn exact_t(c: &EqCase, threads: u8) -> Outcome {
    exact_equity(&ranges_of(c), c.board_mask(), c.dead_mask(), threads, Arc::new(AtomicBool::new(false)), |_| {})
        .map_err(|e| err_name(&e))
}
pub fn exact(c: &EqCase) -> Outcome {
    exact_t(c, c.threads)
}
pub fn exact_progress(c: &EqCase, cancel: bool) -> (Outcome, Vec<u8>) {
    let msgs = Mutex::new(vec![]);
    let r = exact_equity(&ranges_of(c), c.board_mask(), c.dead_mask(), c.threads, Arc::new(AtomicBool::new(cancel)), |p| {
        msgs.lock().unwrap().push(p)
    })
    .map_err(|e| err_name(&e));
    (r, msgs.into_inner().unwrap())
}

#[cfg(pokers_verif)]
pub fn seed_rng(seed: Option<u64>) {
    pokers::verif_hooks::set_rng_seed(seed);
}
#[cfg(not(pokers_verif))]
pub fn seed_rng(_seed: Option<u64>) {}

#[cfg(pokers_verif)]
pub fn lock_delays(micros: u64, seed: u64) {
    pokers::verif_hooks::set_lock_delays(micros, seed);
}
#[cfg(not(pokers_verif))]
pub fn lock_delays(_micros: u64, _seed: u64) {}

/// whether the crate is built with its hooks
pub const HOOKS: bool = cfg!(pokers_verif);

/// the calculations that this thread starts set the flag when they take a lock for the n-th time
#[cfg(pokers_verif)]
pub fn flag_at_lock(at: Option<(u64, Arc<AtomicBool>)>) {
    pokers::verif_hooks::set_flag_at_lock(at);
}
#[cfg(not(pokers_verif))]
pub fn flag_at_lock(_at: Option<(u64, Arc<AtomicBool>)>) {}

thread_local! {
    static TOKEN: std::cell::RefCell<Option<Arc<AtomicBool>>> = std::cell::RefCell::new(None);
}

/// the token of the simulations that this thread starts
pub fn use_token(t: Option<Arc<AtomicBool>>) -> Option<Arc<AtomicBool>> {
    TOKEN.with(|x| x.replace(t))
}

/// `seed`: of the generator of the calculation, used if the hooks are on
pub fn approx(c: &EqCase, target: f64, seed: u64) -> Outcome {
    approx_progress(c, target, seed, false, u64::MAX).0
}

/// `limit`: number of progress reports after which the calculation is taken not to stop
pub fn approx_progress(c: &EqCase, target: f64, seed: u64, cancel: bool, limit: u64) -> (Outcome, Vec<u8>) {
    let msgs = Mutex::new(vec![]);
    seed_rng(Some(seed));
    let token = TOKEN.with(|t| t.borrow().clone()).filter(|_| !cancel).unwrap_or_else(|| Arc::new(AtomicBool::new(cancel)));
    let r = approx_equity(&ranges_of(c), c.board_mask(), c.dead_mask(), c.threads, target, token, |p| {
        let mut m = msgs.lock().unwrap();
        m.push(p);
        if m.len() as u64 > limit {
            hard_failure(&format!("not stopped after {limit} progress reports"));
        }
    })
    .map_err(|e| err_name(&e));
    seed_rng(None);
    (r, msgs.into_inner().unwrap())
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;

/// a / a_total == b / b_total
pub fn same_share(a: u64, a_total: u128, b: u128, b_total: u128) -> bool {
    match ((a as u128).checked_mul(b_total), b.checked_mul(a_total)) {
        (Some(x), Some(y)) => x == y,
        _ => {
            // reduce first
            let g = gcd(a_total, b_total).max(1);
            (a as u128).checked_mul(b_total / g) == b.checked_mul(a_total / g)
        }
    }
}
pub fn gcd(a: u128, b: u128) -> u128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn total_of(r: &SimulationResults) -> u128 {
    r.wins_by_mask.iter().map(|&x| x as u128).sum()
}

/// win and tie counts and equities against brute force
pub fn compare_players(c: &EqCase, r: &SimulationResults, t: &Truth) -> Result<(), String> {
    let n = c.ranges.len();
    ensure!(r.wins_by_mask.len() == 1 << n, "wins_by_mask has {} entries for {n} players", r.wins_by_mask.len());
    ensure!(r.wins.len() == n && r.ties.len() == n && r.equities.len() == n, "result vectors are not one per player");
    let total = total_of(r);
    ensure!(total > 0, "nothing was counted");
    for m in 0..1 << n {
        ensure!(
            same_share(r.wins_by_mask[m], total, t.by_mask[m], t.total),
            "deals won by player set {m:#b}: {} of {total}, expected {} of {}",
            r.wins_by_mask[m],
            t.by_mask[m],
            t.total
        );
    }
    for p in 0..n {
        ensure!(
            same_share(r.wins[p], total, t.by_mask[1 << p], t.total),
            "wins of player {p}: {} of {total}, expected {} of {}",
            r.wins[p],
            t.by_mask[1 << p],
            t.total
        );
        let ties: f64 = (0..1usize << n)
            .filter(|m| m >> p & 1 == 1 && m.count_ones() > 1)
            .map(|m| t.by_mask[m] as f64 / m.count_ones() as f64)
            .sum();
        let want = ties / t.total as f64;
        let got = r.ties[p] / total as f64;
        ensure!(close(got, want), "tie share of player {p}: {got}, expected {want}");
        let want = t.equity(p);
        ensure!(close(r.equities[p], want), "equity of player {p}: {}, expected {want}", r.equities[p]);
    }
    let sum: f64 = r.equities.iter().sum();
    ensure!(close(sum, 1.0), "equities add up to {sum}");
    Ok(())
}

/// per-hand results against brute force
pub fn compare_hands(c: &EqCase, r: &SimulationResults, t: &Truth, o: &Oracle) -> Result<u64, String> {
    let n = c.ranges.len();
    let total = total_of(r);
    let mut seen = 0;
    ensure!(r.hand_results.len() == 1326 * n, "{} hand results for {n} players", r.hand_results.len());
    for p in 0..n {
        let mut want: Vec<Option<(&HandTruth, u8)>> = vec![None; 1326];
        for &(a, b, w) in &o.ranges[p] {
            want[hand_index(a, b)] = Some((&t.hands[p][&(a, b)], w));
        }
        for (i, want) in want.iter().enumerate() {
            let x = &r.hand_results[1326 * p + i];
            let name = || {
                let (a, b) = all_hands()[i];
                hand_name(a, b)
            };
            match want {
                None => {
                    ensure!(
                        !x.valid && x.total == 0 && x.wins == 0 && x.ties == 0,
                        "player {p} has results for {}, which is not in the range",
                        name()
                    );
                }
                Some((h, w)) => {
                    seen += 1;
                    ensure!(x.valid, "player {p}, {}: not marked as part of the range", name());
                    ensure!(x.weight == *w as u32, "player {p}, {}: weight {} instead of {w}", name(), x.weight);
                    for (what, got, want) in
                        [("total", x.total, h.total), ("wins", x.wins, h.wins), ("ties", x.ties, h.ties)]
                    {
                        ensure!(
                            same_share(got, total, want, t.total),
                            "player {p}, {}: {what} {got} of {total}, expected {want} of {}",
                            name(),
                            t.total
                        );
                    }
                    let split = h.split / t.total as f64;
                    ensure!(
                        close(x.corrected_ties / total as f64, split),
                        "player {p}, {}: split ties {} of {total}, expected a share of {split}",
                        name(),
                        x.corrected_ties
                    );
                    let ht = h.total as f64;
                    let (eq, win, tie) = if h.total == 0 {
                        (0.0, 0.0, 0.0)
                    } else {
                        ((h.wins as f64 + h.split) / ht, h.wins as f64 / ht, h.ties as f64 / ht)
                    };
                    for (what, got, want) in [("equity", x.equity, eq), ("win rate", x.winrate, win), ("tie rate", x.tierate, tie)] {
                        ensure!(close(got, want), "player {p}, {}: {what} {got}, expected {want}", name());
                    }
                }
            }
        }
    }
    Ok(seen)
}
