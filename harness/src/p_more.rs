//! Relations between several calculations: P22 (averages over cards and parts of ranges) and
//! P23 (calculations that follow, accompany or contain each other)

use crate::engine::*;
use crate::eq::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_eq::{check_approx, identities, large_case, Approx};
use pokers::{approx_equity, exact_equity, HandRange, SimulationResults};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

// ---------------------------------------------------------------- P22

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    /// the next board card is dealt
    Board,
    /// one more card is dead
    Dead,
    /// the range of a player in two parts
    Split(u8, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Average {
    pub case: EqCase,
    pub how: How,
}

/// what a result counts, times `scale`
struct Mass {
    masks: Vec<f64>,
    /// per player and hand: total, wins, ties, split ties
    hands: Vec<[f64; 4]>,
}

impl Mass {
    fn new(n: usize) -> Mass {
        Mass { masks: vec![0.0; 1 << n], hands: vec![[0.0; 4]; 1326 * n] }
    }
    fn add(&mut self, r: &SimulationResults, weight: f64) {
        let k = weight / total_of(r) as f64;
        for (x, y) in self.masks.iter_mut().zip(&r.wins_by_mask) {
            *x += k * *y as f64;
        }
        for (x, u) in self.hands.iter_mut().zip(&r.hand_results) {
            if u.total > 0 {
                for (a, b) in x.iter_mut().zip([u.total as f64, u.wins as f64, u.ties as f64, u.corrected_ties]) {
                    *a += k * b;
                }
            }
        }
    }
}

pub fn check_average(v: &Average) -> CheckResult {
    let c = &v.case;
    let n = c.ranges.len();
    let Some(o) = c.oracle(3_000_000) else { return Ok(Info::new(false)) };
    let weight = |keep: &dyn Fn(&Deal) -> bool| o.deals.iter().filter(|d| keep(d)).map(|d| d.weight as u128).sum::<u128>();
    let all = weight(&|_| true);
    if all == 0 {
        return Ok(Info::new(false));
    }
    let whole = exact(c).map_err(|e| format!("refused with {e}"))?;
    // the parts: how they are called, the calculation, the weight of its deals
    let mut parts: Vec<(String, EqCase, u128)> = vec![];
    let used = c.board_mask() | c.dead_mask();
    let unseen = 52 - used.count_ones() as u64 - 2 * n as u64;
    let missing = 5 - c.board.len() as u64 / 2;
    // how many times the parts count the whole
    let times;
    match v.how {
        How::Board | How::Dead => {
            let board = v.how == How::Board;
            for x in (0..52u8).filter(|x| used >> x & 1 == 0) {
                let mut d = c.clone();
                if board {
                    d.board += &card_str(x);
                } else {
                    d.dead += &card_str(x);
                }
                parts.push((format!("{} {}", if board { "board card" } else { "dead card" }, card_str(x)), d, weight(&|d| d.mask >> x & 1 == 0)));
            }
            // the share of every part in the whole is the same for all deals: one in `unseen`
            times = unseen as f64;
        }
        How::Split(p, seed) => {
            let p = p as usize % n;
            let first = |&(a, b): &(u8, u8)| splitmix(seed ^ (a as u64) << 8 ^ b as u64) & 1 == 1;
            for k in [true, false] {
                let r = c.ref_ranges()[p].iter().filter(|(h, _)| first(h) == k).map(|(&(a, b), w)| format!("{}@{w}", hand_name(a, b))).collect::<Vec<_>>();
                if r.is_empty() {
                    return Ok(Info::new(false));
                }
                let mut d = c.clone();
                d.ranges[p] = r.join(",");
                parts.push((format!("one part of the range of player {p}"), d, weight(&|d| first(&o.hands[d.idx[p] as usize]) == k)));
            }
            times = 1.0;
        }
    }
    let (mut a, mut b) = (Mass::new(n), Mass::new(n));
    a.add(&whole, times * all as f64);
    let mut used_parts = 0;
    for (name, d, w) in &parts {
        if 2 * n + d.dead.len() / 2 + 5 > 52 {
            return Ok(Info::new(false));
        }
        match exact(d) {
            Ok(r) if *w > 0 => {
                ensure!(total_of(&r) > 0, "{name}: nothing was counted");
                b.add(&r, *w as f64);
                used_parts += 1;
            }
            Ok(r) => ensure!(total_of(&r) == 0, "{name}: no deal has any weight, but {} were counted", total_of(&r)),
            Err("ConflictingRanges") if *w == 0 => {}
            Err(e) => return Err(format!("{name}: refused with {e}")),
        }
    }
    let what = match v.how {
        How::Board => "averaged over the next board card",
        How::Dead => "averaged over one more dead card",
        How::Split(..) => "put together from two parts of a range",
    };
    let top = times * all as f64;
    for m in 0..1usize << n {
        ensure!(
            (a.masks[m] - b.masks[m]).abs() <= 1e-9 * top,
            "deals won by player set {m:#b}: a share of {}, {what} {}",
            a.masks[m] / top,
            b.masks[m] / top
        );
        ensure!((a.masks[m] > 0.0) == (b.masks[m] > 0.0), "deals won by player set {m:#b}: a share of {}, {what} {}", a.masks[m] / top, b.masks[m] / top);
    }
    let mut seen = 0;
    for (i, (x, y)) in a.hands.iter().zip(&b.hands).enumerate() {
        if x[0] == 0.0 && y[0] == 0.0 {
            continue;
        }
        seen += 1;
        for (k, what_k) in ["total", "wins", "ties", "split ties"].iter().enumerate() {
            ensure!(
                (x[k] - y[k]).abs() <= 1e-9 * x[0].max(y[0]),
                "player {}, {}: a share of {} ({what_k}), {what} {}",
                i / 1326,
                {
                    let (a, b) = all_hands()[i % 1326];
                    hand_name(a, b)
                },
                x[k] / top,
                y[k] / top
            );
        }
    }
    let mut i = Info::new(used_parts > 1 && a.masks.iter().filter(|&&m| m > 0.0).count() > 1)
        .label("next board card", v.how == How::Board)
        .label("dead card", v.how == How::Dead)
        .label("two parts of a range", matches!(v.how, How::Split(..)))
        .label("before the flop", c.board.len() < 6)
        .label("flop", c.board.len() == 6)
        .label("river", missing == 0)
        .label("100000 deals", o.deals.len() > 100_000)
        .label("4 players or more", n >= 4)
        .label("weights", c.ranges.iter().any(|r| r.contains('@')));
    i.evals = seen;
    Ok(i)
}

fn average(case: impl Strategy<Value = EqCase>, dead: u32) -> impl Strategy<Value = Average> {
    (case, 0u32..12, any::<u8>(), any::<u64>()).prop_map(move |(case, k, p, seed)| {
        let full = case.board.len() == 10;
        let how = if k < 3 {
            How::Split(p, seed)
        } else if full || k < 3 + dead {
            How::Dead
        } else {
            How::Board
        };
        Average { case, how }
    })
}

pub fn p22(ctx: &Ctx, rep: &mut Report) {
    let rule = |s: &str| {
        format!(
            "{s}; compared with what is put together from a calculation for every next board card, for every additional dead card, or for two \
             parts of a range; non-trivial: more than one part and more than one outcome"
        )
    };
    let w = ctx.workers;
    pbt(ctx, rep, Pbt { kind: "avgsmall", cases: ctx.n(500, 20_000), workers: w, shrink_iters: 150, rule: &rule("2-9 players with 1-8 weighted hands") }, || average(small_case(25_000_000), 4), check_average);
    pbt(ctx, rep, Pbt { kind: "avgwide", cases: ctx.n(100, 4000), workers: w, shrink_iters: 60, rule: &rule("2-4 ranges in the usual notation on 3-5 board cards") }, || average(wide_case(400_000_000), 4), check_average);
    pbt(ctx, rep, Pbt { kind: "avgbatched", cases: ctx.n(60, 3000), workers: w, shrink_iters: 60, rule: &rule("2-4 players with up to 60 hands on 0-4 board cards and a small deck") }, || average(batched_case(1_500_000), 4), check_average);
    pbt(ctx, rep, Pbt { kind: "avgdeep", cases: ctx.n(40, 1500), workers: w, shrink_iters: 40, rule: &rule("2-9 players with 1-2 hands on 0-2 board cards and an almost full deck") }, || average(deep_case(), 0), check_average);
    pbt(ctx, rep, Pbt { kind: "avglarge", cases: ctx.n(60, 2500), workers: w, shrink_iters: 40, rule: &rule("2-3 ranges in the usual notation with a full deck, before the flop, on the flop and on the turn: too large for brute force") }, || average(large_case(), 0), check_average);
}

// ---------------------------------------------------------------- P23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Same,
    /// n cards fewer or more that are dead
    Dead(i8),
    /// one board card is replaced
    Board(u8),
    /// one board card less or more
    Street(bool),
    /// the players change seats
    Turn(u8),
    /// the last player leaves
    Leave,
    /// weights of a player
    Weight(u8, u8),
    Threads(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mode {
    Exact,
    Approx(u64),
    Cancelled(Option<u64>),
    /// cancelled within the first report, exact or approximate with this seed
    CancelledLater(Option<u64>),
    /// one player only
    Refused,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Order {
    OneByOne,
    AtTheSameTime,
    /// each within a progress report of the one before
    Nested,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub base: EqCase,
    pub steps: Vec<(Change, Mode)>,
    pub order: Order,
    pub pick: u64,
}

const STEP_COST: u64 = 30_000_000;

fn changed(c: &EqCase, change: &Change, pick: u64) -> EqCase {
    let mut c = c.clone();
    let n = c.ranges.len();
    let used = c.board_mask() | c.dead_mask();
    // prefer cards that hands are made of
    let held: u64 = c.ref_ranges().iter().flat_map(|r| r.keys().map(|&(a, b)| 1u64 << a | 1u64 << b).collect::<Vec<_>>()).fold(0, |x, m| x | m);
    let mut free: Vec<u8> = (0..52u8).filter(|x| used >> x & 1 == 0).collect();
    free.sort_by_key(|&x| (held >> x & 1 == (pick >> 20 & 1), splitmix(pick ^ x as u64)));
    match change {
        Change::Same => {}
        Change::Dead(k) => {
            let mut d = parse_cards(&c.dead);
            let limit = 52 - 5 - 2 * n;
            if *k < 0 {
                d.truncate(d.len().saturating_sub(-*k as usize));
            } else {
                for x in free.iter().take(*k as usize) {
                    if d.len() < limit {
                        d.push(*x);
                    }
                }
            }
            c.dead = cards_str(&d);
        }
        Change::Board(at) => {
            let mut b = parse_cards(&c.board);
            if !b.is_empty() && !free.is_empty() {
                let at = *at as usize % b.len();
                b[at] = free[0];
                c.board = cards_str(&b);
            }
        }
        Change::Street(more) => {
            let mut b = parse_cards(&c.board);
            if *more && b.len() < 5 && !free.is_empty() {
                b.push(free[0]);
            } else if !more {
                b.pop();
            }
            c.board = cards_str(&b);
        }
        Change::Turn(k) => c.ranges.rotate_left(*k as usize % n),
        Change::Leave => {
            if n > 2 {
                c.ranges.pop();
            }
        }
        Change::Weight(p, w) => {
            let p = *p as usize % n;
            let r = &c.ref_ranges()[p];
            c.ranges[p] = r
                .iter()
                .map(|(&(a, b), &x)| format!("{}@{}", hand_name(a, b), if splitmix(pick ^ (a as u64) << 6 ^ b as u64) & 1 == 1 { *w } else { x }))
                .collect::<Vec<_>>()
                .join(",");
        }
        Change::Threads(t) => c.threads = 1 + t % 8,
    }
    c
}

type Shared = HashMap<String, HandRange>;

fn shared_ranges(c: &EqCase, s: &Shared) -> Vec<HandRange> {
    c.ranges.iter().map(|r| s[r].clone()).collect()
}

/// runs the steps from `at` on inside of each other, or only one of them
fn run_steps(steps: &[(EqCase, Mode)], at: usize, nested: bool, shared: &Shared, quiet: &Arc<AtomicBool>) -> CheckResult {
    let (c, mode) = &steps[at];
    let ranges = shared_ranges(c, shared);
    let (b, d) = (c.board_mask(), c.dead_mask());
    let inner: Cell<Option<CheckResult>> = Cell::new(None);
    let started = Cell::new(false);
    // set by the first report
    let own = match mode {
        Mode::CancelledLater(_) => Some(Arc::new(AtomicBool::new(false))),
        _ => None,
    };
    let callback = |_: u8| {
        if let Some(t) = &own {
            t.store(true, SeqCst);
        }
        if nested && at + 1 < steps.len() && !started.replace(true) {
            inner.set(Some(run_steps(steps, at + 1, true, shared, quiet)));
        }
    };
    // calculations that are not cancelled share a token
    let token = |x: bool| if x { own.clone().unwrap_or_else(|| Arc::new(AtomicBool::new(true))) } else { quiet.clone() };
    let fail = |e: String| format!("step {}: {e}", at + 1);
    let n = c.ranges.len();
    match mode {
        Mode::Exact => {
            let o = c.oracle(2_000_000).expect("small");
            let r = exact_equity(&ranges, b, d, c.threads, token(false), callback).map_err(|e| err_name(&e));
            if o.deals.is_empty() {
                if r.is_ok() {
                    return Err(fail("no hands can be dealt, but there is a result".into()));
                }
            } else {
                let r = r.map_err(|e| fail(format!("refused with {e}")))?;
                let t = o.solve();
                if t.total > 0 {
                    compare_players(c, &r, &t).map_err(fail)?;
                    compare_hands(c, &r, &t, &o).map_err(fail)?;
                }
            }
        }
        Mode::Approx(seed) => {
            if nested && at + 1 < steps.len() {
                seed_rng(Some(*seed));
                let r = approx_equity(&ranges, b, d, c.threads, 0.002, token(false), callback);
                seed_rng(None);
                if let Ok(r) = r {
                    identities(n, &r, c.board.len() / 2).map_err(fail)?;
                }
            }
            let before = use_token(Some(quiet.clone()));
            let r = guard(|| check_approx(&Approx { case: c.clone(), log_samples: 16.0, seed: *seed }));
            use_token(before);
            r.unwrap_or_else(Err).map_err(fail)?;
        }
        Mode::Cancelled(seed) | Mode::CancelledLater(seed) => {
            let r = match seed {
                None => exact_equity(&ranges, b, d, c.threads, token(true), callback),
                Some(s) => {
                    seed_rng(Some(*s));
                    let r = approx_equity(&ranges, b, d, c.threads, 0.001, token(true), callback);
                    seed_rng(None);
                    r
                }
            };
            if let Ok(r) = r {
                if r.eval_count > 0 {
                    identities(n, &r, c.board.len() / 2).map_err(fail)?;
                }
            }
        }
        Mode::Refused => {
            let r = exact_equity(&ranges[..1], b, d, c.threads, token(false), callback).map_err(|e| err_name(&e));
            if !matches!(r, Err("TooFewPlayers")) {
                return Err(fail("a calculation for one player was not refused".into()));
            }
        }
    }
    // a progress report may not have come
    if nested && at + 1 < steps.len() && !started.get() {
        inner.set(Some(run_steps(steps, at + 1, true, shared, quiet)));
    }
    if quiet.load(SeqCst) {
        return Err(fail("a token that nobody has set is set".into()));
    }
    let unchanged = ranges.iter().zip(&c.ranges).all(|(r, t)| r.hands == shared[t].hands);
    if !unchanged {
        return Err(fail("the ranges that were passed have changed".into()));
    }
    match inner.take() {
        Some(r) => r,
        None => Ok(Info::new(true)),
    }
}

pub fn check_history(h: &History) -> CheckResult {
    let mut steps: Vec<(EqCase, Mode)> = vec![];
    let mut c = h.base.clone();
    let mut distinct = 0;
    let limit = match c.oracle(200_000) {
        Some(o) if o.cost() <= 4 * STEP_COST => o.cost().max(STEP_COST),
        _ => return Ok(Info::new(false)),
    };
    for (i, (change, mode)) in h.steps.iter().enumerate() {
        let next = changed(&c, change, splitmix(h.pick ^ i as u64));
        if next != c && matches!(next.oracle(200_000), Some(o) if o.cost() <= limit) {
            distinct += 1;
            c = next;
        }
        let mut s = c.clone();
        if matches!(mode, Mode::Approx(_) | Mode::Cancelled(Some(_)) | Mode::CancelledLater(Some(_))) {
            s = tame(s);
        }
        steps.push((s, mode.clone()));
    }
    let mut shared = Shared::new();
    for (c, _) in &steps {
        for r in &c.ranges {
            shared.entry(r.clone()).or_insert_with(|| HandRange::from_string(r.clone()));
        }
    }
    let quiet = Arc::new(AtomicBool::new(false));
    match h.order {
        Order::OneByOne => {
            for i in 0..steps.len() {
                run_steps(&steps, i, false, &shared, &quiet)?;
            }
        }
        Order::AtTheSameTime => {
            let results: Vec<CheckResult> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..steps.len())
                    .map(|i| {
                        let (steps, shared, quiet) = (&steps, &shared, &quiet);
                        s.spawn(move || match guard(|| run_steps(steps, i, false, shared, quiet)) {
                            Ok(r) => r,
                            Err(e) => Err(format!("step {}: {e}", i + 1)),
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            for r in results {
                r?;
            }
        }
        Order::Nested => {
            run_steps(&steps, 0, true, &shared, &quiet)?;
        }
    }
    let mut i = Info::new(steps.len() > 1 && distinct > 0)
        .label("one by one", h.order == Order::OneByOne)
        .label("at the same time", h.order == Order::AtTheSameTime)
        .label("within each other", h.order == Order::Nested)
        .label("a cancelled one among them", steps.iter().any(|s| matches!(s.1, Mode::Cancelled(_) | Mode::CancelledLater(_))))
        .label("an approximate one among them", steps.iter().any(|s| matches!(s.1, Mode::Approx(_))))
        .label("4 or more", steps.len() >= 4);
    i.evals = steps.len() as u64;
    Ok(i)
}

fn history(base: impl Strategy<Value = EqCase>, approximate: bool) -> impl Strategy<Value = History> {
    let change = prop_oneof![
        2 => Just(Change::Same),
        4 => (-6i8..=6).prop_map(Change::Dead),
        4 => any::<u8>().prop_map(Change::Board),
        2 => any::<bool>().prop_map(Change::Street),
        2 => (1u8..9).prop_map(Change::Turn),
        1 => Just(Change::Leave),
        2 => (any::<u8>(), 0u8..=100).prop_map(|(p, w)| Change::Weight(p, w)),
        1 => any::<u8>().prop_map(Change::Threads),
    ];
    let mode = prop_oneof![
        8 => Just(Mode::Exact),
        if approximate { 3 } else { 1 } => any::<u64>().prop_map(Mode::Approx),
        1 => prop::option::of(any::<u64>()).prop_map(Mode::Cancelled),
        1 => prop::option::of(any::<u64>()).prop_map(Mode::CancelledLater),
        1 => Just(Mode::Refused),
    ];
    (
        base,
        vec((change, mode), 2..7),
        prop_oneof![2 => Just(Order::OneByOne), 1 => Just(Order::AtTheSameTime), 1 => Just(Order::Nested)],
        any::<u64>(),
    )
        .prop_map(|(mut base, steps, order, pick)| {
            base.threads = base.threads.min(8);
            History { base, steps, order, pick }
        })
}

/// two players, some million boards to deal, which is several times what a thread takes at once
fn several_batches() -> impl Strategy<Value = EqCase> {
    (deck(), 0usize..5, 60usize..=100, any::<u64>(), any::<bool>(), 1u8..=4).prop_map(|(cards, nb, size, pick, weights, threads)| {
        let left = [20, 24, 36, 49, 48][nb];
        let most = [30, 30, 32, 90, 320][nb];
        let pool = &cards[nb..nb + left];
        let mut hands: Vec<(u64, u8, u8)> = vec![];
        for &a in pool {
            hands.extend(pool.iter().filter(|&&b| b < a).map(|&b| (0, a, b)));
        }
        let ranges = (0..2)
            .map(|p| {
                for h in &mut hands {
                    h.0 = splitmix(pick ^ (p << 32 | (h.1 as u64) << 8 | h.2 as u64));
                }
                hands.sort();
                hands[..(most * size / 100).min(hands.len())]
                    .iter()
                    .map(|&(x, a, b)| if weights { format!("{}@{}", hand_name(a, b), 1 + x % 100) } else { hand_name(a, b) })
                    .collect::<Vec<_>>()
                    .join(",")
            })
            .collect();
        EqCase { ranges, board: cards_str(&cards[..nb]), dead: cards_str(&cards[nb + left..]), threads }
    })
}

/// a calculation, often cancelled, and then one that is the same or nearly
fn again() -> impl Strategy<Value = History> {
    let first = prop_oneof![
        3 => Just(Mode::Cancelled(None)),
        4 => Just(Mode::CancelledLater(None)),
        1 => any::<u64>().prop_map(|s| Mode::CancelledLater(Some(s))),
        1 => any::<u64>().prop_map(Mode::Approx),
        1 => Just(Mode::Exact),
    ];
    let change = prop_oneof![
        5 => Just(Change::Same),
        1 => any::<u8>().prop_map(Change::Threads),
        1 => (-3i8..=3).prop_map(Change::Dead),
        1 => (any::<u8>(), 0u8..=100).prop_map(|(p, w)| Change::Weight(p, w)),
        1 => (1u8..9).prop_map(Change::Turn),
    ];
    (several_batches(), vec((first, change), 1..3), any::<u64>()).prop_map(|(base, pairs, pick)| {
        let steps = pairs.into_iter().flat_map(|(first, change)| [(Change::Same, first), (change, Mode::Exact)]).collect();
        History { base, steps, order: Order::OneByOne, pick }
    })
}

pub fn p23(ctx: &Ctx, rep: &mut Report) {
    let rule = |s: &str| {
        format!(
            "{s}; 2-6 calculations with the same range objects, exact, approximate, cancelled or refused, that differ in dead cards, a board card, \
             the street, seats, players, weights or threads, one after another, at the same time or within a progress report of the one before; \
             non-trivial: at least two that differ"
        )
    };
    let w = ctx.workers;
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "again",
            cases: ctx.n(40, 1500),
            workers: 1,
            shrink_iters: 100,
            rule: "two players with some million boards to deal, by themselves in the process: a calculation, mostly cancelled before or within its first report, \
                   and then the same or nearly the same one, once or twice; non-trivial: at least two calculations",
        },
        again,
        |h| check_history(h).map(|mut i| {
            i.nontrivial = i.evals > 1;
            i
        }),
    );
    pbt(ctx, rep, Pbt { kind: "history", cases: ctx.n(1200, 60_000), workers: w, shrink_iters: 200, rule: &rule("2-9 players with 1-8 weighted hands") }, || history(small_case(10_000_000), false), check_history);
    pbt(ctx, rep, Pbt { kind: "history", cases: ctx.n(300, 10_000), workers: w, shrink_iters: 100, rule: &rule("2-4 players with up to 60 hands on 0-4 board cards") }, || history(batched_case(400_000), true), check_history);
    pbt(ctx, rep, Pbt { kind: "history", cases: ctx.n(200, 8000), workers: w, shrink_iters: 100, rule: &rule("2-4 ranges in the usual notation on 3-5 board cards") }, || history(wide_case(25_000_000), true), check_history);
}

pub fn replay(kind: &str, v: &Value) -> Option<CheckResult> {
    Some(match kind {
        "avgsmall" | "avgwide" | "avgbatched" | "avgdeep" | "avglarge" => check_average(&from_case(v)),
        "history" | "again" => check_history(&from_case(v)),
        _ => return None,
    })
}
