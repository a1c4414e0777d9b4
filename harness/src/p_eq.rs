//! Equity calculations: P07 P08 P09 P10 P11 P12 P13 P18 P19 P20 and the results part of P16

use crate::engine::*;
use crate::eq::*;
use crate::gen::*;
use crate::oracle::*;
use crate::p_basic::{compare_straight_tags, flush_tags, straight_tags, DrawCase};
use pokers::{HandRange, SimulationResults, UnitResults};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::atomic::AtomicBool;
use std::sync::Arc;

const DEALS: usize = 2_000_000;

/// The deals of a case and, if there are any, what all of them come to. `None`: too many
fn situation(c: &EqCase) -> Option<(Oracle, Option<Truth>)> {
    if c.ranges.len() == 2 {
        let refs = c.ref_ranges();
        let used = c.board_mask() | c.dead_mask();
        let sizes: Vec<f64> = refs.iter().map(|r| r.keys().filter(|h| (1u64 << h.0 | 1u64 << h.1) & used == 0).count() as f64).collect();
        let boards = binom(52 - used.count_ones() as u64, 5 - c.board_mask().count_ones() as u64) as f64;
        let pairs = sizes[0] * sizes[1] * boards;
        if used == 0 && pairs > 2e7 {
            if let Some((o, t)) = preflop(&refs) {
                return Some((o, Some(t)));
            }
        }
        if boards < 20_000.0 && pairs > 3e6 {
            let (o, t) = duel(&refs, c.board_mask(), c.dead_mask());
            return Some(if o.n_deals == 0 { (o, None) } else { (o, Some(t)) });
        }
    }
    let o = c.oracle(DEALS)?;
    if o.cost() > 60_000_000_000 {
        return None;
    }
    let t = if o.deals.is_empty() { None } else { Some(o.solve()) };
    Some((o, t))
}

/// runs `exact_equity()` and solves the case by brute force; `None`: nothing to compare
fn solved(c: &EqCase) -> Result<Option<(SimulationResults, Truth, Oracle)>, String> {
    let Some((o, t)) = situation(c) else { return Ok(None) };
    let r = exact(c);
    let Some(t) = t else {
        return match r {
            Err("ConflictingRanges") => Ok(None),
            r => Err(format!("no hands can be dealt, but the result is {:?}", r.map(|r| r.equities))),
        };
    };
    let r = r.map_err(|e| format!("refused with {e}"))?;
    if t.total == 0 {
        return Ok(None); // no deal has any weight
    }
    Ok(Some((r, t, o)))
}

fn exact_info(c: &EqCase, t: &Truth, o: &Oracle) -> Info {
    let alive = (0..o.n).filter(|&p| t.equity(p) > 0.0).count();
    let pairs = t.hands[0].values().map(|h| h.n).sum::<u64>();
    let mut ws: Vec<u8> = o.ranges.iter().flatten().map(|h| h.2).collect();
    ws.dedup();
    Info::new(alive > 1 && pairs > 1)
        .label("5 players or more", o.n >= 5)
        .label("9 players", o.n == 9)
        .label("river", c.board.len() == 10)
        .label("turn", c.board.len() == 8)
        .label("flop", c.board.len() == 6)
        .label("before the flop", c.board.len() < 6)
        .label("dead cards", !c.dead.is_empty())
        .label("mixed weights", ws.len() > 1)
        .label("ties", t.by_mask.iter().enumerate().any(|(m, &w)| m.count_ones() > 1 && w > 0))
        .label("hands collide", o.n_deals < o.ranges.iter().map(|r| r.len() as u64).product())
        .label("a million deals", o.n_deals > 1_000_000)
        .label("several threads", c.threads > 1)
}

// ---------------------------------------------------------------- P07

pub fn check_exact(c: &EqCase) -> CheckResult {
    match solved(c)? {
        None => Ok(Info::new(false).label("nothing to deal", true)),
        Some((r, t, o)) => {
            compare_players(c, &r, &t)?;
            Ok(exact_info(c, &t, &o))
        }
    }
}

const R_SMALL: &str = "2-9 players with 1-8 weighted hands, 0-5 board cards, 0-37 dead cards, cards drawn from few suits or ranks \
    in most cases, 1-40 threads";
const R_DEEP: &str = "2-9 players with 1-2 hands on 0-2 board cards and an almost full deck";
const R_BATCH: &str = "2-4 players with up to 60 hands on 0-4 board cards and a small deck: several batches of work";
const R_WIDE: &str = "2-4 ranges in the usual notation on 3-5 board cards: several combined ranges";
const R_HUGE: &str = "9 players with 3-12 hands and weights of 10-100 on complete boards: all deals together weigh more than 64 bits hold";
const R_DUEL: &str = "2 ranges in the usual notation, of any width, on 3-5 board cards: up to a million deals on up to 1000 boards";
const R_END: &str = "; non-trivial: more than one deal or board, and two players win something";

/// the four generators, shared by P07, P08, P09 and P18
fn exact_suite(ctx: &Ctx, rep: &mut Report, share: f64, check: impl Fn(&EqCase) -> CheckResult + Sync) {
    let n = |q: u32, t: u32| (ctx.n(q, t) as f64 * share) as u32;
    let it = 300;
    let w = ctx.workers;
    pbt(ctx, rep, Pbt { kind: "small", cases: n(6000, 150_000), workers: w, shrink_iters: it, rule: &format!("{R_SMALL}{R_END}") }, || small_case(25_000_000), &check);
    pbt(ctx, rep, Pbt { kind: "batched", cases: n(300, 10_000), workers: w, shrink_iters: it, rule: &format!("{R_BATCH}{R_END}") }, || batched_case(4_000_000), &check);
    pbt(ctx, rep, Pbt { kind: "wide", cases: n(120, 4000), workers: w, shrink_iters: it, rule: &format!("{R_WIDE}{R_END}") }, || wide_case(200_000_000), &check);
    pbt(ctx, rep, Pbt { kind: "huge", cases: n(120, 3000), workers: w, shrink_iters: it, rule: &format!("{R_HUGE}{R_END}") }, huge_case, |c| {
        if huge_overflows(c) { Ok(Info::new(false).label("too large", true)) } else { check(c) }
    });
    pbt(ctx, rep, Pbt { kind: "duel", cases: n(80, 3000), workers: w, shrink_iters: 60, rule: &format!("{R_DUEL}{R_END}") }, || duel_case(100_000_000.0), &check);
    pbt(ctx, rep, Pbt { kind: "preflop", cases: n(8, 600), workers: w, shrink_iters: 10, rule: &format!("{R_PREFLOP}: up to 24 hands here, up to a billion deals{R_END}") }, preflop_pair, &check);
    pbt(ctx, rep, Pbt { kind: "deep", cases: n(100, 4000), workers: w, shrink_iters: it, rule: &format!("{R_DEEP}{R_END}") }, deep_case, &check);
}

/// would a counter of 64 bits overflow? (a known finding)
fn huge_overflows(c: &EqCase) -> bool {
    let Some(o) = c.oracle(DEALS) else { return true };
    let t = o.solve();
    let divisor: u128 = o.ranges.iter().map(|r| r.iter().fold(0u128, |d, h| gcd(d, h.2 as u128)).max(1)).product();
    let top = u64::MAX as u128;
    t.by_mask.iter().any(|&m| m / divisor > top) || t.hands.iter().flat_map(|h| h.values()).any(|h| h.total / divisor > top)
}

pub fn p07(ctx: &Ctx, rep: &mut Report) {
    exact_suite(ctx, rep, 1.0, check_exact);
    if let Some(m) = known_overflow() {
        rep.known.push(("overflow-9-players-weights-99-100".into(), m));
    }
}

/// counters of 64 bits overflow with six or more players and mixed weights without a common divisor
fn known_overflow() -> Option<String> {
    let cards: Vec<u8> = (0..52).collect();
    let ranges: Vec<String> = (0..9)
        .map(|p| {
            let (a, b, d) = (cards[5 + 4 * p], cards[6 + 4 * p], cards[7 + 4 * p]);
            format!("{}{}@100,{}{}@99", card_str(a), card_str(b), card_str(a), card_str(d))
        })
        .collect();
    let c = EqCase { ranges, board: cards_str(&cards[..5]), dead: String::new(), threads: 1 };
    let bad = match guard(|| check_exact(&c)) {
        Ok(Ok(_)) => return None,
        Ok(Err(e)) => e,
        Err(e) => e,
    };
    Some(bad)
}

// ---------------------------------------------------------------- P08

fn same_unit(a: &UnitResults, b: &UnitResults) -> bool {
    a.wins == b.wins
        && a.ties == b.ties
        && a.total == b.total
        && a.corrected_ties.to_bits() == b.corrected_ties.to_bits()
        && a.equity.to_bits() == b.equity.to_bits()
        && a.winrate.to_bits() == b.winrate.to_bits()
        && a.tierate.to_bits() == b.tierate.to_bits()
        && a.weight == b.weight
        && a.rank == b.rank
        && a.draw == b.draw
        && a.valid == b.valid
}

pub fn check_hands(c: &EqCase) -> CheckResult {
    let Some((r, t, o)) = solved(c)? else { return Ok(Info::new(false)) };
    let seen = compare_hands(c, &r, &t, &o)?;
    for p in 0..o.n {
        for &(a, b, _) in o.ranges[p].iter().take(40) {
            let name = hand_name(a, b);
            match r.get_hand_result(p, name.clone()) {
                Ok(u) => ensure!(same_unit(&u, &r.hand_results[1326 * p + hand_index(a, b)]), "get_hand_result({p}, {name}) is another hand's"),
                Err(e) => return Err(format!("get_hand_result({p}, {name}): {e}")),
            }
        }
        for bad in ["", "AA", "AsAs", "2sAs", "Xx", "AsKh ", "askh"] {
            ensure!(r.get_hand_result(p, bad.to_string()).is_err(), "get_hand_result({p}, {bad:?}) is not an error");
        }
    }
    let mut i = exact_info(c, &t, &o).label("hands never dealt", t.hands.iter().flatten().any(|h| h.1.total == 0));
    i.evals = seen;
    Ok(i)
}

pub fn p08(ctx: &Ctx, rep: &mut Report) {
    exact_suite(ctx, rep, 0.8, check_hands);
}

// ---------------------------------------------------------------- P09

#[derive(Default, Clone)]
struct Sum {
    total: u128,
    wins: u128,
    ties: u128,
    split: f64,
    weight: u32,
}
impl Sum {
    fn add(&mut self, h: &HandTruth, weight: u8) {
        self.weight += weight as u32;
        self.total += h.total;
        self.wins += h.wins;
        self.ties += h.ties;
        self.split += h.split;
    }
}

fn compare_unit(what: &str, x: &UnitResults, s: &Sum, total: u128, all: u128) -> Result<(), String> {
    // in units of the crate, which divides weights by common divisors
    let units = s.total as f64 * (total as f64 / all as f64);
    if units > 1.8e19 {
        // more than a counter holds: only the ratios are left
        ensure!(x.total > 0, "{what}: total 0");
        for (f, got, want) in [
            ("wins", x.wins as f64, s.wins as f64),
            ("ties", x.ties as f64, s.ties as f64),
            ("split ties", x.corrected_ties, s.split),
        ] {
            ensure!(close(got / x.total as f64, want / s.total as f64), "{what}: {f} {got} of {}, expected {want} of {}", x.total, s.total);
        }
    } else {
        compare_counts(what, x, s, total, all)?;
    }
    let (e, w) = if s.total == 0 { (0.0, 0.0) } else { ((s.wins as f64 + s.split) / s.total as f64, s.wins as f64 / s.total as f64) };
    ensure!(close(x.equity, e), "{what}: equity {}, expected {e}", x.equity);
    ensure!(close(x.winrate, w), "{what}: win rate {}, expected {w}", x.winrate);
    Ok(())
}

fn compare_counts(what: &str, x: &UnitResults, s: &Sum, total: u128, all: u128) -> Result<(), String> {
    for (f, got, want) in [("total", x.total, s.total), ("wins", x.wins, s.wins), ("ties", x.ties, s.ties)] {
        ensure!(same_share(got, total, want, all), "{what}: {f} {got} of {total}, expected {want} of {all}");
    }
    ensure!(
        close(x.corrected_ties / total as f64, s.split / all as f64),
        "{what}: split ties {} of {total}, expected {} of {all}",
        x.corrected_ties,
        s.split
    );
    Ok(())
}

pub fn check_groups(c: &EqCase) -> CheckResult {
    let Some((r, t, o)) = solved(c)? else { return Ok(Info::new(false)) };
    let n = o.n;
    let total = total_of(&r);
    ensure!(r.combo_results.len() == 169 * n, "{} combo results", r.combo_results.len());
    ensure!(r.board_results.len() == 9 * n && r.board_draws.len() == 10 * n, "number of board results");
    let board = parse_cards(&c.board);
    let (mut cats, mut draws) = (0, 0);
    for p in 0..n {
        let mut by_combo = vec![Sum::default(); 169];
        let mut by_cat = vec![Sum::default(); 9];
        let mut by_draw = vec![Sum::default(); 10];
        for &(a, b, w) in &o.ranges[p] {
            let h = &t.hands[p][&(a, b)];
            by_combo[combo_index_of_hand(hand_index(a, b))].add(h, if h.total > 0 { w } else { 0 });
            if board.len() < 3 {
                continue;
            }
            let mut cards = board.clone();
            cards.extend([a, b]);
            let cat = (strength_slow(&cards) >> 20) as usize - 1;
            let x = &r.hand_results[1326 * p + hand_index(a, b)];
            ensure!(x.rank as usize == cat, "player {p}, {}: rank {}, expected {cat}", hand_name(a, b), x.rank);
            by_cat[cat].add(h, w);
            let (d, back, nut) = flush_tags((a, b), &board);
            if d {
                by_draw[5].add(h, w);
            }
            if back {
                by_draw[6].add(h, w);
            }
            let (open, gut, double, backdoor, nut_straight) = straight_tags((a, b), &board);
            // where a backdoor straight is not defined, the tag of the hand says where it belongs
            let backdoor = backdoor.unwrap_or(x.draw & 8 != 0);
            for (k, tag) in [open, gut, double, backdoor, nut_straight].into_iter().enumerate() {
                if tag {
                    by_draw[k].add(h, w);
                }
            }
            if nut {
                by_draw[if back { 7 } else if d { 8 } else { 9 }].add(h, w);
            }
        }
        for (i, s) in by_combo.iter().enumerate() {
            let x = &r.combo_results[169 * p + i];
            let name = pokers::INDEX_TO_COMBO[i];
            compare_unit(&format!("player {p}, {name}"), x, s, total, t.total)?;
            let tr = if s.total == 0 { 0.0 } else { s.ties as f64 / s.total as f64 };
            ensure!(close(x.tierate, tr), "player {p}, {name}: tie rate {}, expected {tr}", x.tierate);
            ensure!(x.valid == (s.total > 0), "player {p}, {name}: valid is {}", x.valid);
            let size = if i < 13 { 6 } else if i < 91 { 4 } else { 12 };
            ensure!(x.weight == s.weight / size, "player {p}, {name}: weight {} for a sum of {} over {size} hands", x.weight, s.weight);
            if s.total > 0 || i % 16 == 0 {
                match r.get_combo_result(p, name.to_string()) {
                    Ok(u) => ensure!(same_unit(&u, x), "get_combo_result({p}, {name}) is another combo's"),
                    Err(e) => return Err(format!("get_combo_result({p}, {name}): {e}")),
                }
            }
        }
        ensure!(r.get_combo_result(p, "KA".into()).is_err(), "get_combo_result of KA is not an error");
        if board.len() >= 3 {
            for (i, s) in by_cat.iter().enumerate() {
                compare_unit(&format!("player {p}, hands of category {i}"), &r.board_results[9 * p + i], s, total, t.total)?;
                let w = r.board_results[9 * p + i].weight;
                ensure!(s.total == 0 || w == s.weight, "player {p}, hands of category {i}: weight {w}, expected {}", s.weight);
                cats += (s.total > 0) as usize;
            }
            for (i, s) in by_draw.iter().enumerate() {
                compare_unit(&format!("player {p}, draw class {i}"), &r.board_draws[10 * p + i], s, total, t.total)?;
                let w = r.board_draws[10 * p + i].weight;
                ensure!(s.total == 0 || w == s.weight, "player {p}, draw class {i}: weight {w}, expected {}", s.weight);
                draws += (s.total > 0) as usize;
            }
        }
    }
    let mut i = exact_info(c, &t, &o).label("several categories", cats > n).label("draws", draws > 0);
    i.evals = 169 * n as u64;
    Ok(i)
}

pub fn p09(ctx: &Ctx, rep: &mut Report) {
    exact_suite(ctx, rep, 0.8, check_groups);
    // wide ranges make many combos and categories
    pbt(
        ctx,
        rep,
        Pbt { kind: "wide", cases: ctx.n(120, 4000), workers: ctx.workers, shrink_iters: 300, rule: R_WIDE },
        || wide_case(200_000_000),
        check_groups,
    );
}

pub fn p16_results(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "drawresults",
            cases: ctx.n(60, 1500),
            workers: ctx.workers,
            shrink_iters: 300,
            rule: "2-4 wide ranges on 3-5 board cards: the tags in the results of an exact calculation; non-trivial: one applies",
        },
        || wide_case(60_000_000),
        check_draw_results,
    );
}

pub fn check_draw_results(c: &EqCase) -> CheckResult {
    let board = parse_cards(&c.board);
    let used = c.board_mask() | c.dead_mask();
    let mut any = 0;
    for (what, r) in tagged(c) {
        for (p, range) in c.ref_ranges().iter().enumerate() {
            for &(a, b) in range.keys() {
                if (1u64 << a | 1u64 << b) & used != 0 {
                    continue;
                }
                let d = r.hand_results[1326 * p + hand_index(a, b)].draw;
                let got = (d & 32 != 0, d & 64 != 0, d & 128 != 0);
                let want = flush_tags((a, b), &board);
                ensure!(got == want, "{what}, player {p}, {}: tags {got:?}, expected {want:?}", hand_name(a, b));
                any += (want.0 || want.1 || want.2) as u64;
            }
        }
    }
    let mut i = Info::new(any > 0);
    i.evals = any;
    Ok(i)
}

pub fn p21_results(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "straightresults",
            cases: ctx.n(100, 2000),
            workers: ctx.workers,
            shrink_iters: 300,
            rule: "2-4 wide ranges on 3-5 board cards: the straight tags in the results of a calculation; non-trivial: one applies",
        },
        || wide_case(60_000_000),
        check_straight_results,
    );
}

/// results that carry tags: exact, and approximate of few samples
fn tagged(c: &EqCase) -> Vec<(&'static str, SimulationResults)> {
    let mut v = vec![];
    v.extend(exact(c).ok().map(|r| ("exact", r)));
    v.extend(approx_progress(c, 1e-3, 1, true, 1_000_000).0.ok().map(|r| ("approximate", r)));
    v
}

pub fn check_straight_results(c: &EqCase) -> CheckResult {
    let board = parse_cards(&c.board);
    let used = c.board_mask() | c.dead_mask();
    let mut any = 0;
    for (what, r) in tagged(c) {
        for (p, range) in c.ref_ranges().iter().enumerate() {
            for &(a, b) in range.keys() {
                if (1u64 << a | 1u64 << b) & used != 0 || board.len() < 3 {
                    continue;
                }
                let d = r.hand_results[1326 * p + hand_index(a, b)].draw;
                let i = compare_straight_tags(&DrawCase { hole: (a, b), board: board.clone() }, d).map_err(|e| format!("{what}, player {p}: {e}"))?;
                any += i.nontrivial as u64;
            }
        }
    }
    let mut i = Info::new(any > 0);
    i.evals = any;
    Ok(i)
}

// ---------------------------------------------------------------- P10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Schedule {
    pub case: EqCase,
    pub repeats: u8,
}

fn alike(a: f64, b: f64) -> bool {
    close(a, b) || a.is_nan() && b.is_nan()
}

/// Everything that is counted is the same, whatever the number of threads and their timing
fn same_results(a: &SimulationResults, b: &SimulationResults) -> Result<(), String> {
    ensure!(a.wins_by_mask == b.wins_by_mask, "deals won by player sets {:?} and {:?}", a.wins_by_mask, b.wins_by_mask);
    ensure!(a.wins == b.wins, "wins {:?} and {:?}", a.wins, b.wins);
    for (what, x, y) in [("ties", &a.ties, &b.ties), ("equities", &a.equities, &b.equities)] {
        ensure!(x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(*x, *y)), "{what} {x:?} and {y:?}");
    }
    for (what, x, y) in [
        ("hand", &a.hand_results, &b.hand_results),
        ("combo", &a.combo_results, &b.combo_results),
        ("category", &a.board_results, &b.board_results),
        ("draw", &a.board_draws, &b.board_draws),
    ] {
        ensure!(x.len() == y.len(), "number of {what} results");
        for (i, (u, v)) in x.iter().zip(y).enumerate() {
            ensure!(
                u.wins == v.wins && u.ties == v.ties && u.total == v.total && u.valid == v.valid && u.weight == v.weight && u.rank == v.rank && u.draw == v.draw,
                "{what} result {i}: {u:?} and {v:?}"
            );
            ensure!(
                alike(u.corrected_ties, v.corrected_ties) && alike(u.equity, v.equity) && alike(u.winrate, v.winrate) && alike(u.tierate, v.tierate),
                "{what} result {i}: {u:?} and {v:?}"
            );
        }
    }
    Ok(())
}

pub fn check_schedule(s: &Schedule) -> CheckResult {
    lock_delays(0, 0);
    let one = exact_t(&s.case, 1);
    let mut n = 0;
    for k in 0..s.repeats {
        // every other run with delays in front of the locks
        lock_delays(if k % 2 == 0 { 60 } else { 0 }, splitmix(k as u64));
        let many = exact_t(&s.case, s.case.threads.wrapping_add(k * 3).max(2));
        match (&one, &many) {
            (Ok(a), Ok(b)) => same_results(a, b).map_err(|e| format!("1 and {} threads: {e}", s.case.threads.wrapping_add(k * 3).max(2)))?,
            (a, b) => {
                let (a, b) = (a.as_ref().err(), b.as_ref().err());
                ensure!(a == b, "1 thread: {a:?}, several: {b:?}");
            }
        }
        n += 1;
    }
    let evals = one.as_ref().map_or(0, |r| r.eval_count);
    let mut i = Info::new(evals > 10_000).label("several flushes", evals > 20_000).label("100000 evaluations", evals > 100_000);
    i.evals = n;
    Ok(i)
}

pub fn p10(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "schedule",
            cases: ctx.n(160, 6000),
            workers: ctx.workers,
            shrink_iters: 60,
            rule: "calculations of several batches on one thread, and three times on 2-25 threads or, in some cases, up to 255, two of them with random delays in \
                   front of every lock; non-trivial: more than one result update per run",
        },
        || (batched_case(6_000_000), prop_oneof![9 => Just(2u8), 1 => 26u8..=248]).prop_map(|(mut case, threads)| {
            case.threads = case.threads.max(threads);
            Schedule { case, repeats: 3 }
        }),
        check_schedule,
    );
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "schedule",
            cases: ctx.n(60, 2000),
            workers: ctx.workers,
            shrink_iters: 60,
            rule: "wide ranges on 3-5 board cards, likewise",
        },
        || wide_case(400_000_000).prop_map(|mut case| {
            case.threads = case.threads.max(2);
            Schedule { case, repeats: 2 }
        }),
        check_schedule,
    );
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "rush",
            cases: ctx.n(32, 1000),
            workers: 1,
            shrink_iters: 30,
            rule: "2-3 players and so little work that all threads ask for it and report at the same time: once on one thread, 250 times on \
                   6-28 threads; non-trivial: hands can be dealt",
        },
        rush_case,
        check_rush,
    );
    lock_delays(0, 0);
}

/// calculations so short that all threads ask for work at the same time
fn rush_case() -> impl Strategy<Value = Schedule> {
    (small_case_n(2usize..=3, 4usize..=5, 3000), 6u8..=24).prop_map(|(mut case, threads)| {
        case.threads = threads;
        Schedule { case, repeats: 250 }
    })
}

pub fn check_rush(s: &Schedule) -> CheckResult {
    lock_delays(0, 0);
    let one = exact_t(&s.case, 1);
    for k in 0..s.repeats {
        let threads = s.case.threads + k % 5;
        match (&one, &exact_t(&s.case, threads)) {
            (Ok(a), Ok(b)) => same_results(a, b).map_err(|e| format!("1 and {threads} threads, run {k}: {e}"))?,
            (a, b) => {
                let (a, b) = (a.as_ref().err(), b.as_ref().err());
                ensure!(a == b, "1 thread: {a:?}, {threads} threads: {b:?}");
            }
        }
    }
    let mut i = Info::new(one.is_ok());
    i.evals = s.repeats as u64;
    Ok(i)
}

// ---------------------------------------------------------------- P20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Symmetry {
    pub case: EqCase,
    pub suits: [u8; 4],
    pub players: Vec<u8>,
    /// the player whose weights are scaled / whose range is split
    pub player: u8,
    pub factor: u8,
    pub hand: u16,
    pub keep_dead: bool,
}

fn list_text(r: &RefRange) -> String {
    r.iter().map(|(&(a, b), w)| format!("{}@{w}", hand_name(a, b))).collect::<Vec<_>>().join(",")
}

pub fn check_symmetry(s: &Symmetry) -> CheckResult {
    let c = &s.case;
    let n = c.ranges.len();
    let base = exact(c);
    let r = match &base {
        Ok(r) => r,
        Err("ConflictingRanges") => return Ok(Info::new(false)),
        Err(e) => return Err(format!("refused with {e}")),
    };
    if total_of(r) == 0 {
        return Ok(Info::new(false));
    }
    let refs = c.ref_ranges();
    // other names for the suits
    let su = |x: u8| x & !3 | s.suits[(x & 3) as usize];
    let cards = |t: &str| cards_str(&parse_cards(t).into_iter().map(su).collect::<Vec<_>>());
    let renamed: Vec<RefRange> = refs.iter().map(|m| m.iter().map(|(&(a, b), &w)| ((su(a).min(su(b)), su(a).max(su(b))), w)).collect()).collect();
    let c2 = EqCase { ranges: renamed.iter().map(list_text).collect(), board: cards(&c.board), dead: cards(&c.dead), threads: c.threads };
    let r2 = exact(&c2).map_err(|e| format!("with suits renamed: {e}"))?;
    ensure!(r.wins_by_mask == r2.wins_by_mask, "with suits renamed: {:?} became {:?}", r.wins_by_mask, r2.wins_by_mask);
    for p in 0..n {
        for &(a, b) in refs[p].keys() {
            let (x, y) = (&r.hand_results[1326 * p + hand_index(a, b)], &r2.hand_results[1326 * p + hand_index(su(a), su(b))]);
            ensure!(
                x.wins == y.wins && x.ties == y.ties && x.total == y.total && close(x.equity, y.equity),
                "with suits renamed: {x:?} of {} became {y:?}",
                hand_name(a, b)
            );
        }
    }
    // players in another order
    let mut perm: Vec<usize> = (0..n).collect();
    perm.sort_by_key(|&i| (s.players[i], i));
    let c3 = EqCase { ranges: perm.iter().map(|&i| c.ranges[i].clone()).collect(), ..c.clone() };
    let r3 = exact(&c3).map_err(|e| format!("with players in the order {perm:?}: {e}"))?;
    for m in 0..1usize << n {
        let m3 = (0..n).filter(|&i| m >> perm[i] & 1 == 1).fold(0, |x, i| x | 1 << i);
        ensure!(
            r.wins_by_mask[m] == r3.wins_by_mask[m3],
            "with players in the order {perm:?}: {} deals won by {m:#b} became {}",
            r.wins_by_mask[m],
            r3.wins_by_mask[m3]
        );
    }
    for (i, &p) in perm.iter().enumerate() {
        ensure!(close(r.equities[p], r3.equities[i]), "with players in the order {perm:?}: equities {:?} became {:?}", r.equities, r3.equities);
        for h in 0..1326 {
            let (x, y) = (&r.hand_results[1326 * p + h], &r3.hand_results[1326 * i + h]);
            ensure!(
                x.wins == y.wins && x.ties == y.ties && x.total == y.total && close(x.equity, y.equity),
                "with players in the order {perm:?}: {x:?} became {y:?}"
            );
        }
    }
    // all weights of a player times a factor
    let p = s.player as usize % n;
    let top = *refs[p].values().max().unwrap();
    let k = s.factor.max(1).min(100 / top.max(1)).max(1);
    let mut ranges = c.ranges.clone();
    ranges[p] = list_text(&refs[p].iter().map(|(&h, &w)| (h, w * k)).collect());
    let r4 = exact(&EqCase { ranges, ..c.clone() }).map_err(|e| format!("with weights of player {p} times {k}: {e}"))?;
    for q in 0..n {
        ensure!(close(r.equities[q], r4.equities[q]), "with weights of player {p} times {k}: equities {:?} became {:?}", r.equities, r4.equities);
    }
    // dead cards that are no longer dead but that nobody could use anyway: none. A hand on its own
    // has the equity that it has as a part of its range
    let keys: Vec<_> = refs[p].iter().map(|(&h, &w)| (h, w)).collect();
    let ((a, b), w) = keys[s.hand as usize * keys.len() / 65536];
    let x = &r.hand_results[1326 * p + hand_index(a, b)];
    let mut alone = false;
    if x.total > 0 && w > 0 {
        let mut ranges = c.ranges.clone();
        ranges[p] = hand_name(a, b);
        let r5 = exact(&EqCase { ranges, ..c.clone() }).map_err(|e| format!("with {} alone: {e}", hand_name(a, b)))?;
        let y = &r5.hand_results[1326 * p + hand_index(a, b)];
        ensure!(
            close(x.equity, y.equity) && close(x.winrate, y.winrate) && close(x.tierate, y.tierate) && close(x.equity, r5.equities[p]),
            "{} as part of the range of player {p}: {x:?}, alone: {y:?}, equities {:?}",
            hand_name(a, b),
            r5.equities
        );
        alone = keys.len() > 1;
    }
    let mut i = Info::new(perm.windows(2).any(|w| w[0] > w[1]) || alone)
        .label("weights scaled", k > 1)
        .label("players moved", perm.windows(2).any(|w| w[0] > w[1]))
        .label("suits renamed", s.suits != [0, 1, 2, 3])
        .label("before the flop", c.board.len() < 6)
        .label("hand taken out of a range", alone);
    i.evals = 4;
    Ok(i)
}

fn symmetry(case: impl Strategy<Value = EqCase>) -> impl Strategy<Value = Symmetry> {
    (
        case,
        Just([0u8, 1, 2, 3]).prop_shuffle(),
        vec(any::<u8>(), 9),
        any::<u8>(),
        2u8..=100,
        any::<u16>(),
    )
        .prop_map(|(case, suits, players, player, factor, hand)| Symmetry { case, suits, players, player, factor, hand, keep_dead: true })
}

/// full deck before the flop and on the flop: too large for brute force
pub fn large_case() -> impl Strategy<Value = EqCase> {
    (
        deck(),
        prop_oneof![3 => Just(2usize), 1 => Just(3usize)],
        prop_oneof![1 => Just(0usize), 2 => Just(3usize), 2 => Just(4usize)],
        vec(vec((term(), prop_oneof![2 => Just(None), 1 => weight()]), 1..5), 3),
        0usize..6,
        2u8..=8,
    )
        .prop_map(|(cards, n, nb, mut ranges, nd, threads)| {
            // before the flop: one hand against few
            let limit = [24usize, 0, 0, 4000, 60_000][nb];
            let board = cards_str(&cards[..nb]);
            let dead = cards_str(&cards[nb..nb + nd]);
            let used = mask_of(&cards[..nb + nd]);
            let text = |r: &Vec<(Term, Option<u8>)>| {
                RangeCase { terms: r.iter().map(|(t, w)| (t.clone(), *w, false)).collect(), upper: vec![true], zeros: 0 }.text_mixed()
            };
            let size = |r: &Vec<(Term, Option<u8>)>| ref_range(&text(r)).keys().filter(|h| (1u64 << h.0 | 1u64 << h.1) & used == 0).count();
            let mut at = nb + nd;
            loop {
                let sizes: Vec<usize> = ranges[..n].iter().map(size).collect();
                if sizes.iter().product::<usize>() <= limit {
                    break;
                }
                let big = (0..n).max_by_key(|&p| sizes[p]).unwrap();
                if ranges[big].len() > 1 {
                    ranges[big].pop();
                } else {
                    ranges[big] = vec![(Term::Exact(cards[at], cards[at + 1]), None)];
                    at += 2;
                }
            }
            EqCase { ranges: ranges[..n].iter().map(text).collect(), board, dead, threads }
        })
}

/// Two ranges of any width on the flop, turn or river; `limit`: number of deals times boards
pub fn duel_case(limit: f64) -> impl Strategy<Value = EqCase> {
    (
        deck(),
        prop_oneof![2 => Just(3usize), 3 => Just(4usize), 2 => Just(5usize)],
        vec(duel_range(true), 2),
        prop_oneof![2 => Just(0usize), 1 => 1usize..8],
        1u8..=8,
    )
        .prop_map(move |(cards, nb, mut ranges, nd, threads)| {
            let used = mask_of(&cards[..nb + nd]);
            let boards = binom(48 - nb as u64 - nd as u64, 5 - nb as u64) as f64;
            let size = |r: &Vec<(Term, Option<u8>)>| {
                if r.is_empty() {
                    return 1326 - (nb + nd) * 51;
                }
                ref_range(&duel_text(r)).keys().filter(|h| (1u64 << h.0 | 1u64 << h.1) & used == 0).count()
            };
            let mut at = nb + nd;
            while ranges.iter().map(|r| size(r) as f64).product::<f64>() * boards > limit {
                let big = if size(&ranges[0]) > size(&ranges[1]) { 0 } else { 1 };
                if ranges[big].len() > 1 {
                    ranges[big].pop();
                } else {
                    ranges[big] = vec![(Term::Exact(cards[at], cards[at + 1]), None)];
                    at += 2;
                }
            }
            EqCase { ranges: ranges.iter().map(duel_text).collect(), board: cards_str(&cards[..nb]), dead: cards_str(&cards[nb..nb + nd]), threads }
        })
}

/// no terms: all hands
fn duel_text(r: &Vec<(Term, Option<u8>)>) -> String {
    if r.is_empty() {
        return "random".to_string();
    }
    RangeCase { terms: r.iter().map(|(t, w)| (t.clone(), *w, false)).collect(), upper: vec![true], zeros: 0 }.text_mixed()
}

fn duel_range(exact: bool) -> impl Strategy<Value = Vec<(Term, Option<u8>)>> {
    let t = term().prop_filter("whole combos", move |t| exact || !matches!(t, Term::Exact(..)));
    (prop_oneof![1 => Just(0usize), 6 => 1usize..9], vec((t, prop_oneof![2 => Just(None), 1 => weight()]), 9))
        .prop_map(|(n, mut v)| {
            v.truncate(n);
            v
        })
}

/// Two ranges of whole starting combos before the flop
fn preflop_duel() -> impl Strategy<Value = EqCase> {
    (vec(duel_range(false), 2), 1u8..=8).prop_map(|(ranges, threads)| EqCase {
        ranges: ranges.iter().map(duel_text).collect(),
        board: String::new(),
        dead: String::new(),
        threads,
    })
}

/// Two ranges of few starting combos before the flop, for the exact calculator
fn preflop_pair() -> impl Strategy<Value = EqCase> {
    (vec(duel_range(false), 2), vec((0u8..13, 0u8..13), 2), 1u8..=8).prop_map(|(mut ranges, single, threads)| {
        for (r, (x, y)) in ranges.iter_mut().zip(single) {
            if r.is_empty() {
                r.push((Term::Class(x.max(y), x.min(y), 0), None));
            }
            let size = |r: &Vec<(Term, Option<u8>)>| ref_range(&duel_text(r)).len();
            while size(r) > 24 {
                if r.len() > 1 {
                    r.pop();
                } else {
                    *r = vec![(if x == y { Term::Pair(x) } else { Term::Class(x.max(y), x.min(y), 1) }, r[0].1)];
                }
            }
        }
        EqCase { ranges: ranges.iter().map(duel_text).collect(), board: String::new(), dead: String::new(), threads }
    })
}

const R_PREFLOP: &str = "2 ranges of whole starting combos of any width before the flop, compared with a table of all 169 x 169 combos";

pub fn p20(ctx: &Ctx, rep: &mut Report) {
    let rule = |s: &str| {
        format!(
            "{s}; calculated again with suits renamed, players reordered, the weights of a player scaled and one hand of a range alone; \
             non-trivial: players moved or a hand was taken out of a larger range"
        )
    };
    let w = ctx.workers;
    pbt(ctx, rep, Pbt { kind: "symsmall", cases: ctx.n(2500, 60_000), workers: w, shrink_iters: 300, rule: &rule(R_SMALL) }, || symmetry(small_case(25_000_000)), check_symmetry);
    pbt(ctx, rep, Pbt { kind: "symlarge", cases: ctx.n(120, 4000), workers: w, shrink_iters: 100, rule: &rule("2-3 ranges in the usual notation with a full deck, before the flop, on the flop and on the turn: too large for brute force") }, || symmetry(large_case()), check_symmetry);
    pbt(ctx, rep, Pbt { kind: "symdeep", cases: ctx.n(120, 4000), workers: w, shrink_iters: 100, rule: &rule(R_DEEP) }, || symmetry(deep_case()), check_symmetry);
}

// ---------------------------------------------------------------- P18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Accounts {
    pub case: EqCase,
    /// None: exact
    pub target: Option<f64>,
    pub cancelled: bool,
    pub seed: u64,
}

/// identities within one result
pub fn identities(n: usize, r: &SimulationResults, board_cards: usize) -> Result<(), String> {
    let total = total_of(r);
    ensure!(r.eval_count > 0, "nothing was evaluated");
    ensure!(r.wins_by_mask.len() == 1 << n, "wins_by_mask has {} entries", r.wins_by_mask.len());
    ensure!(r.wins_by_mask[0] == 0, "{} deals without a winner", r.wins_by_mask[0]);
    ensure!(r.hand_results.len() == 1326 * n && r.combo_results.len() == 169 * n, "number of hand and combo results");
    let f = total as f64;
    let rel = |a: f64, b: f64| (a - b).abs() <= 1e-9 * f.max(1.0);
    for p in 0..n {
        ensure!(r.wins[p] == r.wins_by_mask[1 << p], "player {p}: wins {} but {} deals won alone", r.wins[p], r.wins_by_mask[1 << p]);
        let tie_masks = || (0..1usize << n).filter(|m| m >> p & 1 == 1 && m.count_ones() > 1);
        let ties: f64 = tie_masks().map(|m| r.wins_by_mask[m] as f64 / m.count_ones() as f64).sum();
        let ties_full: u128 = tie_masks().map(|m| r.wins_by_mask[m] as u128).sum();
        ensure!(rel(r.ties[p], ties), "player {p}: ties {}, expected {ties}", r.ties[p]);
        let e = (r.wins[p] as f64 + ties) / f;
        ensure!(total == 0 || close(r.equities[p], e), "player {p}: equity {}, expected {e}", r.equities[p]);
        let hands = &r.hand_results[1326 * p..1326 * (p + 1)];
        let (mut ht, mut hw, mut hties, mut hs) = (0u128, 0u128, 0u128, 0f64);
        for (i, h) in hands.iter().enumerate() {
            ht += h.total as u128;
            hw += h.wins as u128;
            hties += h.ties as u128;
            hs += h.corrected_ties;
            let name = || {
                let (a, b) = all_hands()[i];
                hand_name(a, b)
            };
            ensure!(h.valid || h.total == 0, "player {p}, {}: dealt, but not in the range", name());
            ensure!(h.wins as u128 + h.ties as u128 <= h.total as u128, "player {p}, {}: more wins and ties than deals", name());
            ensure!(
                h.corrected_ties <= h.ties as f64 / 2.0 * (1.0 + 1e-9) && h.corrected_ties >= h.ties as f64 / n as f64 * (1.0 - 1e-9),
                "player {p}, {}: split ties {} of {}",
                name(),
                h.corrected_ties,
                h.ties
            );
            let t = h.total as f64;
            let (e, w, tr) = if h.total == 0 { (0.0, 0.0, 0.0) } else { ((h.wins as f64 + h.corrected_ties) / t, h.wins as f64 / t, h.ties as f64 / t) };
            ensure!(
                close(h.equity, e) && close(h.winrate, w) && close(h.tierate, tr),
                "player {p}, {}: rates {} {} {}, expected {e} {w} {tr}",
                name(),
                h.equity,
                h.winrate,
                h.tierate
            );
        }
        ensure!(ht == total, "player {p}: the hands were dealt {ht} times, the deals are {total}");
        ensure!(hw == r.wins[p] as u128, "player {p}: the hands won {hw}, the player won {}", r.wins[p]);
        ensure!(hties == ties_full, "player {p}: the hands tied {hties}, the player tied {ties_full}");
        ensure!(rel(hs, r.ties[p]), "player {p}: the split ties of the hands are {hs}, of the player {}", r.ties[p]);
        let group_sum = |g: &[UnitResults]| {
            g.iter().fold((0u128, 0u128, 0u128), |s, x| (s.0 + x.total as u128, s.1 + x.wins as u128, s.2 + x.ties as u128))
        };
        ensure!(group_sum(&r.combo_results[169 * p..169 * (p + 1)]) == (ht, hw, hties), "player {p}: combos do not add up to the hands");
        if board_cards >= 3 {
            ensure!(group_sum(&r.board_results[9 * p..9 * (p + 1)]) == (ht, hw, hties), "player {p}: categories do not add up to the hands");
        }
    }
    if total > 0 {
        let sum: f64 = r.equities.iter().sum();
        ensure!(close(sum, 1.0), "equities add up to {sum}");
    }
    Ok(())
}

pub fn check_accounts(a: &Accounts) -> CheckResult {
    let c = &a.case;
    let n = c.ranges.len();
    let r = match a.target {
        None => exact_progress(c, a.cancelled).0,
        Some(t) => approx_progress(c, t, a.seed, a.cancelled, 200_000).0,
    };
    let r = match r {
        Ok(r) => r,
        Err("ConflictingRanges") => return Ok(Info::new(false)),
        Err(e) => return Err(format!("refused with {e}")),
    };
    identities(n, &r, c.board.len() / 2)?;
    ensure!(r.stdev.is_finite() && r.stdev >= 0.0, "standard deviation {}", r.stdev);
    let plain = !c.ranges.iter().any(|r| r.contains('@'));
    if a.target.is_some() && plain {
        // every sample counts the same
        ensure!(total_of(&r) % r.eval_count as u128 == 0, "{} samples, but they add up to {}", r.eval_count, total_of(&r));
    }
    Ok(Info::new(r.wins_by_mask.iter().filter(|&&x| x > 0).count() > 1)
        .label("approximate", a.target.is_some())
        .label("cancelled", a.cancelled)
        .label("no weights", plain)
        .label("several threads", c.threads > 1)
        .label("ties", r.wins_by_mask.iter().enumerate().any(|(m, &w)| m.count_ones() > 1 && w > 0)))
}

fn accounts(case: impl Strategy<Value = EqCase>, exact_share: u32) -> impl Strategy<Value = Accounts> {
    (case, 0u32..10, 0.0005f64..0.05, prop::bool::weighted(0.3), any::<u64>()).prop_map(move |(case, k, t, cancelled, seed)| {
        let mut case = tame(case);
        case.threads = case.threads.min(8);
        Accounts { case, target: if k < exact_share { None } else { Some(t) }, cancelled, seed }
    })
}

pub fn p18(ctx: &Ctx, rep: &mut Report) {
    let rule = |s: &str| format!("{s}; exact or approximate, run to the end or cancelled; non-trivial: more than one outcome");
    let w = ctx.workers;
    pbt(ctx, rep, Pbt { kind: "accsmall", cases: ctx.n(1200, 40_000), workers: w, shrink_iters: 200, rule: &rule(R_SMALL) }, || accounts(small_case(25_000_000), 6), check_accounts);
    pbt(ctx, rep, Pbt { kind: "accwide", cases: ctx.n(250, 8000), workers: w, shrink_iters: 60, rule: &rule("2-4 ranges in the usual notation on 3-5 board cards") }, || accounts(wide_case(400_000_000), 5), check_accounts);
    pbt(ctx, rep, Pbt { kind: "accbatched", cases: ctx.n(200, 6000), workers: w, shrink_iters: 60, rule: &rule(R_BATCH) }, || accounts(batched_case(6_000_000), 5), check_accounts);
    pbt(ctx, rep, Pbt { kind: "accpreflop", cases: ctx.n(120, 4000), workers: w, shrink_iters: 60, rule: &rule("2-9 ranges in the usual notation before the flop, approximate or cancelled") }, || preflop_case().prop_flat_map(|c| accounts(Just(c), 0)), check_accounts);
}

/// ranges before the flop, for approximate calculations
pub fn preflop_case() -> impl Strategy<Value = EqCase> {
    (
        deck(),
        prop_oneof![3 => Just(2usize), 3 => Just(3usize), 2 => 4usize..=9],
        vec(
            prop_oneof![
                1 => Just("random".to_string()),
                4 => vec((term(), Just(None), Just(false)), 1..5).prop_map(|terms| RangeCase { terms, upper: vec![true], zeros: 0 }.text_mixed()),
                1 => vec((term(), (1u8..=3).prop_map(Some), Just(false)), 1..5).prop_map(|terms| RangeCase { terms, upper: vec![true], zeros: 0 }.text_mixed()),
            ],
            9,
        ),
        0usize..5,
        1u8..=4,
    )
        .prop_map(|(cards, n, ranges, nd, threads)| EqCase {
            ranges: ranges[..n].to_vec(),
            board: String::new(),
            dead: cards_str(&cards[..nd]),
            threads,
        })
}

// ---------------------------------------------------------------- P11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Approx {
    pub case: EqCase,
    /// wanted number of samples, 2^x: the target is chosen to need about as many
    pub log_samples: f64,
    pub seed: u64,
}

/// bound that an average of n independent samples exceeds with a probability of about 1e-11
fn deviation(var: f64, n: f64, max: f64) -> f64 {
    7.0 * (var / n).sqrt() + 50.0 * max / (3.0 * n)
}

/// number of samples that count as independent, and whether several combined ranges may be in play.
/// Hands of several combined ranges change one at a time, and the less often the more they collide;
/// every batch of 4096 samples starts afresh.
fn independent(o: &Oracle, n: f64) -> (f64, bool) {
    let product: f64 = o.ranges.iter().map(|r| r.len() as f64).product();
    if product < 10_000.0 {
        return (n / 2.0, false);
    }
    let open = (o.n_deals as f64 / product).clamp(1.0 / 4096.0, 0.5) * 2.0;
    (n / (2.0 * o.n as f64) * open, true)
}

fn approx_target(t: &Truth, log_samples: f64) -> f64 {
    // the calculator looks at the first player
    (t.var[0] / log_samples.exp2()).sqrt().max(2e-4)
}

pub fn check_approx(a: &Approx) -> CheckResult {
    let c = &a.case;
    let Some((o, t)) = situation(c) else { return Ok(Info::new(false)) };
    let Some(t) = t else {
        return match approx(c, 0.01, a.seed) {
            Err("ConflictingRanges") => Ok(Info::new(false)),
            r => Err(format!("no hands can be dealt, but the result is {:?}", r.map(|r| r.equities))),
        };
    };
    if t.total == 0 || t.max_rel_weight > 500.0 {
        return Ok(Info::new(false).label("weights too uneven", t.total > 0));
    }
    let target = approx_target(&t, a.log_samples);
    let r = match approx(c, target, a.seed) {
        Ok(r) => r,
        // sampling may miss a deal that exists if there are few among very many
        Err("ConflictingRanges") if o.ranges.iter().map(|r| r.len() as f64).product::<f64>() > 9999.0 => {
            return Ok(Info::new(false).label("no deal found", true))
        }
        Err(e) => return Err(format!("refused with {e}")),
    };
    let n = r.eval_count as f64;
    ensure!(n > 0.0, "nothing was sampled");
    let (m, several) = independent(&o, n);
    let groups = if several { o.n as f64 } else { 1.0 };
    let even = t.max_rel_weight < 20.0;
    for p in 0..o.n {
        let want = t.equity(p);
        let got = r.equities[p];
        let bound = deviation(t.var[p], m, t.max_rel_weight);
        ensure!((got - want).abs() <= bound, "equity of player {p} is {got} after {n} samples, the exact equity is {want}: more than {bound} away");
        if p == 0 && even {
            ensure!(
                (got - want).abs() <= 20.0 * target * groups.sqrt(),
                "equity of the first player is {got} for a standard deviation of {target}, the exact equity is {want}"
            );
        }
    }
    ensure!(r.stdev <= 3.0 * target, "stopped at a standard deviation of {} instead of {target}", r.stdev);
    for set in 1..1usize << o.n {
        let share = t.by_mask[set] as f64 / t.total as f64;
        let got = r.wins_by_mask[set] as f64 / total_of(&r) as f64;
        let bound = deviation(share * t.max_rel_weight, m, t.max_rel_weight);
        ensure!(t.by_mask[set] > 0 || r.wins_by_mask[set] == 0, "player set {set:#b} won {} deals, which cannot be", r.wins_by_mask[set]);
        ensure!((got - share).abs() <= bound, "player set {set:#b} won a share of {got} of {n} samples instead of {share}: more than {bound} away");
    }
    let mut i = Info::new(t.var[0] > 1e-3)
        .label("5 players or more", o.n >= 5)
        .label("dead cards", !c.dead.is_empty())
        .label("before the flop", c.board.len() < 6)
        .label("river", c.board.len() == 10)
        .label("several threads", c.threads > 1)
        .label("several groups", several)
        .label("weighted", t.max_rel_weight > 1.01)
        .label("a million samples", n > 1e6);
    i.evals = r.eval_count;
    Ok(i)
}

fn approx_of(case: impl Strategy<Value = EqCase>) -> impl Strategy<Value = Approx> {
    (case, 16.0f64..21.0, any::<u64>()).prop_map(|(case, log_samples, seed)| {
        let mut case = tame(case);
        case.threads = 1 + case.threads % 4;
        Approx { case, log_samples, seed }
    })
}

/// Results of runs to the same target scatter as the target says
pub fn check_spread(a: &Approx) -> CheckResult {
    const RUNS: usize = 48;
    let c = &a.case;
    let Some((o, Some(t))) = situation(c) else { return Ok(Info::new(false)) };
    if t.total == 0 || t.max_rel_weight > 20.0 || t.var[0] < 1e-3 {
        return Ok(Info::new(false));
    }
    let (_, several) = independent(&o, 1.0);
    if several {
        return Ok(Info::new(false).label("several groups", true));
    }
    let target = approx_target(&t, a.log_samples);
    let mut got = vec![];
    let mut samples = 0;
    for k in 0..RUNS {
        match approx(c, target, splitmix(a.seed.wrapping_add(k as u64))) {
            Ok(r) => {
                got.push(r.equities[0]);
                samples += r.eval_count;
            }
            Err(e) => return Err(format!("refused with {e}")),
        }
    }
    let n = RUNS as f64;
    let mean = got.iter().sum::<f64>() / n;
    let sd = (got.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / (n - 1.0)).sqrt();
    let want = t.equity(0);
    ensure!(sd <= 2.5 * target, "{RUNS} runs to a standard deviation of {target} scatter with one of {sd}");
    ensure!(
        (mean - want).abs() <= 2.5 * 7.0 * target / n.sqrt(),
        "the equity of the first player is {mean} on the average of {RUNS} runs to a standard deviation of {target}, the exact equity is {want}"
    );
    let mut i = Info::new(true).label("weighted", t.max_rel_weight > 1.01).label("several threads", c.threads > 1).label("board to come", c.board.len() < 10);
    i.evals = samples;
    Ok(i)
}

/// The standard deviation that is reported is the one of the reported equities
pub fn check_stdev(a: &Approx) -> CheckResult {
    const RUNS: usize = 48;
    let c = &a.case;
    let Some((o, Some(t))) = situation(c) else { return Ok(Info::new(false)) };
    if t.total == 0 || t.max_rel_weight > 20.0 || t.var[0] < 1e-3 {
        return Ok(Info::new(false));
    }
    let (mut got, mut told) = (vec![], 0.0);
    let mut samples = 0;
    for k in 0..RUNS {
        // reached at once: the number of samples does not depend on the results
        match approx(c, 0.9, splitmix(a.seed.wrapping_add(k as u64))) {
            Ok(r) => {
                got.push(r.equities[0]);
                told += r.stdev * r.stdev;
                samples += r.eval_count;
            }
            Err("ConflictingRanges") => return Ok(Info::new(false).label("no deal found", true)),
            Err(e) => return Err(format!("refused with {e}")),
        }
    }
    let n = RUNS as f64;
    let told = (told / n).sqrt();
    let mean = got.iter().sum::<f64>() / n;
    let sd = (got.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / (n - 1.0)).sqrt();
    ensure!(sd <= 1.9 * told + 5e-5, "{RUNS} runs scatter with a standard deviation of {sd}, and report one of {told}");
    ensure!(told <= 2.1 * sd + 5e-5, "{RUNS} runs report a standard deviation of {told}, and scatter with one of {sd}");
    let want = t.equity(0);
    let bound = 8.0 * sd.max(told) / n.sqrt() + 100.0 * t.max_rel_weight * n / samples as f64;
    ensure!((mean - want).abs() <= bound, "the average equity of the first player is {mean} in {RUNS} runs, the exact one is {want}: more than {bound} away");
    let (_, several) = independent(&o, 1.0);
    let mut i = Info::new(sd > 1e-4).label("weighted", t.max_rel_weight > 1.01).label("several groups", several).label("several threads", c.threads > 1);
    i.evals = samples;
    Ok(i)
}

/// Means of numbers over independent runs
struct Blocks {
    n: f64,
    mean: Vec<f64>,
    m2: Vec<f64>,
}

impl Blocks {
    fn new(k: usize) -> Blocks {
        Blocks { n: 0.0, mean: vec![0.0; k], m2: vec![0.0; k] }
    }
    fn add(&mut self, v: &[f64]) {
        self.n += 1.0;
        for (i, x) in v.iter().enumerate() {
            let d = x - self.mean[i];
            self.mean[i] += d / self.n;
            self.m2[i] += d * (x - self.mean[i]);
        }
    }
    /// variance of the mean
    fn var(&self, i: usize) -> f64 {
        self.m2[i] / (self.n - 1.0) / self.n
    }
}

/// What is compared of a run: equities, shares of player sets, then for each player and each card and
/// each starting combo the share of deals with it and the share of deals won with it
struct Numbers {
    n: usize,
    hands: bool,
}

impl Numbers {
    fn len(&self) -> usize {
        self.n + (1 << self.n) + if self.hands { self.n * 2 * (52 + 169) } else { 0 }
    }
    fn name(&self, i: usize) -> String {
        let (n, sets) = (self.n, 1usize << self.n);
        if i < n {
            return format!("the equity of player {i}");
        }
        if i < n + sets {
            return format!("the share of deals won by player set {:#b}", i - n);
        }
        let i = i - n - sets;
        let (p, k) = (i / (2 * 221), i % (2 * 221));
        let what = if k % 2 == 0 { "dealt" } else { "won" };
        match k / 2 {
            c if c < 52 => format!("the share of deals {what} with {} by player {p}", card_str(c as u8)),
            j => format!("the share of deals {what} with starting combo {} by player {p}", j - 52),
        }
    }
    fn at(&self, p: usize, k: usize) -> usize {
        self.n + (1 << self.n) + p * 2 * 221 + 2 * k
    }
    fn of_hand(&self, v: &mut [f64], p: usize, a: u8, b: u8, dealt: f64, won: f64) {
        for k in [a as usize, b as usize, 52 + combo_index_of_hand(hand_index(a, b))] {
            let i = self.at(p, k);
            v[i] += dealt;
            v[i + 1] += won;
        }
    }
}

/// Deals hands and boards at random: hands in proportion to their weights, all again if they collide.
/// Returns None if few deals work out.
fn play(c: &EqCase, num: &Numbers, blocks: usize, deals: usize, seed: u64) -> Option<Blocks> {
    let n = c.ranges.len();
    let (board, dead) = (c.board_mask(), c.dead_mask());
    let mut urns: Vec<Vec<(u8, u8)>> = vec![];
    for r in c.ref_ranges() {
        let mut urn = vec![];
        for (&(a, b), &w) in &r {
            if (1u64 << a | 1u64 << b) & (board | dead) == 0 {
                urn.extend(std::iter::repeat((a, b)).take(w as usize));
            }
        }
        if urn.is_empty() {
            return None;
        }
        urns.push(urn);
    }
    let mut state = seed;
    let mut next = |k: usize| {
        state = state.wrapping_add(0x9e3779b97f4a7c15);
        ((splitmix(state) >> 32) * k as u64 >> 32) as usize
    };
    let open = 5 - board.count_ones();
    let fixed = pack(board);
    let mut out = Blocks::new(num.len());
    let (mut tries, mut done) = (0u64, 0u64);
    let mut per_hand: Vec<Vec<[f64; 2]>> = vec![vec![[0.0; 2]; 1326]; n];
    for _ in 0..blocks {
        let mut v = vec![0.0; num.len()];
        for h in per_hand.iter_mut().flatten() {
            *h = [0.0; 2];
        }
        for _ in 0..deals {
            let mut hands = [(0u8, 0u8); 9];
            let used = 'deal: loop {
                tries += 1;
                if tries > 2000 && done * 50 < tries {
                    return None;
                }
                let mut used = board | dead;
                for p in 0..n {
                    let h = urns[p][next(urns[p].len())];
                    let m = 1u64 << h.0 | 1u64 << h.1;
                    if used & m != 0 {
                        continue 'deal;
                    }
                    used |= m;
                    hands[p] = h;
                }
                break used;
            };
            done += 1;
            let (mut used, mut b) = (used, fixed);
            for _ in 0..open {
                loop {
                    let x = next(52) as u8;
                    if used >> x & 1 == 0 {
                        used |= 1 << x;
                        b |= pbit(x);
                        break;
                    }
                }
            }
            let (mut best, mut set) = (0, 0usize);
            for p in 0..n {
                let s = strength(b | pbit(hands[p].0) | pbit(hands[p].1));
                if s > best {
                    best = s;
                    set = 0;
                }
                if s == best {
                    set |= 1 << p;
                }
            }
            v[n + set] += 1.0;
            let part = 1.0 / set.count_ones() as f64;
            for p in 0..n {
                let won = if set >> p & 1 == 1 { part } else { 0.0 };
                v[p] += won;
                if num.hands {
                    let h = &mut per_hand[p][hand_index(hands[p].0, hands[p].1)];
                    h[0] += 1.0;
                    h[1] += won;
                }
            }
        }
        if num.hands {
            for p in 0..n {
                for (i, &(a, b)) in all_hands().iter().enumerate() {
                    let [dealt, won] = per_hand[p][i];
                    if dealt > 0.0 {
                        num.of_hand(&mut v, p, a, b, dealt, won);
                    }
                }
            }
        }
        for x in &mut v {
            *x /= deals as f64;
        }
        out.add(&v);
    }
    Some(out)
}

/// Samples of many players with wide ranges against samples of the harness
fn crowd(a: &Approx, hands: bool) -> CheckResult {
    const RUNS: usize = 48;
    let c = &a.case;
    let n = c.ranges.len();
    let num = Numbers { n, hands };
    let Some(want) = play(c, &num, RUNS, 20_000, splitmix(a.seed ^ 0x706c6179)) else {
        return Ok(Info::new(false).label("few deals work out", true));
    };
    let mut got = Blocks::new(num.len());
    let (mut told, mut samples) = (0.0, 0u64);
    for k in 0..RUNS {
        let r = approx(c, 0.9, splitmix(a.seed.wrapping_add(k as u64))).map_err(|e| format!("refused with {e}"))?;
        let total = total_of(&r) as f64;
        ensure!(total > 0.0 && r.eval_count > 0, "nothing was sampled");
        let mut v = r.equities.clone();
        v.extend(r.wins_by_mask.iter().map(|&x| x as f64 / total));
        if hands {
            v.resize(num.len(), 0.0);
            for p in 0..n {
                for (i, &(x, y)) in all_hands().iter().enumerate() {
                    let u = &r.hand_results[1326 * p + i];
                    if u.total > 0 {
                        num.of_hand(&mut v, p, x, y, u.total as f64 / total, (u.wins as f64 + u.corrected_ties) / total);
                    }
                }
            }
        }
        got.add(&v);
        told += r.stdev * r.stdev;
        samples += r.eval_count;
    }
    for i in 0..num.len() {
        // what was seen on one side only may be rare: hands stay for about a sample per player
        let bound = 9.0 * (want.var(i) + got.var(i)).sqrt() + 60.0 * n as f64 / samples as f64 + 60.0 / (RUNS as f64 * 20_000.0);
        ensure!(
            (got.mean[i] - want.mean[i]).abs() <= bound,
            "{} is {} in {samples} samples, and {} in the deals of the harness: more than {bound} away",
            num.name(i),
            got.mean[i],
            want.mean[i]
        );
    }
    let (told, sd) = ((told / RUNS as f64).sqrt(), (got.m2[0] / (RUNS as f64 - 1.0)).sqrt());
    ensure!(sd <= 1.9 * told + 5e-5, "{RUNS} runs scatter with a standard deviation of {sd}, and report one of {told}");
    ensure!(told <= 2.1 * sd + 5e-5, "{RUNS} runs report a standard deviation of {told}, and scatter with one of {sd}");
    let mut i = Info::new(sd > 1e-4)
        .label("6 players or more", n >= 6)
        .label("before the flop", c.board.is_empty())
        .label("players with the same range", (1..n).any(|p| c.ranges[..p].contains(&c.ranges[p])))
        .label("weighted", c.ranges.iter().any(|r| r.contains('@')))
        .label("several threads", c.threads > 1);
    i.evals = samples;
    Ok(i)
}

pub fn check_crowded(a: &Approx) -> CheckResult {
    crowd(a, false)
}

pub fn check_crowd_hands(a: &Approx) -> CheckResult {
    crowd(a, true)
}

/// 3-9 players with ranges of any width
fn crowd_case() -> impl Strategy<Value = Approx> {
    (
        deck(),
        3usize..=9,
        prop_oneof![3 => Just(0usize), 2 => Just(3usize), 2 => Just(4usize), 1 => Just(5usize)],
        vec((duel_range(true), 0u8..3, any::<usize>()), 9),
        prop_oneof![2 => Just(0usize), 1 => 1usize..8],
        1u8..=8,
        any::<bool>(),
        any::<u64>(),
    )
        .prop_map(|(cards, n, nb, ranges, nd, threads, even, seed)| {
            let mut texts: Vec<String> = vec![];
            for (p, (r, same, k)) in ranges[..n].iter().enumerate() {
                texts.push(if p > 0 && *same == 0 { texts[k % p].clone() } else { duel_text(r) });
            }
            let c = EqCase { ranges: texts, board: cards_str(&cards[..nb]), dead: cards_str(&cards[nb..nb + nd]), threads };
            Approx { case: if even { even_weights(c) } else { unweighted(c) }, log_samples: 0.0, seed }
        })
}

const R_CROWD: &str = "3-9 players with ranges of any width in the usual notation, some of them the same, 0, 3, 4 or 5 board cards, 0-7 dead cards, \
    weights that differ by a factor of 3 at most; 48 runs of the least number of batches and 48 of 20 thousand deals played by the harness, means within 9 standard \
    deviations of each other";

pub fn p11(ctx: &Ctx, rep: &mut Report) {
    let rule = |s: &str| {
        format!(
            "{s}; sampled 65 thousand to 2 million times by choice of the target; compared with brute force within 7 standard deviations; \
             evaluations count samples; non-trivial: the equity of the first player varies"
        )
    };
    let w = ctx.workers;
    pbt(ctx, rep, Pbt { kind: "appheavy", cases: ctx.n(80, 4000), workers: w, shrink_iters: 60, rule: &rule(R_HEAVY) }, || heavy(approx_of(small_case_n(5usize..=7, 3usize..=5, 25_000_000))), check_approx);
    pbt(ctx, rep, Pbt { kind: "appsmall", cases: ctx.n(350, 12_000), workers: w, shrink_iters: 60, rule: &rule(R_SMALL) }, || approx_of(small_case(25_000_000)), check_approx);
    pbt(ctx, rep, Pbt { kind: "appbatched", cases: ctx.n(80, 3000), workers: w, shrink_iters: 40, rule: &rule(R_BATCH) }, || approx_of(batched_case(4_000_000)), check_approx);
    pbt(ctx, rep, Pbt { kind: "appwide", cases: ctx.n(80, 3000), workers: w, shrink_iters: 40, rule: &rule(R_WIDE) }, || approx_of(wide_case(150_000_000)), check_approx);
    pbt(ctx, rep, Pbt { kind: "appdeep", cases: ctx.n(60, 2000), workers: w, shrink_iters: 40, rule: &rule(R_DEEP) }, || approx_of(deep_case()), check_approx);
    pbt(ctx, rep, Pbt { kind: "appduel", cases: ctx.n(60, 3000), workers: w, shrink_iters: 40, rule: &rule(R_DUEL) }, || approx_of(duel_case(1e12)), check_approx);
    pbt(ctx, rep, Pbt { kind: "apppreflop", cases: ctx.n(120, 6000), workers: w, shrink_iters: 40, rule: &rule(R_PREFLOP) }, || approx_of(preflop_duel()), check_approx);
    pbt(
        ctx,
        rep,
        Pbt { kind: "appcrowd", cases: ctx.n(60, 3000), workers: w, shrink_iters: 12, rule: &format!("{R_CROWD}; the reported standard deviation as above; non-trivial: the runs scatter") },
        crowd_case,
        check_crowded,
    );
    let spread = |case| (case, 17.6f64..19.0, any::<u64>()).prop_map(|(case, log_samples, seed)| {
        let mut case = tame(case);
        case.threads = 1 + case.threads % 6;
        Approx { case, log_samples, seed }
    });
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "spread",
            cases: ctx.n(64, 1500),
            workers: w,
            shrink_iters: 12,
            rule: &format!("{R_SMALL}; 48 runs to the same target, their spread at most 2.5 times the target and their average within 17.5 / sqrt(48) \
                    times the target of brute force; evaluations count samples; non-trivial: one combined range, and the equity of the first player varies"),
        },
        || spread(small_case(25_000_000).boxed()),
        check_spread,
    );
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "stdev",
            cases: ctx.n(90, 2500),
            workers: w,
            shrink_iters: 12,
            rule: "two thirds as the first kind, the others wide ranges: 48 runs of the least number of batches, their spread within a factor of 2 of the \
                   reported standard deviation, their average equity compared with brute force; evaluations count samples; non-trivial: the spread is more than 0.0001",
        },
        || spread(prop_oneof![2 => small_case(25_000_000), 1 => wide_case(150_000_000)].boxed()),
        check_stdev,
    );
}

// ---------------------------------------------------------------- P19

/// shares and equities of single hands in samples
pub fn check_shares(a: &Approx) -> CheckResult {
    let c = &a.case;
    let Some((o, Some(t))) = situation(c) else { return Ok(Info::new(false)) };
    if t.total == 0 || t.max_rel_weight > 20.0 {
        return Ok(Info::new(false).label("weights too uneven", t.total > 0));
    }
    let target = approx_target(&t, a.log_samples);
    let r = match approx(c, target, a.seed) {
        Ok(r) => r,
        Err("ConflictingRanges") => return Ok(Info::new(false)),
        Err(e) => return Err(format!("refused with {e}")),
    };
    let n = r.eval_count as f64;
    let total = total_of(&r) as f64;
    // weighted averages vary more by at most the factor of the largest weight
    let weight = t.max_rel_weight.max(1.0);
    let (m, several) = independent(&o, n);
    let mut hands = 0;
    for p in 0..o.n {
        for (&(x, y), h) in &t.hands[p] {
            let u = &r.hand_results[1326 * p + hand_index(x, y)];
            let share = h.total as f64 / t.total as f64;
            let got = u.total as f64 / total;
            let name = || hand_name(x, y);
            // what never or always happens does so in every sample
            ensure!(h.total > 0 || u.total == 0, "player {p} was dealt {} {} times, which cannot be", name(), u.total);
            ensure!(h.wins > 0 || u.wins == 0, "{} of player {p} won {} of {} samples, which cannot be", name(), u.wins, u.total);
            ensure!(h.ties > 0 || u.ties == 0, "{} of player {p} tied {} of {} samples, which cannot be", name(), u.ties, u.total);
            ensure!(h.wins < h.total || u.wins == u.total, "{} of player {p} won {} of {} samples, but always wins", name(), u.wins, u.total);
            ensure!(h.wins + h.ties < h.total || u.wins + u.ties == u.total, "{} of player {p} lost some of {} samples, which cannot be", name(), u.total);
            let bound = deviation(share * (1.0 - share), m / (2.0 * weight), 1.0);
            ensure!((got - share).abs() <= bound, "player {p} was dealt {} in a share of {got} of {n} samples instead of {share}: more than {bound} away", hand_name(x, y));
            let n_h = got * m / weight;
            if h.total > 0 && n_h > 100.0 {
                let want = (h.wins as f64 + h.split) / h.total as f64;
                let var = want * (1.0 - want);
                // deals of one hand are dealt with each other hand as unevenly as those are dealt
                let bound = deviation(var, n_h / 2.0, 1.0);
                ensure!((u.equity - want).abs() <= bound, "equity of {} of player {p} is {}, the exact one is {want}: more than {bound} away", hand_name(x, y), u.equity);
                hands += 1;
            }
        }
    }
    for p in 0..o.n {
        let dealt: u128 = t.hands[p].keys().map(|&(x, y)| r.hand_results[1326 * p + hand_index(x, y)].total as u128).sum();
        ensure!(dealt == total_of(&r), "player {p}: {dealt} of {} samples are hands of the range", total_of(&r));
    }
    let mut i = Info::new(t.hands.iter().any(|h| h.len() > 1)).label("several groups", several).label("weighted", weight > 1.01);
    i.evals = hands;
    Ok(i)
}

fn unweighted(mut c: EqCase) -> EqCase {
    for r in &mut c.ranges {
        let mut out = String::new();
        for t in r.split(',') {
            if !out.is_empty() {
                out.push(',');
            }
            out += t.split('@').next().unwrap();
        }
        *r = out;
    }
    c
}

/// weights that differ by a factor of 3 at most
fn even_weights(mut c: EqCase) -> EqCase {
    for r in &mut c.ranges {
        let terms: Vec<String> = r
            .split(',')
            .map(|t| match t.split_once('@') {
                Some((h, w)) => format!("{h}@{}", 1 + w.parse::<u8>().unwrap() % 3),
                None if t == "random" => t.to_string(),
                None => format!("{t}@2"),
            })
            .collect();
        *r = terms.join(",");
    }
    c
}

/// Weights of 71 to 100 without a common divisor for up to six players, so that the weight of a deal
/// has up to 40 bits, and none for the others
fn heavy_weights(mut c: EqCase) -> EqCase {
    for (i, r) in c.ranges.iter_mut().enumerate() {
        let terms: Vec<String> = r
            .split(',')
            .enumerate()
            .map(|(j, t)| match (i < 6, t.split_once('@')) {
                (false, _) | (_, None) if t == "random" => t.to_string(),
                (false, x) => x.map_or(t, |x| x.0).to_string(),
                (true, Some((h, w))) => format!("{h}@{}", 100 - (w.parse::<usize>().unwrap() + j) % 30),
                (true, None) => format!("{t}@{}", 100 - 7 * j % 30),
            })
            .collect();
        *r = terms.join(",");
    }
    c
}

fn heavy(a: impl Strategy<Value = Approx>) -> impl Strategy<Value = Approx> {
    a.prop_map(|a| Approx { case: heavy_weights(a.case), ..a })
}
const R_HEAVY: &str = "5-7 players with 1-8 hands and weights of 71 to 100, so that the weight of a deal mostly has more than 32 bits";

fn shares_of(case: impl Strategy<Value = EqCase>) -> impl Strategy<Value = Approx> {
    let case = (case, 0u8..3).prop_map(|(c, k)| match k {
        0 => unweighted(c),
        1 => even_weights(c),
        _ => c,
    });
    approx_of(case)
}

pub fn p19(ctx: &Ctx, rep: &mut Report) {
    let rule = |s: &str| format!("{s}; evaluations count hands; non-trivial: a player has more than one hand");
    let w = ctx.workers;
    pbt(ctx, rep, Pbt { kind: "sharesmall", cases: ctx.n(500, 12_000), workers: w, shrink_iters: 60, rule: &rule(R_SMALL) }, || shares_of(small_case(25_000_000)), check_shares);
    pbt(ctx, rep, Pbt { kind: "shareheavy", cases: ctx.n(120, 5000), workers: w, shrink_iters: 60, rule: &rule(R_HEAVY) }, || heavy(approx_of(small_case_n(5usize..=7, 3usize..=5, 25_000_000))), check_shares);
    pbt(ctx, rep, Pbt { kind: "sharebatched", cases: ctx.n(150, 4000), workers: w, shrink_iters: 40, rule: &rule(R_BATCH) }, || shares_of(batched_case(4_000_000)), check_shares);
    pbt(ctx, rep, Pbt { kind: "sharewide", cases: ctx.n(120, 3000), workers: w, shrink_iters: 40, rule: &rule(R_WIDE) }, || shares_of(wide_case(150_000_000)), check_shares);
    pbt(ctx, rep, Pbt { kind: "shareduel", cases: ctx.n(30, 2000), workers: w, shrink_iters: 40, rule: &rule(R_DUEL) }, || shares_of(duel_case(1e12)), check_shares);
    pbt(ctx, rep, Pbt { kind: "sharepreflop", cases: ctx.n(60, 4000), workers: w, shrink_iters: 40, rule: &rule(R_PREFLOP) }, || shares_of(preflop_duel()), check_shares);
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "sharecrowd",
            cases: ctx.n(40, 2000),
            workers: w,
            shrink_iters: 12,
            rule: &format!("{R_CROWD}; shares dealt and won of every card and every starting combo of every player; non-trivial: the runs scatter"),
        },
        crowd_case,
        check_crowd_hands,
    );
}

// ---------------------------------------------------------------- P12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Input {
    pub ranges: Vec<String>,
    pub board: String,
    pub dead: String,
    pub threads: u8,
}

pub fn check_input(v: &Input) -> CheckResult {
    let n = v.ranges.len();
    let c = EqCase { ranges: v.ranges.clone(), board: v.board.clone(), dead: v.dead.clone(), threads: v.threads };
    let (nb, nd) = (c.board_mask().count_ones() as usize, c.dead_mask().count_ones() as usize);
    let mut faults = vec![];
    if n < 2 {
        faults.push("TooFewPlayers");
    }
    if n > 9 {
        faults.push("TooManyPlayers");
    }
    if nb > 5 {
        faults.push("TooManyBoardCards");
    }
    if 2 * n + nd + 5 > 52 {
        faults.push("TooManyDeadCards");
    }
    let refs = c.ref_ranges();
    let used = c.board_mask() | c.dead_mask();
    let mut left = vec![];
    for r in &refs {
        let k = r.keys().filter(|h| (1u64 << h.0 | 1u64 << h.1) & used == 0).count();
        left.push(k);
    }
    let empty = left.contains(&0);
    if empty {
        faults.push("ConflictingRanges");
    }
    let mut feasible = true;
    if faults.is_empty() {
        match c.oracle(400_000) {
            Some(o) => {
                if o.deals.is_empty() {
                    faults.push("ConflictingRanges");
                    feasible = false;
                } else if o.cost() > 400_000_000 {
                    return Ok(Info::new(false).label("too large", true));
                }
            }
            None => return Ok(Info::new(false).label("too large", true)),
        }
    }
    let product: f64 = left.iter().map(|&k| k as f64).product();
    for approximate in [false, true] {
        let f = if approximate { "approx_equity" } else { "exact_equity" };
        let r = if approximate { approx(&c, 0.02, splitmix(product as u64)) } else { exact(&c) };
        match (&r, faults.is_empty()) {
            (Ok(r), true) => {
                let w: u128 = total_of(r);
                if w > 0 {
                    ensure!(r.equities.iter().all(|e| *e >= 0.0 && *e <= 1.0), "{f}: equities {:?}", r.equities);
                }
            }
            (Err(e), true) => {
                // a sampling calculator may not find a rare deal
                if !(approximate && *e == "ConflictingRanges" && product >= 10_000.0) {
                    return Err(format!("{f} refuses valid input with {e}"));
                }
            }
            (Err(e), false) => ensure!(faults.contains(e), "{f} fails with {e}, expected one of {faults:?}"),
            (Ok(r), false) => return Err(format!("{f} accepts input that is {faults:?}, equities {:?}", r.equities)),
        }
    }
    Ok(Info::new(!faults.is_empty())
        .label("valid", faults.is_empty())
        .label("too few players", faults.contains(&"TooFewPlayers"))
        .label("too many players", faults.contains(&"TooManyPlayers"))
        .label("too many board cards", faults.contains(&"TooManyBoardCards"))
        .label("too many dead cards", faults.contains(&"TooManyDeadCards"))
        .label("exactly the allowed dead cards", 2 * n + nd + 5 == 52)
        .label("a range is used up", empty)
        .label("ranges collide", !feasible))
}

pub fn p12(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "input",
            cases: ctx.n(4000, 100_000),
            workers: ctx.workers,
            shrink_iters: 400,
            rule: "0-12 players with narrow ranges, 0-8 board cards, 0-44 dead cards (often the allowed number or one more), ranges \
                   that collide with the board, the dead cards or each other; non-trivial: the input has a fault",
        },
        || {
            let one = |cards: Vec<u8>| {
                (any::<u8>(), 0u8..14, any::<u8>()).prop_map(move |(i, k, j)| {
                    // hands of few cards of the deck's order: the board and the dead cards come first
                    let a = cards[i as usize % cards.len()];
                    let b = cards[(i as usize + 1 + j as usize % (cards.len() - 1)) % cards.len()];
                    match k {
                        0 => format!("{0}{0}", rank_ch(a >> 2)),
                        1 if a >> 2 != b >> 2 => format!("{}{}s", rank_ch(a >> 2), rank_ch(b >> 2)),
                        2 => format!("{},{}{}", hand_name(a, b), rank_ch(a >> 2), rank_ch(a >> 2)),
                        3 if j < 60 => String::new(),
                        _ => hand_name(a, b),
                    }
                })
            };
            (deck(), prop_oneof![1 => Just(0usize), 1 => Just(1usize), 8 => 2usize..=9, 1 => 10usize..=12], prop_oneof![6 => 0usize..=5, 1 => 6usize..=8], prop_oneof![5 => Just(0u8), 3 => Just(1u8), 3 => Just(2u8), 3 => 3u8..=255], 1u8..4, any::<bool>())
                .prop_flat_map(move |(d, n, nb, dk, threads, near)| {
                    let nb = nb;
                    let allowed = 47usize.saturating_sub(2 * n);
                    let room = 52 - nb;
                    let nd = match dk {
                        0 => 0,
                        1 => allowed,
                        2 => allowed + 1,
                        x => x as usize % 12,
                    }
                    .min(room);
                    // a full board makes wide ranges cheap
                    let pool = if near { d[..(nb + nd + 3).min(52)].to_vec() } else { d[(nb + nd).min(44)..].to_vec() };
                    let d2 = d.clone();
                    vec(one(pool), n).prop_map(move |ranges| Input {
                        ranges,
                        board: cards_str(&d2[..nb]),
                        dead: cards_str(&d2[nb..nb + nd]),
                        threads,
                    })
                })
        },
        check_input,
    );
    // many players with the same few pairs: more hands than can be dealt together
    let mut cases = vec![];
    for n in 2..=9usize {
        for r in ["AA", "AA,KK", "QQ+", "AsAh,AsAd,KsKh", "AKs"] {
            let board = "2s2h3c3d4s".to_string();
            cases.push(Input { ranges: vec![r.to_string(); n], board, dead: String::new(), threads: 2 });
        }
    }
    each(ctx, rep, "input", "2-9 players with the same few pairs", cases, check_input);
    let mut cases = vec![];
    for n in (10..=70usize).chain([127, 128, 129, 130, 200]).chain(254..=268).chain([511, 512, 514, 1026, 4098, 65536, 65537, 65538, 65545]) {
        // complete boards make results cheap if there should be any
        cases.push(Input { ranges: (0..n).map(|i| format!("{0}c{0}d", rank_ch(i as u8 % 9))).collect(), board: "AsAhKsKhQs".into(), dead: String::new(), threads: 1 });
    }
    each(ctx, rep, "input", "10 to 65545 players", cases, check_input);
    let crowds = vec![2u8, 5, 7, 9];
    each(ctx, rep, "crowd", "2, 5, 7 and 9 players with jacks or better before the flop, approximately", crowds, check_crowd);
    if let Some(m) = known_rare_deal() {
        rep.known.push(("approx-8-times-JJ+".into(), m));
    }
}

/// nine players who hold jacks or better cannot be dealt; approximate
pub fn check_crowd(n: &u8) -> CheckResult {
    let c = EqCase { ranges: vec!["JJ+".into(); *n as usize], board: String::new(), dead: String::new(), threads: 2 };
    match approx(&c, 0.01, 7) {
        Err("ConflictingRanges") if *n > 8 => Ok(Info::new(true)),
        Ok(r) if *n < 8 => {
            let s: f64 = r.equities.iter().sum();
            ensure!(close(s, 1.0), "equities add up to {s}");
            Ok(Info::new(true))
        }
        r => Err(format!("{n} times JJ+: {:?}", r.map(|r| r.equities))),
    }
}

/// eight players with jacks or better can be dealt, in a way that sampling does not find
fn known_rare_deal() -> Option<String> {
    let c = EqCase { ranges: vec!["JJ+".into(); 8], board: String::new(), dead: String::new(), threads: 1 };
    match guard(|| approx(&c, 0.01, 7)) {
        Ok(Ok(r)) if close(r.equities.iter().sum::<f64>(), 1.0) => None,
        Ok(r) => Some(format!("approx_equity of 8 times \"JJ+\" gives {:?}, although deals exist", r.map(|r| r.equities))),
        Err(e) => Some(e),
    }
}

// ---------------------------------------------------------------- P13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Progress {
    pub case: EqCase,
    pub target: Option<f64>,
    pub cancelled: bool,
    /// cancel at this progress report
    pub cancel_at: Option<u8>,
    /// cancel when the calculation takes a lock for the n-th time (needs the hooks)
    #[serde(default)]
    pub cancel_lock: Option<u8>,
    pub seed: u64,
}

pub fn check_progress(v: &Progress) -> CheckResult {
    let c = &v.case;
    let threads = c.threads as u64;
    let token = Arc::new(AtomicBool::new(v.cancelled));
    let msgs = std::sync::Mutex::new(vec![]);
    let done = std::sync::Mutex::new(0u64);
    const LIMIT: u64 = 100_000;
    let cancel_at = if HOOKS { v.cancel_at } else { v.cancel_at.or(v.cancel_lock) };
    // set when the calculation does not take locks as often as expected
    let lost = AtomicBool::new(false);
    let callback = |p: u8| {
        let mut m = msgs.lock().unwrap();
        m.push(p);
        if Some(m.len()) == cancel_at.map(|x| x as usize + 1) {
            token.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        if v.cancel_lock.map_or(false, |k| m.len() > 50 + 50 * k as usize) && !token.load(std::sync::atomic::Ordering::SeqCst) {
            lost.store(true, std::sync::atomic::Ordering::SeqCst);
            token.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        if token.load(std::sync::atomic::Ordering::SeqCst) {
            let mut d = done.lock().unwrap();
            *d += 1;
            if *d > LIMIT {
                hard_failure(&format!("{LIMIT} progress reports after it was cancelled, the calculation still goes on"));
            }
        }
    };
    let ranges = ranges_of(c);
    let (b, d) = (c.board_mask(), c.dead_mask());
    if let Some(k) = v.cancel_lock {
        flag_at_lock(Some((k as u64 + 1, token.clone())));
    }
    let r = match v.target {
        None => pokers::exact_equity(&ranges, b, d, c.threads, token.clone(), callback),
        Some(t) => {
            seed_rng(Some(v.seed));
            let r = pokers::approx_equity(&ranges, b, d, c.threads, t, token.clone(), callback);
            seed_rng(None);
            r
        }
    };
    flag_at_lock(None);
    let msgs = msgs.lock().unwrap().clone();
    let r = match r.map_err(|e| err_name(&e)) {
        Ok(r) => r,
        Err("ConflictingRanges") => return Ok(Info::new(false)),
        Err(e) => return Err(format!("refused with {e}")),
    };
    ensure!(msgs.iter().all(|&p| p <= 100), "progress of {:?} %", msgs.iter().max());
    ensure!(!msgs.is_empty(), "no progress was reported");
    let whole = !v.cancelled && v.cancel_at.is_none() && v.cancel_lock.is_none();
    let set = token.load(std::sync::atomic::Ordering::SeqCst);
    ensure!(!(whole && set), "the calculation has set the token by itself");
    ensure!(!v.cancelled || set, "the calculation has reset the token");
    let last = *msgs.last().unwrap();
    if v.target.is_none() {
        // positions are handed out in order, so one thread reports increasing progress
        if threads == 1 {
            ensure!(msgs.windows(2).all(|w| w[0] <= w[1]), "progress goes back: {msgs:?}");
        }
        if whole {
            ensure!(last == 100, "the last progress report is {last} %");
        }
    } else if whole && threads == 1 {
        ensure!(last == 100, "the last progress report is {last} %");
    }
    if v.target.is_some() {
        // the report that reaches the target ends the simulation: each thread reports what it has, and once more at its
        // end; some more are no harm
        let full = msgs.iter().filter(|&&p| p == 100).count() as u64;
        ensure!(full <= 3 * threads + 4, "{full} of {} reports by {threads} threads are 100 %, so the simulation goes on after it", msgs.len());
    }
    // how much a thread may still do: what it does between two looks at the token
    let boards = binom(52 - c.dead.len() as u64 / 2 - c.board.len() as u64 / 2 - 2 * c.ranges.len() as u64, 5 - c.board.len() as u64 / 2);
    let fired = token.load(std::sync::atomic::Ordering::SeqCst);
    if let (Some(k), true, false, true) = (v.cancel_lock, HOOKS, lost.into_inner(), fired) {
        // at least one lock is taken for each part that was handed in before
        let most = (k as u64 + 1 + threads) * (20_000 + boards);
        ensure!(r.eval_count <= most, "{} evaluations by {threads} threads although cancelled when the {}. lock was taken", r.eval_count, k + 1);
        if r.eval_count > 0 {
            identities(c.ranges.len(), &r, c.board.len() / 2)?;
        }
    }
    if v.cancelled {
        let most = threads * (20_000 + boards);
        ensure!(r.eval_count <= most, "{} evaluations by {threads} threads although cancelled from the start", r.eval_count);
        if r.eval_count > 0 {
            identities(c.ranges.len(), &r, c.board.len() / 2)?;
        }
    }
    Ok(Info::new(msgs.len() > 2 || v.cancelled || v.cancel_lock.is_some())
        .label("cancelled at a lock", v.cancel_lock.is_some())
        .label("approximate", v.target.is_some())
        .label("cancelled from the start", v.cancelled)
        .label("cancelled on the way", v.cancel_at.map_or(false, |k| msgs.len() > k as usize + 1))
        .label("one thread", threads == 1)
        .label("10 reports or more", msgs.len() >= 10))
}

fn progress(case: impl Strategy<Value = EqCase>, approximate: bool) -> impl Strategy<Value = Progress> {
    (case, 1u8..=6, prop_oneof![4 => 0.0005f64..0.02, 1 => 0.02f64..0.5], 0u8..10, 0u8..20, any::<u64>()).prop_map(
        move |(case, threads, t, mode, at, seed)| {
            let mut case = tame(case);
            case.threads = threads;
            let mut target = if approximate { Some(t) } else { None };
            let (cancelled, cancel_at, cancel_lock) = match mode {
                0..=1 => (true, None, None),
                2..=3 => (false, Some(at), None),
                4..=6 => (false, None, Some(at)),
                _ => (false, None, None),
            };
            if approximate && (cancelled || cancel_at.is_some() || cancel_lock.is_some()) {
                // would take forever if the token were ignored
                target = Some(1e-9);
            }
            Progress { case, target, cancelled, cancel_at, cancel_lock, seed }
        },
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Aside {
    pub case: EqCase,
    pub approximate: bool,
    /// when the token is set; `None`: before the start
    pub after_ms: Option<u64>,
}

/// cancelled by another thread, while there may be nothing to evaluate
pub fn check_aside(v: &Aside) -> CheckResult {
    const LIMIT: u64 = 60;
    let c = &v.case;
    let token = Arc::new(AtomicBool::new(v.after_ms.is_none()));
    let set = || token.store(true, std::sync::atomic::Ordering::SeqCst);
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let me = current_case();
    let (r, early) = std::thread::scope(|scope| {
        let early = scope.spawn(move || {
            // whether it ended before it was cancelled
            if rx.recv_timeout(std::time::Duration::from_millis(v.after_ms.unwrap_or(0))).is_ok() {
                return true;
            }
            set();
            if rx.recv_timeout(std::time::Duration::from_secs(LIMIT)).is_err() {
                set_current(&me);
                hard_failure(&format!("{LIMIT} s after it was cancelled, the calculation still goes on"));
            }
            false
        });
        let ranges = ranges_of(c);
        let (b, d) = (c.board_mask(), c.dead_mask());
        let r = if v.approximate {
            pokers::approx_equity(&ranges, b, d, c.threads, 1e-9, token.clone(), |_| {})
        } else {
            pokers::exact_equity(&ranges, b, d, c.threads, token.clone(), |_| {})
        };
        tx.send(()).unwrap();
        (r, early.join().unwrap())
    });
    match r {
        Ok(r) => identities(c.ranges.len(), &r, c.board.len() / 2)?,
        Err(pokers::SimulatorError::ConflictingRanges) => {}
        Err(e) => return Err(format!("refused with {}", err_name(&e))),
    }
    Ok(Info::new(!early).label("approximate", v.approximate).label("before the start", v.after_ms.is_none()))
}

fn aside() -> impl Strategy<Value = Aside> {
    let wide = prop::sample::select(vec!["random", "22+,A2s+,K2s+,A2o+", "TT+,AJs+,AJo+", "22+,72o,A2s+", "JJ+", "QQ+,AKs", "5h5s,55,44,33,22", "K2o+,QJs"]);
    let same = (wide.clone(), 3usize..=9).prop_map(|(t, n)| vec![t; n]);
    let mixed = prop::collection::vec(wide, 3..=9);
    let cards = prop_oneof![2 => Just(""), 2 => Just("2s7h9d"), 1 => Just("2s7h9dTc"), 2 => Just("2s7h9dTc3h")];
    (prop_oneof![3 => same, 1 => mixed], cards, prop_oneof![2 => Just(""), 1 => Just("AsKs")], 1u8..=6, prop_oneof![4 => Just(false), 1 => Just(true)], prop_oneof![1 => Just(None), 3 => (0u64..120).prop_map(Some)])
        .prop_map(|(r, board, dead, threads, approximate, after_ms)| Aside {
            case: EqCase { ranges: r.iter().map(|t| t.to_string()).collect(), board: board.into(), dead: dead.into(), threads },
            approximate,
            after_ms,
        })
}

pub fn p13(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "aside",
            cases: ctx.n(60, 3000),
            workers: ctx.workers,
            shrink_iters: 4,
            rule: "3-9 wide ranges, mostly the same, so that an exact calculation goes through billions of combinations with cards in common; cancelled \
                   by another thread before the start or within 120 ms; ends within a minute; non-trivial: it had not ended before",
        },
        aside,
        check_aside,
    );
    let rule = |s: &str| format!("{s}, 1-6 threads, run to the end, cancelled before the start, at a progress report or when the n-th lock is taken; non-trivial: more than two reports, or cancelled");
    let w = ctx.workers;
    pbt(ctx, rep, Pbt { kind: "progress", cases: ctx.n(300, 10_000), workers: w, shrink_iters: 60, rule: &rule("exact calculations of several batches") }, || progress(batched_case(8_000_000), false), check_progress);
    pbt(ctx, rep, Pbt { kind: "progress", cases: ctx.n(80, 2000), workers: w, shrink_iters: 60, rule: &rule("exact calculations with a full deck") }, || progress(large_case(), false), check_progress);
    pbt(ctx, rep, Pbt { kind: "progress", cases: ctx.n(300, 10_000), workers: w, shrink_iters: 60, rule: &rule("approximate calculations") }, || progress(prop_oneof![small_case(25_000_000), preflop_case()], true), check_progress);
}

pub fn replay(id: &str, kind: &str, v: &Value) -> Option<CheckResult> {
    Some(match (id, kind) {
        ("P07", "small" | "huge" | "duel" | "preflop" | "batched" | "wide" | "deep") => check_exact(&from_case(v)),
        ("P08", "small" | "huge" | "duel" | "preflop" | "batched" | "wide" | "deep") => check_hands(&from_case(v)),
        ("P09", "small" | "huge" | "duel" | "preflop" | "batched" | "wide" | "deep") => check_groups(&from_case(v)),
        (_, "straightresults") => check_straight_results(&from_case(v)),
        (_, "drawresults") => check_draw_results(&from_case(v)),
        (_, "stdev") => check_stdev(&from_case(v)),
        (_, "spread") => check_spread(&from_case(v)),
        (_, "rush") => check_rush(&from_case(v)),
        (_, "schedule") => check_schedule(&from_case(v)),
        (_, "symsmall" | "symlarge" | "symdeep") => check_symmetry(&from_case(v)),
        (_, "accsmall" | "accwide" | "accbatched" | "accpreflop") => check_accounts(&from_case(v)),
        (_, "appsmall" | "appheavy" | "appbatched" | "appwide" | "appdeep" | "appduel" | "apppreflop") => check_approx(&from_case(v)),
        (_, "appcrowd") => check_crowded(&from_case(v)),
        (_, "sharecrowd") => check_crowd_hands(&from_case(v)),
        (_, "sharesmall" | "shareheavy" | "sharebatched" | "sharewide" | "shareduel" | "sharepreflop") => check_shares(&from_case(v)),
        (_, "input") => check_input(&from_case(v)),
        (_, "crowd") => check_crowd(&from_case(v)),
        (_, "aside") => check_aside(&from_case(v)),
        (_, "progress") => check_progress(&from_case(v)),
        _ => return None,
    })
}

#[allow(dead_code)]
fn unused(_: &HandRange) {}
