//! Generators shared by several properties.

use crate::oracle::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// One term of the range notation
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Term {
    /// AA
    Pair(u8),
    /// 77+
    PairPlus(u8),
    /// 88-55 or 55-88
    PairSpan(u8, u8),
    /// AK, AKs, KAo
    Class(u8, u8, u8),
    /// A5s+ (high, low, suffix)
    ClassPlus(u8, u8, u8),
    /// A5s-A2s: shared rank, two other ranks (any order, both above or both below it), suffix,
    /// whether the shared rank comes second in the first part (1) and in the second part (2)
    ClassSpan(u8, u8, u8, u8, u8),
    /// AsKh
    Exact(u8, u8),
}

pub const SUFFIX: [(&str, Kind); 3] = [("", Kind::Any), ("s", Kind::Suited), ("o", Kind::Off)];

impl Term {
    /// text without weight; `one_suffix`: leave out the second suffix of a span
    pub fn text(&self, one_suffix: bool) -> String {
        let r = |x: u8| rank_ch(x);
        match *self {
            Term::Pair(a) => format!("{0}{0}", r(a)),
            Term::PairPlus(a) => format!("{0}{0}+", r(a)),
            Term::PairSpan(a, b) => format!("{0}{0}-{1}{1}", r(a), r(b)),
            Term::Class(a, b, s) => format!("{}{}{}", r(a), r(b), SUFFIX[s as usize].0),
            Term::ClassPlus(a, b, s) => format!("{}{}{}+", r(a), r(b), SUFFIX[s as usize].0),
            Term::ClassSpan(x, a, b, s, order) => {
                let s1 = SUFFIX[s as usize].0;
                let s2 = if one_suffix { "" } else { s1 };
                let part = |y: u8, second: bool| if second { format!("{}{}", r(y), r(x)) } else { format!("{}{}", r(x), r(y)) };
                format!("{}{}-{}{}", part(a, order & 1 != 0), s1, part(b, order & 2 != 0), s2)
            }
            Term::Exact(a, b) => card_str(a) + &card_str(b),
        }
    }
    /// the hands it stands for, by definition
    pub fn add(&self, out: &mut RefRange, w: u8) {
        match *self {
            Term::Pair(a) => add_class(out, a, a, Kind::Any, w),
            Term::PairPlus(a) => (a..13).for_each(|r| add_class(out, r, r, Kind::Any, w)),
            Term::PairSpan(a, b) => (a.min(b)..=a.max(b)).for_each(|r| add_class(out, r, r, Kind::Any, w)),
            Term::Class(a, b, s) => add_class(out, a, b, SUFFIX[s as usize].1, w),
            Term::ClassPlus(a, b, s) => (b..a).for_each(|r| add_class(out, a, r, SUFFIX[s as usize].1, w)),
            Term::ClassSpan(x, a, b, s, _) => {
                (a.min(b)..=a.max(b)).for_each(|r| add_class(out, x, r, SUFFIX[s as usize].1, w))
            }
            Term::Exact(a, b) => {
                out.entry((a.min(b), a.max(b))).or_insert(w);
            }
        }
    }
}

pub fn term() -> impl Strategy<Value = Term> {
    let rank = || 0u8..13;
    prop_oneof![
        2 => rank().prop_map(Term::Pair),
        2 => rank().prop_map(Term::PairPlus),
        2 => (rank(), rank()).prop_map(|(a, b)| Term::PairSpan(a, b)),
        4 => (rank(), 0u8..12, 0u8..3).prop_map(|(a, d, s)| Term::Class(a, (a + 1 + d) % 13, s)),
        4 => (1u8..13, any::<u8>(), 0u8..3).prop_map(|(a, x, s)| Term::ClassPlus(a, x % a, s)),
        3 => (1u8..13, any::<u8>(), any::<u8>(), 0u8..3, order(0))
            .prop_map(|(x, a, b, s, o)| Term::ClassSpan(x, a % x, b % x, s, o)),
        3 => (0u8..12, any::<u8>(), any::<u8>(), 0u8..3, order(3))
            .prop_map(|(x, a, b, s, o)| Term::ClassSpan(x, x + 1 + a % (12 - x), x + 1 + b % (12 - x), s, o)),
        4 => pair().prop_map(|(a, b)| Term::Exact(a, b)),
    ]
}

/// mostly the usual order of the ranks in the parts of a span
fn order(usual: u8) -> impl Strategy<Value = u8> {
    prop_oneof![2 => Just(usual), 1 => 0u8..4]
}

/// two different cards, in any order
pub fn pair() -> impl Strategy<Value = (u8, u8)> {
    (0u8..52, 0u8..51).prop_map(|(a, d)| (a, (a + 1 + d) % 52))
}

/// weight, or none
pub fn weight() -> impl Strategy<Value = Option<u8>> {
    prop_oneof![
        4 => Just(None),
        1 => Just(Some(100)),
        1 => Just(Some(0)),
        1 => Just(Some(1)),
        4 => (0u8..=100).prop_map(Some),
    ]
}

/// range text with the range it stands for. Letter case is varied.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RangeCase {
    pub terms: Vec<(Term, Option<u8>, bool)>,
    pub upper: Vec<bool>,
    /// leading zeros in weights
    pub zeros: u8,
}

impl RangeCase {
    pub fn text(&self) -> String {
        let mut parts = vec![];
        for (t, w, one) in &self.terms {
            let mut s = t.text(*one);
            if let Some(w) = w {
                s.push('@');
                for _ in 0..self.zeros {
                    s.push('0');
                }
                s += &w.to_string();
            }
            parts.push(s);
        }
        let s = parts.join(",");
        s.chars()
            .enumerate()
            .map(|(i, c)| {
                if *self.upper.get(i % self.upper.len().max(1)).unwrap_or(&true) {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            })
            .collect()
    }
    pub fn expected(&self) -> RefRange {
        let mut out = RefRange::new();
        for (t, w, _) in &self.terms {
            t.add(&mut out, w.unwrap_or(100));
        }
        out
    }
}

pub fn range_case(max_terms: usize) -> impl Strategy<Value = RangeCase> {
    (
        vec((term(), weight(), prop::bool::weighted(0.2)), 1..=max_terms),
        vec(any::<bool>(), 1..12),
        prop_oneof![8 => Just(0u8), 1 => 1u8..4],
    )
        .prop_map(|(terms, upper, zeros)| RangeCase { terms, upper, zeros })
}

/// An equity calculation
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct EqCase {
    pub ranges: Vec<String>,
    pub board: String,
    pub dead: String,
    pub threads: u8,
}

impl EqCase {
    pub fn board_mask(&self) -> u64 {
        mask_of(&parse_cards(&self.board))
    }
    pub fn dead_mask(&self) -> u64 {
        mask_of(&parse_cards(&self.dead))
    }
    pub fn ref_ranges(&self) -> Vec<RefRange> {
        self.ranges.iter().map(|r| ref_range(r)).collect()
    }
    pub fn oracle(&self, limit: usize) -> Option<Oracle> {
        Oracle::new(&self.ref_ranges(), self.board_mask(), self.dead_mask(), limit)
    }
}

/// How weights are chosen in a calculation
#[derive(Clone, Copy, Debug)]
pub enum Weights {
    All100,
    Same,
    Mixed,
    Small,
}

pub fn range_text(r: &[(u8, u8, u8)], plain: bool) -> String {
    r.iter()
        .map(|&(a, b, w)| {
            let n = card_str(a) + &card_str(b);
            if plain {
                n
            } else {
                format!("{n}@{w}")
            }
        })
        .collect::<Vec<_>>()
        .join(",")
}

pub fn deck() -> impl Strategy<Value = Vec<u8>> {
    Just((0..52u8).collect::<Vec<u8>>()).prop_shuffle()
}

fn weights() -> impl Strategy<Value = Weights> {
    prop_oneof![
        3 => Just(Weights::All100),
        1 => Just(Weights::Same),
        3 => Just(Weights::Mixed),
        2 => Just(Weights::Small),
    ]
}

/// Few explicit hands per player, 2-9 players, any board size, card removal galore.
/// `budget` bounds the cost of the brute-force solution in nanoseconds.
pub fn small_case(budget: u64) -> impl Strategy<Value = EqCase> {
    small_case_n(2usize..=9, prop_oneof![1 => 0usize..=2, 3 => Just(3usize), 3 => Just(4usize), 3 => Just(5usize)], budget)
}

pub fn small_case_n(
    players: impl Strategy<Value = usize>,
    board: impl Strategy<Value = usize>,
    budget: u64,
) -> impl Strategy<Value = EqCase> {
    (
        deck(),
        prop_oneof![2 => Just(2usize), 1 => Just(9usize), 4 => players],
        board,
        // number of dead cards, as a share of what is possible
        prop_oneof![2 => Just(0u8), 2 => 0u8..60, 1 => 0u8..=255],
        // which cards come first: suits and ranks to favour
        (0u8..4, 0u8..4, 0u8..13, any::<bool>()),
        weights(),
        vec(vec((0u8..52, 0u8..51, 0u8..=100), 0..7), 9),
        vec(1u8..=100, 9),
        // how many cards hands are made of
        prop_oneof![2 => Just(52usize), 3 => 6usize..40],
        prop_oneof![2 => Just(1u8), 2 => Just(2u8), 3 => 1u8..=9, 1 => 10u8..40],
    )
        .prop_map(move |(deck, n, nb, dead_share, bias, weights, extra, base_w, pool, threads)| {
            let (su, sv, rk, rank_bias) = bias;
            let mut cards = deck;
            if su != sv {
                cards.sort_by_key(|c| c & 3 != su && c & 3 != sv);
            } else if rank_bias {
                cards.sort_by_key(|c| (c >> 2).abs_diff(rk) / 2);
            }
            let n = n.clamp(2, 9);
            let nb = nb.min(5);
            let board: Vec<u8> = cards[..nb].to_vec();
            let anchors: Vec<(u8, u8)> = (0..n).map(|i| (cards[nb + 2 * i], cards[nb + 2 * i + 1])).collect();
            let rest = &cards[nb + 2 * n..];
            let max_dead = 52 - 5 - 2 * n;
            let mut n_dead = max_dead * dead_share as usize / 255;
            // incomplete boards: few enough cards to enumerate
            let deck_limit = match nb {
                0 => 15,
                1 => 18,
                2 => 26,
                _ => 52,
            };
            let in_deck = 52 - nb - n_dead;
            let floor = (5 - nb + 2 * n).max(deck_limit);
            if in_deck > floor {
                n_dead = (n_dead + in_deck - floor).min(max_dead);
            }
            // dead cards come from the end: the favoured cards stay in play
            let dead: Vec<u8> = if rank_bias { rest[rest.len() - n_dead..].to_vec() } else {
                let mut d = rest.to_vec();
                d.rotate_left(rest.len() / 2);
                d[..n_dead].to_vec()
            };
            let pool = &cards[..pool.max(2)];
            let mut ranges: Vec<Vec<(u8, u8, u8)>> = vec![];
            for p in 0..n {
                let w = |x: u8| -> u8 {
                    match weights {
                        Weights::All100 => 100,
                        Weights::Same => base_w[p],
                        Weights::Mixed => x,
                        Weights::Small => x % 4,
                    }
                };
                let mut r = vec![(anchors[p].0, anchors[p].1, w(base_w[p]).max(1))];
                for &(i, j, x) in &extra[p] {
                    let a = pool[i as usize % pool.len()];
                    let b = pool[(i as usize + 1 + j as usize % (pool.len() - 1)) % pool.len()];
                    r.push((a, b, w(x)));
                }
                ranges.push(r);
            }
            fit(ranges, board, dead, threads, budget, matches!(weights, Weights::All100))
        })
}

/// trims ranges until the brute-force solution is affordable and counters of 64 bits suffice
fn fit(mut ranges: Vec<Vec<(u8, u8, u8)>>, board: Vec<u8>, dead: Vec<u8>, threads: u8, budget: u64, plain: bool) -> EqCase {
    loop {
        let refs: Vec<RefRange> = ranges
            .iter()
            .map(|r| {
                let mut m = RefRange::new();
                for &(a, b, w) in r {
                    m.entry((a.min(b), a.max(b))).or_insert(w);
                }
                m
            })
            .collect();
        let o = Oracle::new(&refs, mask_of(&board), mask_of(&dead), 1_500_000);
        let fits = o.as_ref().map_or(false, |o| o.cost() <= budget);
        if fits {
            let o = o.unwrap();
            let total: f64 = o.deals.iter().map(|d| d.weight as f64).sum::<f64>() * o.n_boards_upper() as f64;
            if total < 1e18 {
                break;
            }
            // keep the sums within 64 bits
            for r in &mut ranges {
                for h in r.iter_mut() {
                    h.2 = if plain { 1 } else { h.2.min(h.2 % 5 + 1) };
                }
            }
            if plain {
                break; // equal weights: reduced to 1 by the calculator
            }
            let total: f64 = o.deals.len() as f64 * 5f64.powi(o.n as i32) * o.n_boards_upper() as f64;
            assert!(total < 1e18);
            break;
        }
        let big = (0..ranges.len()).max_by_key(|&p| ranges[p].len()).unwrap();
        let l = ranges[big].len();
        if l == 1 {
            break;
        }
        ranges[big].truncate((l / 2).max(1));
    }
    EqCase {
        ranges: ranges.iter().map(|r| range_text(r, plain)).collect(),
        board: cards_str(&board),
        dead: cards_str(&dead),
        threads,
    }
}

/// Wide ranges written in the usual notation on boards of 3-5 cards: several combined
/// ranges, several work batches
pub fn wide_case(budget: u64) -> impl Strategy<Value = EqCase> {
    (
        deck(),
        prop_oneof![3 => Just(2usize), 2 => Just(3usize), 1 => Just(4usize)],
        prop_oneof![1 => Just(3usize), 3 => Just(4usize), 4 => Just(5usize)],
        prop_oneof![3 => Just(0usize), 1 => 1usize..12],
        vec(
            prop_oneof![
                1 => Just("random".to_string()),
                8 => vec((term(), prop_oneof![2 => Just(None), 1 => weight()]), 1..6).prop_map(|v| RangeCase {
                    terms: v.into_iter().map(|(t, w)| (t, w, false)).collect(),
                    upper: vec![true],
                    zeros: 0,
                }.text_mixed()),
            ],
            4,
        ),
        1u8..=12,
    )
        .prop_map(move |(cards, n, nb, nd, texts, threads)| {
            let board = cards_str(&cards[..nb]);
            let dead = cards_str(&cards[nb..nb + nd]);
            let mut c = EqCase { ranges: texts[..n].to_vec(), board, dead, threads };
            // wide enough to matter, but affordable: shrink by dropping terms or dead cards
            let mut at = nb + nd;
            loop {
                let o = c.oracle(1_400_000);
                match o {
                    Some(o) if o.cost() <= budget => break,
                    _ => {}
                }
                let big = (0..c.ranges.len())
                    .max_by_key(|&p| {
                        let used = c.board_mask() | c.dead_mask();
                        ref_range(&c.ranges[p]).keys().filter(|&&(a, b)| (1u64 << a | 1u64 << b) & used == 0).count()
                    })
                    .unwrap();
                if c.ranges[big] == "random" || !c.ranges[big].contains(',') {
                    // make more cards dead
                    let limit = 52 - 5 - 2 * c.ranges.len();
                    let have = c.dead.len() / 2;
                    let more = 3.min(limit - have);
                    if more == 0 {
                        break;
                    }
                    c.dead += &cards_str(&cards[at..at + more]);
                    at += more;
                } else {
                    let cut = c.ranges[big].rfind(',').unwrap();
                    c.ranges[big].truncate(cut);
                }
            }
            c
        })
}

impl RangeCase {
    /// canonical letter case: upper-case ranks, lower-case rest
    pub fn text_mixed(&self) -> String {
        self.terms
            .iter()
            .map(|(t, w, one)| {
                let s = t.text(*one);
                match w {
                    Some(w) => format!("{s}@{w}"),
                    None => s,
                }
            })
            .collect::<Vec<_>>()
            .join(",")
    }
}

/// Boards that are incomplete and a deck that is small because of dead cards: many deals, spread
/// over several batches of work. `budget`: number of (deal, board) pairs.
pub fn batched_case(budget: u64) -> impl Strategy<Value = EqCase> {
    (
        deck(),
        prop_oneof![4 => Just(2usize), 2 => Just(3usize), 1 => Just(4usize)],
        prop_oneof![3 => Just(0usize), 2 => Just(1usize), 2 => Just(2usize), 3 => Just(3usize), 1 => Just(4usize)],
        0u8..=255,
        vec(vec((any::<u8>(), any::<u8>(), 0u8..=100), 4..60), 4),
        weights(),
        prop_oneof![1 => Just(1u8), 3 => 2u8..=16],
        (0u8..4, 0u8..4),
    )
        .prop_map(move |(mut cards, n, nb, size, hands, weights, threads, (su, sv))| {
            if su != sv {
                let mut k = 0;
                cards.sort_by_cached_key(|c| {
                    k += 1;
                    (c & 3 != su && c & 3 != sv) as u32 * 20 + k % 40
                });
            }
            // cards in play apart from the board
            let lo = 5 - nb + 2 * n + 1;
            let hi = [22usize, 24, 30, 44, 48][nb];
            let play = (lo + size as usize * (hi - lo) / 255).min(52 - nb);
            let dead_n = (52 - nb - play).min(52 - 5 - 2 * n);
            let board = cards[..nb].to_vec();
            let pool = &cards[nb..52 - dead_n];
            let dead = cards[52 - dead_n..].to_vec();
            let mut ranges: Vec<Vec<(u8, u8, u8)>> = (0..n)
                .map(|p| {
                    hands[p]
                        .iter()
                        .map(|&(i, j, w)| {
                            let a = i as usize % pool.len();
                            let b = (a + 1 + j as usize % (pool.len() - 1)) % pool.len();
                            let w = match weights {
                                Weights::All100 => 100,
                                Weights::Same => 40,
                                Weights::Mixed => w,
                                Weights::Small => w % 4,
                            };
                            (pool[a], pool[b], w)
                        })
                        .collect()
                })
                .collect();
            for (p, r) in ranges.iter_mut().enumerate() {
                r[0] = (pool[2 * p], pool[2 * p + 1], r[0].2.max(1));
            }
            let boards = binom((pool.len() - 2 * n) as u64, (5 - nb) as u64);
            loop {
                let deals: u64 = ranges.iter().map(|r| r.len() as u64).product();
                if deals * boards <= budget {
                    break;
                }
                let big = (0..n).max_by_key(|&p| ranges[p].len()).unwrap();
                let l = ranges[big].len();
                if l == 1 {
                    break;
                }
                ranges[big].truncate(l - (l / 8).max(1));
            }
            EqCase {
                ranges: ranges.iter().map(|r| range_text(r, matches!(weights, Weights::All100))).collect(),
                board: cards_str(&board),
                dead: cards_str(&dead),
                threads,
            }
        })
}

/// Boards of 0-2 cards and an (almost) full deck; one or two hands per player
pub fn deep_case() -> impl Strategy<Value = EqCase> {
    (
        deck(),
        prop_oneof![4 => Just(2usize), 2 => Just(3usize), 1 => 4usize..=9],
        prop_oneof![2 => Just(0usize), 2 => Just(1usize), 2 => Just(2usize)],
        prop_oneof![2 => Just(0usize), 1 => 0usize..12],
        vec(prop::option::weighted(0.3, (any::<u8>(), any::<u8>())), 9),
        vec(1u8..=100, 18),
        (0u8..4, 0u8..4, any::<bool>()),
        1u8..=4,
    )
        .prop_map(|(mut cards, n, nb, nd, more, w, (su, sv, plain), threads)| {
            if su != sv {
                let mut k = 0;
                cards.sort_by_cached_key(|c| {
                    k += 1;
                    (c & 3 != su && c & 3 != sv) as u32 * 12 + k % 24
                });
            }
            let nd = nd.min(52 - 5 - 2 * n);
            let board = cards[..nb].to_vec();
            let mut ranges: Vec<Vec<(u8, u8, u8)>> =
                (0..n).map(|p| vec![(cards[nb + 2 * p], cards[nb + 2 * p + 1], if n > 5 { 1 } else { w[p] })]).collect();
            // a second hand for up to two players
            let mut left = 2;
            for p in 0..n {
                if let (Some((i, j)), true) = (more[p], left > 0) {
                    let a = i as usize % (52 - nd - nb);
                    let b = (a + 1 + j as usize % (51 - nd - nb)) % (52 - nd - nb);
                    ranges[p].push((cards[nb + a], cards[nb + b], if n > 5 { 2 } else { w[9 + p] }));
                    left -= 1;
                }
            }
            EqCase {
                ranges: ranges.iter().map(|r| range_text(r, plain)).collect(),
                board: cards_str(&board),
                dead: cards_str(&cards[52 - nd..]),
                threads,
            }
        })
}

/// All deals together weigh between 2^64 and three times as much, so that sums over the hands of a
/// player do not fit a counter, though the number of deals won by each set of players may
pub fn huge_case() -> impl Strategy<Value = EqCase> {
    (deck(), 0u8..13, 1u8..13, vec(vec(20u8..=70, 3), 8), 0usize..9, (1.0f64..2.8, 0usize..=3, any::<u8>()), 1u8..=8).prop_map(|(cards, r1, r2, weights, place, (size, alike, which), threads)| {
        let r2 = (r1 + r2) % 13;
        let own: Vec<u8> = (0..52u8).filter(|c| c >> 2 == r1 || c >> 2 == r2).collect();
        let rest: Vec<u8> = cards.iter().copied().filter(|c| !own.contains(c)).collect();
        let board = &rest[32..37];
        let mut product = 1f64;
        let mut ranges: Vec<Vec<(u8, u8, u8)>> = (0..8)
            .map(|p| {
                let c = &rest[4 * p..4 * p + 4];
                product *= weights[p].iter().map(|&w| w as f64).sum::<f64>();
                let mut r = vec![(c[0], c[1], weights[p][0]), (c[0], c[2], weights[p][1]), (c[1], c[3], weights[p][2])];
                if p < alike {
                    // the same ranks as the player below, so that they split
                    let k = which as usize + p;
                    r[2] = (own[k % 4], own[4 + (k / 4 + p) % 4], weights[p][2]);
                }
                r
            })
            .collect();
        // one player holds all offsuit hands of two ranks, with weights that make up the wanted sum
        let t = (size * 1.8447e19 / product / 12.0).clamp(1.0, 99.0) as u8;
        let mut k = 0;
        let mut big = vec![];
        for &a in &own[..4] {
            for &b in &own[4..] {
                if a & 3 != b & 3 {
                    big.push((a, b, t + k % 2));
                    k += 1;
                }
            }
        }
        ranges.insert(place, big);
        EqCase { ranges: ranges.iter().map(|r| range_text(r, false)).collect(), board: cards_str(board), dead: String::new(), threads }
    })
}

/// Smaller weights where the counters of a long sampling run would overflow otherwise
pub fn tame(mut c: EqCase) -> EqCase {
    let top = |r: &str| ref_range(r).values().copied().max().unwrap_or(1).max(1) as f64;
    let product: f64 = c.ranges.iter().map(|r| if r.contains('@') { top(r) } else { 1.0 }).product();
    if product * 1e9 < 1e18 {
        return c;
    }
    for r in &mut c.ranges {
        let terms: Vec<String> = r
            .split(',')
            .enumerate()
            .map(|(i, t)| match t.split_once('@') {
                Some((h, w)) => {
                    let w = w.parse::<u8>().unwrap();
                    format!("{h}@{}", if i == 0 { 1 + w % 2 } else { w % 3 })
                }
                None => t.to_string(),
            })
            .collect();
        *r = terms.join(",");
    }
    c
}
