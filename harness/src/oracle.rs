//! Reference model: cards, hand strength, range notation and brute-force equities.
//! Nothing in here uses the crate under test.
//!
//! A card is 0..52, 4 * rank + suit, rank 0 = deuce .. 12 = ace, suits s h c d.

use std::collections::BTreeMap;

pub const RANKS: &str = "23456789TJQKA";
pub const SUITS: &str = "shcd";

pub fn rank_ch(r: u8) -> char {
    RANKS.as_bytes()[r as usize] as char
}
pub fn suit_ch(s: u8) -> char {
    SUITS.as_bytes()[s as usize] as char
}
pub fn card_str(c: u8) -> String {
    format!("{}{}", rank_ch(c >> 2), suit_ch(c & 3))
}
pub fn cards_str(cs: &[u8]) -> String {
    cs.iter().map(|&c| card_str(c)).collect()
}
/// parses text such as "AsKh" (exact case), for replay files
pub fn parse_cards(s: &str) -> Vec<u8> {
    let b: Vec<char> = s.chars().collect();
    assert!(b.len() % 2 == 0, "bad card text {s:?}");
    b.chunks(2)
        .map(|p| {
            let r = RANKS.find(p[0]).expect("rank") as u8;
            let s = SUITS.find(p[1]).expect("suit") as u8;
            4 * r + s
        })
        .collect()
}
pub fn mask_of(cs: &[u8]) -> u64 {
    cs.iter().fold(0, |m, &c| m | 1u64 << c)
}
pub fn cards_of(mask: u64) -> Vec<u8> {
    (0..52).filter(|c| mask >> c & 1 == 1).collect()
}

/// bit of a card in the packed form used by `strength`: one 16-bit lane per suit
#[inline(always)]
pub fn pbit(c: u8) -> u64 {
    1u64 << (16 * (c & 3) as u32 + (c >> 2) as u32)
}
pub fn pack(mask: u64) -> u64 {
    cards_of(mask).into_iter().fold(0, |m, c| m | pbit(c))
}

#[inline(always)]
fn top(m: u16) -> u32 {
    16 - m.leading_zeros()
} // 1 + highest rank, 0 if empty

/// highest rank (1-based) of the best straight in a rank set; 0 if none
#[inline(always)]
fn straight(m: u16) -> u32 {
    let w = (m as u32) << 1 | (m as u32 >> 12 & 1); // bit 0 = ace as one
    let run = w & w >> 1 & w >> 2 & w >> 3 & w >> 4;
    if run == 0 {
        0
    } else {
        // bit i of `run`: cards i..i+4 in w, top of them is w-bit i+4 = rank i+3 (0-based)
        31 - run.leading_zeros() + 4
    }
}

/// takes the n highest ranks out of a set, 4 bits each (1-based rank, 0 = missing card)
#[inline(always)]
fn take(mut m: u16, n: u32) -> u32 {
    let mut v = 0;
    for _ in 0..n {
        let t = top(m);
        v = v << 4 | t;
        if t > 0 {
            m &= !(1 << (t - 1));
        }
    }
    v
}

/// Strength of the best five-card hand among up to seven cards: category (1 high card ..
/// 9 straight flush) in the bits from 20 on, then the deciding ranks in order.
#[inline(always)]
pub fn strength(p: u64) -> u32 {
    let s = [p as u16, (p >> 16) as u16, (p >> 32) as u16, (p >> 48) as u16];
    let mut flush = 0u16;
    for x in s {
        if x.count_ones() >= 5 {
            flush = x;
        }
    }
    if flush != 0 {
        let st = straight(flush);
        if st > 0 {
            return 9 << 20 | st << 16;
        }
    }
    let any = s[0] | s[1] | s[2] | s[3];
    let all = s[0] & s[1] & s[2] & s[3];
    // ranks held at least twice / at least three times
    let two = s[0] & s[1] | s[0] & s[2] | s[0] & s[3] | s[1] & s[2] | s[1] & s[3] | s[2] & s[3];
    let three = s[0] & s[1] & s[2] | s[0] & s[1] & s[3] | s[0] & s[2] & s[3] | s[1] & s[2] & s[3];
    if all != 0 {
        let q = top(all);
        return 8 << 20 | q << 16 | take(any & !(1 << (q - 1)), 1) << 12;
    }
    if three != 0 {
        let t = top(three);
        let rest = two & !(1 << (t - 1));
        if rest != 0 {
            return 7 << 20 | t << 16 | top(rest) << 12;
        }
    }
    if flush != 0 {
        return 6 << 20 | take(flush, 5);
    }
    let st = straight(any);
    if st > 0 {
        return 5 << 20 | st << 16;
    }
    if three != 0 {
        let t = top(three);
        return 4 << 20 | t << 16 | take(any & !(1 << (t - 1)), 2) << 8;
    }
    if two != 0 {
        let a = top(two);
        let rest = two & !(1 << (a - 1));
        if rest != 0 {
            let b = top(rest);
            let k = any & !(1 << (a - 1)) & !(1 << (b - 1));
            return 3 << 20 | a << 16 | b << 12 | take(k, 1) << 8;
        }
        return 2 << 20 | a << 16 | take(any & !(1 << (a - 1)), 3) << 4;
    }
    1 << 20 | take(any, 5)
}

/// The same by definition: the best of all five-card subsets, each ranked by sorting.
pub fn strength_slow(cards: &[u8]) -> u32 {
    let n = cards.len();
    let k = n.min(5);
    let mut best = 0;
    for sub in 0u32..1 << n {
        if sub.count_ones() as usize != k {
            continue;
        }
        let hand: Vec<u8> = (0..n).filter(|i| sub >> i & 1 == 1).map(|i| cards[i]).collect();
        let mut count: BTreeMap<u32, u32> = BTreeMap::new();
        for c in &hand {
            *count.entry((c >> 2) as u32 + 1).or_default() += 1;
        }
        // (multiplicity, rank), highest first
        let mut g: Vec<(u32, u32)> = count.iter().map(|(&r, &m)| (m, r)).collect();
        g.sort_by(|a, b| b.cmp(a));
        let flush = k == 5 && hand.iter().all(|c| c & 3 == hand[0] & 3);
        let distinct = g.len() == 5;
        let st = if !distinct {
            0
        } else if g[0].1 - g[4].1 == 4 {
            g[0].1
        } else if g[0].1 == 13 && g[1].1 == 4 {
            4
        } else {
            0
        };
        let shape: Vec<u32> = g.iter().map(|x| x.0).collect();
        let cat = match (flush, st > 0, shape.as_slice()) {
            (true, true, _) => 9,
            (_, _, [4, ..]) => 8,
            (_, _, [3, 2]) => 7,
            (true, _, _) => 6,
            (_, true, _) => 5,
            (_, _, [3, ..]) => 4,
            (_, _, [2, 2, ..]) => 3,
            (_, _, [2, ..]) => 2,
            _ => 1,
        };
        let mut key = 0;
        if cat == 9 || cat == 5 {
            key = st << 16;
        } else {
            for (i, x) in g.iter().enumerate() {
                key |= x.1 << (16 - 4 * i);
            }
        }
        best = best.max(cat << 20 | key);
    }
    best
}

/// position of a hole-card pair in the documented order: pairs by rank from AA, then suited
/// hands from AK, then offsuit hands from AK
pub fn hand_index(a: u8, b: u8) -> usize {
    let (hi, lo) = if a >> 2 > b >> 2 || (a >> 2 == b >> 2 && a & 3 < b & 3) { (a, b) } else { (b, a) };
    let (r1, s1, r2, s2) = ((hi >> 2) as usize, (hi & 3) as usize, (lo >> 2) as usize, (lo & 3) as usize);
    let nonpair = |r1: usize, r2: usize| -> usize {
        // number of unpaired rank combinations before (r1, r2)
        let higher: usize = (r1 + 1..13).sum();
        higher + (r1 - 1 - r2)
    };
    if r1 == r2 {
        let within = [[9, 0, 1, 2], [9, 9, 3, 4], [9, 9, 9, 5], [9, 9, 9, 9]][s1][s2];
        (12 - r1) * 6 + within
    } else if s1 == s2 {
        78 + nonpair(r1, r2) * 4 + s1
    } else {
        390 + nonpair(r1, r2) * 12 + s1 * 3 + if s2 > s1 { s2 - 1 } else { s2 }
    }
}
/// canonical name: higher rank first, for pairs suits in the order s h c d
pub fn hand_name(a: u8, b: u8) -> String {
    let (hi, lo) = if a >> 2 > b >> 2 || (a >> 2 == b >> 2 && a & 3 < b & 3) { (a, b) } else { (b, a) };
    card_str(hi) + &card_str(lo)
}
pub fn combo_name(a: u8, b: u8) -> String {
    let (r1, r2) = ((a >> 2).max(b >> 2), (a >> 2).min(b >> 2));
    let suffix = if r1 == r2 {
        ""
    } else if a & 3 == b & 3 {
        "s"
    } else {
        "o"
    };
    format!("{}{}{}", rank_ch(r1), rank_ch(r2), suffix)
}
pub fn combo_index_of_hand(i: usize) -> usize {
    if i < 78 {
        i / 6
    } else if i < 390 {
        13 + (i - 78) / 4
    } else {
        91 + (i - 390) / 12
    }
}
/// all 1326 pairs, by index
pub fn all_hands() -> Vec<(u8, u8)> {
    let mut v = vec![(0, 0); 1326];
    for a in 0..52u8 {
        for b in a + 1..52 {
            let x = &mut v[hand_index(a, b)];
            assert_eq!(*x, (0, 0));
            *x = (a, b);
        }
    }
    v
}

/// A range: weight of each hole-card pair (lower card, higher card)
pub type RefRange = BTreeMap<(u8, u8), u8>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Any,
    Suited,
    Off,
}

pub fn add_class(out: &mut RefRange, r1: u8, r2: u8, kind: Kind, w: u8) {
    for s1 in 0..4 {
        for s2 in 0..4 {
            let (a, b) = (4 * r1 + s1, 4 * r2 + s2);
            if a == b
                || (r1 != r2 && kind == Kind::Suited && s1 != s2)
                || (r1 != r2 && kind == Kind::Off && s1 == s2)
            {
                continue;
            }
            out.entry((a.min(b), a.max(b))).or_insert(w);
        }
    }
}

/// Reference parser for well-formed range text (the grammar of property P04), panics on others
pub fn ref_range(text: &str) -> RefRange {
    let mut out = RefRange::new();
    if text == "random" {
        for a in 0..52 {
            for b in a + 1..52 {
                out.insert((a, b), 100);
            }
        }
        return out;
    }
    let text = text.to_ascii_lowercase();
    let ranks = RANKS.to_ascii_lowercase();
    for term in text.split(',') {
        if term.is_empty() {
            continue;
        }
        let (body, w) = match term.split_once('@') {
            Some((b, w)) => (b, w.parse::<u8>().expect("weight")),
            None => (term, 100),
        };
        let rank = |c: char| ranks.find(c).expect("rank") as u8;
        let class = |t: &str| -> (u8, u8, Kind) {
            let c: Vec<char> = t.chars().collect();
            let k = match c.get(2) {
                None => Kind::Any,
                Some('s') => Kind::Suited,
                Some('o') => Kind::Off,
                Some(x) => panic!("suffix {x}"),
            };
            assert!(c.len() <= 3);
            (rank(c[0]), rank(c[1]), k)
        };
        let c: Vec<char> = body.chars().collect();
        if c.len() == 4 && SUITS.contains(c[1]) && SUITS.contains(c[3]) && !body.contains('-') && !body.contains('+') {
            let a = 4 * rank(c[0]) + SUITS.find(c[1]).unwrap() as u8;
            let b = 4 * rank(c[2]) + SUITS.find(c[3]).unwrap() as u8;
            assert_ne!(a, b);
            out.entry((a.min(b), a.max(b))).or_insert(w);
        } else if let Some((x, y)) = body.split_once('-') {
            let (a1, a2, k1) = class(x);
            let (b1, b2, k2) = class(y);
            assert!(k2 == Kind::Any || k2 == k1);
            if a1 == a2 {
                assert_eq!(b1, b2);
                for r in a1.min(b1)..=a1.max(b1) {
                    add_class(&mut out, r, r, Kind::Any, w);
                }
            } else {
                // the rank that both parts share, and the other ranks
                let (x, a, b) = match () {
                    _ if a1 == b1 => (a1, a2, b2),
                    _ if a2 == b2 => (a2, a1, b1),
                    _ if a1 == b2 => (a1, a2, b1),
                    _ => (a2, a1, b2),
                };
                assert!((a > x) == (b > x) && (a1 == x || a2 == x) && (b1 == x || b2 == x));
                for r in a.min(b)..=a.max(b) {
                    add_class(&mut out, x, r, k1, w);
                }
            }
        } else if let Some(x) = body.strip_suffix('+') {
            let (a1, a2, k) = class(x);
            if a1 == a2 {
                for r in a1..13 {
                    add_class(&mut out, r, r, Kind::Any, w);
                }
            } else {
                assert!(a1 > a2);
                for r in a2..a1 {
                    add_class(&mut out, a1, r, k, w);
                }
            }
        } else {
            let (a1, a2, k) = class(body);
            add_class(&mut out, a1, a2, k, w);
        }
    }
    out
}

/// One way to deal hole cards to all players
#[derive(Clone)]
pub struct Deal {
    pub mask: u64,
    pub weight: u64,
    /// index into `Oracle::hands`, per player
    pub idx: [u16; 9],
}

/// All deals of a scenario
pub struct Oracle {
    pub n: usize,
    pub ranges: Vec<Vec<(u8, u8, u8)>>, // without conflicting pairs
    pub hands: Vec<(u8, u8)>,
    pub deals: Vec<Deal>,
    /// number of deals, also where they are not listed
    pub n_deals: u64,
    pub board: u64,
    pub dead: u64,
}

/// Weighted counts over all deals and boards
pub struct Truth {
    pub total: u128,
    pub by_mask: Vec<u128>,
    /// per player: (low card, high card) -> total, wins, ties, split ties
    pub hands: Vec<BTreeMap<(u8, u8), HandTruth>>,
    /// per player: E[w^2 (x - mu)^2] / E[w]^2, the variance of one weighted sample
    pub var: Vec<f64>,
    /// max w / E[w]
    pub max_rel_weight: f64,
    pub boards: u64,
}

#[derive(Default, Clone, Debug)]
pub struct HandTruth {
    pub total: u128,
    pub wins: u128,
    pub ties: u128,
    pub split: f64,
    /// unweighted number of (deal, board) pairs, and sums of squares of weights
    pub n: u64,
    pub w2: f64,
}

impl Truth {
    pub fn equity(&self, p: usize) -> f64 {
        let mut e = 0.0;
        for (m, &w) in self.by_mask.iter().enumerate() {
            if m >> p & 1 == 1 {
                e += w as f64 / m.count_ones() as f64;
            }
        }
        e / self.total as f64
    }
}

impl Oracle {
    /// `None` if there are more than `limit` deals
    pub fn new(ranges: &[RefRange], board: u64, dead: u64, limit: usize) -> Option<Oracle> {
        let used = board | dead;
        let n = ranges.len();
        let ranges: Vec<Vec<(u8, u8, u8)>> = ranges
            .iter()
            .map(|r| {
                r.iter()
                    .filter(|(&(a, b), _)| (1u64 << a | 1u64 << b) & used == 0)
                    .map(|(&(a, b), &w)| (a, b, w))
                    .collect()
            })
            .collect();
        let mut hands: Vec<(u8, u8)> = ranges.iter().flatten().map(|&(a, b, _)| (a, b)).collect();
        hands.sort_unstable();
        hands.dedup();
        let mut o = Oracle { n, ranges, hands, deals: vec![], n_deals: 0, board, dead };
        let idx: Vec<Vec<(u64, u64, u16)>> = o
            .ranges
            .iter()
            .map(|r| {
                r.iter()
                    .map(|&(a, b, w)| {
                        (1u64 << a | 1u64 << b, w as u64, o.hands.binary_search(&(a, b)).unwrap() as u16)
                    })
                    .collect()
            })
            .collect();
        let mut cur = Deal { mask: 0, weight: 1, idx: [0; 9] };
        fn rec(
            p: usize,
            idx: &[Vec<(u64, u64, u16)>],
            cur: &mut Deal,
            out: &mut Vec<Deal>,
            limit: usize,
            steps: &mut u64,
        ) -> bool {
            if p == idx.len() {
                out.push(cur.clone());
                return out.len() <= limit;
            }
            for &(m, w, i) in &idx[p] {
                *steps += 1;
                if *steps > 200_000_000 {
                    return false;
                }
                if cur.mask & m != 0 {
                    continue;
                }
                let save = cur.clone();
                cur.mask |= m;
                cur.weight *= w;
                cur.idx[p] = i;
                let ok = rec(p + 1, idx, cur, out, limit, steps);
                *cur = save;
                if !ok {
                    return false;
                }
            }
            true
        }
        let mut deals = vec![];
        let mut steps = 0;
        if !rec(0, &idx, &mut cur, &mut deals, limit, &mut steps) {
            return None;
        }
        o.n_deals = deals.len() as u64;
        o.deals = deals;
        Some(o)
    }

    pub fn n_boards_upper(&self) -> u64 {
        let deck = 52 - (self.board | self.dead).count_ones() as u64;
        binom(deck, 5 - self.board.count_ones() as u64)
    }
    pub fn cost(&self) -> u64 {
        // roughly nanoseconds
        self.n_boards_upper() * (20 + 30 * self.hands.len() as u64 + (3 + self.n as u64) * self.deals.len() as u64)
    }

    /// deals every board to every deal and scores it
    pub fn solve(&self) -> Truth {
        let n = self.n;
        let hp: Vec<u64> = self.hands.iter().map(|&(a, b)| pbit(a) | pbit(b)).collect();
        let hm: Vec<u64> = self.hands.iter().map(|&(a, b)| 1u64 << a | 1u64 << b).collect();
        let mut by_mask = vec![0u128; 1 << n];
        let nh = self.hands.len();
        #[derive(Clone, Default)]
        struct Acc {
            n: u64,
            w2: f64,
            total: u128,
            wins: u128,
            ties: u128,
            split: f64,
        }
        let mut acc = vec![Acc::default(); n * nh];
        let mut w2_by_mask = vec![0f64; 1 << n];
        let (mut cnt, mut w_sum, mut w_max) = (0u64, 0f64, 0u64);
        let boards = boards_of(self.board, self.dead, |board, packed| {
            let _ = board;
            (board, packed)
        });
        let mut n_boards = 0;
        let mut score = vec![0u32; nh];
        for (board, packed) in boards {
            n_boards += 1;
            for h in 0..nh {
                score[h] = if hm[h] & board == 0 { strength(hp[h] | packed) } else { 0 };
            }
            for d in &self.deals {
                if d.mask & board != 0 {
                    continue;
                }
                let mut best = 0;
                let mut m = 0usize;
                for p in 0..n {
                    let s = score[d.idx[p] as usize];
                    if s > best {
                        best = s;
                        m = 1 << p;
                    } else if s == best {
                        m |= 1 << p;
                    }
                }
                let w = d.weight;
                by_mask[m] += w as u128;
                let wf = w as f64;
                w2_by_mask[m] += wf * wf;
                cnt += 1;
                w_sum += wf;
                w_max = w_max.max(w);
                let k = m.count_ones();
                for p in 0..n {
                    let a = &mut acc[p * nh + d.idx[p] as usize];
                    a.n += 1;
                    a.w2 += wf * wf;
                    a.total += w as u128;
                    if m >> p & 1 == 1 {
                        if k == 1 {
                            a.wins += w as u128;
                        } else {
                            a.ties += w as u128;
                            a.split += wf / k as f64;
                        }
                    }
                }
            }
        }
        let total: u128 = by_mask.iter().sum();
        let mut hands = vec![BTreeMap::new(); n];
        for p in 0..n {
            for &(a, b, _) in &self.ranges[p] {
                let h = self.hands.binary_search(&(a, b)).unwrap();
                let x = &acc[p * nh + h];
                hands[p].insert(
                    (a, b),
                    HandTruth { total: x.total, wins: x.wins, ties: x.ties, split: x.split, n: x.n, w2: x.w2 },
                );
            }
        }
        let mut t = Truth { total, by_mask, hands, var: vec![], max_rel_weight: 0.0, boards: n_boards };
        if total > 0 {
            let mean_w = w_sum / cnt as f64;
            t.max_rel_weight = w_max as f64 / mean_w;
            for p in 0..n {
                let mu = t.equity(p);
                let mut v = 0.0;
                for (m, &w2) in w2_by_mask.iter().enumerate() {
                    let x = if m >> p & 1 == 1 { 1.0 / m.count_ones() as f64 } else { 0.0 };
                    v += w2 * (x - mu) * (x - mu);
                }
                t.var.push(v / cnt as f64 / (mean_w * mean_w));
            }
        }
        t
    }
}

/// Two players: counts for each board how many hands of the other are better and worse, in order
/// of strength and without those that share a card, instead of looking at every deal
pub fn duel(ranges: &[RefRange], board: u64, dead: u64) -> (Oracle, Truth) {
    assert_eq!(ranges.len(), 2);
    let used = board | dead;
    let ranges: Vec<Vec<(u8, u8, u8)>> = ranges
        .iter()
        .map(|r| r.iter().filter(|(&(a, b), _)| (1u64 << a | 1u64 << b) & used == 0).map(|(&(a, b), &w)| (a, b, w)).collect())
        .collect();
    let mut hands: Vec<(u8, u8)> = ranges.iter().flatten().map(|&(a, b, _)| (a, b)).collect();
    hands.sort_unstable();
    hands.dedup();
    let nh = hands.len();
    // per player and hand: weight, its square, 1 if it is in the range
    let mut w = vec![[[0u64; 3]; 2]; nh];
    for p in 0..2 {
        for &(a, b, x) in &ranges[p] {
            w[hands.binary_search(&(a, b)).unwrap()][p] = [x as u64, x as u64 * x as u64, 1];
        }
    }
    let mut n_deals = 0;
    for &(a, b, _) in &ranges[0] {
        n_deals += ranges[1].iter().filter(|&&(c, d, _)| a != c && a != d && b != c && b != d).count() as u64;
    }
    let packed: Vec<u64> = hands.iter().map(|&(a, b)| pbit(a) | pbit(b)).collect();
    // per hand and player: total, wins, ties
    let mut acc = vec![[[0u128; 3]; 2]; nh];
    let (mut sq, mut cnt, mut n_boards) = ([0f64; 3], 0u64, 0u64);
    #[derive(Clone)]
    struct Group {
        all: [[u64; 3]; 2],
        with: Vec<[[u64; 3]; 2]>,
    }
    let clear = Group { all: [[0; 3]; 2], with: vec![[[0; 3]; 2]; 52] };
    impl Group {
        fn add(&mut self, (a, b): (u8, u8), w: &[[u64; 3]; 2]) {
            for p in 0..2 {
                for k in 0..3 {
                    self.all[p][k] += w[p][k];
                    self.with[a as usize][p][k] += w[p][k];
                    self.with[b as usize][p][k] += w[p][k];
                }
            }
        }
        /// all hands of player p but those that share a card; `own`: what this hand itself weighs
        /// for p if it is in the group
        fn apart(&self, (a, b): (u8, u8), p: usize, own: &[u64; 3]) -> [u64; 3] {
            std::array::from_fn(|k| self.all[p][k] + own[k] - self.with[a as usize][p][k] - self.with[b as usize][p][k])
        }
    }
    for (board, pb) in boards_of(board, dead, |b, p| (b, p)) {
        n_boards += 1;
        let mut order: Vec<(u32, u16)> = (0..nh)
            .filter(|&h| (1u64 << hands[h].0 | 1u64 << hands[h].1) & board == 0)
            .map(|h| (strength(packed[h] | pb), h as u16))
            .collect();
        order.sort_unstable();
        let mut whole = clear.clone();
        for &(_, h) in &order {
            whole.add(hands[h as usize], &w[h as usize]);
        }
        let mut worse = clear.clone();
        let mut i = 0;
        while i < order.len() {
            let mut j = i;
            let mut same = clear.clone();
            while j < order.len() && order[j].0 == order[i].0 {
                same.add(hands[order[j].1 as usize], &w[order[j].1 as usize]);
                j += 1;
            }
            for &(_, h) in &order[i..j] {
                let h = h as usize;
                for p in 0..2 {
                    let mine = w[h][p];
                    if mine[2] == 0 {
                        continue;
                    }
                    let q = 1 - p;
                    let t = whole.apart(hands[h], q, &w[h][q]);
                    let l = worse.apart(hands[h], q, &[0; 3]);
                    let e = same.apart(hands[h], q, &w[h][q]);
                    for (x, y) in acc[h][p].iter_mut().zip([t[0], l[0], e[0]]) {
                        *x += mine[0] as u128 * y as u128;
                    }
                    sq[p] += mine[1] as f64 * l[1] as f64;
                    if p == 0 {
                        sq[2] += mine[1] as f64 * e[1] as f64;
                        cnt += t[2];
                    }
                }
            }
            for &(_, h) in &order[i..j] {
                worse.add(hands[h as usize], &w[h as usize]);
            }
            i = j;
        }
    }
    let mut t = Truth { total: 0, by_mask: vec![0; 4], hands: vec![BTreeMap::new(); 2], var: vec![], max_rel_weight: 0.0, boards: n_boards };
    for p in 0..2 {
        for &(a, b, _) in &ranges[p] {
            let [total, wins, ties] = acc[hands.binary_search(&(a, b)).unwrap()][p];
            t.hands[p].insert((a, b), HandTruth { total, wins, ties, split: ties as f64 / 2.0, n: total.min(u64::MAX as u128) as u64, w2: 0.0 });
            t.by_mask[1 << p] += wins;
            if p == 0 {
                t.by_mask[3] += ties;
            }
        }
    }
    t.total = t.by_mask.iter().sum();
    let top: f64 = (0..2).map(|p| ranges[p].iter().map(|h| h.2).max().unwrap_or(0) as f64).product();
    spread_of(&mut t, sq, cnt as f64, top);
    (Oracle { n: 2, ranges, hands, deals: vec![], n_deals, board: used & board, dead }, t)
}

/// fills in the variance from sums of squared weights: won by the first, by the second, ties
fn spread_of(t: &mut Truth, sq: [f64; 3], cnt: f64, top: f64) {
    if t.total == 0 {
        return;
    }
    let mean_w = t.total as f64 / cnt;
    t.max_rel_weight = top / mean_w;
    for p in 0..2 {
        let mu = t.equity(p);
        let v = sq[p] * (1.0 - mu) * (1.0 - mu) + sq[1 - p] * mu * mu + sq[2] * (0.5 - mu) * (0.5 - mu);
        t.var.push(v / cnt / (mean_w * mean_w));
    }
}

/// For each two starting combos, in the order of `combo_index_of_hand`: wins of the first and ties over
/// all deals and all boards, written by `preflop_matrix`
const MATRIX: &[u8] = include_bytes!("preflop.bin");

fn matrix(i: usize, j: usize) -> (u128, u128) {
    let at = |k: usize| u64::from_le_bytes(MATRIX[8 * k..8 * k + 8].try_into().unwrap()) as u128;
    (at(2 * (169 * i + j)), at(2 * (169 * i + j) + 1))
}

/// weight of every starting combo if all of its hands have the same one; `None`: not in the range
fn by_combo(r: &RefRange) -> Option<Vec<Option<u8>>> {
    let mut out = vec![None; 169];
    let mut count = vec![0; 169];
    for (&(a, b), &w) in r {
        let i = combo_index_of_hand(hand_index(a, b));
        if out[i].map_or(false, |x| x != w) {
            return None;
        }
        out[i] = Some(w);
        count[i] += 1;
    }
    let size = |i: usize| if i < 13 { 6 } else if i < 91 { 4 } else { 12 };
    (0..169).all(|i| count[i] == 0 || count[i] == size(i)).then_some(out)
}

/// Two players before the flop with ranges of whole starting combos and no dead cards
pub fn preflop(ranges: &[RefRange]) -> Option<(Oracle, Truth)> {
    if ranges.len() != 2 {
        return None;
    }
    let (x, y) = (by_combo(&ranges[0])?, by_combo(&ranges[1])?);
    let hands = all_hands();
    let mut members = vec![vec![]; 169];
    for (i, h) in hands.iter().enumerate() {
        members[combo_index_of_hand(i)].push(*h);
    }
    let boards = binom(48, 5) as u128;
    let mut t = Truth { total: 0, by_mask: vec![0; 4], hands: vec![BTreeMap::new(); 2], var: vec![], max_rel_weight: 0.0, boards: binom(48, 5) };
    let (mut sq, mut n_deals, mut top) = ([0f64; 3], 0u64, 0f64);
    let mut acc = vec![[[0u128; 3]; 2]; 169];
    for i in 0..169 {
        let Some(v) = x[i] else { continue };
        for j in 0..169 {
            let Some(w) = y[j] else { continue };
            let pairs = members[i].iter().map(|a| members[j].iter().filter(|b| a.0 != b.0 && a.0 != b.1 && a.1 != b.0 && a.1 != b.1).count() as u64).sum::<u64>();
            n_deals += pairs;
            let all = pairs as u128 * boards;
            let (win, tie) = matrix(i, j);
            let weight = v as u128 * w as u128;
            let lost = all - win - tie;
            for (k, n) in [all, win, tie].into_iter().enumerate() {
                acc[i][0][k] += weight * n;
            }
            for (k, n) in [all, lost, tie].into_iter().enumerate() {
                acc[j][1][k] += weight * n;
            }
            t.by_mask[1] += weight * win;
            t.by_mask[2] += weight * lost;
            t.by_mask[3] += weight * tie;
            let w2 = weight as f64 * weight as f64;
            sq[0] += w2 * win as f64;
            sq[1] += w2 * lost as f64;
            sq[2] += w2 * tie as f64;
            if pairs > 0 {
                top = top.max(weight as f64);
            }
        }
    }
    t.total = t.by_mask.iter().sum();
    let mut lists = vec![vec![]; 2];
    for p in 0..2 {
        for (&(a, b), &w) in &ranges[p] {
            let i = combo_index_of_hand(hand_index(a, b));
            let k = members[i].len() as u128;
            let [total, wins, ties] = acc[i][p].map(|v| v / k);
            t.hands[p].insert((a, b), HandTruth { total, wins, ties, split: ties as f64 / 2.0, n: total.min(u64::MAX as u128) as u64, w2: 0.0 });
            lists[p].push((a, b, w));
        }
    }
    spread_of(&mut t, sq, n_deals as f64 * boards as f64, top);
    Some((Oracle { n: 2, ranges: lists, hands: vec![], deals: vec![], n_deals, board: 0, dead: 0 }, t))
}

/// the contents of preflop.bin
pub fn preflop_matrix() -> Vec<u8> {
    // boards that differ in the names of suits only count once, with their number
    let mut perms: Vec<[u8; 4]> = vec![];
    for x in 0..256u32 {
        let p: [u8; 4] = std::array::from_fn(|k| (x >> (2 * k) & 3) as u8);
        if (0..4).all(|s| p.contains(&s)) {
            perms.push(p);
        }
    }
    assert_eq!(perms.len(), 24);
    let mut kinds: BTreeMap<u64, u64> = BTreeMap::new();
    for b in boards_of(0, 0, |b, _| b) {
        let cs = cards_of(b);
        let first = perms.iter().map(|p| cs.iter().map(|&c| 1u64 << (c & !3 | p[(c & 3) as usize])).sum::<u64>()).min().unwrap();
        *kinds.entry(first).or_default() += 1;
    }
    let kinds: Vec<(u64, u64)> = kinds.into_iter().collect();
    eprintln!("{} kinds of boards", kinds.len());
    let hands = all_hands();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let sum = std::sync::Mutex::new(vec![0u64; 2 * 169 * 169]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                let mut mine = vec![0u64; 2 * 169 * 169];
                loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let Some(&(board, times)) = kinds.get(k) else { break };
                    let p = pack(board);
                    let list: Vec<(u64, u32, usize)> = hands
                        .iter()
                        .enumerate()
                        .filter(|(_, &(a, b))| (1u64 << a | 1u64 << b) & board == 0)
                        .map(|(i, &(a, b))| (1u64 << a | 1u64 << b, strength(p | pbit(a) | pbit(b)), combo_index_of_hand(i)))
                        .collect();
                    for &(m, x, i) in &list {
                        for &(m2, y, j) in &list {
                            if m & m2 == 0 && x >= y {
                                mine[2 * (169 * i + j) + (x == y) as usize] += times;
                            }
                        }
                    }
                }
                for (a, b) in sum.lock().unwrap().iter_mut().zip(mine) {
                    *a += b;
                }
            });
        }
    });
    sum.into_inner().unwrap().into_iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn binom(n: u64, k: u64) -> u64 {
    let mut r = 1;
    for i in 0..k {
        r = r * (n - i) / (i + 1);
    }
    r
}

/// all completions of a board, as (card mask, packed form)
pub fn boards_of<T>(board: u64, dead: u64, f: impl Fn(u64, u64) -> T) -> Vec<T> {
    let deck: Vec<u8> = (0..52u8).filter(|c| (board | dead) >> c & 1 == 0).collect();
    let need = 5 - board.count_ones() as usize;
    let mut out = vec![];
    fn rec<T>(deck: &[u8], need: usize, m: u64, p: u64, f: &impl Fn(u64, u64) -> T, out: &mut Vec<T>) {
        if need == 0 {
            out.push(f(m, p));
            return;
        }
        for i in 0..deck.len() {
            if deck.len() - i < need {
                break;
            }
            rec(&deck[i + 1..], need - 1, m | 1u64 << deck[i], p | pbit(deck[i]), f, out);
        }
    }
    rec(&deck, need, board, pack(board), &f, &mut out);
    out
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn fast_is_slow() {
        let mut x = 88172645463325252u64;
        let mut rnd = move || {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x
        };
        for _ in 0..300_000 {
            let n = 2 + (rnd() % 6) as usize;
            let mut m = 0u64;
            let lim = if rnd() % 2 == 0 { 52 } else { 24 };
            while m.count_ones() < n as u32 {
                m |= 1 << (rnd() % lim);
            }
            assert_eq!(strength(pack(m)), strength_slow(&cards_of(m)), "{}", cards_str(&cards_of(m)));
        }
    }
    #[test]
    fn duel_is_a_full_count() {
        let same = |x: &(Oracle, Truth), o: &Oracle, what: &str| {
            let (t, s) = (&x.1, o.solve());
            assert_eq!(x.0.n_deals, o.n_deals);
            assert_eq!((t.total, &t.by_mask), (s.total, &s.by_mask), "{what}");
            for p in 0..2 {
                assert!((t.var[p] - s.var[p]).abs() < 1e-9, "{what}: {} {}", t.var[p], s.var[p]);
                assert_eq!(t.hands[p].len(), s.hands[p].len());
                for (h, v) in &s.hands[p] {
                    let u = &t.hands[p][h];
                    assert_eq!((u.total, u.wins, u.ties), (v.total, v.wins, v.ties), "{what}");
                    assert!((u.split - v.split).abs() < 1e-3);
                }
            }
            assert!((t.max_rel_weight - s.max_rel_weight).abs() < 1e-9);
        };
        for (a, b, board, dead) in [
            ("22+,A2s+@40,KQo@7", "random", "AsKdTd7c2h", ""),
            ("22-66@3,AKs,T9o@50", "88+,A9o+,K9s+@20", "Td9d3c2s", "Ah9h"),
            ("AA,KQs@10", "QQ@7,AKo,72o@90", "5h6h7h", "2c3c4cJsTs"),
        ] {
            let r = [ref_range(a), ref_range(b)];
            let (bm, dm) = (mask_of(&parse_cards(board)), mask_of(&parse_cards(dead)));
            same(&duel(&r, bm, dm), &Oracle::new(&r, bm, dm, 2_000_000).unwrap(), board);
        }
        let r = [ref_range("JTs@30"), ref_range("QQ@7,54s")];
        same(&preflop(&r).unwrap(), &Oracle::new(&r, 0, 0, 1000).unwrap(), "before the flop");
    }
    #[test]
    fn indices() {
        let v = all_hands();
        assert_eq!(v.len(), 1326);
    }
}
