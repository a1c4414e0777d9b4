//! Range notation: P04 P05, combined ranges: P17

use crate::engine::*;
use crate::eq::ensure;
use crate::gen::*;
use crate::oracle::*;
use pokers::equity_calculator::CombinedRange;
use pokers::hand_range::Combo;
use pokers::{Hand, HandRange};
use proptest::collection::vec;
use proptest::prelude::*;
use rand::rngs::StdRng;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, HashSet};

/// as a map; complains about anything that is not a well-formed range
fn map_of(hands: &[Combo], text: &str) -> Result<RefRange, String> {
    let mut m = BTreeMap::new();
    for h in hands {
        ensure!(h.0 < 52 && h.1 < 52 && h.0 != h.1, "{text:?} contains the hand {h:?}");
        ensure!(h.2 <= 100, "{text:?} contains the weight {}", h.2);
        ensure!(m.insert((h.0.min(h.1), h.0.max(h.1)), h.2).is_none(), "{text:?} contains {h} twice");
    }
    Ok(m)
}

fn parse(text: &str) -> Result<RefRange, String> {
    map_of(&HandRange::from_string(text.to_string()).hands, text)
}

fn difference(got: &RefRange, want: &RefRange) -> Option<String> {
    for (&(a, b), w) in want {
        match got.get(&(a, b)) {
            None => return Some(format!("{} is missing", hand_name(a, b))),
            Some(x) if x != w => return Some(format!("{} has weight {x}, expected {w}", hand_name(a, b))),
            _ => {}
        }
    }
    got.keys().find(|k| !want.contains_key(k)).map(|&(a, b)| format!("{} should not be there", hand_name(a, b)))
}

// ---------------------------------------------------------------- P04

pub fn check_grammar(c: &RangeCase) -> CheckResult {
    let text = c.text();
    let want = c.expected();
    let got = parse(&text)?;
    if let Some(d) = difference(&got, &want) {
        return Err(format!("{text:?}: {d}"));
    }
    let overlap: usize = c
        .terms
        .iter()
        .map(|t| {
            let mut r = RefRange::new();
            t.0.add(&mut r, 0);
            r.len()
        })
        .sum();
    let spans = c.terms.iter().any(|t| matches!(t.0, Term::PairSpan(..) | Term::ClassSpan(..) | Term::ClassPlus(..) | Term::PairPlus(_)));
    Ok(Info::new(c.terms.len() > 1 || spans)
        .label("overlapping terms", overlap > want.len())
        .label("weighted", c.terms.iter().any(|t| t.1.is_some()))
        .label("spans", spans)
        .label("exact cards", c.terms.iter().any(|t| matches!(t.0, Term::Exact(..)))))
}

/// every single term
fn all_terms() -> Vec<Term> {
    let mut v = vec![];
    for a in 0..13u8 {
        v.push(Term::Pair(a));
        v.push(Term::PairPlus(a));
        for b in 0..13u8 {
            v.push(Term::PairSpan(a, b));
            for s in 0..3 {
                if a != b {
                    v.push(Term::Class(a, b, s));
                }
                if b < a {
                    v.push(Term::ClassPlus(a, b, s));
                }
                for c in 0..13u8 {
                    if (b < a && c < a) || (b > a && c > a) {
                        v.extend((0..4).map(|order| Term::ClassSpan(a, b, c, s, order)));
                    }
                }
            }
        }
    }
    for a in 0..52 {
        for b in 0..52 {
            if a != b {
                v.push(Term::Exact(a, b));
            }
        }
    }
    v
}

pub fn p04(ctx: &Ctx, rep: &mut Report) {
    let mut cases = vec![];
    for t in all_terms() {
        for (w, one, up) in [(None, false, true), (Some(37), true, false)] {
            cases.push(RangeCase { terms: vec![(t.clone(), w, one)], upper: vec![up], zeros: 0 });
        }
    }
    for w in 0..=100 {
        cases.push(RangeCase { terms: vec![(Term::Pair(12), Some(w), false), (Term::ClassPlus(12, 3, 1), Some(100 - w), false)], upper: vec![true], zeros: w % 3 });
    }
    each(ctx, rep, "grammar", "every single term of the notation (with and without a weight), every weight", cases, check_grammar);
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "grammar",
            cases: ctx.n(80_000, 2_000_000),
            workers: ctx.workers,
            shrink_iters: 5000,
            rule: "1-8 terms of all kinds, up to 90 in some, a quarter close together so that they overlap, with weights or none, in mixed letter \
                   case, against the set of hands they stand for; non-trivial: more than one term, or a span",
        },
        || {
            // terms about few ranks overlap often
            let close = (vec((term(), weight(), prop::bool::weighted(0.2)), 2..=6), 0u8..10, vec(any::<bool>(), 1..12)).prop_map(
                |(terms, base, upper)| RangeCase {
                    terms: terms.into_iter().map(|(t, w, o)| (narrow(t, base), w, o)).collect(),
                    upper,
                    zeros: 0,
                },
            );
            prop_oneof![18 => range_case(8), 6 => close, 1 => range_case(90)]
        },
        check_grammar,
    );
    each(ctx, rep, "random", "the text 'random': all 1326 hands at weight 100", vec![()], |_| check_random());
}

fn narrow(t: Term, base: u8) -> Term {
    let f = |r: u8| base + r % 3;
    let ne = |a: u8, b: u8| {
        let (a, b) = (f(a), f(b));
        (a, if a == b { base + (b - base + 1) % 3 } else { b })
    };
    match t {
        Term::Pair(a) => Term::Pair(f(a)),
        Term::PairSpan(a, b) => Term::PairSpan(f(a), f(b)),
        Term::Class(a, b, s) => {
            let (a, b) = ne(a, b);
            Term::Class(a, b, s)
        }
        Term::Exact(a, b) => {
            let (ra, rb) = (f(a >> 2), f(b >> 2));
            let (x, y) = (4 * ra + (a & 3), 4 * rb + (b & 3));
            if x == y {
                Term::Exact(x, 4 * ra + ((a & 3) + 1) % 4)
            } else {
                Term::Exact(x, y)
            }
        }
        t => t,
    }
}

pub fn check_random() -> CheckResult {
    let got = parse("random")?;
    let mut want = RefRange::new();
    for (a, b) in all_hands() {
        want.insert((a, b), 100);
    }
    match difference(&got, &want) {
        Some(d) => Err(format!("\"random\": {d}")),
        None => Ok(Info::new(true)),
    }
}

// ---------------------------------------------------------------- P05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyText {
    pub text: String,
}

/// any text is read without a crash into a well-formed range
pub fn check_any_text(t: &AnyText) -> CheckResult {
    let s = &t.text;
    let got = parse(s)?;
    if s.is_ascii() && !s.eq_ignore_ascii_case("random") {
        for (how, other) in [("upper", s.to_ascii_uppercase()), ("lower", s.to_ascii_lowercase())] {
            if let Some(d) = difference(&parse(&other)?, &got) {
                return Err(format!("{s:?} in {how} case: {d}"));
            }
        }
    }
    // the same through from_strings, among others
    let many = HandRange::from_strings(vec!["AA".into(), s.clone(), "72o".into()]);
    ensure!(many.len() == 3, "from_strings gives {} ranges for three texts", many.len());
    if let Some(d) = difference(&map_of(&many[1].hands, s)?, &got) {
        return Err(format!("{s:?} by from_strings: {d}"));
    }
    // the range as a list of hands reads back
    let list: Vec<String> = got.iter().map(|(&(a, b), w)| format!("{}@{w}", hand_name(a, b))).collect();
    if let Some(d) = difference(&parse(&list.join(","))?, &got) {
        return Err(format!("{s:?} written as a list of hands: {d}"));
    }
    // .. also by its own names for the hands
    let own: Vec<String> = HandRange::from_string(s.clone()).hands.iter().map(|h| format!("{h}@{}", h.2)).collect();
    if let Some(d) = difference(&parse(&own.join(","))?, &got) {
        return Err(format!("{s:?} written as a list of its hands: {d}"));
    }
    Ok(Info::new(!got.is_empty()).label("empty range", got.is_empty()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongText {
    pub head: String,
    pub unit: String,
    pub times: usize,
    pub tail: String,
}

impl LongText {
    pub fn text(&self, times: usize) -> String {
        format!("{}{}{}", self.head, self.unit.repeat(times), self.tail)
    }
}

/// a part repeated a million times means what it means twice
pub fn check_long_text(t: &LongText) -> CheckResult {
    let want = parse(&t.text(2))?;
    let got = map_of(&HandRange::from_string(t.text(t.times)).hands, "long text")?;
    if let Some(d) = difference(&got, &want) {
        return Err(format!("{:?} {} times between {:?} and {:?}: {d}", t.unit, t.times, t.head, t.tail));
    }
    Ok(Info::new(!got.is_empty()))
}

fn long_texts(times: usize) -> Vec<LongText> {
    let t = |head: &str, unit: &str, tail: &str| LongText { head: head.into(), unit: unit.into(), times, tail: tail.into() };
    vec![
        t("", "AsKs,", ""),
        t("", "AsKs,", "QQ@5"),
        t("", "22@7,", "22@9,AKs"),
        t("QQ,", "76s@50,", "x"),
        t("", "KK-QQ,", "JJ"),
        t("AA@", "0", "7,KK"),
        t("AA@9", "0", ",KK"),
        t("AA,", "é", ""),
        t("AA,", " ", "KK"),
        t("AA", ",", "KK"),
        t("KK,", "A", ""),
        t("KK,", "AKs-", ""),
        t("KK,", "K+", ""),
        t("KK,AA", "@", "5"),
        t("", "2", ""),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tail {
    pub head: RangeCase,
    /// a character that cannot continue a term
    pub sep: char,
    pub tail: String,
}

/// what follows cannot spoil the terms before it
pub fn check_tail(t: &Tail) -> CheckResult {
    let head = t.head.text();
    let want = parse(&head)?;
    let cut = format!("{head}{}{}", t.sep, t.tail);
    if let Some(d) = difference(&parse(&cut)?, &want) {
        return Err(format!("{cut:?} is not read like {head:?}: {d}"));
    }
    let more = format!("{head},{}", t.tail);
    let got = parse(&more)?;
    for (&(a, b), w) in &want {
        ensure!(
            got.get(&(a, b)) == Some(w),
            "{more:?}: {} of {head:?} is {:?}, expected weight {w}",
            hand_name(a, b),
            got.get(&(a, b))
        );
    }
    Ok(Info::new(!want.is_empty() && !t.tail.is_empty()).label("tail adds hands", got.len() > want.len()))
}

/// terms whose parts contradict each other add no hands
pub fn check_contradiction(term: &String) -> CheckResult {
    for (text, want) in [(term.clone(), ""), (format!("72s@13,{term}"), "72s@13"), (format!("72s,{}@50", term.to_lowercase()), "72s")] {
        if let Some(d) = difference(&parse(&text)?, &if want.is_empty() { RefRange::new() } else { parse(want)? }) {
            return Err(format!("{text:?}: {d}"));
        }
    }
    Ok(Info::new(true))
}

fn contradictions() -> Vec<String> {
    let mut v = vec![];
    let suffix = ["", "s", "o"];
    for r in 0..13u32.pow(4) {
        let [a, b, c, d] = [r % 13, r / 13 % 13, r / 169 % 13, r / 2197].map(|x| x as u8);
        let common = a == c || a == d || b == c || b == d;
        let ends = (a == b) != (c == d) || (a != b && !common);
        for s1 in 0..3 {
            for s2 in 0..3 {
                if (ends && (s1 == s2 || s2 == 0)) || (a != b && s1 != s2 && s2 != 0) {
                    v.push(format!("{}{}{}-{}{}{}", rank_ch(a), rank_ch(b), suffix[s1], rank_ch(c), rank_ch(d), suffix[s2]));
                }
            }
        }
    }
    v.extend((0..52).map(|c| card_str(c) + &card_str(c)));
    v
}

fn garbage() -> impl Strategy<Value = String> {
    let ch = || {
        prop_oneof![
            10 => prop::sample::select("23456789TJQKAtjqka".chars().collect::<Vec<_>>()),
            5 => prop::sample::select("shcdSHCDoO".chars().collect::<Vec<_>>()),
            6 => prop::sample::select("+-@,,".chars().collect::<Vec<_>>()),
            3 => prop::sample::select("0123456789".chars().collect::<Vec<_>>()),
            1 => prop::sample::select(" \t\n\u{0}xZ#.;:/é♠\u{212a}\u{130}\u{1d7d8}\u{ff11}\u{0661}".chars().collect::<Vec<_>>()),
            1 => any::<char>(),
        ]
    };
    vec(ch(), 0..24).prop_map(|v| v.into_iter().collect())
}

fn mutated() -> impl Strategy<Value = String> {
    (range_case(4), vec((0u8..4, any::<u16>(), garbage()), 1..4)).prop_map(|(c, muts)| {
        let mut s: Vec<char> = c.text().chars().collect();
        for (op, at, g) in muts {
            let i = at as usize % (s.len() + 1);
            let mut g = g.chars();
            match op {
                0 => {
                    if i < s.len() {
                        s.remove(i);
                    }
                }
                1 => s.insert(i, g.next().unwrap_or('A')),
                2 => {
                    if i < s.len() {
                        s[i] = g.next().unwrap_or('-');
                    }
                }
                _ => s.truncate(i),
            }
        }
        s.into_iter().collect()
    })
}

pub fn p05(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "anytext",
            cases: ctx.n(120_000, 3_000_000),
            workers: ctx.workers,
            shrink_iters: 5000,
            rule: "characters of the notation in any order, damaged range text, long weights, arbitrary Unicode; non-trivial: at \
                   least one hand is read",
        },
        || {
            prop_oneof![
                3 => garbage(),
                4 => mutated(),
                1 => range_case(3).prop_map(|c| c.text()),
                1 => (range_case(2), 0u64..=u64::MAX, 0usize..20)
                    .prop_map(|(c, w, z)| format!("{}@{}{},KK", c.text(), "0".repeat(z), w)),
                1 => (range_case(2), 0u32..300).prop_map(|(c, w)| format!("{}@{w}", c.text())),
                1 => prop_oneof![Just("random"), Just("Random"), Just("RANDOM"), Just("random,AA"), Just("AA,random"), Just("")]
                    .prop_map(|s| s.to_string()),
            ]
            .prop_map(|text| AnyText { text })
        },
        check_any_text,
    );
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "anytext",
            cases: ctx.n(60, 4000),
            workers: ctx.workers,
            shrink_iters: 2000,
            rule: "up to 3000 well-formed terms, some of them with damaged text at the end",
        },
        || {
            (vec(range_case(12).prop_map(|c| c.text()), 2..12), 1usize..25, prop_oneof![1 => Just(String::new()), 1 => mutated(), 1 => garbage()])
                .prop_map(|(parts, times, tail)| AnyText { text: format!("{}{tail}", (parts.join(",") + ",").repeat(times)) })
        },
        check_any_text,
    );
    each(
        ctx,
        rep,
        "long",
        "a part of a range text or of garbage in it repeated two million times: no crash, and the hands that it gives twice",
        long_texts(2_000_000),
        check_long_text,
    );
    each(
        ctx,
        rep,
        "contradiction",
        "every span of a pair and a non-pair, of hands without a common rank and of different suffixes, and every card twice: no hands",
        contradictions(),
        check_contradiction,
    );
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "tail",
            cases: ctx.n(60_000, 1_500_000),
            workers: ctx.workers,
            shrink_iters: 5000,
            rule: "well-formed terms followed by a character that cannot continue them (the rest is not read) or by a comma (what \
                   was read stays) and by anything; non-trivial: hands are read and something follows",
        },
        || {
            (range_case(3), prop::sample::select(" ;!?#/|_.x\n".chars().collect::<Vec<_>>()), prop_oneof![garbage(), mutated()])
                .prop_map(|(head, sep, tail)| Tail { head, sep, tail })
        },
        check_tail,
    );
}

// ---------------------------------------------------------------- P17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ranges {
    pub ranges: Vec<String>,
}

pub fn check_combined(c: &Ranges) -> CheckResult {
    let ranges = HandRange::from_strings(c.ranges.clone());
    let mut groups = CombinedRange::from_ranges(&ranges);
    let mut seen = vec![false; ranges.len()];
    let mut combos = 0;
    for (gi, g) in groups.iter().enumerate() {
        let k = g.player_count();
        ensure!(k >= 1 && k <= g.players().len(), "group {gi} has {k} players");
        let players = &g.players()[..k];
        for &p in players {
            ensure!(p < ranges.len(), "group {gi} has a player {p} of {}", ranges.len());
            ensure!(!seen[p], "player {p} is in two groups, or twice in one");
            seen[p] = true;
        }
        ensure!(g.size() == g.combos().len(), "group {gi} has size {} but {} combos", g.size(), g.combos().len());
        combos += g.size();
        let weight: Vec<std::collections::HashMap<(u8, u8), u8>> =
            players.iter().map(|&p| ranges[p].hands.iter().map(|h| ((h.0.min(h.1), h.0.max(h.1)), h.2)).collect()).collect();
        let mut tuples: HashSet<Vec<(u8, u8)>> = HashSet::new();
        for combo in g.combos() {
            let mut mask = 0u64;
            let mut tuple = vec![];
            for i in 0..k {
                let (a, b, w) = combo.hole_cards[i];
                let h = (a.min(b), a.max(b));
                ensure!(a < 52 && b < 52, "group {gi}: hole cards {:?}", combo.hole_cards[i]);
                let m = 1u64 << a | 1u64 << b;
                ensure!(mask & m == 0 && m.count_ones() == 2, "group {gi} deals a card twice: {:?}", &combo.hole_cards[..k]);
                mask |= m;
                ensure!(
                    weight[i].get(&h) == Some(&w),
                    "group {gi} deals {} with weight {w} to player {}, whose range says {:?}",
                    hand_name(a, b),
                    players[i],
                    weight[i].get(&h)
                );
                ensure!(combo.hands[i] == Hand::from_hole_cards(a, b), "group {gi}: the hand of {} is something else", hand_name(a, b));
                tuple.push(h);
            }
            ensure!(combo.mask == mask, "group {gi}: mask {:#x} for {:?}", combo.mask, &combo.hole_cards[..k]);
            ensure!(tuples.insert(tuple), "group {gi} deals {:?} twice", &combo.hole_cards[..k]);
        }
        // all of them: the count stops when it is above the one that is claimed
        let mut n = 0u64;
        fn count(mask: u64, rest: &[usize], r: &[HandRange], most: u64, n: &mut u64) {
            match rest.split_first() {
                None => *n += 1,
                Some((&p, rest)) => {
                    for h in &r[p].hands {
                        let m = 1u64 << h.0 | 1u64 << h.1;
                        if m & mask == 0 && *n <= most {
                            count(mask | m, rest, r, most, n);
                        }
                    }
                }
            }
        }
        let mut small_first = players.to_vec();
        small_first.sort_by_key(|&p| ranges[p].hands.len());
        count(0, &small_first, &ranges, g.size() as u64, &mut n);
        ensure!(n == g.size() as u64, "group {gi} of players {players:?} has {} combos, expected {}{n}", g.size(), if n > g.size() as u64 { "at least " } else { "" });
    }
    if let Some(p) = seen.iter().position(|s| !s) {
        return Err(format!("player {p} is in no group"));
    }
    // in another order they are the same deals
    for (gi, g) in groups.iter_mut().enumerate() {
        let k = g.player_count();
        let all = |g: &CombinedRange| {
            let mut v: Vec<_> = g.combos().iter().map(|c| (c.mask, c.hole_cards[..k].to_vec(), c.hands[..k].iter().map(|h| h.get_mask()).collect::<Vec<_>>())).collect();
            v.sort();
            v
        };
        let before = all(g);
        g.shuffle(&mut StdRng::seed_from_u64(before.len() as u64));
        ensure!(g.player_count() == k && g.size() == before.len() && all(g) == before, "group {gi} has other deals after shuffling it");
    }
    Ok(Info::new(groups.iter().any(|g| g.player_count() > 1) && combos > 0)
        .label("several groups", groups.len() > 1)
        .label("5 players or more", c.ranges.len() >= 5)
        .label("group of 3 or more", groups.iter().any(|g| g.player_count() > 2)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shuffled {
    pub ranges: Vec<String>,
    pub seed: u64,
    pub times: u32,
}

/// every deal is as likely as any other to be in any place
pub fn check_shuffle(c: &Shuffled) -> CheckResult {
    let ranges = HandRange::from_strings(c.ranges.clone());
    let groups = CombinedRange::from_ranges(&ranges);
    let mut rng = StdRng::seed_from_u64(c.seed);
    let deal = |g: &CombinedRange, cards: &[(u8, u8, u8)]| cards[..g.player_count()].to_vec();
    let start: Vec<Vec<_>> = groups.iter().map(|g| g.combos().iter().map(|x| deal(g, &x.hole_cards)).collect()).collect();
    let mut seen: Vec<Vec<Vec<u32>>> = start.iter().map(|s| if s.len() > 30 { vec![] } else { vec![vec![0; s.len()]; s.len()] }).collect();
    for _ in 0..c.times {
        for (gi, mut g) in CombinedRange::from_ranges(&ranges).into_iter().enumerate() {
            if seen[gi].len() < 2 {
                continue;
            }
            g.shuffle(&mut rng);
            for (i, x) in g.combos().iter().enumerate() {
                let d = deal(&g, &x.hole_cards);
                let j = start[gi].iter().position(|s| *s == d).ok_or("a deal is new after shuffling")?;
                seen[gi][i][j] += 1;
            }
        }
    }
    let mut moved = false;
    for (gi, seen) in seen.iter().enumerate() {
        moved |= seen.len() > 1;
        let p = 1.0 / seen.len() as f64;
        let (mean, dev) = (c.times as f64 * p, (c.times as f64 * p * (1.0 - p)).sqrt());
        for (i, row) in seen.iter().enumerate().filter(|_| p < 1.0) {
            for (j, &x) in row.iter().enumerate() {
                ensure!(
                    (x as f64 - mean).abs() <= 8.0 * dev + 1.0,
                    "group {gi}: in {} shuffles {:?} came to place {i} {x} times, expected {mean:.0}",
                    c.times,
                    start[gi][j]
                );
            }
        }
    }
    Ok(Info::new(moved))
}

pub fn p17(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "combine",
            cases: ctx.n(2_500, 60_000),
            workers: ctx.workers,
            shrink_iters: 1000,
            rule: "1-9 ranges of 1-4 terms, narrow and wide, weighted; the combined ranges are compared with the set of all \
                   deals of disjoint hole cards; non-trivial: at least two players were combined",
        },
        || {
            let narrow_range = vec((term().prop_filter("narrow", |t| !matches!(t, Term::PairPlus(_))), weight(), Just(false)), 1..3)
                .prop_map(|terms| RangeCase { terms, upper: vec![true], zeros: 0 }.text_mixed());
            let exact = vec((pair().prop_map(|(a, b)| Term::Exact(a, b)), weight(), Just(false)), 0..6)
                .prop_map(|terms| RangeCase { terms, upper: vec![true], zeros: 0 }.text_mixed());
            let low = vec(((0u8..12, 0u8..11).prop_map(|(a, d)| Term::Exact(a, (a + 1 + d) % 12)), weight(), Just(false)), 1..7)
                .prop_map(|terms| RangeCase { terms, upper: vec![true], zeros: 0 }.text_mixed());
            let wide = range_case(4).prop_map(|c| c.text_mixed());
            let one = prop_oneof![4 => narrow_range, 3 => exact, 4 => low, 2 => wide, 1 => Just("random".to_string())];
            vec(one, 1..=9).prop_map(|ranges| Ranges { ranges })
        },
        check_combined,
    );
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "shuffle",
            cases: ctx.n(60, 2_000),
            workers: ctx.workers,
            shrink_iters: 100,
            rule: "1-3 ranges of up to 6 hands, shuffled 2000 times: every deal of a group comes to every place equally often, up to 8 \
                   standard deviations; non-trivial: a group of 2 to 30 deals",
        },
        || {
            let hands = vec(((0u8..12, 0u8..11).prop_map(|(a, d)| Term::Exact(a, (a + 1 + d) % 12)), weight(), Just(false)), 1..7)
                .prop_map(|terms| RangeCase { terms, upper: vec![true], zeros: 0 }.text_mixed());
            (vec(hands, 1..=3), any::<u64>()).prop_map(|(ranges, seed)| Shuffled { ranges, seed, times: 2000 })
        },
        check_shuffle,
    );
}

pub fn replay(kind: &str, v: &Value) -> Option<CheckResult> {
    Some(match kind {
        "grammar" => check_grammar(&from_case(v)),
        "random" => check_random(),
        "anytext" => check_any_text(&from_case(v)),
        "tail" => check_tail(&from_case(v)),
        "long" => check_long_text(&from_case(v)),
        "contradiction" => check_contradiction(&from_case(v)),
        "shuffle" => check_shuffle(&from_case(v)),
        "combine" => check_combined(&from_case(v)),
        _ => return None,
    })
}
