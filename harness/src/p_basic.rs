//! Evaluator, hands, indices, text codecs, fast division: P01 P02 P03 P06 P14 P15 P16

use crate::engine::*;
use crate::eq::ensure;
use crate::gen::*;
use crate::oracle::*;
use pokers::hand_range::*;
use pokers::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::Mutex;

pub fn hand_of(cards: &[u8]) -> Hand {
    let mut h = Hand::default();
    for &c in cards {
        h += CARDS[c as usize];
    }
    h
}

// ---------------------------------------------------------------- P01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TwoHands {
    pub a: String,
    pub b: String,
}

/// the order of two hands and their categories
pub fn check_two(t: &TwoHands) -> CheckResult {
    let mut x = vec![];
    for s in [&t.a, &t.b] {
        let cards = parse_cards(s);
        let k = strength_slow(&cards);
        let score = hand_of(&cards).evaluate();
        ensure!(
            (score >> 12) as u32 == k >> 20,
            "{s}: score {score} is of category {}, expected {}",
            score >> 12,
            k >> 20
        );
        x.push((score, k));
    }
    ensure!(
        x[0].0.cmp(&x[1].0) == x[0].1.cmp(&x[1].1),
        "{} scores {}, {} scores {}; their true order is {:?}",
        t.a,
        x[0].0,
        t.b,
        x[1].0,
        x[0].1.cmp(&x[1].1)
    );
    Ok(Info::new(true))
}

/// Every set of n cards, split by its highest card over the workers
fn all_sets(n: usize, workers: usize, f: impl Fn(&[u8], Hand, u64) + Sync) {
    // prefixes of up to two highest cards as work items
    let mut items: Vec<Vec<u8>> = vec![];
    for a in (0..52u8).rev() {
        if n >= 5 {
            for b in (0..a).rev() {
                items.push(vec![a, b]);
            }
        } else {
            items.push(vec![a]);
        }
    }
    let next = AtomicU64::new(0);
    fn rec(cards: &mut Vec<u8>, h: Hand, p: u64, need: usize, f: &(impl Fn(&[u8], Hand, u64) + Sync)) {
        if need == 0 {
            f(cards, h, p);
            return;
        }
        let top = *cards.last().unwrap();
        for c in (need as u8 - 1..top).rev() {
            cards.push(c);
            rec(cards, h + CARDS[c as usize], p | pbit(c), need - 1, f);
            cards.pop();
        }
    }
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed) as usize;
                let Some(it) = items.get(i) else { break };
                if it.len() > n || stopping() {
                    continue;
                }
                let mut cards = it.clone();
                let p = cards.iter().fold(0, |m, &c| m | pbit(c));
                rec(&mut cards, hand_of(it), p, n - it.len(), &f);
            });
        }
    });
}

pub fn p01(ctx: &Ctx, rep: &mut Report) {
    rep.rule.push(
        "[enumerate] every set of 2, 3, 4, 5, 6 and 7 of the 52 cards is built card by card and scored; the score must \
         determine, and be determined by, the reference strength, in the same order, with the reference category in its top \
         bits. All sets are distinct; non-trivial: 5 cards or more."
            .into(),
    );
    let bad: Mutex<Option<(TwoHands, String)>> = Mutex::new(None);
    let report = |a: &[u8], b: &[u8]| {
        let t = TwoHands { a: cards_str(a), b: cards_str(b) };
        let msg = match guard(|| check_two(&t)) {
            Ok(Ok(_)) => return,
            Ok(Err(m)) => m,
            Err(m) => m,
        };
        let mut g = bad.lock().unwrap();
        let len = t.a.len() + t.b.len();
        if g.as_ref().map_or(true, |(o, _)| len < o.a.len() + o.b.len()) {
            *g = Some((t, msg));
        }
        stop();
    };
    let mut journal = Journal::open(ctx, 63);
    journal.note(&json!({"kind": "two", "case": {"a": "", "b": ""}}).to_string());
    // the enumeration has no time limit of a single case
    set_current("null");
    let mut cats = [0u64; 10];
    // hands of fewer than five cards: compared among each other per count
    for n in [2usize, 3, 4, 5, 6, 7] {
        if stopping() {
            break;
        }
        // strength by score, and a set of cards for every score and strength
        static KEY: [AtomicU32; 65536] = [const { AtomicU32::new(0) }; 65536];
        static WIT: [AtomicU64; 65536] = [const { AtomicU64::new(0) }; 65536];
        if n <= 5 {
            for x in KEY.iter() {
                x.store(0, Ordering::Relaxed);
            }
        }
        let count = AtomicU64::new(0);
        let per_cat: Vec<AtomicU64> = (0..10).map(|_| AtomicU64::new(0)).collect();
        let by_key: Mutex<std::collections::HashMap<u32, Vec<u8>>> = Mutex::new(Default::default());
        let workers = if n <= 5 { 1 } else { ctx.workers };
        struct Local {
            n: u64,
            cats: [u64; 10],
        }
        thread_local!(static L: std::cell::RefCell<Local> = const { std::cell::RefCell::new(Local { n: 0, cats: [0; 10] }) });
        let flush = || {
            L.with(|l| {
                let mut l = l.borrow_mut();
                count.fetch_add(l.n, Ordering::Relaxed);
                for i in 0..10 {
                    per_cat[i].fetch_add(l.cats[i], Ordering::Relaxed);
                }
                *l = Local { n: 0, cats: [0; 10] };
            })
        };
        let r = guard(|| {
            all_sets(n, workers, |cards, h, p| {
                let score = h.evaluate();
                let k = strength(p);
                L.with(|l| {
                    let mut l = l.borrow_mut();
                    l.n += 1;
                    l.cats[(k >> 20) as usize] += 1;
                });
                if n <= 5 || cards.last() == Some(&0) {
                    // cheap enough, and called often enough to empty the counters
                    if cards.last().map_or(true, |&c| c < 2) {
                        flush();
                    }
                }
                let known = KEY[score as usize].load(Ordering::Relaxed);
                if known == k {
                    return;
                }
                if (score >> 12) as u32 != k >> 20 {
                    report(cards, cards);
                }
                if known != 0 {
                    report(cards, &cards_of(WIT[score as usize].load(Ordering::Relaxed)));
                    return;
                }
                if n <= 5 {
                    if let Some(w) = by_key.lock().unwrap().insert(k, cards.to_vec()) {
                        report(cards, &w);
                    }
                    WIT[score as usize].store(mask_of(cards), Ordering::Relaxed);
                    KEY[score as usize].store(k, Ordering::Relaxed);
                } else {
                    // a score that no five cards have: compare with five cards of equal strength
                    for s in 0..65536 {
                        if KEY[s].load(Ordering::Relaxed) == k {
                            report(cards, &cards_of(WIT[s].load(Ordering::Relaxed)));
                        }
                    }
                }
            });
        });
        flush();
        if let Err(m) = r {
            rep.failure = Some(Failure { case: json!({"kind": "two", "case": {"a": "", "b": ""}}), msg: m });
            return;
        }
        if n <= 5 {
            // scores in the order of strengths
            let mut last: Option<usize> = None;
            for s in 0..65536usize {
                let k = KEY[s].load(Ordering::Relaxed);
                if k == 0 {
                    continue;
                }
                if let Some(l) = last {
                    if KEY[l].load(Ordering::Relaxed) >= k {
                        report(&cards_of(WIT[l].load(Ordering::Relaxed)), &cards_of(WIT[s].load(Ordering::Relaxed)));
                    }
                }
                last = Some(s);
            }
        }
        let c = count.load(Ordering::Relaxed);
        rep.cases += c;
        rep.evaluations += c;
        if n >= 5 {
            rep.distinct_nontrivial += c;
        }
        if !stopping() && c != binom(52, n as u64) {
            panic!("{c} sets of {n} cards");
        }
        rep.labels.insert(format!("sets of {n} cards"), c);
        for i in 1..10 {
            cats[i] += per_cat[i].load(Ordering::Relaxed);
        }
    }
    for (i, name) in
        ["", "high card", "pair", "two pair", "trips", "straight", "flush", "full house", "quads", "straight flush"].iter().enumerate()
    {
        if i > 0 {
            rep.labels.insert(format!("category {i}: {name}"), cats[i]);
        }
    }
    if let Some((t, msg)) = bad.into_inner().unwrap() {
        // fewer cards, if the failure survives
        let t = shrink_two(t);
        let msg = guard(|| check_two(&t)).unwrap_or_else(Err).err().unwrap_or(msg);
        rep.failure = Some(Failure { case: json!({"kind": "two", "case": t}), msg });
    }
    rep.exhaustive = true;
    for (a, b) in [("AsKsQsJsTs9h8h", "AhKhQhJhTh"), ("5s4s3s2sAsKh", "6s5s4s3s2s"), ("AsAhKsKhQsQhJs", "AsAhKsKhQc")] {
        let (x, y) = (parse_cards(a), parse_cards(b));
        rep.samples.push(json!({
            "kind": "two", "case": {"a": a, "b": b},
            "scores": [hand_of(&x).evaluate(), hand_of(&y).evaluate()]
        }));
    }
}

fn shrink_two(mut t: TwoHands) -> TwoHands {
    loop {
        let mut better = None;
        for side in 0..2 {
            let cards = parse_cards(if side == 0 { &t.a } else { &t.b });
            if cards.len() <= 5 {
                continue;
            }
            for i in 0..cards.len() {
                let mut c = cards.clone();
                c.remove(i);
                let s = cards_str(&c);
                let u = if side == 0 { TwoHands { a: s, b: t.b.clone() } } else { TwoHands { a: t.a.clone(), b: s } };
                if !matches!(guard(|| check_two(&u)), Ok(Ok(_))) {
                    better = Some(u);
                }
            }
        }
        match better {
            Some(u) => t = u,
            None => return t,
        }
    }
}

// ---------------------------------------------------------------- P02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Build {
    /// distinct cards
    pub cards: Vec<u8>,
    /// how the hand is put together: order, and sizes of groups
    pub order: Vec<u8>,
    pub groups: Vec<u8>,
}

fn build_case() -> impl Strategy<Value = Build> {
    (deck(), 0usize..=7, prop_oneof![2 => Just(4u8), 1 => 0u8..4], vec(any::<u8>(), 7), vec(0u8..4, 7)).prop_map(
        |(mut d, n, suit, order, groups)| {
            if suit < 4 {
                // many cards of one suit
                let mut k = 0;
                d.sort_by_cached_key(|c| {
                    k += 1;
                    (c & 3 != suit) as u32 * 6 + k % 9
                });
            }
            Build { cards: d[..n].to_vec(), order, groups }
        },
    )
}

pub fn check_build(b: &Build) -> CheckResult {
    let n = b.cards.len();
    let h = hand_of(&b.cards);
    let mask = mask_of(&b.cards);
    // another order
    let mut perm: Vec<usize> = (0..n).collect();
    perm.sort_by_key(|&i| (b.order[i % b.order.len()], i));
    let cs: Vec<u8> = perm.iter().map(|&i| b.cards[i]).collect();
    let mut others = vec![("card by card in another order", hand_of(&cs)), ("from a mask", Hand::from_bit_mask(mask))];
    // groups of one or two cards (hole cards) or masks
    let mut g = Hand::default();
    let mut i = 0;
    let mut k = 0;
    while i < n {
        match b.groups[k % b.groups.len()] {
            0 if i + 1 < n => {
                g = g + Hand::from_hole_cards(cs[i], cs[i + 1]);
                i += 2;
            }
            1 if i + 1 < n => {
                g = Hand::from_hole_cards(cs[i + 1], cs[i]) + g;
                i += 2;
            }
            2 => {
                g = CARDS[cs[i] as usize] + g;
                i += 1;
            }
            _ => {
                g += CARDS[cs[i] as usize];
                i += 1;
            }
        }
        k += 1;
    }
    others.push(("in groups", g));
    if n >= 2 {
        let rest = mask_of(&cs[2..]);
        others.push(("board and hole cards", Hand::from_bit_mask(rest) + Hand::from_hole_cards(cs[0], cs[1])));
        others.push(("hole cards and board", Hand::from_hole_cards(cs[1], cs[0]) + Hand::from_bit_mask(rest)));
    }
    for (how, o) in &others {
        ensure!(h == *o, "{} built {how} is a different hand", cards_str(&cs));
        if n >= 2 {
            ensure!(
                h.evaluate() == o.evaluate(),
                "{} built {how} scores {} instead of {}",
                cards_str(&cs),
                o.evaluate(),
                h.evaluate()
            );
        }
    }
    // hands of other cards are different: without one, with another one, with the suits of two cards exchanged
    for i in 0..n {
        let less = mask & !(1u64 << b.cards[i]);
        let mut near = vec![less];
        near.extend((0..52u8).map(|c| less | 1u64 << c));
        for &c in &b.cards[..i] {
            let d = b.cards[i];
            near.push(mask & !(1u64 << c | 1u64 << d) | 1u64 << (c & !3 | d & 3) | 1u64 << (d & !3 | c & 3));
        }
        for m in near.into_iter().filter(|&m| m != mask) {
            ensure!(h != Hand::from_bit_mask(m), "{} and {} are the same hand", cards_str(&b.cards), cards_str(&cards_of(m)));
        }
    }
    // observers
    ensure!(h.count() == n as u32, "count {} for {n} cards", h.count());
    for c in 0..52u8 {
        ensure!(h.contains(c) == (mask >> c & 1 == 1), "contains({}) is {}", card_str(c), h.contains(c));
    }
    let mut ranks = 0u16;
    let mut flush = None;
    for s in 0..4u8 {
        let m = b.cards.iter().filter(|&&c| c & 3 == s).fold(0u16, |m, c| m | 1 << (c >> 2));
        ranks |= m;
        ensure!(h.suit_count(s) == m.count_ones() as i32, "suit_count({s}) is {}", h.suit_count(s));
        ensure!(h.get_suit_mask(s) == m, "get_suit_mask({s}) is {:#b}", h.get_suit_mask(s));
        if m.count_ones() >= 5 {
            flush = Some(m);
        }
    }
    ensure!(h.get_rank_mask() == ranks, "get_rank_mask is {:#b}", h.get_rank_mask());
    ensure!(h.has_flush() == flush.is_some(), "has_flush is {}", h.has_flush());
    ensure!(
        h.get_flush_key() == flush.unwrap_or(0) as usize,
        "get_flush_key is {:#b}, expected {:#b}",
        h.get_flush_key(),
        flush.unwrap_or(0)
    );
    if flush.is_none() && n >= 2 {
        ensure!(
            h.evaluate_without_flush() == h.evaluate(),
            "evaluate_without_flush {} instead of {}",
            h.evaluate_without_flush(),
            h.evaluate()
        );
    }
    Ok(Info::new(n >= 2 && (perm.windows(2).any(|w| w[0] > w[1])))
        .label("flush", flush.is_some())
        .label("5-7 cards", n >= 5))
}

pub fn p02(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "build",
            cases: ctx.n(400_000, 8_000_000),
            workers: ctx.workers,
            shrink_iters: 2000,
            rule: "0-7 distinct cards, half of the cases rich in one suit, put together in two orders, from a mask and in \
                   groups of hole cards; non-trivial: at least two cards in another order",
        },
        build_case,
        check_build,
    );
    // single cards and pairs, all of them
    let all: Vec<Build> = (0..52u8)
        .flat_map(|a| (0..52u8).filter(move |&b| a != b).map(move |b| Build { cards: vec![a, b], order: vec![1, 0], groups: vec![0] }))
        .chain((0..52).map(|a| Build { cards: vec![a], order: vec![0], groups: vec![2] }))
        .collect();
    each(ctx, rep, "build", "every single card and every ordered pair of cards", all, check_build);
}

// ---------------------------------------------------------------- P03

pub fn check_pair_index(v: &(u8, u8)) -> CheckResult {
    let (a, b) = *v;
    let want = hand_index(a, b);
    let name = hand_name(a, b);
    ensure!(get_card_index(a, b) == want, "get_card_index({}, {}) is {}, expected {want}", card_str(a), card_str(b), get_card_index(a, b));
    for (how, h) in [
        ("two cards", CARDS[a as usize] + CARDS[b as usize]),
        ("from_hole_cards", Hand::from_hole_cards(a, b)),
        ("default and two cards", Hand::default() + CARDS[a as usize] + CARDS[b as usize]),
        ("from_bit_mask", Hand::from_bit_mask(1u64 << a | 1u64 << b)),
    ] {
        ensure!(h.get_card_index() == want, "index of {name} ({how}) is {}, expected {want}", h.get_card_index());
    }
    ensure!(INDEX_TO_HAND[want] == name, "INDEX_TO_HAND[{want}] is {}, expected {name}", INDEX_TO_HAND[want]);
    ensure!(HAND_TO_INDEX.get(name.as_str()) == Some(&want), "HAND_TO_INDEX of {name} is {:?}", HAND_TO_INDEX.get(name.as_str()));
    let combo = combo_name(a, b);
    let ci = combo_index_of_hand(want);
    ensure!(INDEX_TO_COMBO[ci] == combo, "INDEX_TO_COMBO[{ci}] is {}, expected {combo}", INDEX_TO_COMBO[ci]);
    ensure!(COMBO_TO_INDEX.get(combo.as_str()) == Some(&ci), "COMBO_TO_INDEX of {combo} is {:?}", COMBO_TO_INDEX.get(combo.as_str()));
    Ok(Info::new(true).label("pair", a >> 2 == b >> 2).label("suited", a & 3 == b & 3))
}

/// names that are not canonical are not in the tables
pub fn check_name(s: &String) -> CheckResult {
    let hands: std::collections::HashMap<String, usize> =
        all_hands().iter().enumerate().map(|(i, &(a, b))| (hand_name(a, b), i)).collect();
    let combos: std::collections::HashMap<String, usize> =
        all_hands().iter().enumerate().map(|(i, &(a, b))| (combo_name(a, b), combo_index_of_hand(i))).collect();
    ensure!(HAND_TO_INDEX.get(s.as_str()) == hands.get(s), "HAND_TO_INDEX of {s:?} is {:?}", HAND_TO_INDEX.get(s.as_str()));
    ensure!(COMBO_TO_INDEX.get(s.as_str()) == combos.get(s), "COMBO_TO_INDEX of {s:?} is {:?}", COMBO_TO_INDEX.get(s.as_str()));
    Ok(Info::new(true))
}

pub fn p03(ctx: &Ctx, rep: &mut Report) {
    let all: Vec<(u8, u8)> = (0..52u8).flat_map(|a| (0..52u8).filter(move |&b| b != a).map(move |b| (a, b))).collect();
    each(
        ctx,
        rep,
        "pair",
        "every ordered pair of different cards: index by card numbers, by hand, and the name tables; all are non-trivial",
        all,
        check_pair_index,
    );
    let c = ["2", "3", "T", "K", "A", "s", "h", "d", "o", "a", ""];
    let mut names = vec![];
    for a in c {
        for b in c {
            for d in c {
                for e in c {
                    names.push(format!("{a}{b}{d}{e}"));
                }
            }
        }
    }
    names.sort();
    names.dedup();
    each(ctx, rep, "name", "strings of up to four pieces of card names: found in the tables exactly if canonical", names, check_name);
    rep.exhaustive = true;
}

// ---------------------------------------------------------------- P06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CardText {
    pub text: String,
}

fn lower_is_ascii(s: &str) -> bool {
    // characters such as the Kelvin sign turn into ASCII letters; nothing is claimed about them
    s.chars().any(|c| !c.is_ascii() && c.to_lowercase().any(|l| l.is_ascii()))
}
fn ref_rank(c: char) -> Option<u8> {
    RANKS.find(c.to_ascii_uppercase()).map(|i| i as u8)
}
fn ref_suit(c: char) -> Option<u8> {
    SUITS.find(c).map(|i| i as u8)
}

/// reading of arbitrary text
pub fn check_card_text(t: &CardText) -> CheckResult {
    let s = &t.text;
    let chars: Vec<char> = s.chars().collect();
    let weird = lower_is_ascii(s);
    // get_card_mask: any letter case, any number of cards
    let mut valid = false;
    if !weird {
        let mut want = Some(0u64);
        if chars.len() % 2 != 0 {
            want = None;
        }
        for p in chars.chunks(2) {
            if let (Some(m), [r, u]) = (want, p) {
                want = match (ref_rank(*r), ref_suit(u.to_ascii_lowercase())) {
                    (Some(r), Some(u)) => Some(m | 1u64 << (4 * r + u)),
                    _ => None,
                };
            }
        }
        valid = want.is_some() && !chars.is_empty();
        let got = get_card_mask(s);
        ensure!(got == want.unwrap_or(0), "get_card_mask({s:?}) is {got:#x}, expected {:#x}", want.unwrap_or(0));
    } else {
        get_card_mask(s);
    }
    // one card: rank in either case, suit in lower case
    let upper_suit = chars.iter().any(|c| "SHCD".contains(*c));
    let one = card_from_str(s);
    if !upper_suit {
        let want = match chars.as_slice() {
            [r, u] => ref_rank(*r).zip(ref_suit(*u)).map(|(r, u)| 4 * r + u),
            _ => None,
        };
        ensure!(one.clone().ok() == want, "card_from_str({s:?}) is {one:?}, expected {want:?}");
    }
    // three cards, with or without white space between them
    let flop = flop_from_str(s);
    if !upper_suit {
        let mut want = Some(vec![]);
        let mut rest = &chars[..];
        for i in 0..3 {
            if i > 0 {
                while rest.first().map_or(false, |c| c.is_whitespace()) {
                    rest = &rest[1..];
                }
            }
            let card = match rest {
                [r, u, ..] => ref_rank(*r).zip(ref_suit(*u)).map(|(r, u)| 4 * r + u),
                _ => None,
            };
            match (card, &mut want) {
                (Some(c), Some(w)) => {
                    w.push(c);
                    rest = &rest[2..];
                }
                _ => {
                    want = None;
                    break;
                }
            }
        }
        if let Some(mut w) = want.clone() {
            w.sort();
            let mut d = w.clone();
            d.dedup();
            want = if d.len() == 3 && rest.is_empty() { Some(w) } else { None };
        }
        let got = flop.clone().ok().map(|f| f.to_vec());
        ensure!(got == want, "flop_from_str({s:?}) is {flop:?}, expected {want:?}");
        valid |= want.is_some();
    }
    Ok(Info::new(valid).label("three cards", flop.is_ok()).label("one card", one.is_ok()).label("refused", !valid))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CardSet {
    pub cards: Vec<u8>,
    pub upper: Vec<bool>,
}

/// writing and reading back
pub fn check_card_set(t: &CardSet) -> CheckResult {
    let mask = mask_of(&t.cards);
    let text: String = cards_str(&t.cards)
        .chars()
        .enumerate()
        .map(|(i, c)| if t.upper[i % t.upper.len()] { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect();
    ensure!(get_card_mask(&text) == mask, "get_card_mask({text:?}) is {:#x}, expected {mask:#x}", get_card_mask(&text));
    let want = cards_str(&cards_of(mask));
    let got = mask_to_string(mask);
    ensure!(got == want, "mask_to_string({mask:#x}) is {got:?}, expected {want:?}");
    ensure!(get_card_mask(&got) == mask, "{got:?} does not read back");
    for &c in &t.cards {
        let s = card_to_string(c);
        ensure!(s == card_str(c), "card_to_string({c}) is {s:?}");
        ensure!(card_from_str(&s) == Ok(c), "{s:?} does not read back");
        ensure!(card_from_str(&s.to_lowercase()) == Ok(c), "{s:?} in lower case does not read back");
    }
    if t.cards.len() >= 2 {
        let holes: Vec<(u8, u8)> = t.cards.windows(2).filter(|w| w[0] != w[1]).map(|w| (w[0], w[1])).collect();
        let want: Vec<String> = holes.iter().map(|&(a, b)| cards_str(&[a.min(b), a.max(b)])).collect();
        for (h, w) in holes.iter().zip(&want) {
            ensure!(hole_to_string(*h).as_ref() == Ok(w), "hole_to_string({h:?}) is {:?}", hole_to_string(*h));
            let c = Combo(h.0, h.1, 100);
            ensure!(c.to_string() == card_str(h.0) + &card_str(h.1), "Combo{h:?} is written {:?}", c.to_string());
        }
        ensure!(holes_to_strings(&holes).as_ref() == Ok(&want), "holes_to_strings is {:?}", holes_to_strings(&holes));
    }
    if t.cards.len() >= 3 && cards_of(mask_of(&t.cards[..3])).len() == 3 {
        let s = cards_str(&t.cards[..3]);
        let mut w = t.cards[..3].to_vec();
        w.sort();
        let got = flop_from_str(&s);
        ensure!(got.as_ref().map(|f| f.to_vec()) == Ok(w.clone()), "flop_from_str({s:?}) is {got:?}");
    }
    Ok(Info::new(t.cards.len() >= 2).label("3 cards or more", t.cards.len() >= 3))
}

/// equality and order of combos
pub fn check_combo_order(t: &[(u8, u8, u8); 3]) -> CheckResult {
    use std::cmp::Ordering::*;
    let c: Vec<Combo> = t.iter().map(|&(a, b, w)| Combo(a, b, w)).collect();
    for (i, x) in c.iter().enumerate() {
        for (j, y) in c.iter().enumerate() {
            let same = (t[i].0, t[i].1) == (t[j].0, t[j].1);
            ensure!((x == y) == same, "{x:?} == {y:?} is {}", x == y);
            ensure!((x.cmp(y) == Equal) == same, "{x:?} cmp {y:?} is {:?}", x.cmp(y));
            ensure!(x.cmp(y) == y.cmp(x).reverse(), "order of {x:?} and {y:?} is not antisymmetric");
            ensure!(x.partial_cmp(y) == Some(x.cmp(y)), "partial_cmp of {x:?} and {y:?}");
            for z in &c {
                if x.cmp(y) != Greater && y.cmp(z) != Greater {
                    ensure!(x.cmp(z) != Greater, "order of {x:?}, {y:?}, {z:?} is not transitive");
                }
            }
        }
    }
    Ok(Info::new(true))
}

/// card text of some million characters
pub fn check_long_cards(t: &crate::p_range::LongText) -> CheckResult {
    check_card_text(&CardText { text: t.text(t.times) }).map_err(|e| {
        let (a, b): (String, String) = (e.chars().take(60).collect(), e.chars().rev().take(60).collect());
        format!("{:?} {} times between {:?} and {:?}: {a} .. {}", t.unit, t.times, t.head, t.tail, b.chars().rev().collect::<String>())
    })
}

pub fn p06(ctx: &Ctx, rep: &mut Report) {
    let long = |head: &str, unit: &str, tail: &str| crate::p_range::LongText { head: head.into(), unit: unit.into(), times: 2_000_000, tail: tail.into() };
    each(
        ctx,
        rep,
        "long",
        "card text with a part that is repeated two million times, read as the kind \"text\" does",
        vec![long("", "As", ""), long("Kd", "as", "2h"), long("As", "Kd", "x"), long("As", "é", ""), long("As", " ", "KsQs"), long("AsKs", " ", "Qs"), long("", "A", ""), long("AsKsQs", "Js", "")],
        check_long_cards,
    );
    let piece = || {
        prop_oneof![
            12 => (0u8..52, any::<bool>(), prop::bool::weighted(0.1)).prop_map(|(c, low, up)| {
                let mut s = card_str(c);
                if low { s = s.to_lowercase() }
                if up { s = s.to_uppercase() }
                s
            }),
            1 => prop_oneof![Just(" "), Just("  "), Just("\t"), Just(","), Just("10"), Just("1s"), Just("Ax"), Just("s"), Just("A"),
                Just("é"), Just("♠"), Just("\u{212a}s"), Just("İ"), Just("\u{3000}"), Just("0"), Just("xx"), Just("as"), Just("sA")]
                .prop_map(|s| s.to_string()),
            1 => any::<char>().prop_map(|c| c.to_string()),
        ]
    };
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "text",
            cases: ctx.n(600_000, 10_000_000),
            workers: ctx.workers,
            shrink_iters: 2000,
            rule: "0-8 pieces: cards in any letter case, white space, broken cards, arbitrary characters; read as a mask, as one \
                   card and as a flop and compared with a reference reader; non-trivial: accepted by one of them",
        },
        || {
            prop_oneof![
                3 => vec(piece(), 0..8).prop_map(|v| CardText { text: v.concat() }),
                2 => vec(piece(), 3).prop_map(|v| CardText { text: v.join(" ") }),
                1 => vec(piece(), 1..3).prop_map(|v| CardText { text: v.concat() }),
            ]
        },
        check_card_text,
    );
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "set",
            cases: ctx.n(100_000, 2_000_000),
            workers: ctx.workers,
            shrink_iters: 2000,
            rule: "0-52 cards in any order and letter case, written and read back; non-trivial: two cards or more",
        },
        || {
            (prop_oneof![3 => vec(0u8..52, 0..8), 1 => vec(0u8..52, 0..60)], vec(any::<bool>(), 1..9))
                .prop_map(|(cards, upper)| CardSet { cards, upper })
        },
        check_card_set,
    );
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "order",
            cases: ctx.n(100_000, 2_000_000),
            workers: ctx.workers,
            shrink_iters: 2000,
            rule: "three combos with weights: total order, consistent with equality of the cards; all are non-trivial",
        },
        || {
            let c = || (0u8..52, 0u8..52, 0u8..=100);
            let near = || (40u8..44, 40u8..48, 0u8..=100);
            prop_oneof![[c(), c(), c()].prop_map(|x| x), [near(), near(), near()].prop_map(|x| x)]
        },
        check_combo_order,
    );
}

// ---------------------------------------------------------------- P14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Division {
    pub d: u64,
    pub n: Vec<u64>,
}

pub fn check_division(t: &Division) -> CheckResult {
    use pokers::fastdivide::DividerU64;
    let div = DividerU64::divide_by(t.d);
    for &n in &t.n {
        ensure!(div.divide(n) == n / t.d, "{n} / {} gives {}, expected {}", t.d, div.divide(n), n / t.d);
        ensure!(n / div == n / t.d, "{n} / divider of {} gives {}", t.d, n / div);
    }
    let mut i = Info::new(!t.d.is_power_of_two());
    i.evals = t.n.len() as u64;
    Ok(i.label("power of two", t.d.is_power_of_two()).label("above 2^32", t.d > 1 << 32))
}

fn edgy() -> impl Strategy<Value = u64> {
    prop_oneof![
        2 => any::<u64>(),
        2 => (0u32..64, any::<u64>()).prop_map(|(s, x)| x >> s),
        3 => (0u32..64, -3i64..=3).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
        1 => (0u32..64, 0u32..64).prop_map(|(a, b)| (1u64 << a) | (1u64 << b)),
        1 => (0u64..8).prop_map(|d| u64::MAX - d),
        2 => 0u64..20_000,
    ]
}

pub fn p14(ctx: &Ctx, rep: &mut Report) {
    let with_multiples = |d: u64, ns: Vec<u64>| {
        let d = d.max(1);
        let mut n = ns.clone();
        for x in ns {
            let q = x / d;
            let m = q * d;
            n.extend([m, m.wrapping_sub(1), m.wrapping_add(d - 1), m.wrapping_add(d)]);
        }
        let top = u64::MAX / d * d;
        n.extend([0, d - 1, d, top, top - 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1]);
        Division { d, n }
    };
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "div",
            cases: ctx.n(1_000_000, 30_000_000),
            workers: ctx.workers,
            shrink_iters: 5000,
            rule: "divisors and dividends of all magnitudes, close to powers of two, multiples of the divisor and their \
                   neighbours; non-trivial: the divisor is not a power of two",
        },
        move || (edgy(), vec(edgy(), 1..4)).prop_map(move |(d, ns)| with_multiples(d, ns)),
        check_division,
    );
    let max = if ctx.tier == Tier::Quick { 60_000 } else { 400_000u64 };
    let small: Vec<Division> =
        (1..=max).map(|d| with_multiples(d, vec![splitmix(d ^ ctx.seed), splitmix(d ^ ctx.seed) >> 20, u64::MAX - d])).collect();
    each(ctx, rep, "div", "every divisor up to the size of a combined range and beyond", small, check_division);
}

// ---------------------------------------------------------------- P15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Removal {
    pub range: String,
    pub board: Vec<u8>,
    pub dead: Vec<u8>,
}

pub fn check_removal(t: &Removal) -> CheckResult {
    let before = HandRange::from_string(t.range.clone());
    let (b, d) = (mask_of(&t.board), mask_of(&t.dead));
    let mut after = before.clone();
    after.remove_conflicting_combos(b, d);
    let key = |h: &Combo| (h.0, h.1, h.2);
    let want: Vec<_> = before.hands.iter().filter(|h| (1u64 << h.0 | 1u64 << h.1) & (b | d) == 0).map(key).collect();
    let got: Vec<_> = after.hands.iter().map(key).collect();
    ensure!(got == want, "{} of {} hands are left, expected {}", got.len(), before.hands.len(), want.len());
    let mut again = after.clone();
    again.remove_conflicting_combos(b, d);
    ensure!(again.hands.iter().map(key).eq(want.iter().copied()), "a second removal changes the range");
    Ok(Info::new(!want.is_empty() && want.len() < before.hands.len()).label("all removed", want.is_empty() && !before.hands.is_empty()))
}

pub fn p15(ctx: &Ctx, rep: &mut Report) {
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "remove",
            cases: ctx.n(60_000, 1_000_000),
            workers: ctx.workers,
            shrink_iters: 2000,
            rule: "range text of 1-6 terms or 'random', 0-5 board cards and 0-40 dead cards (they may overlap); non-trivial: \
                   some hands are removed and some are left",
        },
        || {
            (
                prop_oneof![1 => Just("random".to_string()), 6 => range_case(6).prop_map(|c| c.text())],
                vec(0u8..52, 0..6),
                prop_oneof![3 => vec(0u8..52, 0..4), 1 => vec(0u8..52, 0..40)],
            )
                .prop_map(|(range, board, dead)| Removal { range, board, dead })
        },
        check_removal,
    );
}

// ---------------------------------------------------------------- P16

/// (flush draw, backdoor flush draw, nut) by definition
pub fn flush_tags(hole: (u8, u8), board: &[u8]) -> (bool, bool, bool) {
    let mut cards = board.to_vec();
    cards.extend([hole.0, hole.1]);
    let cat = strength_slow(&cards) >> 20;
    if board.len() > 4 || cat > 6 {
        return (false, false, false);
    }
    let (mut draw, mut back, mut nut) = (false, false, false);
    for s in 0..4 {
        let n = cards.iter().filter(|&&c| c & 3 == s).count();
        let tagged = if cat == 6 {
            n >= 5
        } else if n == 4 {
            draw = true;
            true
        } else if n == 3 && board.len() < 4 {
            back = true;
            true
        } else {
            false
        };
        if tagged {
            // the highest card of the suit, ten or better, that is not on the board
            let missing = (8..13u8).rev().map(|r| 4 * r + s).find(|c| !board.contains(c));
            nut |= missing.map_or(true, |m| m == hole.0 || m == hole.1);
        }
    }
    (draw, back, nut)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DrawCase {
    pub hole: (u8, u8),
    pub board: Vec<u8>,
}

pub fn check_draw(t: &DrawCase) -> CheckResult {
    let mut cards = t.board.clone();
    cards.extend([t.hole.0, t.hole.1]);
    let cat = (strength_slow(&cards) >> 20) as u8 - 1;
    let board = Hand::from_bit_mask(mask_of(&t.board));
    let got = get_draw(Hand::from_hole_cards(t.hole.0, t.hole.1), board, cat);
    let want = flush_tags(t.hole, &t.board);
    let got = (got & 32 != 0, got & 64 != 0, got & 128 != 0);
    ensure!(
        got == want,
        "{} on {}: tags (flush draw, backdoor, nut) {got:?}, expected {want:?}",
        hand_name(t.hole.0, t.hole.1),
        cards_str(&t.board)
    );
    let any = want.0 || want.1 || want.2;
    Ok(Info::new(any).label("flush draw", want.0).label("backdoor", want.1).label("nut", want.2).label("flush", cat == 5))
}

/// Every set of cards of one suit on the board and in the hole cards, with other cards around it
fn suit_cases() -> Vec<DrawCase> {
    let mut v = vec![];
    let mut x = 1u64;
    for nb in 3..=4usize {
        for bm in 0u32..8192 {
            if bm.count_ones() as usize > nb {
                continue;
            }
            for hm in 0u32..8192 {
                if bm & hm != 0 || hm.count_ones() > 2 {
                    continue;
                }
                let s = (v.len() % 4) as u8;
                let mut taken = 0u64;
                let mut pick = |mask: u32, n: usize| {
                    let mut cards: Vec<u8> = (0..13).filter(|r| mask >> r & 1 == 1).map(|r| 4 * r + s).collect();
                    while cards.len() < n {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let c = ((x >> 33) % 52) as u8;
                        if c & 3 != s && taken >> c & 1 == 0 {
                            taken |= 1 << c;
                            cards.push(c);
                        }
                    }
                    cards
                };
                let board = pick(bm, nb);
                let hole = pick(hm, 2);
                v.push(DrawCase { hole: (hole[0], hole[1]), board });
            }
        }
    }
    v
}

pub fn p16(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "draw", "every set of board cards and of hole cards of one suit, on flop and turn, with random other cards", suit_cases(), check_draw);
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "draw",
            cases: ctx.n(600_000, 10_000_000),
            workers: ctx.workers,
            shrink_iters: 2000,
            rule: "hole cards on a flop or turn, two thirds of the cases rich in one suit; non-trivial: some flush tag applies",
        },
        || {
            (deck(), 3usize..=4, 0u8..6, any::<bool>()).prop_map(|(mut d, nb, suit, high)| {
                if suit < 4 {
                    let mut k = 0;
                    d.sort_by_cached_key(|c| {
                        k += 1;
                        (c & 3 != suit) as u32 * 5 + k % 9 + if high { (12 - (c >> 2)) as u32 / 2 } else { 0 }
                    });
                    d[..7].rotate_left(nb);
                }
                DrawCase { hole: (d[0], d[1]), board: d[2..2 + nb].to_vec() }
            })
        },
        check_draw,
    );
    crate::p_eq::p16_results(ctx, rep);
}

// ---------------------------------------------------------------- P21

/// tags by definition: (open-ended, gutshot, double gutshot, backdoor if it is defined, nut straight)
pub fn straight_tags(hole: (u8, u8), board: &[u8]) -> (bool, bool, bool, Option<bool>, bool) {
    let mut cards = board.to_vec();
    cards.extend([hole.0, hole.1]);
    let cat = strength_slow(&cards) >> 20;
    // ranks 1 (the ace) to 14 (the ace)
    let ranks = |cs: &[u8]| -> [bool; 20] {
        let mut h = [false; 20];
        for c in cs {
            h[(c >> 2) as usize + 2] = true;
            if c >> 2 == 12 {
                h[1] = true;
            }
        }
        h
    };
    let h = ranks(&cards);
    if board.len() > 4 || cat > 5 {
        return (false, false, false, Some(false), false);
    }
    if cat == 5 {
        // the highest straight that two hole cards could make with this board
        let b = ranks(board);
        let top = (1..=10usize).rev().find(|&lo| (lo..lo + 5).filter(|&r| b[r]).count() >= 3);
        return (false, false, false, Some(false), top.map_or(false, |lo| (lo..lo + 5).all(|r| h[r])));
    }
    let (mut open, mut gut, mut double) = (false, false, false);
    for lo in 1..=11usize {
        // four in a row, which need a rank on both sides to be open-ended
        if (lo..lo + 4).all(|r| h[r]) {
            if lo == 1 || lo + 3 == 14 {
                gut = true;
            } else {
                open = true;
            }
        }
    }
    let mut most = 0;
    for lo in 1..=10usize {
        let n = (lo..lo + 5).filter(|&r| h[r]).count();
        most = most.max(n);
        // four of five in a row without one in the middle
        gut |= n == 4 && h[lo] && h[lo + 4];
    }
    for lo in 1..=14usize {
        for gaps in [&[0usize, 2, 3, 4, 6][..], &[0, 1, 3, 4, 6, 7]] {
            double |= gaps.iter().all(|d| lo + d <= 14 && h[lo + d]);
        }
    }
    // with four ranks of a straight it is not defined whether there also is a backdoor draw
    let back = match most {
        0..=3 => Some(board.len() < 4 && most == 3),
        _ if board.len() == 4 => Some(false),
        _ => None,
    };
    (open, gut, double, back, false)
}

pub fn check_straight_draw(t: &DrawCase) -> CheckResult {
    let mut cards = t.board.clone();
    cards.extend([t.hole.0, t.hole.1]);
    let cat = (strength_slow(&cards) >> 20) as u8 - 1;
    let got = get_draw(Hand::from_hole_cards(t.hole.0, t.hole.1), Hand::from_bit_mask(mask_of(&t.board)), cat);
    compare_straight_tags(t, got)
}

pub fn compare_straight_tags(t: &DrawCase, got: u8) -> CheckResult {
    let want = straight_tags(t.hole, &t.board);
    let got = (got & 1 != 0, got & 2 != 0, got & 4 != 0, want.3.map(|_| got & 8 != 0), got & 16 != 0);
    ensure!(
        got == want,
        "{} on {}: tags (open-ended, gutshot, double gutshot, backdoor, nut straight) {got:?}, expected {want:?}",
        hand_name(t.hole.0, t.hole.1),
        cards_str(&t.board)
    );
    let any = want.0 || want.1 || want.2 || want.3 == Some(true) || want.4;
    Ok(Info::new(any)
        .label("open-ended", want.0)
        .label("gutshot", want.1)
        .label("double gutshot", want.2)
        .label("backdoor", want.3 == Some(true))
        .label("nut straight", want.4))
}

/// all ranks of hole cards and board, in mixed suits
fn rank_cases() -> Vec<DrawCase> {
    let mut v = vec![];
    let mut boards: Vec<Vec<u8>> = vec![];
    for a in 0..13u8 {
        for b in a..13 {
            for c in b..13 {
                boards.push(vec![a, b, c]);
                boards.extend((c..13).map(|d| vec![a, b, c, d]));
            }
        }
    }
    for b in &boards {
        for x in 0..13u8 {
            for y in 0..=x {
                let mut ranks = b.clone();
                ranks.extend([x, y]);
                if (0..13).any(|r| ranks.iter().filter(|&&z| z == r).count() > 4) {
                    continue;
                }
                let mut used = 0u64;
                let mut next = v.len() as u8 % 4;
                let cards: Vec<u8> = ranks
                    .iter()
                    .map(|r| loop {
                        let c = 4 * r + next % 4;
                        next += 1;
                        if used >> c & 1 == 0 {
                            used |= 1 << c;
                            return c;
                        }
                    })
                    .collect();
                let n = b.len();
                v.push(DrawCase { hole: (cards[n], cards[n + 1]), board: cards[..n].to_vec() });
            }
        }
    }
    v
}

pub fn p21(ctx: &Ctx, rep: &mut Report) {
    each(ctx, rep, "straightdraw", "all ranks of hole cards and board, on flop and turn, in mixed suits", rank_cases(), check_straight_draw);
    pbt(
        ctx,
        rep,
        Pbt {
            kind: "straightdraw",
            cases: ctx.n(400_000, 10_000_000),
            workers: ctx.workers,
            shrink_iters: 2000,
            rule: "hole cards on a flop or turn, most of them close in rank, in any suits; non-trivial: some straight tag applies",
        },
        || {
            (deck(), 3usize..=4, 0u8..13, 0u8..6).prop_map(|(mut d, nb, lo, spread)| {
                if spread > 0 {
                    d.sort_by_cached_key(|c| ((c >> 2) + 13 - lo) % 13 > 3 + spread);
                    d[..7].rotate_left(nb);
                }
                DrawCase { hole: (d[0], d[1]), board: d[2..2 + nb].to_vec() }
            })
        },
        check_straight_draw,
    );
    crate::p_eq::p21_results(ctx, rep);
}

pub fn replay(kind: &str, v: &Value) -> Option<CheckResult> {
    Some(match kind {
        "two" => {
            let t: TwoHands = from_case(v);
            if t.a.is_empty() {
                // a panic somewhere in the enumeration
                let mut rep = Report::default();
                let ctx = Ctx { id: "P01".into(), tier: Tier::Quick, seed: 0, workers: 8, journal_dir: "/nonexistent".into() };
                p01(&ctx, &mut rep);
                return Some(match rep.failure {
                    Some(f) => Err(f.msg),
                    None => Ok(Info::new(true)),
                });
            }
            check_two(&t)
        }
        "build" => check_build(&from_case(v)),
        "pair" => check_pair_index(&from_case(v)),
        "name" => check_name(&from_case(v)),
        "text" => check_card_text(&from_case(v)),
        "long" => check_long_cards(&from_case(v)),
        "set" => check_card_set(&from_case(v)),
        "order" => check_combo_order(&from_case(v)),
        "div" => check_division(&from_case(v)),
        "remove" => check_removal(&from_case(v)),
        "draw" => check_draw(&from_case(v)),
        "straightdraw" => check_straight_draw(&from_case(v)),
        _ => return None,
    })
}
