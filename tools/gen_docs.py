#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HE = "src/hand_evaluator/"
EC = "src/equity_calculator/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, hook=hook, state=state or []))

COMMON = " Trusts the reference model in harness/src/oracle.rs, which is written from the rules of the game and shares no code with the crate."

prop("P01", "Hand strength orders hands exactly as the rules of poker do",
 "For any two sets of 5 to 7 distinct cards the evaluated strengths compare exactly as the best five-card hands in them do under the rules of hold'em, with equal strengths for ties only, and the strength divided by 4096 is the category 1 (high card) to 9 (straight flush). "
 "Among sets of the same size of 2, 3 or 4 cards the strengths compare as pairs, two pairs, trips and quads with kickers do. "
 "The strength does not depend on the suits' names.",
 ["inputs"], "all 157,036,191 sets of 2 to 7 distinct cards, compared with each other through a reference order",
 "The tests evaluate a handful of hands per category; one wrong entry of the perfect-hash tables (about 90,000 entries) changes only a few hands among 134 million.",
 [HE+"hand.rs", HE+"cards.rs", "src/lookup.rs", "src/flush_lookup.rs", "src/hash_offsets.rs"],
 [{"name":"Hand::evaluate and the flush and rank tables with perfect hash offsets","where":HE+"hand.rs evaluate; src/lookup.rs, src/flush_lookup.rs, src/hash_offsets.rs"}],
 ["Hand::evaluate()"], "exhaustive enumeration against a reference evaluator, plus metamorphic relations",
 "Complete for the enumerated sets: every set of 2 to 7 cards is evaluated and its rank in the reference order compared.")
prop("P02", "A hand is the set of its cards, however it was put together",
 "A hand of up to seven distinct cards is the same value with the same strength whatever the order of the cards and whether it was put together from single cards, hole cards, masks or sums of these, and hands of different cards are different. "
 "Its observers (card count, cards contained, cards and ranks per suit, ranks, flush) tell exactly the cards it was built from.",
 ["inputs","histories"], "sequences of additions of cards and hands, up to seven distinct cards",
 "The tests build a few hands in one way; wrong keys, carries between the packed fields or suit counters show only for some card combinations and orders.",
 [HE+"hand.rs", HE+"cards.rs"],
 [{"name":"packed key with rank sums, suit counters and card mask, additive under +","where":HE+"hand.rs"}],
 ["Hand::evaluate(), count(), contains(), suit_count(), get_suit_mask(), get_rank_mask(), has_flush(), get_flush_key(), ==, +"], "model-based generation of build sequences with shrinking (proptest)",
 "Random search over build orders; single cards and pairs of cards are enumerated.")
prop("P03", "The numbering of hands and of starting combos is one-to-one and consistent",
 "The 1326 two-card hands are numbered 0 to 1325 one-to-one and independently of the order of the cards, pairs first, then suited, then offsuit hands, and in blocks of 6, 4 and 12 that belong to the 169 starting combos in their order. "
 "The name tables in both directions and the look-up by name agree with that numbering.",
 ["inputs"], "all ordered pairs of distinct cards and all names of hands and combos, and arbitrary text as a name",
 "The tests look at a few names; the tables hold 1326 and 169 hand-written entries that several features index into.",
 [HE+"hand.rs", "src/map.rs", "src/string_lookup.rs", EC+"simulator.rs"],
 [{"name":"get_card_index and the generated name tables","where":HE+"hand.rs get_card_index; src/map.rs; src/string_lookup.rs"}],
 ["get_card_index(), HAND_TO_INDEX, INDEX_TO_HAND, COMBO_TO_INDEX, INDEX_TO_COMBO"], "exhaustive enumeration against the reference numbering",
 "Complete over all hands, combos and names; text that is not a name is sampled.")
prop("P04", "Range text means exactly the hands of the usual notation",
 "A comma-separated list of pairs, plus and span terms over pairs and suited, offsuit or unsuffixed hands (spans in either direction, the shared card written first or second), and exact two-card hands, in upper or lower case, each optionally followed by @ and a weight of 0 to 100, denotes exactly the hands of the usual notation, each once. "
 "A hand has the weight of the first term that names it, 100 if that has none, and \"random\" is all 1326 hands.",
 ["inputs"], "all single terms, and lists of terms with weights, overlaps and mixed case",
 "The tests count hands of about a dozen strings without weights or overlaps; they do not look at which hands result.",
 ["src/hand_range.rs"],
 [{"name":"recursive descent over characters in parse_hand with add_* helpers, duplicate removal","where":"src/hand_range.rs"}],
 ["HandRange::from_string(s), .hands"], "grammar-based generation against a reference interpreter (proptest), single terms enumerated",
 "Every single term of the grammar is enumerated; lists are sampled. Forms whose meaning is unclear are not claimed (see DESIGN.md).")
prop("P05", "Range text of any kind is read without a crash into a well-formed range",
 "Reading any text as a range ends without a panic in a set of distinct two-card hands with cards from 0 to 51 and weights of at most 100, the same whatever the letter case (but for \"random\", which is lower case). "
 "What follows the first term that cannot be read changes nothing about the hands of the terms before it, and the list of a range's hands, written as text, reads back as the same range. "
 "Spans of a pair and a non-pair, of hands without a common rank or with different suffixes, and hands of the same card twice, add no hands.",
 ["inputs"], "arbitrary strings including Unicode, mutations of valid ranges, digits of any length",
 "The tests feed only well-formed strings and a single bad one.",
 ["src/hand_range.rs"],
 [{"name":"character-wise parser that stops at the first unreadable term","where":"src/hand_range.rs"}],
 ["HandRange::from_string(s) on arbitrary s"], "fuzzing with generated and mutated text, round-trip relation (proptest)",
 "Random search over text; the tail relation and the round trip are metamorphic.")
prop("P06", "Card text is read and written without loss, and bad text is refused",
 "Text that lists cards as rank and suit reads as exactly those cards, and cards, masks and hole cards are written as such text, which reads back as the same. "
 "Text with an unknown character, an odd number of characters, or for a flop not exactly three different cards, is refused (an error, or an empty mask) rather than read as other cards. "
 "Two-card hands of a range are equal exactly if their cards are, and their order is total and agrees with that.",
 ["inputs"], "all 52 cards, texts of up to ten cards, arbitrary pairs of characters, all pairs of hands for the order",
 "The tests read two or three card strings.",
 ["src/hand_range.rs", "src/constants.rs"],
 [{"name":"character to rank and suit tables, get_card_mask, Combo ordering","where":"src/hand_range.rs"}],
 ["get_card_mask(), Card/hand text functions, Combo cmp"], "round-trip and refusal properties over generated text (proptest)",
 "All cards and all pairs of ASCII characters are enumerated, longer text is sampled.")
prop("P07", "Exact equities equal a full count over all deals and boards",
 "For 2 to 9 ranges, 0 to 5 board cards and any dead cards, the exact calculation gives each player the equity, wins, ties and wins by set of winners, as shares of the total, that result from dealing every combination of hands without common cards, weighted by the product of the hands' weights, on every completion of the board with cards that are neither dealt nor dead. "
 "A pot shared by k players counts 1/k for each of them.",
 ["inputs","configurations"], "ranges with weights, boards of 0 to 5 cards, dead cards, 2 to 9 players, any number of threads",
 "The tests compare a few two- and three-player situations with published numbers; combining ranges, grouping irrelevant suits, weights, dead cards and ties among many players are hardly touched.",
 [EC+"simulator.rs", EC+"combined_range.rs", "src/fastdivide.rs", HE+"hand.rs"],
 [{"name":"enumeration of combined ranges by position, recursive board enumeration with suit grouping, winner masks","where":EC+"simulator.rs enumerate_all, enumerate_board_rec, evaluate_hands"},
  {"name":"joining ranges that overlap","where":EC+"combined_range.rs"}],
 ["exact_equity(): equities, wins, ties, wins_by_mask"], "differential testing against brute force on generated situations (proptest)",
 "Random search with comparison by a full count; generators for few hands and many collisions, nearly full decks, many batches, wide ranges, two ranges of any width after and before the flop. Totals up to 2^60; larger ones are a known finding.")
prop("P08", "Results of single hands equal a full count of the deals with that hand",
 "In an exact calculation the share of deals, wins, ties and split pots, the equity and the win and tie rates of each hand of each player are those of a full count of the deals in which the player holds that hand, its reported weight is the one in the range, hands that are never dealt have zero counts and equity 0, and hands outside of the range are marked invalid. "
 "Looking a hand up by its name gives the entry of that hand and an error for any other text.",
 ["inputs","configurations"], "as P07, every hand of every player",
 "The tests check totals of players only, never the result of a hand.",
 [EC+"simulator.rs"],
 [{"name":"per-player index of results, update of totals, wins and split ties per evaluation, final rates","where":EC+"simulator.rs evaluate_hands, update_results, generate_final_data, get_hand_result"}],
 ["SimulationResults.hand_results, get_hand_result()"], "differential testing against brute force on generated situations (proptest)",
 "Random search with brute-force comparison of every hand.")
prop("P09", "Results by starting combo, made hand and draw are sums of their hands",
 "In an exact calculation the results of each of the 169 starting combos, and with three or more board cards of each category of made hand and each class of straight and flush draws, are the totals and the rates over exactly the player's hands that belong to it, by a full count of all deals. "
 "The weight of a combo is the sum of the weights of its hands that can be dealt, divided by 6, 4 or 12, the number of hands of a pair, suited or offsuit combo (rounded down); that of a category or class is the sum of the weights of its hands. "
 "With three or more board cards, each hand is filed under the category it makes with the given board.",
 ["inputs","configurations"], "as P07, all combos, categories and draw classes of every player",
 "No test looks at these aggregates.",
 [EC+"simulator.rs", HE+"hand.rs", "src/string_lookup.rs"],
 [{"name":"block sums over the hand numbering, grouping by rank and draw bits","where":EC+"simulator.rs generate_final_data, generate_board_data, set_ranks"}],
 ["SimulationResults.combo_results, board_results, board_draws, get_combo_result()"], "differential testing against brute force on generated situations (proptest)",
 "Random search with brute-force comparison; the tie rate of made hands and draws is not claimed (see DESIGN.md).")
prop("P10", "Exact results do not depend on the number of threads or their timing",
 "Every count of an exact calculation is the same whatever the number of threads and however they are scheduled, and every derived number is the same up to rounding.",
 ["schedules","configurations","inputs"], "thread counts from 1 to 40, schedules perturbed by random delays in front of every lock, and very short calculations that are run 250 times each",
 "The tests run each calculation once with one thread count and look at rounded equities; a lost or repeated batch needs a particular interleaving.",
 [EC+"simulator.rs"],
 [{"name":"positions handed out under a lock, results merged under a lock, last batch of each thread flushed","where":EC+"simulator.rs reserve_batch, update_results"}],
 ["exact_equity() with different n_threads"], "metamorphic testing over thread counts with injected scheduling delays (proptest)",
 "Schedules are sampled: real threads, several thread counts, random delays at lock boundaries.",
 hook="locks of the simulator that wait a random time before acquiring; seedable generator")
prop("P11", "Approximate equities approach the exact ones as closely as asked for",
 "A simulation that runs to its end gives each player and each set of winners a share that differs from the exact one by no more than chance allows for the number of samples, in all situations including weights, dead cards and partial boards. "
 "It ends on its own with a standard deviation no larger than asked for, the standard deviation it reports is that of the equity it reports for the first player over repeated runs, and its error is in keeping with that.",
 ["inputs","schedules","configurations"], "situations as in P07, two players with ranges of any width before and after the flop, and 3-9 players with ranges of any width; 65 thousand to 2 million samples each, 1 to 8 threads, seeded; some of them run 48 times",
 "The tests compare a few heads-up situations with a tolerance of percents; bias from a card dealt twice, a weight left out or a wrong stop does not show there.",
 [EC+"simulator.rs", EC+"combined_range.rs"],
 [{"name":"random walk over hole cards, random boards, batches and their standard deviation","where":EC+"simulator.rs sim_random_walk_monte_carlo, randomize_hole_cards, randomize_board, update_results"}],
 ["approx_equity(): equities, wins_by_mask, stdev"], "statistical testing against a full count, or against deals played by the harness where none is feasible, on generated situations (proptest)",
 "Bounds of 7 standard deviations of a sample, with allowance for the dependence within the walk; biases below about 0.3% of a pot may pass, and reported standard deviations that are off by less than a factor of 2.",
 hook="seedable generator")
prop("P12", "Impossible input is refused with an error, and possible input is accepted",
 "Both calculations return an error for fewer than 2 or more than 9 players, more than 5 board cards, more dead cards than leave a full deal, and ranges without any possible joint deal, and never results or a panic. "
 "They accept every other input; only a simulation may miss deals that are rare among the combinations of hands.",
 ["inputs"], "player counts from 0 to 12, board and dead cards around their limits, ranges that collide with them or with each other",
 "The tests check at most one situation per error.",
 [EC+"simulator.rs", EC+"combined_range.rs", "src/hand_range.rs"],
 [{"name":"checks in front of the calculations, empty combined ranges, results without evaluations","where":EC+"simulator.rs exact_equity, approx_equity"}],
 ["Err(SimulatorError) or Ok from exact_equity() and approx_equity()"], "generation around the limits against a reference decision (proptest)",
 "Random search concentrated on the limits; one known finding (rare deals in simulations).")
prop("P13", "Progress is sane and cancelling stops the calculation soon",
 "Reported progress is never above 100, at least one report is made, on one thread the progress of an exact calculation never goes back, an uncancelled calculation ends with 100, and a simulation reports 100 only when it has reached its target and ends. "
 "When the token is set before or during a calculation, it ends after at most a few ten thousand further evaluations per thread (or one deal with its boards), also while it looks for hands without common cards, and returns a well-formed result or an error.",
 ["inputs","schedules","histories"], "exact and approximate calculations, cancelled before the start or at any progress report, 1 to 6 threads",
 "No test cancels a calculation or looks at the progress.",
 [EC+"simulator.rs"],
 [{"name":"progress from the position or the deviation, cancel token looked at after each batch","where":EC+"simulator.rs update_results, enumerate_all, sim_random_walk_monte_carlo"}],
 ["callback values, number of evaluations after cancellation"], "generated cancellation points against bounds on work and reports (proptest)",
 "Random search over cancellation points; a calculation that does not stop is ended and reported.",
 hook="seedable generator")
prop("P14", "Division by a precomputed divisor is exact",
 "Division with a precomputed divisor gives the exact quotient of any 64-bit number by any positive 64-bit divisor.",
 ["inputs"], "all 64-bit numerators and divisors greater than zero; concentrated on powers of two, multiples and the ends of the range",
 "The test tries a few divisors; the rounding of the magic number fails for particular pairs only.",
 ["src/fastdivide.rs"],
 [{"name":"magic multiplication, shift and add indicator","where":"src/fastdivide.rs"}],
 ["DividerU64::divide_by(d).divide(n)"], "differential testing against the / operator with boundary-rich generation (proptest)",
 "All divisors up to a limit with boundary numerators, the rest sampled.")
prop("P15", "Removing hands that hold known cards removes exactly those",
 "Removing the hands of a range that conflict with board and dead cards keeps exactly the hands without any of those cards, with their weights and in their order.",
 ["inputs"], "any range, any board and dead cards",
 "One test counts the hands left for one range.",
 ["src/hand_range.rs"],
 [{"name":"remove_conflicting_combos","where":"src/hand_range.rs"}],
 ["HandRange.hands after remove_conflicting_combos()"], "model-based property test (proptest)",
 "Random search.")
prop("P16", "Flush draws, backdoor draws and nut flushes are tagged as defined",
 "On a flop or turn, hole cards that make less than a flush are tagged as a flush draw exactly when they and the board hold four cards of a suit, and as a backdoor flush draw exactly when they hold three of a suit on the flop. "
 "Hands with such a draw or with a flush are tagged as nut exactly when they hold the highest card of that suit, ten or better, that the board lacks, or the board lacks none; hands above a flush have none of these tags. "
 "The results of exact and approximate calculations carry the same tags for each hand of a range, and none on the river.",
 ["inputs"], "every set of board and hole cards of one suit on flop and turn, and sampled cards; the flush tags of calculated results",
 "No test covers the draw tags.",
 [HE+"hand.rs", EC+"simulator.rs"],
 [{"name":"get_draw and set_ranks","where":HE+"hand.rs; "+EC+"simulator.rs"}],
 ["get_draw(), hand_results[].draw"], "differential testing against the definition on generated hands (proptest)",
 "One suit is covered completely, combinations of suits by random search.")
prop("P17", "Combining ranges keeps exactly the joint deals without common cards",
 "Combining ranges puts each player in exactly one group, and a group lists each way to deal its players hands of their ranges without common cards exactly once, with the hands, weights and masks of those players. Shuffling a group only changes the order of its list, any deal being as likely as any other to come to any place.",
 ["inputs"], "2 to 9 ranges of any width and overlap",
 "The tests check the size of one combination.",
 [EC+"combined_range.rs"],
 [{"name":"estimate of the joined size, greedy joining, joining with reordered players","where":EC+"combined_range.rs"}],
 ["CombinedRange::from_ranges(), shuffle()"], "differential testing against a direct product of ranges (proptest)",
 "Random search over sets of ranges.")
prop("P18", "The parts of every result add up",
 "In every result, exact, approximate or of a cancelled calculation, the wins by set of winners, wins and ties per player and totals, wins and ties per hand, combo and category add up to each other, the rates are the quotients of the counts, and the equities are the shares won and add up to 1.",
 ["inputs","schedules","histories"], "exact, approximate and cancelled calculations in situations of any size, 1 to 8 threads",
 "The tests look at equities only; an update that loses a part of a batch leaves them plausible.",
 [EC+"simulator.rs"],
 [{"name":"batches merged into results","where":EC+"simulator.rs update_results, evaluate_hands, generate_final_data"}],
 ["all fields of SimulationResults"], "invariants over results of generated calculations (proptest)",
 "Random search; reaches situations that are too large for brute force.",
 hook="seedable generator")
prop("P19", "Simulations deal every hand in its due share",
 "In a simulation every hand of every player is dealt in the share, counted by weight, that it has among all joint deals without common cards, and wins its exact equity, up to chance.",
 ["inputs","schedules"], "situations as in P11, a third of them without weights, every hand of every player",
 "The tests look at equities of players only; a biased walk that favours some hands can leave those nearly unchanged.",
 [EC+"simulator.rs", EC+"combined_range.rs"],
 [{"name":"random walk over shuffled combined ranges","where":EC+"simulator.rs sim_random_walk_monte_carlo, randomize_hole_cards; "+EC+"combined_range.rs shuffle"}],
 ["approx_equity(): hand_results"], "statistical testing against a full count, or against deals played by the harness where none is feasible, on generated situations (proptest)",
 "Bounds of 7 standard deviations with allowance for the dependence within the walk.",
 hook="seedable generator")
prop("P20", "Exact results respect the symmetries of the game",
 "Renaming the suits everywhere, reordering the players, multiplying all weights of one player by the same number, and reducing a player's range to one of its hands change an exact result only in the corresponding way: the counts move with the suits and players, the equities do not change with a factor, and a hand alone has the equity it has within its range.",
 ["inputs","configurations"], "situations of any size, with full decks and wide ranges, too large for a full count",
 "The tests never relate two calculations to each other, and reference numbers do not exist for most situations.",
 [EC+"simulator.rs", EC+"combined_range.rs", HE+"hand.rs"],
 [{"name":"suit grouping in the board enumeration, joining of ranges, weights","where":EC+"simulator.rs, "+EC+"combined_range.rs"}],
 ["exact_equity() on related inputs"], "metamorphic testing on generated situations (proptest)",
 "Random search; no reference model needed beyond reading the ranges.")

prop("P21", "Straight draws and nut straights are tagged as defined",
 "On a flop or turn, with aces high and low, cards that make less than a straight are tagged open-ended exactly when they hold four ranks in a row that can be completed on both sides, gutshot exactly when they hold four of five ranks in a row with the gap inside, or four in a row that end in an ace, and double gutshot exactly when they hold five ranks like 4-678-T or six like 45-78-TJ. "
 "Those that hold at most three of any five ranks in a row are tagged as a backdoor draw exactly when they hold three of them on the flop. "
 "A straight (and no better hand) is tagged as the nut straight exactly when two hole cards could not make a higher one with that board; better hands have none of these tags. The results of calculations carry these tags for each hand of a range.",
 ["inputs"], "all ranks of hole cards and board on flop and turn, sampled suits; the straight tags of calculated results",
 "No test covers the draw tags.",
 [HE+"hand.rs", EC+"simulator.rs"],
 [{"name":"bit patterns shifted over the ranks in get_draw; set_ranks","where":HE+"hand.rs; "+EC+"simulator.rs"}],
 ["get_draw(), hand_results[].draw"], "differential testing against the definition over all ranks and generated hands (proptest)",
 "Complete over ranks for one choice of suits each, random over suits.")

prop("P22", "An exact result is the average over the next card and the sum of its parts",
 "An exact result before the river is the average of the exact results for every next board card, and the average of those with one more dead card, each weighted by the weight of the deals that leave this card in the deck; and splitting a player's range in two parts gives results that, weighted by their deals, add up to the result of the whole range. "
 "This holds for the deals won by every set of players and for the totals, wins and ties of every hand.",
 ["inputs","configurations"], "situations on every street, with full decks and wide ranges, too large for a full count, each with all cards that may come next",
 "The tests never relate the result of one street to that of the next; boards of different length are enumerated in different ways.",
 [EC+"simulator.rs", EC+"combined_range.rs"],
 [{"name":"board enumeration per number of missing cards with suit grouping, weights per group, joining of ranges","where":EC+"simulator.rs enumerate_all, enumerate_board; "+EC+"combined_range.rs"}],
 ["exact_equity() on related inputs"], "metamorphic testing on generated situations (proptest)",
 "Random search; the reference model contributes only the weights of the joint deals.")
prop("P23", "Calculations do not affect each other",
 "The result of a calculation depends on its own inputs only: whatever other calculations, with related or the same inputs, exact, approximate, cancelled or refused, ran before it, run at the same time or run from within its progress reports, it is what it would be alone. The ranges and the cancel token that are passed stay as they were and can be used again, also by several calculations at the same time.",
 ["histories","schedules"], "histories of 2-6 calculations that share range objects and a cancel token and differ in a few cards, weights, seats or threads; one after another, at the same time, nested",
 "Each test makes one calculation; state kept from one to the next, or shared between threads, shows only in histories of related ones.",
 [EC+"simulator.rs", EC+"combined_range.rs", "src/hand_range.rs"],
 [{"name":"one Simulator per call, no global state; ranges are copied","where":EC+"simulator.rs exact_equity, approx_equity"}],
 ["exact_equity(), approx_equity() in sequence, concurrently and from progress callbacks"], "stateful generation of histories against the full count of each calculation, with shrinking (proptest)",
 "Random search over histories; the interleaving of concurrent calculations is left to the scheduler.")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": p["hook"]},
        }) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "pokers_verif",
        "enable": 'RUSTFLAGS="--cfg pokers_verif" cargo build (build.sh does this for the harness and the crate it depends on)',
        "source_commits": [c for c in subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^hook:"],capture_output=True,text=True).stdout.split()],
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "property-based testing: " + p["technique"],
        "level": "exploration",
        "level_note": p["note"] + COMMON,
    } for p in P],
    "not_applicable": [],
    "notes": "check.sh builds the harness (harness/) from /repo's working tree, with the hooks on, and runs one check; see DESIGN.md.",
}
json.dump(manifest, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
