//! What a case actually exercised, computed from the model and the inputs.
pub const NAMES: &[&str] = &[
    "keyed", "nondefault_params", "short_digest", "multi_block", "whole_blocks", "empty_message",
    "over_64KiB", "several_updates", "update_onto_partial_block", "update_onto_full_block",
    "empty_update", "finalize_again_or_update_after", "clone_used", "last_node", "forced_portable_midway",
    "update8_lanes_together", "update8_uneven", "update8_onto_partial", "finalize8", "finalize8_mixed_digest_len",
    "past_4GiB", "sp_over_1024", "sp_buffered_then_more", "sp_direct_blocks", "write_trait", "lanes_together_then_alone",
    "lanes_together_to_end", "mixed_params", "ill_formed_rejected", "rejected_setter", "overwritten_setter",
    "hashes_equal", "hashes_differ", "concurrent", "distinct_descriptions", "counter_high_word",
    "unaligned_input", "guard_page", "formatted", "collision_found", "crafted_hash", "traced", "simd_kernel",
    "one_shot", "sp_keyed_over_1024", "lanes_share_input", "hundreds_of_calls", "stepped_instructions",
    "params_formatted", "family_of_related_inputs", "moved_between_threads",
    "heap_and_stack_watched", "instructions_counted", "interrupted_by_others",
];
macro_rules! tags { ($($n:ident = $i:expr),* $(,)?) => { $(pub const $n: u64 = 1 << $i;)* } }
tags! {
    KEYED = 0, PARAMS = 1, SHORT = 2, MULTI = 3, WHOLE = 4, EMPTYMSG = 5, LONG = 6, SEVERAL = 7,
    PARTIAL = 8, FULLBUF = 9, EMPTYUP = 10, REFIN = 11, CLONE = 12, LAST = 13, PORT = 14,
    UP8ALL = 15, UP8UNEVEN = 16, UP8PARTIAL = 17, FIN8 = 18, FIN8MIX = 19, BIG = 20, SPLONG = 21,
    SPBUF = 22, SPDIRECT = 23, WRITE = 24, TOGETHER = 25, TOEND = 26, MIXED = 27, REJECT = 28,
    SETREJ = 29, OVERWR = 30, EQ = 31, NE = 32, CONC = 33, DISTINCT = 34, HIGHT = 35, UNALIGNED = 36,
    GUARD = 37, FMT = 38, COLL = 39, CRAFT = 40, TRACED = 41, SIMD = 42, ONESHOT = 43, SPKEYLONG = 44,
    ALIAS = 45, MANYCALLS = 46, STEPPED = 47, PFMT = 48, RELATED = 49, MOVED = 50, LEAN = 51, COUNTED = 52, INTER = 53,
}
pub fn names(t: u64) -> Vec<&'static str> {
    (0..NAMES.len()).filter(|i| t >> i & 1 == 1).map(|i| NAMES[i]).collect()
}
