//! Indices into the shared counters: injected fault kinds, the exact error numbers, and probes.

pub const OPEN_ERR: u32 = 1;
pub const READ_ERR: u32 = 2;
pub const EINTR_READ: u32 = 3;
pub const EINTR_OPEN: u32 = 4;
pub const SHORT: u32 = 5;
pub const EARLY_EOF: u32 = 6;
pub const STAT_ERR: u32 = 7;
pub const STAT_LIE: u32 = 8;
pub const SEEK_ERR: u32 = 9;
pub const CLOSE_ERR: u32 = 10;
pub const LATENCY: u32 = 11;
pub const FLIP: u32 = 12;
pub const SPURIOUS: u32 = 13;
pub const CLOCK_JUMP: u32 = 14;
pub const PERSIST_HIT: u32 = 15;
pub const SLICED: u32 = 16;
pub const REPLACE: u32 = 17;
pub const PARSER_FAIL: u32 = 18;
pub const PARSER_PANIC: u32 = 19;
pub const PARSER_STALL: u32 = 20;
pub const PARSER_REENTER: u32 = 21;
pub const MSG_LOSS: u32 = 22;
pub const MSG_DUP: u32 = 23;
pub const MSG_DELAY: u32 = 24;
pub const MACHINE: u32 = 25;
pub const WORKER_CRASH: u32 = 26;
pub const CALL_PANIC: u32 = 27;
pub const BAD_TEXT: u32 = 28;
pub const PARTITION: u32 = 29;
pub const REWRITE: u32 = 30;
pub const STALL: u32 = 31;
pub const DMG0: u32 = 32; // + damage kind
pub const N_DMG: usize = 25;

pub const KINDS: [(u32, &str); 31] = [
    (OPEN_ERR, "open_error"),
    (READ_ERR, "read_error"),
    (EINTR_READ, "read_interrupted"),
    (EINTR_OPEN, "open_interrupted"),
    (SHORT, "short_read"),
    (EARLY_EOF, "premature_end_of_file"),
    (STAT_ERR, "stat_error"),
    (STAT_LIE, "wrong_size_reported"),
    (SEEK_ERR, "seek_error"),
    (CLOSE_ERR, "close_error"),
    (LATENCY, "slow_storage_call"),
    (FLIP, "bit_flipped_in_flight"),
    (SPURIOUS, "spurious_wakeup"),
    (CLOCK_JUMP, "clock_jump"),
    (PERSIST_HIT, "persistent_error_hit"),
    (SLICED, "read_sliced_by_storage"),
    (REPLACE, "file_replaced"),
    (PARSER_FAIL, "caller_parser_failed"),
    (PARSER_PANIC, "caller_parser_panicked"),
    (PARSER_STALL, "caller_parser_stalled"),
    (PARSER_REENTER, "caller_parser_reentered"),
    (MSG_LOSS, "message_lost"),
    (MSG_DUP, "message_duplicated"),
    (MSG_DELAY, "message_delayed"),
    (WORKER_CRASH, "worker_crashed"),
    (CALL_PANIC, "call_ended_by_panic"),
    (BAD_TEXT, "damaged_text_given"),
    (PARTITION, "partition"),
    (REWRITE, "file_rewritten_in_place"),
    (STALL, "machine_stalled"),
    (MACHINE, "asked_about_another_machine"),
];

pub const DMG_NAMES: [&str; N_DMG] = [
    "bit_flip",
    "byte_set",
    "truncate",
    "torn_write",
    "lost_write",
    "misdirected_write",
    "zeroed_block",
    "ff_block",
    "version_text_overwrite",
    "duplicate_range",
    "delete_range",
    "insert_bytes",
    "swap_ranges",
    "digit_change",
    "quote_or_escape_change",
    "structure_change",
    "append_garbage",
    "record_dropped_value",
    "key_change",
    "utf8_break",
    "number_range",
    "value_type_change",
    "depth_bomb",
    "empty_file",
    "number_grown",
];

pub const OPEN_ERRNOS: [i32; 14] = [2, 13, 24, 23, 5, 12, 116, 40, 36, 110, 20, 6, 75, 1];
pub const READ_ERRNOS: [i32; 10] = [5, 11, 21, 116, 12, 110, 6, 9, 22, 103];
pub const E0: usize = 64; // open errnos
pub const R0: usize = 80; // read errnos

pub fn errno_name(e: i32) -> &'static str {
    match e {
        1 => "EPERM",
        2 => "ENOENT",
        4 => "EINTR",
        5 => "EIO",
        6 => "ENXIO",
        9 => "EBADF",
        11 => "EAGAIN",
        12 => "ENOMEM",
        13 => "EACCES",
        20 => "ENOTDIR",
        21 => "EISDIR",
        22 => "EINVAL",
        23 => "ENFILE",
        24 => "EMFILE",
        30 => "EROFS",
        36 => "ENAMETOOLONG",
        40 => "ELOOP",
        75 => "EOVERFLOW",
        103 => "ECONNABORTED",
        110 => "ETIMEDOUT",
        116 => "ESTALE",
        _ => "E?",
    }
}

pub fn kind_name(k: u32) -> String {
    for (i, n) in KINDS.iter() {
        if *i == k {
            return n.to_string();
        }
    }
    if k >= DMG0 && k < DMG0 + N_DMG as u32 {
        return format!("stored_{}", DMG_NAMES[(k - DMG0) as usize]);
    }
    format!("kind{}", k)
}

pub const P_FUTEX_WAIT: usize = 100;
pub const P_GETRANDOM: usize = 101;
pub const P_CLOCK: usize = 102;
pub const P_LOADS: usize = 103;
pub const P_LOAD_OK: usize = 104;
pub const P_LOAD_ERR: usize = 105;
pub const P_CALLS: usize = 106;
pub const P_OVERLAP: usize = 107;
pub const P_UTF8_SPLIT: usize = 108;
pub const P_ESC_SPLIT: usize = 109;
pub const P_CHECKED: usize = 110;
pub const P_DMG_ACCEPTED: usize = 111;
pub const P_DMG_REJECTED: usize = 112;
pub const P_TREES: usize = 113;
pub const P_REFUSED: usize = 114;
pub const P_RANKED: usize = 115;
pub const P_RECOVERY: usize = 116;
pub const P_LEAK_LOADS: usize = 117;
pub const P_OLD_GEN: usize = 118;
pub const P_READS: usize = 119;
pub const P_OPENS: usize = 120;
pub const P_STATS: usize = 121;
pub const P_CUSTOM: usize = 122;
pub const P_BYTES: usize = 123;
pub const P_PASSTHROUGH: usize = 124;

pub const P_STREAMED: usize = 125;
pub const P_SELECTED: usize = 126;
pub const P_LEAK_CALLS: usize = 127;
pub const P_LIVES: usize = 128;
pub const P_DTOR_CALLS: usize = 129;

pub const PROBES: [(usize, &str); 30] = [
    (P_STREAMED, "indexes_read_as_streams"),
    (P_SELECTED, "selections_compared"),
    (P_LEAK_CALLS, "calls_in_heap_probes"),
    (P_LIVES, "threads_begun_and_ended_within_an_operation"),
    (P_DTOR_CALLS, "calls_in_thread_local_destructors"),
    (P_FUTEX_WAIT, "blocking_waits_inside_library_or_runtime"),
    (P_GETRANDOM, "random_keys_drawn"),
    (P_CLOCK, "clock_reads"),
    (P_LOADS, "index_loads"),
    (P_LOAD_OK, "index_loads_ok"),
    (P_LOAD_ERR, "index_loads_refused"),
    (P_CALLS, "api_calls"),
    (P_OVERLAP, "loads_overlapping_a_replacement"),
    (P_OLD_GEN, "overlapping_loads_that_returned_the_older_generation"),
    (P_UTF8_SPLIT, "reads_ending_inside_a_multibyte_character"),
    (P_ESC_SPLIT, "reads_ending_inside_an_escape"),
    (P_CHECKED, "answers_compared_with_a_fresh_process"),
    (P_DMG_ACCEPTED, "damaged_indexes_accepted_and_compared"),
    (P_DMG_REJECTED, "damaged_indexes_rejected"),
    (P_TREES, "trees_accepted_and_rendered"),
    (P_REFUSED, "texts_refused"),
    (P_RANKED, "rankings_compared"),
    (P_RECOVERY, "loads_after_faults_stopped"),
    (P_LEAK_LOADS, "loads_in_heap_probes"),
    (P_READS, "read_calls"),
    (P_OPENS, "open_calls"),
    (P_STATS, "stat_calls"),
    (P_CUSTOM, "caller_supplied_parser_calls"),
    (P_BYTES, "bytes_served"),
    (P_PASSTHROUGH, "opens_of_real_files_by_the_library"),
];
