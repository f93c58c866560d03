//! What each property explores, at which bounds.

use crate::engine::Work;
use crate::hbytes::{self as hb, starts};
use crate::hsession::*;
use crate::hsweep as hw;
use crate::htable as ht;
use crate::{acts as ac, calls as cl, huff as hf, memory as me, proto as pr, sched as sc};

pub const IDS: [&str; 41] = [
    "H01", "H02", "H03", "H04", "H05", "H06", "H07", "H08", "H09", "H10", "H11", "H12", "H13", "H14", "H15", "H16", "H17", "H18", //
    "F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "F10", //
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13",
];
pub fn id(s: &str) -> Option<&'static str> {
    IDS.iter().copied().find(|x| *x == s)
}

const ALL_MODES: [Mode; 4] = [Mode::PerOp, Mode::Whole, Mode::Bytes, Mode::Exact];
const SIZES: [u32; 7] = [4096, 0, 33, 34, 68, 100, u32::MAX];

pub fn work(prop: &'static str, tier: &str) -> Vec<Work> {
    let deep = tier == "thorough";
    let q = |a: usize, b: usize| if deep { b } else { a };
    let mut w: Vec<Work> = vec![];
    let mut last: Vec<Work> = vec![]; // the largest spaces, after everything else
    let per_op = cfgs(&SIZES, &[Mode::PerOp]);
    let two = cfgs(&[4096, 68], &[Mode::PerOp]);
    let all = cfgs(&SIZES, &ALL_MODES);
    match prop {
        "H01" => {
            w.push(hw::numbers_onto(q(700, 17_000) as u32));
            w.extend(seqs("connections, size operations,", &sizes(), q(3, 4), &two).split_off(2));
            w.push(hw::limit_grid());
            w.push(hw::every_prior(q(34_000, 140_000) as u64));
            w.push(hw::all_distinct(q(200_000, 1_000_000) as u64));
            w.push(hw::apart(deep));
            w.push(hw::rooms(if deep { &ALL_MODES } else { &[Mode::Whole] }, deep));
            w.push(hw::public_flags());
            w.push(hw::contents(&ALL_MODES));
            w.push(hw::confusable());
            w.push(hw::cases(q(40, 300)));
            w.push(hw::near_misses());
            w.push(hw::many_fields(q(16, 17) as u32, &ALL_MODES));
            w.extend(seqs("sessions, all operations,", &full(), 2, &all));
            w.extend(seqs("sessions, core operations,", &core(), q(4, 5), &cfgs(&[4096, 100], &[Mode::Whole])).split_off(2));
            w.extend(lasso("periodic sessions, core operations,", &core(), q(2, 3), 120, &cfgs(&[4096, 68, 100], &[Mode::PerOp])));
            w.extend(lasso("periodic sessions, core operations, in pieces,", &core(), 1, 400, &cfgs(&[4096, 700], &ALL_MODES)));
            w.extend(search("connection search", core(), &[4096, 100], 40, q(3000, 60_000)));
            w.push(hw::lengths("0..700", hw::len_list(), 4096));
            w.push(hw::lengths("around the two- and three-octet boundaries", hw::len_big(), 70_000));
            w.push(hw::lengths("around powers of two", hw::len_pow(7, q(16, 21) as u32), 1 << 24));
            w.push(hw::every_length(q(17_000, 67_000) as u64));
            w.push(hw::indices(400, 0, 470, 1));
            w.push(hw::best_indices(400, 4));
            w.push(hw::best_indices(17_000, 1000));
            w.push(hw::long_lived(q(70_000, 300_000)));
            if deep {
                w.push(hw::lengths("around the four-octet boundary", hw::len_huge(), 1 << 26));
            }
            last.extend(seqs("sessions, all operations, deep,", &full(), 3, &cfgs(&SIZES, if deep { &ALL_MODES } else { &[Mode::Whole, Mode::Exact] })).split_off(2));
            if deep {
                last.extend(seqs("sessions, core operations, deep,", &core(), 6, &cfgs(&[4096, 100], &[Mode::Whole])).split_off(5));
                last.extend(seqs("sessions, core operations, deeper,", &core(), 7, &cfgs(&[100], &[Mode::Whole])).split_off(6));
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[68], &[Mode::Whole])).split_off(3));
            }
        }
        "H02" => {
            w.push(hw::all_distinct(q(200_000, 1_000_000) as u64));
            w.push(ht::every_entry(q(20_000, 140_000) as u64));
            w.push(hw::every_prior(q(34_000, 140_000) as u64));
            w.push(hw::apart(deep));
            w.push(hw::rooms(&[Mode::PerOp], false));
            w.push(hw::contents(&[Mode::PerOp]));
            w.push(hw::confusable());
            w.push(hw::cases(q(40, 300)));
            w.push(hw::near_misses());
            w.push(hw::many_fields(q(16, 17) as u32, &[Mode::Whole, Mode::Exact]));
            w.extend(seqs("connections, all operations,", &full(), 2, &all));
            w.extend(seqs("connections, evicting operations,", &evict(), q(7, 8), &cfgs(&[100, 68], &[Mode::Whole])).split_off(2));
            w.extend(seqs("connections, size operations,", &sizes(), q(3, 4), &two).split_off(2));
            w.extend(lasso("periodic connections, core operations,", &core(), q(2, 3), 120, &cfgs(&[4096, 68, 100], &[Mode::PerOp])));
            w.extend(search("connection search", core(), &[4096, 100, 34], 60, q(4000, 80_000)));
            w.push(hw::limit_grid());
            w.push(hw::lengths("0..700", hw::len_list(), 600));
            w.push(hw::every_length(q(17_000, 67_000) as u64));
            w.push(hw::lengths("around powers of two", hw::len_pow(7, q(16, 20) as u32), 1 << 24));
            w.push(hw::best_indices(400, 100));
            w.push(hw::long_lived(q(70_000, 300_000)));
            last.extend(seqs("connections, all operations, deep,", &full(), 3, &cfgs(&SIZES, &[Mode::PerOp])).split_off(2));
            if deep {
                last.extend(seqs("connections, core operations, deep,", &core(), 6, &cfgs(&[100, 68], &[Mode::Whole])).split_off(4));
                last.extend(seqs("connections, evicting operations, deep,", &evict(), 9, &cfgs(&[100, 68], &[Mode::Whole])).split_off(7));
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[100], &[Mode::PerOp])).split_off(3));
            }
        }
        "H03" => {
            w.push(ht::search_all(q(40_000, 150_000) as u64, 500));
            w.push(ht::apart(deep));
            w.push(ht::confusable());
            w.push(ht::near_misses());
            for n in 0..=q(4, 5) {
                w.push(ht::iterations(n));
            }
            w.extend(ht::histories("table histories", ht::alphabet(), 4, vec![None, Some(0), Some(68), Some(102), Some(4096), Some(u32::MAX)], 1));
            w.extend(ht::histories("periodic table histories", ht::alphabet(), 3, vec![None, Some(102), Some(1000)], 40));
            w.push(ht::table_search(Some(140), 60, q(20_000, 50_000)));
            w.push(ht::table_search(None, 60, q(4000, 50_000)));
            w.push(ht::long_runs());
            w.push(ht::find_all(130, 1));
            w.push(ht::find_all(700, 1));
            w.push(ht::find_all(17_000, q(1000, 50)));
            w.push(hw::indices(400, 0, 470, 1));
            if deep {
                w.push(ht::find_all(70_000, 1000));
                last.extend(ht::histories("table histories", ht::alphabet(), 5, vec![Some(68), Some(102), Some(4096)], 1).split_off(4));
                last.extend(ht::histories("table histories, small alphabet,", ht::small(), 7, vec![Some(140), Some(102), None], 1).split_off(5));
            }
        }
        "H04" => {
            w.push(hw::contents(&[Mode::PerOp]));
            w.extend(ht::histories("table histories", ht::alphabet(), q(5, 5), vec![None, Some(0), Some(68), Some(102), Some(u32::MAX)], 1));
            w.extend(ht::histories("periodic table histories", ht::alphabet(), 3, vec![None, Some(102), Some(1000)], q(40, 100)));
            w.push(ht::table_search(Some(140), 60, q(40_000, 60_000)));
            w.push(ht::table_search(None, 60, q(40_000, 60_000)));
            w.push(ht::size_grid());
            w.push(ht::every_entry(q(34_000, 140_000) as u64));
            w.push(ht::long_runs());
            w.push(ht::find_all(17_000, 1000));
            w.extend(seqs("connections, evicting operations,", &evict(), q(6, 7), &cfgs(&[4096, 100, 68, 34, 33, 0], &[Mode::PerOp])));
            w.extend(seqs("connections, size operations,", &sizes(), q(4, 5), &per_op));
            w.extend(seqs("connections, all operations,", &full(), 2, &all));
            w.extend(lasso("periodic connections, core operations,", &core(), 2, 120, &cfgs(&[4096, 68, 100], &[Mode::PerOp])));
            w.push(hw::long_lived(q(70_000, 300_000)));
            last.extend(ht::histories("table histories, small alphabet,", ht::small(), q(7, 8), vec![Some(140), Some(102), None], 1).split_off(5));
            last.extend(ht::histories("table histories", ht::alphabet(), 6, vec![Some(102)], 1).split_off(5));
            last.extend(seqs("connections, all operations, deep,", &full(), 3, &cfgs(&[68], &[Mode::PerOp])).split_off(2));
            if deep {
                last.extend(ht::histories("table histories, small alphabet,", ht::small(), 9, vec![Some(102)], 1).split_off(8));
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[68], &[Mode::PerOp])).split_off(3));
            }
        }
        "H05" => {
            w.push(hb::endless(q(16, 70)));
            w.push(hw::rooms(&[Mode::PerOp], false));
            w.push(hw::many_fields(q(16, 17) as u32, &[Mode::Whole]));
            w.extend(seqs("connections, size operations,", &sizes(), 4, &per_op));
            w.extend(seqs("connections, size operations, other deliveries,", &sizes(), 3, &cfgs(&SIZES, &[Mode::Whole, Mode::Bytes, Mode::Exact])));
            w.extend(seqs("connections, all operations,", &full(), 2, &all));
            w.extend(lasso("periodic connections, size operations,", &sizes(), 2, q(200, 300), &two));
            w.push(hw::limit_grid());
            w.push(hw::huge_sizes());
            w.push(hw::sizes_block("0..2^20", 0, 256, 4096));
            w.push(hw::sizes_block("around 2^28", (1 << 28) - 32768, 16, 4096));
            w.push(hw::long_lived(q(70_000, 300_000)));
            for n in 0..=q(5, 6) {
                w.push(hw::int_strings(n));
            }
            for st in starts() {
                w.push(hb::grammar(1, st));
            }
            last.push(hw::sizes_block("all five-octet values", 0, 4096 + 1, 65536));
            last.extend(seqs("connections, all operations, deep,", &full(), 3, &cfgs(&[100], &[Mode::PerOp])).split_off(2));
            last.extend(seqs("connections, size operations, deep,", &sizes(), 5, if deep { &per_op } else { &two }).split_off(4));
            if deep {
                last.extend(seqs("connections, size operations, deeper,", &sizes(), 6, &cfgs(&[68], &[Mode::PerOp])).split_off(5));
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[100], &[Mode::PerOp])).split_off(3));
            }
        }
        "H06" => {
            w.push(hw::limit_grid());
            w.push(hb::endless(q(16, 70)));
            w.push(hw::every_prior(q(34_000, 140_000) as u64));
            w.push(hw::all_distinct(q(200_000, 1_000_000) as u64));
            w.push(hb::rooms(1, deep));
            w.push(hb::rooms(2, false));
            w.push(hw::rooms(&[Mode::PerOp], false));
            w.push(hw::public_flags());
            w.push(hw::contents(&[Mode::PerOp]));
            w.push(hw::many_fields(q(16, 17) as u32, &[Mode::Whole]));
            for st in starts() {
                w.push(hb::after_failure(q(70, 300) as u64, st.clone()));
                w.push(hb::strings("every octet string", hb::all_bytes(), 1, st.clone()));
                w.push(hb::strings("every octet string", hb::all_bytes(), 2, st.clone()));
                w.push(hb::grammar(1, st.clone()));
                w.push(hb::grammar(2, st.clone()));
                w.push(hb::corrupt(1, st.clone()));
                w.push(hb::sequences(2, st.clone()));
                w.push(hb::exact(1, st.clone(), true));
                w.push(hb::exact(2, st.clone(), true));
                for n in 3..=4 {
                    w.push(hb::strings("strings over edge octets", hb::edge_bytes(), n, st.clone()));
                }
            }
            for n in 0..=q(4, 6) {
                w.push(hw::int_strings(n));
            }
            w.push(hw::lengths("0..700", hw::len_list(), 4096));
            w.push(hw::every_length(q(17_000, 67_000) as u64));
            w.push(hw::lengths("around powers of two", hw::len_pow(7, q(16, 20) as u32), 1 << 24));
            w.push(hb::huffman_in_fields(q(2, 3)));
            w.push(hb::repeated(3000));
            w.push(hw::indices(400, 0, 470, 1));
            w.extend(seqs("connections, all operations,", &full(), 2, &cfgs(&SIZES, &[Mode::PerOp, Mode::Bytes])));
            w.push(hw::long_lived(q(70_000, 300_000)));
            w.push(hb::strings("every octet string", hb::all_bytes(), 3, starts()[1].clone()));
            if deep {
                for st in starts() {
                    last.push(hb::strings("strings over edge octets", hb::edge_bytes(), 5, st.clone()));
                    last.push(hb::corrupt(2, st.clone()));
                }
                for st in starts() {
                    last.push(hb::grammar(3, st.clone()));
                }
                for st in starts() {
                    last.push(hb::strings("every octet string", hb::all_bytes(), 3, st));
                }
            }
        }
        "H07" => {
            w.push(hw::lengths("0..700", hw::len_list(), 4096));
            w.push(hw::every_length(q(17_000, 67_000) as u64));
            w.push(hw::lengths("around powers of two", hw::len_pow(7, q(16, 20) as u32), 1 << 24));
            w.push(hw::contents(&[Mode::PerOp]));
            w.push(hw::indices(400, 0, 470, 1));
            w.push(hb::exact_long());
            w.push(hw::every_prior(q(34_000, 140_000) as u64));
            w.push(hb::endless(q(16, 70)));
            w.push(hb::rooms(1, deep));
            w.push(hb::rooms(2, false));
            w.push(hw::many_fields(q(16, 17) as u32, &[Mode::Whole]));
            for st in starts() {
                w.push(hb::after_failure(q(70, 300) as u64, st.clone()));
                w.push(hb::strings("every octet string", hb::all_bytes(), 1, st.clone()));
                w.push(hb::strings("every octet string", hb::all_bytes(), 2, st.clone()));
                w.push(hb::grammar(1, st.clone()));
                w.push(hb::corrupt(1, st.clone()));
                w.push(hb::sequences(2, st.clone()));
                w.push(hb::exact(1, st.clone(), true));
                w.push(hb::exact(2, st.clone(), true));
                w.push(hb::grammar(2, st.clone()));
                for n in 3..=4 {
                    w.push(hb::strings("strings over edge octets", hb::edge_bytes(), n, st.clone()));
                }
            }
            for n in 0..=q(4, 6) {
                w.push(hw::int_strings(n));
            }
            w.push(hb::huffman_in_fields(q(2, 3)));
            w.push(hb::repeated(3000));
            w.push(hb::repeated(q(150_000, 400_000)));
            w.push(hb::claimed_lengths());
            w.extend(seqs("connections, all operations,", &full(), 2, &cfgs(&SIZES, &[Mode::PerOp])));
            w.push(hw::long_lived(q(70_000, 300_000)));
            w.push(hw::huge_sizes());
            w.push(hb::strings("every octet string", hb::all_bytes(), 3, starts()[2].clone()));
            if deep {
                for st in starts() {
                    last.push(hb::strings("strings over edge octets", hb::edge_bytes(), 5, st.clone()));
                    last.push(hb::corrupt(2, st.clone()));
                }
                for st in starts() {
                    last.push(hb::sequences(3, st.clone()));
                }
                for st in starts() {
                    last.push(hb::strings("every octet string", hb::all_bytes(), 3, st));
                }
            }
        }
        "H08" => {
            w.push(hb::exact_long());
            w.push(hb::claimed_lengths());
            w.push(hw::long_lived(q(70_000, 300_000)));
            w.push(hb::endless(q(16, 70)));
            w.push(hb::rooms(1, deep));
            w.push(hb::rooms(2, false));
            for st in starts() {
                w.push(hb::after_failure(q(70, 300) as u64, st.clone()));
                w.push(hb::strings("every octet string", hb::all_bytes(), 1, st.clone()));
                w.push(hb::strings("every octet string", hb::all_bytes(), 2, st.clone()));
                w.push(hb::grammar(1, st.clone()));
                w.push(hb::grammar(2, st.clone()));
                w.push(hb::sequences(2, st.clone()));
                w.push(hb::corrupt(1, st.clone()));
                w.push(hb::exact(1, st.clone(), true));
                w.push(hb::exact(2, st.clone(), true));
                for n in 3..=4 {
                    w.push(hb::strings("strings over edge octets", hb::edge_bytes(), n, st.clone()));
                }
            }
            w.push(hb::huffman_in_fields(2));
            w.push(hb::repeated(3000));
            w.extend(seqs("connections, size operations,", &sizes(), 3, &all));
            for st in starts() {
                last.push(hb::corrupt(2, st.clone()));
            }
            if deep {
                for st in starts() {
                    last.push(hb::sequences(3, st.clone()));
                    last.push(hb::exact(3, st.clone(), true));
                }
                for st in starts() {
                    last.push(hb::grammar(3, st.clone()));
                }
                for st in starts() {
                    last.push(hb::strings("strings over edge octets", hb::edge_bytes(), 5, st.clone()));
                }
            }
        }
        "H09" => {
            w.push(hw::rooms(&[Mode::Bytes], false));
            w.push(hw::contents(&[Mode::Bytes]));
            w.push(hw::many_fields(q(12, 14) as u32, &[Mode::Bytes]));
            for st in starts() {
                w.push(hb::fragmented(1, st.clone(), true));
                w.push(hb::fragmented(2, st.clone(), deep));
                w.push(hb::fragmented_all(1, st.clone()));
                w.push(hb::fragmented_all(2, st.clone()));
                last.push(hb::fragmented(3, st.clone(), false));
            }
            w.push(hb::fragmented_long());
            w.extend(seqs("sessions octet by octet, all operations,", &full(), 2, &cfgs(&SIZES, &[Mode::Bytes])));
            w.extend(seqs("sessions octet by octet, core operations,", &core(), 5, &cfgs(&[4096, 100], &[Mode::Bytes])).split_off(2));
            w.extend(lasso("periodic sessions octet by octet, core operations,", &core(), 2, 120, &cfgs(&[4096, 100], &[Mode::Bytes])));
            last.extend(seqs("sessions octet by octet, all operations, deep,", &full(), 3, &cfgs(&[4096, 100], &[Mode::Bytes])).split_off(2));
            if deep {
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[68], &[Mode::Bytes])).split_off(3));
            }
        }
        "H10" => {
            w.push(hw::apart(deep));
            w.push(hw::every_length(q(17_000, 67_000) as u64));
            w.push(hw::public_flags());
            w.push(hw::rooms(&[Mode::PerOp], false));
            w.push(hw::contents(&[Mode::PerOp]));
            w.push(hw::confusable());
            w.push(hw::cases(q(40, 300)));
            w.push(hw::near_misses());
            w.extend(seqs("connections, sensitive headers,", &sens(), 2, &cfgs(&[4096, 100], &[Mode::PerOp])));
            w.extend(seqs("connections, all operations,", &full(), 2, &all));
            for st in starts() {
                w.push(hb::grammar(1, st.clone()));
                w.push(hb::strings("every octet string", hb::all_bytes(), 2, st.clone()));
            }
            w.extend(lasso("periodic connections, sensitive headers,", &sens(), 1, 200, &two));
            w.push(hw::lengths("0..700", hw::len_list(), 4096));
            w.push(hw::lengths("around powers of two", hw::len_pow(7, q(14, 20) as u32), 1 << 24));
            w.push(hw::best_indices(400, 4));
            w.push(hw::best_indices(17_000, 1000));
            w.push(hw::long_lived(q(70_000, 300_000)));
            last.extend(seqs("connections, all operations, deep,", &full(), 3, &cfgs(&[4096, 68, 100], &[Mode::PerOp])).split_off(2));
            if deep {
                last.extend(seqs("connections, sensitive headers, deep,", &sens(), 3, &cfgs(&[100], &[Mode::PerOp])).split_off(2));
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[4096], &[Mode::PerOp])).split_off(3));
            }
        }
        "H11" => {
            w.push(hw::numbers_onto(q(700, 17_000) as u32));
            w.push(hw::every_prior(q(34_000, 140_000) as u64));
            w.push(hw::apart(deep));
            w.push(hw::rooms(&[Mode::PerOp], false));
            w.push(hw::public_flags());
            w.push(hw::contents(&[Mode::PerOp]));
            w.push(hw::confusable());
            w.push(hw::cases(q(40, 300)));
            w.push(hw::near_misses());
            w.extend(seqs("connections, all operations,", &full(), 2, &per_op));
            w.extend(seqs("connections, sensitive headers,", &sens(), 2, &two));
            w.push(hw::lengths("0..700", hw::len_list(), 4096));
            w.push(hw::every_length(q(17_000, 67_000) as u64));
            w.push(hw::lengths("around powers of two", hw::len_pow(7, q(16, 20) as u32), 1 << 24));
            w.push(hw::indices(400, 0, 470, 1));
            w.push(hw::best_indices(400, 4));
            w.push(hw::best_indices(17_000, q(500, 50) as u32));
            w.push(hw::static_requests());
            w.push(hw::long_lived(q(70_000, 300_000)));
            w.extend(search("connection search", core(), &[4096, 100], 40, q(2000, 40_000)));
            last.extend(seqs("connections, all operations, deep,", &full(), 3, &cfgs(&[4096, 68, 100], &[Mode::PerOp])).split_off(2));
            if deep {
                last.extend(seqs("connections, core operations, deep,", &core(), 6, &cfgs(&[4096, 100], &[Mode::PerOp])).split_off(4));
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[100], &[Mode::PerOp])).split_off(3));
            }
        }
        "H12" => {
            w.push(hw::numbers_onto(q(700, 17_000) as u32));
            w.push(hb::endless(q(16, 70)));
            w.push(hw::rooms(&[Mode::PerOp], false));
            w.push(hw::indices(100, 0, 170, 1));
            w.push(hw::indices(if deep { 70_000 } else { 17_000 }, if deep { 0 } else { 16_300 }, if deep { 70_060 } else { 16_560 }, if deep { 331 } else { 1 }));
            w.push(hw::index_with_insert(if deep { 66_000 } else { 17_000 }));
            w.push(hw::lengths("0..700", hw::len_list(), 4096));
            w.push(hw::lengths("around the two- and three-octet boundaries", hw::len_big(), 70_000));
            w.push(hw::every_length(q(17_000, 67_000) as u64));
            w.push(hw::lengths("around powers of two", hw::len_pow(7, q(17, 21) as u32), 1 << 24));
            w.push(hw::best_indices(400, 4));
            w.push(hw::sizes_block("0..2^24", 0, 256, 65536));
            w.push(hw::sizes_block("around 2^28", (1 << 28) - 32768, 16, 4096));
            w.push(hw::sizes_enc("top of the range", (1 << 32) - (1 << 22), 64, 65536));
            w.push(hw::sizes_enc("around 2^28 and on", (1 << 28) - (1 << 20), 64, 65536));
            w.push(hw::sizes_enc("around 2^31", (1 << 31) - (1 << 20), 32, 65536));
            w.extend(seqs("connections, all operations,", &full(), 2, &per_op));
            for n in 0..=q(5, 6) {
                w.push(hw::int_strings(n));
            }
            w.push(hw::int_cut());
            for st in [starts()[1].clone(), starts()[5].clone()] {
                w.push(hb::grammar(1, st));
            }
            if deep {
                w.push(hw::lengths("around the four-octet boundary", hw::len_huge(), 1 << 26));
                last.push(hw::sizes_block("all five-octet values", 0, 4096 + 1, 65536));
                last.push(hw::sizes_enc("all values", 0, 65536, 65536));
            }
        }
        "H13" => {
            w.push(hw::every_length(q(17_000, 67_000) as u64));
            w.push(hb::endless(q(16, 70)));
            w.push(hw::every_prior(q(34_000, 140_000) as u64));
            w.push(hb::rooms(1, deep));
            w.push(hb::rooms(2, false));
            w.push(hw::rooms(&[Mode::Whole], false));
            w.push(hw::contents(&[Mode::Exact, Mode::Whole]));
            w.push(hw::many_fields(q(16, 17) as u32, &[Mode::Exact, Mode::Whole]));
            for st in starts() {
                for n in 1..=2 {
                    w.push(hb::exact(n, st.clone(), true));
                }
                w.push(hb::grammar(1, st.clone()));
                w.push(hb::strings("every octet string", hb::all_bytes(), 2, st.clone()));
                last.push(hb::exact(3, st.clone(), deep));
            }
            w.push(hb::exact_long());
            w.extend(seqs("connections, all operations,", &full(), 2, &cfgs(&SIZES, &[Mode::Exact, Mode::Whole, Mode::PerOp])));
            w.extend(seqs("connections, core operations,", &core(), 5, &cfgs(&[4096, 100], &[Mode::Exact])).split_off(2));
            w.push(hw::lengths("0..700", hw::len_list(), 4096));
            w.push(hw::lengths("around powers of two", hw::len_pow(7, q(16, 20) as u32), 1 << 24));
            w.push(hw::long_lived(q(70_000, 300_000)));
            last.extend(seqs("connections, all operations, deep,", &full(), 3, &cfgs(&[4096, 68], &[Mode::Exact])).split_off(2));
            if deep {
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[4096], &[Mode::Exact])).split_off(3));
            }
        }
        "H14" => {
            w.push(hw::numbers_onto(q(700, 17_000) as u32));
            w.push(hw::every_prior(q(34_000, 140_000) as u64));
            w.push(hw::rooms(&[Mode::PerOp], false));
            w.extend(seqs("connections, invalid requests,", &invalid(), 2, &per_op));
            w.extend(seqs("connections, all operations,", &full(), 2, &per_op));
            w.push(hw::indices(400, 0, 520, 1));
            w.push(hw::indices(17_000, 17_000, 17_200, 1));
            w.extend(lasso("periodic connections, invalid requests,", &invalid(), 2, 100, &two));
            w.push(hw::long_lived(q(70_000, 300_000)));
            last.extend(seqs("connections, invalid requests, deep,", &invalid(), 3, &cfgs(&[4096, 68, 100, 0], &[Mode::PerOp])).split_off(2));
            last.extend(seqs("connections, all operations, deep,", &full(), 3, &cfgs(&[4096, 68, 100], &[Mode::PerOp])).split_off(2));
            if deep {
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[68], &[Mode::PerOp])).split_off(3));
            }
        }
        "H15" => {
            w.push(hw::contents(&[Mode::PerOp]));
            w.push(ht::confusable());
            w.push(ht::near_misses());
            w.extend(ht::histories("table histories", ht::alphabet(), 4, vec![None, Some(0), Some(102)], 1));
            w.extend(ht::histories("periodic table histories", ht::alphabet(), 2, vec![None, Some(1000)], 60));
            w.extend(seqs("connections, all operations,", &full(), 2, &per_op));
            w.extend(seqs("connections, core operations,", &core(), 4, &two));
            w.push(ht::long_runs());
            w.push(hw::static_requests());
            w.push(hw::indices(400, 0, 80, 1));
            w.extend(lasso("periodic connections, core operations,", &core(), 2, 150, &two));
            w.push(hw::long_lived(q(70_000, 300_000)));
            last.extend(seqs("connections, all operations, deep,", &full(), 3, &cfgs(&[100], &[Mode::PerOp])).split_off(2));
            if deep {
                last.extend(seqs("all operations, deeper,", &full(), 4, &cfgs(&[100], &[Mode::PerOp])).split_off(3));
            }
        }
        "H16" => {
            for n in 1..=q(5, 6) {
                w.push(ht::interleave(2, n, 2));
                w.push(ht::interleave(2, n, 0));
            }
            for n in 1..=q(4, 5) {
                w.push(ht::interleave(2, n, 1));
            }
            for n in 1..=q(5, 6) {
                w.push(ht::interleave(2, n, 3));
            }
            for n in 1..=q(4, 5) {
                w.push(ht::interleave(3, n, 4));
            }
            for n in 1..=q(4, 5) {
                w.push(ht::interleave(2, n, 5));
            }
            for n in 2..=q(3, 4) {
                w.push(ht::moves(1, n, 2, 3));
                w.push(ht::moves(1, n, 0, 3));
                w.push(ht::moves(1, n, 3, 3));
                w.push(ht::moves(1, n, 5, 3));
            }
            w.push(ht::moves(1, q(4, 5), 7, 2));
            w.push(ht::moves(2, q(2, 3), 2, 3));
            w.push(ht::moves(2, q(3, 4), 4, 3));
            w.push(ht::influence());
            w.push(ht::many_fresh(q(70_000, 1 << 20)));
            w.push(ht::crowd(q(13, 17) as u32, q(25, 29) as u32));
        }
        "H18" => {
            w.push(me::connections(1, q(1 << 17, 1 << 20) as u64));
            w.push(me::connections(2, q(8192, 1 << 15) as u64));
            w.push(me::come_and_go(1, q(1 << 15, 1 << 18) as u64));
            w.push(me::come_and_go(2, q(2048, 1 << 14) as u64));
            if deep {
                last.push(me::connections(3, 4096));
            }
        }
        "F10" => {
            w.push(me::huffman(1, q(1 << 17, 1 << 21) as u64));
            w.push(me::huffman(2, q(1 << 16, 1 << 18) as u64));
            if deep {
                last.push(me::huffman(3, 1 << 14));
            }
        }
        "P13" => {
            w.push(me::coders(1, q(1 << 18, 1 << 20) as u64));
            w.push(me::coders(2, q(1 << 16, 1 << 18) as u64));
            if deep {
                last.push(me::coders(3, 1 << 13));
            }
        }
        "F09" => {
            w.push(cl::call_words(0, 1, &[1], 4));
            w.push(cl::call_words(0, 2, &[1], 4));
            w.push(cl::call_words(1, 2, &[2, 3, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000], 1));
            w.push(cl::call_words(1, 3, &[1], q(1, 4)));
            w.push(cl::same_buffers(0, 2));
            w.push(cl::same_buffers(1, q(3, 4)));
            w.push(cl::call_words(2, q(4, 6), &[1], 1));
            w.push(cl::call_words(2, 2, &[4095, 4096, 65_535, 65_536], 1));
            if deep {
                w.push(cl::call_words(1, 2, &[4096, 65_535, 65_537], 1));
                last.push(cl::call_words(0, 3, &[1], 1));
            }
        }
        "P12" => {
            for n in 1..=q(4, 5) {
                w.push(cl::interleave(2, n, 4));
            }
            for n in 1..=q(3, 4) {
                w.push(cl::interleave(3, n, 5));
            }
            for n in 2..=q(3, 4) {
                w.push(cl::moves(1, n, 4));
            }
            w.push(cl::moves(2, q(2, 3), 5));
            w.push(cl::within());
            w.push(cl::influence());
            w.push(cl::crowd(q(13, 17) as u32, q(25, 29) as u32));
            w.push(cl::many_fresh(q(70_000, 1 << 20)));
        }
        "F01" | "F02" => {
            for n in 0..=2 {
                w.push(hf::texts(n));
            }
            w.push(hf::phased_pairs());
            for n in 1..=q(4, 5) {
                w.push(hf::class_texts(n));
            }
            w.push(hf::long_texts());
            w.push(hf::mixed_texts(q(21, 24) as u32));
            w.push(hf::every_text(q(34_000, 67_000) as u64));
            w.push(hf::apart(false));
            w.push(hf::prior_texts());
            w.push(hf::every_prior(q(67_000, 140_000) as u64, false));
            w.push(hf::rooms());
            w.push(hf::text_histories());
            w.push(hf::shared_encodings(q(3000, 70_000)));
            if prop == "F02" {
                w.push(hf::symbol_ends());
            }
            last.push(hf::texts(3));
            if deep {
                last.push(hf::texts(4));
            }
        }
        "F03" | "F04" | "F07" => {
            for n in 0..=q(3, 3) {
                w.push(hf::octets(n));
            }
            w.push(hf::symbol_ends());
            w.push(hf::wmethod(q(5, 6) as u32));
            w.push(hf::long_inputs(false));
            w.push(hf::half_way());
            w.push(hf::mixed_inputs(q(17, 22) as u32));
            w.push(hf::every_input(q(17_000, 67_000) as u64));
            w.push(hf::apart(true));
            w.push(hf::prior_outputs());
            w.push(hf::every_prior(q(67_000, 140_000) as u64, true));
            w.push(hf::rooms());
            w.push(hf::pair_histories());
            w.push(hf::shared_output(q(3000, 70_000)));
            w.push(hf::speed_histories(2));
            if prop == "F04" {
                w.push(hf::speed_histories(3));
                w.push(hf::speeds_known());
            }
            if deep {
                last.push(hf::long_inputs(true));
                last.push(hf::wmethod(8));
                if prop == "F04" {
                    last.push(hf::speed_histories(4));
                }
                last.push(hf::octets_then());
            }
        }
        "F05" => {
            w.push(hf::shipped());
            w.push(hf::codes(2, 4));
            w.push(hf::codes(3, q(5, 7)));
            w.push(hf::codes(4, q(2, 4)));
            w.push(hf::deep_codes(1));
            w.push(hf::deep_codes(2));
            w.push(hf::word_pairs(deep));
            w.push(hf::combs());
            w.push(hf::broad_codes());
            w.push(hf::shipped_variants());
            w.push(hf::flat_histories());
            if deep {
                w.push(hf::codes(3, 8));
                w.push(hf::deep_codes(3));
                last.push(hf::codes(5, 0));
            }
        }
        "F06" => {
            w.push(hf::parse_edges());
            w.push(hf::parse_lines(q(21, 24) as u32));
            for n in 1..=q(5, 6) {
                w.push(hf::parse_texts(n));
            }
            w.push(hf::parse_asset());
            w.push(hf::parse_long(q(16, 18) as u32));
        }
        "P01" | "P02" => {
            w.push(pr::every_prior(q(67_000, 200_000) as u64));
            w.push(pr::field_rooms(deep));
            if prop == "P02" {
                w.push(pr::named());
            }
            w.push(pr::vectors(q(3, 4)));
            w.push(pr::values());
            w.push(pr::consecutive(0, q(1 << 18, 1 << 22) as u64));
            w.push(pr::consecutive((1 << 31) - (1 << 16), 1 << 17));
            w.push(pr::consecutive((1 << 63) - (1 << 14), 1 << 15));
            w.push(pr::consecutive(0u64.wrapping_sub(1 << 17), 1 << 17));
            w.push(pr::vector_lengths(300, deep));
            w.push(pr::every_length(q(34_000, 140_000) as u64));
            w.push(pr::apart());
            w.push(pr::byte_fields(400, deep));
            w.push(pr::tags());
            w.push(pr::tag_values());
            w.push(pr::messages(2));
            w.push(pr::long_lived(q(70_000, 300_000)));
            if deep {
                last.push(pr::all32());
            }
        }
        "P03" => {
            w.push(pr::every_prior(q(67_000, 200_000) as u64));
            w.push(pr::field_rooms(deep));
            w.push(pr::stream_rooms(q(1, 2), deep));
            w.push(pr::vectors(q(2, 3)));
            w.push(pr::values());
            w.push(pr::vector_lengths(300, deep));
            w.push(pr::every_length(q(34_000, 140_000) as u64));
            w.push(pr::apart());
            w.push(pr::byte_fields(400, deep));
            w.push(pr::tags());
            w.push(pr::tag_values());
            w.push(pr::consecutive(0, 1 << 16));
            w.push(pr::messages(2));
            w.push(pr::streams(q(2, 3)));
            w.push(pr::pieces(q(1, 2), 2));
            w.push(pr::pieces(q(2, 3), 1));
            for n in 1..=q(2, 3) {
                w.push(pr::strings(n, pr::every_octet(), pr::fresh(), "every octet"));
            }
            w.push(pr::strings(2, pr::every_octet(), pr::decoder_states(), "every octet"));
            w.push(pr::long_streams(q(40, 200)));
            w.push(pr::long_messages(q(20, 100)));
            w.push(pr::long_lived(q(70_000, 300_000)));
            if deep {
                last.push(pr::all32());
            }
        }
        "P04" => {
            w.push(pr::claims(deep));
            w.push(pr::pieces_every(q(40_000, 140_000) as u64));
            w.push(pr::stream_rooms(2, deep));
            w.push(pr::pieces(2, 2));
            w.push(pr::pieces(3, q(0, 1)));
            w.push(pr::pieces_long(q(3, 3)));
            w.push(pr::pieces_big(deep));
            w.push(pr::compositions(q(16, 20)));
            w.push(pr::long_streams(q(60, 300)));
            w.push(pr::long_lived(q(70_000, 300_000)));
            if deep {
                last.push(pr::pieces(4, 0));
                last.push(pr::pieces(3, 2));
            }
        }
        "P05" => {
            w.push(pr::claims(deep));
            w.push(pr::pieces_every(q(34_000, 140_000) as u64));
            w.push(pr::every_prior(q(67_000, 200_000) as u64));
            w.push(pr::stream_rooms(2, deep));
            w.push(pr::named());
            for n in 1..=3 {
                w.push(pr::strings(n, pr::every_octet(), pr::fresh(), "every octet"));
            }
            w.push(pr::strings(2, pr::every_octet(), pr::decoder_states(), "every octet"));
            for n in 4..=6 {
                w.push(pr::strings(n, pr::edge_octets(), pr::fresh(), "edge octets"));
            }
            for n in 1..=5 {
                w.push(pr::strings(n, pr::edge_octets(), pr::decoder_states(), "edge octets"));
            }
            w.push(pr::varint_shapes());
            w.push(pr::streams(4));
            w.push(pr::pieces(1, 2));
            w.push(pr::pieces(2, 1));
            w.push(pr::pieces_big(deep));
            w.push(pr::long_streams(q(40, 200)));
            w.push(pr::long_lived(q(70_000, 300_000)));
            last.push(pr::strings(3, pr::every_octet(), pr::decoder_states(), "every octet"));
            if deep {
                last.push(pr::strings(7, pr::edge_octets(), pr::fresh(), "edge octets"));
                last.push(pr::strings(4, pr::every_octet(), pr::fresh(), "every octet"));
            }
        }
        "P06" => {
            w.push(pr::field_rooms(false));
            w.push(pr::named());
            w.push(pr::tags());
            w.push(pr::tag_zero());
            w.push(pr::key_values());
            w.push(pr::tag_values());
            w.push(pr::tag_sweep(0, 1 << q(20, 24)));
            w.push(pr::tag_sweep((1 << 28) - (1 << 16), 1 << 17));
            w.push(pr::tag_sweep((1 << 29) - (1 << 16), 1 << 17));
            w.push(pr::tag_sweep((1 << 32) - (1 << 16), 1 << 16));
            for k in 1..8u64 {
                w.push(pr::tag_sweep((k << 29) - 4096, 8192));
            }
            w.push(pr::long_streams(10));
            last.push(pr::all_tags());
        }
        "P07" => {
            w.push(pr::every_write(q(12_000, 40_000) as u64));
            w.push(pr::steady());
            w.push(pr::faulty(1, 24));
            w.push(pr::faulty(2, 24));
            w.push(pr::big_writes());
            if deep {
                w.push(pr::faulty(3, 20));
            }
        }
        "P08" => {
            w.push(pr::structured_conversions());
            w.push(pr::code_points());
            w.push(pr::every_text(q(17_000, 67_000) as u64));
            w.push(pr::text_boundaries(q(17, 22) as u32));
            w.push(pr::conversions(2));
            w.push(pr::natural_conversions(3));
            for n in 3..=q(4, 5) {
                w.push(pr::edge_conversions(n));
            }
            w.push(pr::element_sequences(q(3, 4)));
            w.push(pr::long_contents(q(2500, 5000) as u64));
            for n in 1..=q(4, 5) {
                w.push(pr::texts(n));
            }
            if deep {
                last.push(pr::natural_conversions(4));
            }
        }
        "P09" => {
            w.push(pr::pieces_every(q(40_000, 140_000) as u64));
            w.push(pr::stream_rooms(2, deep));
            w.push(pr::streams(4));
            w.push(pr::pieces(1, 2));
            w.push(pr::pieces(2, 1));
            w.push(pr::pieces_long(1));
            w.push(pr::long_lived(q(70_000, 300_000)));
            for n in 1..=q(2, 3) {
                w.push(pr::strings(n, pr::every_octet(), pr::fresh(), "every octet"));
            }
            w.push(pr::strings(2, pr::every_octet(), pr::decoder_states(), "every octet"));
            for n in 3..=5 {
                w.push(pr::strings(n, pr::edge_octets(), pr::fresh(), "edge octets"));
                w.push(pr::strings(n, pr::edge_octets(), pr::decoder_states(), "edge octets"));
            }
            w.push(pr::varint_shapes());
        }
        "P10" => {
            w.push(pr::pieces_every(q(20_000, 140_000) as u64));
            w.push(pr::every_prior(q(67_000, 200_000) as u64));
            w.push(pr::streams(q(3, 4)));
            w.push(pr::strings(3, pr::every_octet(), pr::fresh(), "every octet"));
            w.push(pr::long_streams(q(40, 200)));
            w.push(pr::varint_shapes());
            w.push(pr::every_size(q(67_000, 200_000) as u64));
            w.push(pr::stream_rooms(2, deep));
            w.push(pr::messages(3));
            w.push(pr::long_messages(q(60, 300)));
            w.push(pr::nesting(q(12, 40)));
            w.push(pr::big_messages(deep));
            w.push(pr::long_lived(q(70_000, 300_000)));
            if deep {
                last.push(pr::messages(4));
            }
        }
        "H17" | "F08" | "P11" => {
            let sets = match prop {
                "H17" => vec![("readers of one object", ac::shared()), ("tables", ac::tables()), ("encoders and decoders", ac::hpack())],
                "F08" => vec![("encoding and decoding", ac::huffman()), ("parser and flattener", ac::generators())],
                _ => vec![("encoding, decoding and conversions", ac::protos())],
            };
            for (n, a) in sets {
                w.push(sc::races(n, prop, a.clone(), true, false, if deep { sc::Pairs::All } else { sc::Pairs::Related }, 8));
                w.push(sc::races(n, prop, a.clone(), false, false, if deep { sc::Pairs::Related } else { sc::Pairs::First }, 8));
                if deep {
                    last.push(sc::races(n, prop, a, true, true, sc::Pairs::Next, 32));
                }
            }
        }
        _ => {}
    }
    w.extend(last);
    w
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v: Vec<&str> = vec![
        "exhaustive within the listed spaces only; inputs outside them are not covered",
        "the crates are compiled with overflow checks and debug assertions",
        "the reference model in mc/src is trusted (its tables were cross-checked against golang.org/x/net)",
    ];
    if ["H17", "F08", "P11"].contains(&prop) {
        v = vec![
            "two threads; at most one stop of the thread that starts (thorough: one of each) at machine instructions of this build on this processor; sequentially consistent order of the instructions",
            "calls from a fixed list; stops inside the kernel and beyond the first 131072 instructions of a call are not explored",
        ];
        return v.into_iter().map(String::from).collect();
    }
    if ["H18", "F10", "P13"].contains(&prop) {
        v[2] = "memory is what goes through the global allocator in the calling thread; a growth too slow for the rounds explored is not seen";
    }
    if ["F09", "P12"].contains(&prop) {
        v[2] = "what a call or an object does in a process of its own is taken as right; the other checks compare it with the reference model";
    }
    match &prop[..1] {
        "H" => v.push("one thread; string contents from small alphabets chosen for the branches of the code"),
        "F" => v.push("decoder inputs beyond the exhaustive lengths are covered by the state-cover suite, assuming an implementation with at most the states of the reference automaton"),
        _ => v.push("field contents from boundary alphabets beyond the exhaustive ranges"),
    }
    v.into_iter().map(String::from).collect()
}
