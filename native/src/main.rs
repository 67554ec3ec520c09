mod util;
mod archive;
mod compaction;
mod filesys;
mod history;
mod linked;
mod lists;
mod model;
mod names;
mod objects;
mod replay;
#[path = "../../contracts/src.rs"]
mod src;
pub use src::Src;
#[path = "../../contracts/compaction.rs"]
mod contracts;

use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--replay" { std::process::exit(replay::replay(&a[2], &a[3])); }
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let prop = a[1].as_str();
    let o = Opts {
        seed: num("--seed", 1), cases: num("--cases", u64::MAX), secs: num("--ms", 5000) as f64 / 1000.0, threads: num("--threads", 8) as usize,
        scratch: get("--scratch").expect("--scratch DIR").into(),
        only: get("--case").map(|v| { let (i, s) = v.split_once(':').unwrap(); (i.parse().unwrap(), s.parse().unwrap()) }),
    };
    std::fs::create_dir_all(&o.scratch).unwrap();
    let (f, rule): (CaseFn, &str) = match prop {
        "C01" => (compaction::c01, compaction::RULE_SEQ),
        "C02" => (compaction::c02, compaction::RULE_SEQ),
        "C03" => (compaction::c03, "a case is a batch of integers and floats around powers of two, special values and random bit patterns; all cases are non-trivial"),
        "C04" => (compaction::c04, "a case is a list of strings, mostly near-numbers assembled from signs, zeros, digits, dots and stray characters; non-trivial: at least one contains a digit"),
        "C05" => (compaction::c05, "a case is a byte string (every length 0..=258 first, then random), and a random text; non-trivial: not empty"),
        "C06" => (compaction::c06, "a case is a valid encoding that is truncated, bit-flipped, spliced, or random bytes; non-trivial: not the unmodified encoding"),
        "C08" => (linked::c08, "a case is a script of list operations on a real list and on a plain vector model; non-trivial: at least 3 operations changed the list"),
        "C07" => (objects::c07, "a case is a generated definition and a chain of edited states with the diffs between them; non-trivial: at least one step changed the visible state"),
        "C09" => (objects::c09, "a case is a generated definition with up to five clones edited in turn; non-trivial: an edit changed one of several live objects"),
        "C10" => (objects::c10, "a case is a generated definition and a script of sets and reads, right and wrong, against a plain model; non-trivial: at least one set changed a value"),
        "C11" => (objects::c11, "a case is a generated definition, an edited object and a changed definition; non-trivial: the definitions differ"),
        "C12" => (objects::c12, "a case is a generated definition laid out at random, or a definition breaking one rule; all cases are non-trivial"),
        "C13" => (archive::c13, "a case is a set of files with changed variants, or a generated definition, read from directories and archives; all cases are non-trivial"),
        "C14" => (names::c14, "a case is a list of file name metadata with variants of one another, damaged names, and entries of a folder; all cases are non-trivial"),
        "C15" => (names::c15, "a case is twenty hashes with damaged folder names, and sometimes folders with recorded creation times; all cases are non-trivial"),
        "C16" => (history::c16, "a case is an option set and a history of up to 60 saves with a profile of diff sizes; non-trivial: some file is below phase 0"),
        "C17" => (history::c17, "a case is an option set and a history of edits, saves, loads of older files, restarts and source changes; non-trivial: files in two phases or more"),
        "C18" => (history::c18, "a case is a history as for C17 and a removal by count or by chosen files; non-trivial: files in two phases or more"),
        "C19" => (filesys::c19, "a case is a sequence of saves, removals, loads, listings and source changes in a save directory; non-trivial: a file with a changed object is loaded"),
        "C17-revert" => (history::revert, "one fixed history whose source goes back to its first version"),
        _ => { eprintln!("unknown property"); std::process::exit(2) }
    };
    std::process::exit(run(f, &o, rule));
}
