"""What decides each property. `ms`: time of the bounded search in the quick tier."""
K = "kani"
V = "verus"
BOUNDED = "executable postconditions evaluated on the compiled code (bounded stand-in)"
CONVERSION = ["adjust_versions", "adjust_mut_list", "adjust_mut", "adjust_mut_list_item_sabun", "adjust_mut_list_item_ref", "VarType::undefiable", "RustParam::to_undefined",
              "Iterator for ListDefMapIter::next", "ListDefMap::iter", "Iterator for RefDefMapIter::next", "RefDefMap::iter", "RootDefObj::contains_key", "RootDefObj::def", "RootObject::deconstruct", "RootObject::construct",
              "MutItem::new", "MutItem::muts", "MutListVal::new", "MutListVal::deconstruct", "MutListDef::default", "MutListDef::undefiable", "RefValue::var_type", "RefSabValue::new", "ListDefObj::default", "ListDefObj::refs", "RefDefObj::refs"]
VALIDATION = ["validate_root", "validate_table", "validate_const_list", "validate_mut_list", "validate_list_item", "validate_list_def", "validate_refs", "validate_ref_def", "validate_old_root_def_mem", "validate_old_list_def_mem",
              "validate_old_ref_def", "validate_old_table_id", "VarType::acceptable", "RustParam::type_num", "RustParam::acceptable", "RustParam::qv_type", "Qv::qv_type", "ListDefValue::type_num", "ListDefValue::value_type", "ListDefValue::acceptable",
              "ListSabValue::type_num", "ListSabValue::qv_type", "RefValue::acceptable", "RefValue::value", "RefSabValue::value"]
FOLDERS = ["get_folder_time", "get_hash_times", "hash_dir_path"]
HISTORIES = ["HistoryFileData::new", "FileHistories::new", "FileHistories::list_files", "FileHistories::get_newest_file_data", "list_histories"]
CONSTANTS = ["dochy_core/src/imp/intf/clist.rs", "dochy_core/src/imp/intf/root.rs get_clist", "dochy_core/src/imp/intf/citem.rs get_cil", "ConstList::default", "ConstList::list", "ConstListVal::list"]
TABLES = ["dochy_core/src/imp/intf/table.rs", "dochy_core/src/imp/intf/root.rs get_table", "ConstTable::default", "ConstTable::list", "CItemPtr::new"]
ENTRIES = ["dochy_core/src/imp/intf/table.rs get_kvs", "dochy_core/src/imp/intf/table.rs DataKV", "ConstTable::old"]


def but(names):
    return ["-" + n for n in names]


PROPS = {
    "C01": {"ms": 12000, "level": "proof", "proofs": [(V, "codec"), (K, "compaction", ["var_int_i64", "var_int_i128"])],
            "technique": "Verus contracts on the sequence writer and reader cut from the source, Kani contracts on the compiled integer layer; " + BOUNDED,
            "note": "Proved for sequences of any length and any values; the integer layer is proved by Kani for every i64 and every i128."},
    "C02": {"ms": 12000, "level": "proof", "proofs": [(V, "codec"), (K, "compaction", ["var_int_i64", "var_int_i128", "var_int_total"])],
            "technique": "Verus contracts tie the writer and reader to a written-down layout, Kani contracts on the compiled integer layout; " + BOUNDED,
            "note": "Proved for sequences of any length: the bytes written are the specified layout."},
    "C03": {"ms": 8000, "level": "proof", "proofs": [(K, "compaction", ["comp_int_exact", "comp_float_exact", "comp_double_exact", "var_int_i64"])],
            "technique": "Kani contract proofs over the full input domain",
            "note": "Proved for every i64, f32 and f64 bit pattern on the compiled functions."},
    "C04": {"ms": 15000, "level": "proof", "proofs": [(V, "strings")],
            "technique": "Verus contracts on the compaction of strings, alone and in lists, and on its readers, cut from the source; " + BOUNDED,
            "note": "Proved for strings of any length and lists of any number of them: what is read back is exactly what was written. The notation of numbers and the regular expression (standard library, regex crate) are trusted; the bytes (C01) are assumed here and discharged there."},
    "C05": {"ms": 8000, "level": "proof", "proofs": [(V, "url"), (K, "compaction", ["b6_char", "char_b6"])],
            "technique": "Verus contracts on all functions of the conversion cut from the source, Kani contracts on the compiled character mapping; " + BOUNDED, "note": "Proved for byte strings and texts of any length; the bit container is trusted."},
    "C06": {"ms": 15000, "level": "proof", "proofs": [(V, "codec"), (K, "compaction", ["var_int_total", "var_int_total128"])],
            "technique": "Verus contracts on the sequence reader cut from the source, Kani contracts on the compiled integer reader; " + BOUNDED,
            "note": "Proved for byte sequences of any length: no panic, cut-off sequences refused, and the number of bytes reported is the number taken."},
    "C08": {"ms": 12000, "level": "proof", "proofs": [(V, "list")],
            "technique": "Verus contracts on the linked list, its nodes behind raw pointers and its iterators, cut from the source; " + BOUNDED,
            "note": "Proved for lists of any length and every operation: the order afterwards, both directions of the chain, the ids and the way an iterator walks. Memory of a node (Box), the hash map and the lending out of a node to be changed are trusted. Bounded: the typed wrappers around the list, comparison."},
    "C07": {"ms": 20000, "level": "proof", "proofs": [(V, "diff"), (V, "diffio")],
            "technique": "Verus contracts on taking a diff, writing it, reading it, applying it and the table of member numbers, cut from the source; " + BOUNDED,
            "note": "Proved for every definition, every pair of states of it of any size and depth of which the later one only adds or changes what was set: the diff is written, read back and leads from the one state to the other. Hash maps, BTreeMap, Arc and the names behind the pointers of the table are trusted; the bytes (C01) and the linked list (C08) are assumed here and discharged there. Bounded: that states made by the program are such states."},
    "C09": {"ms": 15000, "level": "proof", "proofs": [(V, "own"), (V, "list", ["Clone for LinkedMap::clone", "Clone for MutNode::clone"])],
            "technique": "Verus contracts on which functions may write to which memory, for the pointers to the root, to lists and to items and their wrappers, and on the clone of a list, cut from the source; " + BOUNDED,
            "note": "Proved for objects of any size and depth: every write through a pointer goes to memory the object holds alone (taken exclusively or copied first), reading writes nothing, and the clone of a list has nodes of its own. Rust's exclusive references and copy on write (Arc::make_mut) are trusted; a pointer taken before a clone is not written through after it, which the lifetimes of the wrappers enforce. Bounded: whole objects with several clones edited in turn."},
    "C10": {"ms": 15000, "level": "proof", "proofs": [(V, "member", but(CONSTANTS + ENTRIES))],
            "technique": "Verus contracts on the check of a value, the typed getters and setters of the root and of list items, the reference setters and the tables references lead to, cut from the source; " + BOUNDED,
            "note": "Proved for every declaration, every value and every state in which defaults and values are allowed ones: what a set reports, what it changes and what a get returns. Hash maps and Arc are trusted; that a state read from a definition or a file is such a state is bounded."},
    "C11": {"ms": 15000, "level": "proof", "proofs": [(V, "convert", CONVERSION)],
            "technique": "Verus contracts on the conversion of a root, of lists and of their items, cut from the source; " + BOUNDED,
            "note": "Proved for every pair of definitions in which what kept its name kept its kind, and data of any size and depth: what is kept, what is dropped and what new members read as. Hash maps and Arc are trusted; the linked list and its iterators (C08) are assumed here and discharged there."},
    "C12": {"ms": 20000, "level": "proof", "proofs": [(V, "text"), (V, "read"), (V, "convert", VALIDATION), (V, "member", CONSTANTS + TABLES + ENTRIES)],
            "technique": "Verus contracts on the reader of JSON5 values, on the reading of a definition from them, on the check of a whole root and on the access to its tables and constant lists, cut from the source; " + BOUNDED,
            "note": "Proved for every text and every definition of any size and depth: a text that is accepted is read as the value its parse tree stands for, a definition that is accepted declares exactly what the values say (names, kinds, defaults, marks, order, references, tables, items, ids), and with validation everything in it fits its declarations. Trusted: the grammar and the parser generator, the pattern of names, hash maps, the standard library's reading of digits. Bounded: that good definitions are not refused, over generated definitions in generated layouts, and a list of texts that break one rule each."},
    "C13": {"ms": 15000, "level": "proof", "proofs": [(V, "archive")],
            "technique": "Verus contracts on collecting the files of a folder, hashing them and writing and reading archives, cut from the source; " + BOUNDED,
            "note": "Proved for every folder and every content: exactly the files that belong to the archive are collected under their names below the folder; what is hashed is determined by them alone and differs whenever a name or a content differs; an archive gives back the files, the hash and hence the definition. Trusted: channels and threads, snappy, the hash function (that different bytes get different 128 bit hashes rests on it), the file system calls. Assumed: values encode and decode (C01), a file is read as determined by its name and content (discharged for C12). Bounded: real folders."},
    "C14": {"ms": 8000, "level": "proof", "proofs": [(V, "names")],
            "technique": "Verus contracts on the printer and the parser of file names cut from the source; " + BOUNDED,
            "note": "Proved for every metadata and every name of any length: reading inverts writing, and what is read has exactly the name it was read from. Slicing of texts and the decimal notation of numbers (standard library) are trusted."},
    "C15": {"ms": 10000, "thorough_ms": 120000, "level": "proof", "proofs": [(V, "hash"), (V, "files", FOLDERS)],
            "technique": "Verus contracts on the printer and the parser of folder names, on the creation time file and on finding and ordering the folders, cut from the source; " + BOUNDED,
            "note": "Proved for every hash, every name and every time since 1970: exactly the 32 digit names are read, each as the hash it was written for, and a written time reads back; the folders named after hashes are found, each once, with the time written in them and ordered by it. What a name looks like as text, the arithmetic of times and the listing of folders (standard library) are trusted. Bounded: the real file system."},
    "C16": {"ms": 15000, "thorough_ms": 120000, "level": "proof", "proofs": [(V, "phase")],
            "technique": "Verus contracts on the options, the phase data and the choice of the next phase cut from the source; " + BOUNDED,
            "note": "Proved for phase data of any length and every valid option set, up to 2 EiB per history; the average sizes (floating point) are left open. The phase data is read from a file as it was written. Bounded: whole histories on disk."},
    "C17": {"ms": 25000, "thorough_ms": 120000, "level": "proof", "proofs": [(V, "ancestors"), (V, "cache"), (V, "files", FOLDERS + HISTORIES)], "probes": ["C17-revert"],
            "technique": "Verus contracts on the tree of file names, its listing, the choice of the files a file is read from, on taking up a history, listing the histories of all sources, and on saving and loading through the cache, cut from the source, over a map from paths to bytes; " + BOUNDED,
            "note": "Proved for histories of any size: files are found under their own numbers, the newest file is the last one listed, and a file is read from exactly the chain of files it was saved upon; the newest of all is the newest in the folder made last; saving writes a new file and changes no other, and loading it through the cache, whatever the cache holds, gives the object that was saved. Assumed from other properties: diffs apply (C07), file names are read as written (C14), folders and archives (C13, C15, C19). Bounded: saving in the background (mt_save), locks and threads; sources only change to new versions (returning to an earlier one is a known finding)."},
    "C18": {"ms": 20000, "thorough_ms": 120000, "level": "proof", "proofs": [(V, "remove")],
            "technique": "Verus contracts on the listing of files, the marking of files to keep, the collection of the others and their removal from disk, cut from the source; " + BOUNDED,
            "note": "Proved for histories of any size made by saving: what can be removed is exactly every file that is neither one of the newest asked for nor needed by one of them; on disk nothing else goes, and a folder goes as a whole only when the folders after it hold as many files as are to be kept. Bounded: that saving makes histories of this kind, and that a history is listed from disk as it is."},
    "C19": {"ms": 15000, "thorough_ms": 120000, "level": "proof", "proofs": [(V, "files", but(FOLDERS[:2] + HISTORIES))],
            "technique": "Verus contracts on saving, loading, removing and listing Dochy files, cut from the source, over a map from paths to bytes; " + BOUNDED,
            "note": "Proved for every folder tree and every name: a save writes the one file named and otherwise at most creates the bookkeeping files, refuses names that are not file names or reserved and existing files unless told to overwrite; what was saved loads back identical, under another source converted; a removal removes that one file; a listing shows exactly the saved files, each once; each save folder keeps the source it was registered with, and that source is read from its own place. Trusted: the file system calls, locks and hash maps. Assumed: diffs, conversion and folder names as proved for C07, C11 and C15, archives as in C13. Bounded: the real file system."},
}
NOT_APPLICABLE = {}
NOT_APPLICABLE["C20"] = "Crash points inside file system calls are outside the verifiers' semantics (no model of partially completed writes), and no contract on the functions in /repo can state what the disk holds after an interrupted write."
NOT_APPLICABLE["C21"] = "A property of thread schedules over a global queue and std threads: Kani has no threads and Verus would need the queue rewritten with its permission types, i.e. a different program."
HOOKS = {"guard": "none", "enable": "no hooks are needed", "source_commits": []}
NOTES = ""
