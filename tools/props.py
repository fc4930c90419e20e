"""What each check consists of."""

# name -> dict(template, pkg, bin, title, assumptions, [gen] harness template)
PROPS = {
    "P12": dict(template="p12", pkg="hlsp", assumptions=[
        "lsp_types::Position/Range/TextDocumentContentChangeEvent are the plain structs of their documentation (stubbed with the same public fields)",
    ]),
    "P13": dict(template="p13", pkg="hlsp", assumptions=[
        "offset_to_position is specified for documents of at most 2^32-1 bytes (LSP positions are u32)",
        "a line is what lies between newline characters",
        "lsp_types::Position/Range are the plain structs of their documentation (stubbed with the same public fields)",
    ]),
}

PROPS["P12"]["note"] = ("Unbounded proof that apply_changes refines sequential application (relation `applied`) for every document, change list and encoding, keeps the line table, and leaves the document untouched on error. Trusted: String::replace_range, str slicing, iterator adaptors (listed in the evidence), lsp_types stubs.")
PROPS["P13"]["note"] = ("Unbounded proof of both conversions, the line table and the round trip for every text and encoding. Trusted: binary_search, enumerate/sum/count, str::bytes, str indexing, char::len_utf16; documents below 4 GiB.")

PROPS["P05"] = dict(template="p05", pkg="hcore", assumptions=[
    "OPEN_FENCE.captures is the reading of its regular expression given by spec fn `opens`; the literal in the source must be the one described, otherwise only the oracle decides",
], note="Unbounded proof that the returned list is exactly the chunks defined on the lines of the file, that each is a verbatim byte range and that they are ordered and disjoint. Trusted: the meaning of the fence regular expression, str::split_inclusive, str::trim, mem::take, String::push_str.")

PROPS["P08"] = dict(template="p08", pkg="hcore", assumptions=[
    "HashMap<String, String> behaves as a map from texts to texts (stubbed by VxFields)",
], note="Unbounded proof that the versions returned are exactly those of the declarative reading of the file (fields, continuation lines, entries, parentheses) and that nothing panics. Trusted: str::lines/split/trim/find/replace/starts_with/contains, the eager reading of iterator chains, std HashMap.")

PROPS["P09"] = dict(template="p09", pkg="hcore", assumptions=[
    "Rule::from_name(n) is a function of the name only (its table is the subject of P15)",
], note="Unbounded proof that the three parsers compute exactly the declared reading of every comment text (spec fns meaning, array_item) and never panic. Trusted: str::trim/trim_start/strip_prefix/starts_with/find and str slicing; the rule table (P15).")

PROPS["P15"] = dict(template="p15", pkg="hcore", assumptions=[
    "the texts of messages (format!) are not specified",
    "rustc's macro expansion of declare_rules! is the code that is compiled (it is taken from rustc itself on every run)",
], note="Unbounded proof over the declaration table read from the source on every run: from_name inverts name, every listing is the filter of the table by the declared attribute, category text round-trips. Trusted: slice contains/to_vec/iter/copied, eager reading of filter/any.")

PROPS["P20"] = dict(template="p20", pkg="hcore", assumptions=[
    "std::path::Path::extension/strip_prefix/join/display behave as documented (a stripped prefix joined again denotes the path); a path that is not valid Unicode is displayed lossily",
    "the shown-path statement is about paths without `..` (as returned by discovery, which makes them absolute)",
], note="Proof that the two classifiers accept exactly the listed extensions, never both, and that the shown text is either the path itself or a path that joined to the working directory is the path. Trusted: std::path and the cached working directory (stubs).")

PROPS["P21"] = dict(template="p21", pkg="hcore", real="p21", gen=["p21"], assumptions=[
    "ExitCode::from(n) makes the process exit with n (checked by running real processes)",
    "flat_map/sort over the diagnostics only reorder them; Vec::retain keeps exactly the elements satisfying its closure (stubs vx_flat_sorted, vx_retain_each, vx_drop_empty)",
    "the part of `check` before the results of the files (configuration, discovery) is not under contract: if it fails the process ends with 255, if it finds no files with 0",
], note="Proof over the consecutive statements of `check` from the results of the files to its return (split into failures and groups, hiding of unused_function, status), print_statistics and the status -> exit code mapping; --add-jarl-ignore is outside the property. Printing statements are dropped mechanically after checking they cannot leave the function or change what is used later.")

PROPS["P19"] = dict(template="p19", pkg="hlsp", assumptions=[
    "fewer than 2^32 requests are sent in a session (the counter is an AtomicI32)",
    "std atomics: the n-th fetch_add(1) of a counter sees the value after n increments, no two calls are the n-th; of all swap(true) on a flag that starts false and is never reset at most one returns false (ghost tokens Tickets, TurnedOn; the text is checked to use counter and flag nowhere else)",
    "crossbeam's Sender::send delivers the message exactly when it returns Ok; serde_json::to_value is some value or an error",
    "registering a request in pending_requests is not under contract",
], note="Proof with ghost tokens for the shared counter and flag, so it holds for every interleaving of clones: identifiers of all requests differ, a response carries the given identifier and exactly one of result/error, and a notice is sent only by the one call that turned the flag on.")

PROPS["P04"] = dict(template="p04", pkg="hcore", real="p04", gen=["p04"], assumptions=[
    "biome's TextRange is a pair of byte offsets (stub vlib_text.rs)",
    "str::match_indices of a newline yields its byte offsets in ascending order",
], note="Unbounded proof, for every text and list of diagnostics, that row and column are those of the property (spec fns row, col) and nothing else of a diagnostic changes, from the newline scan to the ends of get_checks and get_checks_rmd. The contract admits exactly one deviation, the known finding (newline at offset 0).")

PROPS["P01"] = dict(template="p01", pkg="hcore", real="p01", gen=["diag", "p01"], assumptions=[
    "the ranges of the fixes reported for a file lie in it on character boundaries (precondition; for lint_fix assumed of get_checks)",
    "file and inserted texts together stay below 2 GiB (the code computes in i32)",
    "fs::read_to_string and fs::write read and replace the bytes of the file, and nothing else writes it meanwhile (ghost Disk)",
    "that the passes come to an end is not proved",
], note="Unbounded proof that apply_fixes yields the original bytes with exactly the greedy set of disjoint ranges replaced (spec fns done, last) and reports left-out fixes; that lint_fix leaves on disk the result of such passes, the last leaving nothing out, never touches an Rmd/Qmd file, and that without --fix no file is written. Trusted: String::replace_range, slices, fs.")

PROPS["P18"] = dict(template="p18", pkg="hcfg", assumptions=[
    "std::collections::HashSet of texts behaves as a set of texts (stub vlib_set.rs)",
    "serde/toml fill the option structures from the file (sampled by the harness with the real serde and toml crates)",
    "the contents of the DEFAULT_* lists are whatever the constants say",
], note="Unbounded proof of resolve_with_extend, the four rules' resolve functions, ResolvedRuleOptions::resolve and TomlOptions::into_settings: each rule's list in force is the one the property says, from that rule's own two fields, and both fields given is an error.")

PROPS["P17"] = dict(template="p17", pkg="hcfg", real="p17", gen=["p17"], assumptions=[
    "the file system does not change during the search; std::path (join, ancestors, is_file) and path_absolutize behave as documented (stubs; sampled by the harness on real directories)",
    "the directory walk of the crate ignore visits the directories it should (spec fn walk; the flags given to it are checked)",
    "air_workspace's PathResolver resolves a file to the listed item of the closest directory and lists each directory once (crate not available here)",
    "serde/toml fill the settings from the file (P18); the user's configuration directory is whatever etcetera says",
], note="Unbounded proof of find_jarl_toml_in_directory, find_jarl_toml, discover_settings (with its seen-set cut-off), discover_nested_settings, parse_settings and of the statements of `jarl check` that group files by configuration; p17_file_gets_its_nearest derives the property from these contracts.")

PROPS["P07"] = dict(template="p07", pkg="hcfg", real="p07", gen=["cfg", "args"], assumptions=[
    "std's Ord for (u32, u32, u32) is lexicographic; str::parse::<u32> accepts an optional +, then decimal digits, up to 2^32-1",
    "Description::get_depend_r_version is a function of the text that does not fail (proved for the property P08)",
    "std::path and fs::read_to_string are those of an unchanging file system (stubs)",
    "collecting into a RuleSet keeps items and order (the text of its FromIterator is required to be the known one)",
], note="Unbounded proof that filter_rules_by_version is the filter of the list by the property's condition, that parse_r_version accepts and reads exactly the texts of the property, and that determine_minimum_r_version takes the command line's version, else that of the first path whose DESCRIPTION states one. Trusted: str::split, str::parse, paths.")

PROPS["P06"] = dict(template="p06", pkg="hcfg", real="p06", gen=["cfg", "args"], assumptions=[
    "std::collections::HashSet of texts behaves as a set of texts (stub vlib_set.rs); str::split on a one-character text is str::split on that character",
    "collecting into a RuleSet keeps items and order (the text of its FromIterator is required to be the known one)",
    "clap fills CheckCommand from the command line, an option not given being the empty text; serde/toml fill TomlOptions",
    "an option given as the empty text counts as not given",
], note="Unbounded proof, from the option structs of clap and jarl.toml to the rule set handed to the version filter, that the rules are the filter of the table by the property's condition (spec fn runs) and that an error is returned exactly when a list has an unknown entry: ArgsConfig, into_settings, replace_group_rules, get_invalid_rules, parse_rules_cli, parse_rules_toml, all_rules_enabled_by_default, reconcile_rules, build_config and the rule table. Trusted: HashSet, str::split/trim.")

PROPS["P02"] = dict(template="p02", pkg="hcfg", real="p02", gen=["cfg", "args", "diag", "linter"], assumptions=[
    "std::collections::HashSet of texts behaves as a set of texts (stub vlib_set.rs); Vec<String>::contains compares texts",
    "collecting into a RuleSet keeps items and order (the text of its FromIterator is required to be the known one)",
    "a rule runs only if it is in the checker's rule set (the rules themselves are not under contract)",
    "clap fills CheckCommand from the command line; serde/toml fill TomlOptions",
], note="Unbounded proof that the rules run are the filter of the rules selected by the property's condition (spec fn permitted), for every combination of flags, that the fixable/unfixable sets are those of the lists in jarl.toml, that the checker is given exactly these rules, and that the closure of get_checks keeps a fix exactly when the property allows it (spec fn may_fix) and changes nothing else. Trusted: HashSet, lists by reference.")

PROPS["P03"] = dict(template="p03", pkg="hcore", real="p03", gen=["p03"], assumptions=[
    "Git: Repository::discover finds the repository of a path, and a repository is found again from its own working directory; nothing is found from the empty path; StatusOptions with untracked files included lists an entry that is not CURRENT exactly if a file (ignored files aside) is dirty",
    "the map of repositories has exactly the keys inserted (stub)",
    "fs::write in lint_fix is the only call that modifies a file during a check (its number of occurrences in check.rs is required)",
    "no file changes its status between the guard and the fixes",
], note="Unbounded proof that check_version_control accepts exactly under the property's condition (and never refuses with --allow-no-vcs, or with every path in a repository and --allow-dirty), and that check, check_path and lint_fix reach the only fs::write with that consent (its precondition). Trusted: contracts on git2, relativize_path, HashMap grouping.")

PROPS["P10"] = dict(template="p10", real="p10", assumptions=[
    "HashSet<TextRange> and HashMap behave as set and map (stubs); Rule::from_name is a function of the name (P20)",
    "which expressions a suppression covers, and which suppressions were written, is what the property P26 says (SuppressionManager is given)",
    "node suppressions are recorded only in a file in which some directive was found (flag_ok, assumed here; see P26)",
    "the filter of get_unused_suppressions, whose closure changes captured state, is verified as the loop it stands for",
], note="Unbounded proof that the diagnostics that remain are exactly those no suppression in force covers, that outdated suppressions are exactly those no diagnostic of their rule is hidden by, reported only when that rule ran, and that all other parts of the diagnostics are untouched: is_diagnostic_suppressed, filter_diagnostics, get_unused_suppressions, the Checker's reporting and the end of check_document.")

PROPS["P26"] = dict(template="p26", real="p26", assumptions=[
    "biome attaches each comment to a node as its leading, dangling or trailing comment (spec fn placed; the choice made by RCommentStyle is under contract), reads comments in the order of the text, and comment texts are parts of the source at the ranges given",
    "the syntax tree is a finite tree less deep than usize::MAX (stub: kind, trimmed range, children)",
    "HashMap and HashSet behave as map and set (stubs); Rule::from_name is a function of the name (P20)",
], note="Unbounded proof, over all syntax trees and comments, that from_node records exactly what the comments ask for (spec fns acts, recorded_as): which node or file or chunk each covers, which start pairs with which end at the same level, every unpaired or misplaced one reported, by way of process_comment, collect_all_directives, is_same_line_as_code, place_comment and the directive parser. Trusted: biome's placement of comments.")

PROPS["P11"] = dict(template="p11", real="p11", assumptions=[
    "the parse result is a finite tree whose root covers the text; root().token_at_offset / the descendants' ranges are those of the text's tokens (stub spec fns parses, inside: an offset is inside when it is strictly between the ends of a token's trimmed text)",
    "a diagnostic's range starts at a character of the file and is not inverted (diag_found; P01/P22 give ranges from syntax nodes)",
    "Vec::sort_by with a comparison by key returns a reordering sorted by that key; String::insert_str inserts (stubs)",
    "has_rmd_extension is a function of the path (stub)",
], note="Unbounded proof for every file and set of diagnostics: the file written by --add-jarl-ignore is the original text with, at distinct places, each at the start of a line (or with a newline put first), whole comment lines `<blanks># jarl-ignore RULE: REASON` (spec fn woven); none of the places is inside a token, each diagnostic's rule has one comment, each comment names a rule that was reported, and no rule twice at one place; a reason with a line break is refused. By way of compute_suppression_insert_point, create_suppression_edit(_in_rmd), format_suppression_comments, extract_r_chunks and the body of add_jarl_ignore_comments. Re-linting the written file is covered by the oracle.")

PROPS["P14"] = dict(template="p14", real="p14", assumptions=[
    "a document is at most 2^31-1 bytes long",
    "the ranges run_jarl_linting reports lie in the text at character boundaries and start inside a token, in Rmd inside a chunk (spec fns found, in_text); its result is a function of the document",
    "serde_json gives back the DiagnosticFix it was given (spec fn data of a value)",
    "lsp_types' structs are the plain structs of their documentation, HashMap is a map, DocumentSnapshot's getters return its fields (stubs)",
    "the parse result is that of P11 (spec fns parses, inside)",
], note="Unbounded proof for every document, encoding and requested range: a published diagnostic is at the line and unit of its bytes (spec fn position_at), the actions offered are for diagnostics that touch the range (ranges_overlap decides that: lemma p14_overlap), the fix action replaces exactly the fix's bytes, the ignore action inserts one whole comment line at a line start or after a line break put first, outside every token, the chunk action at the start of the chunk that holds the diagnostic; the encoding is one the client offers or UTF-16. Trusted: str iterators and slices.")

PROPS["P22"] = dict(template="p22", real="p22", assumptions=[
    "a document is less than 4 GiB long",
    "the parse result is a function of the text; which suppressions a chunk's comments are is what P26 says (spec fn read_from), and their ranges lie in the chunk",
    "the rules at work on an expression (check_expression) and at the end of a document (check_document, P10) are relations on the Checker (spec fns ran, finished); ranges found lie in the chunk's text",
    "compute_lints_location changes nothing but the location (P04); HashSet is a set, iterator chains give the items in order (stubs)",
], note="Unbounded proof over all documents: get_checks_rmd reports exactly, in order, what each chunk that parses gives by itself (with the suppressions of its own comments, file-wide ones counted only in the first chunk), moved by the chunk's offset, with an empty fix and the document's name, without the diagnostics of rules suppressed for the whole file and without complaints about such comments that hide something (spec fn reported), by way of extract_r_chunks and Checker::new. The oracle compares whole runs with one run per chunk, and that --fix leaves the file alone.")

PROPS["P16"] = dict(
    template="p16", real="p16",
    assumptions=[
        "the syntax tree of a file that parses (axiom_in_place): the parts of a node lie within it, one after the other, an if has a condition and a branch, a loop has a body; top-level: the statements come one after the other. Casts of nodes (cast_ref, as_fields, kind, left, right) give the parts of the node's tree (stubs over spec type Tree); the name a call starts with is text().rsplit_once(\"::\") (vx_called); vx_nodes, vx_node, vx_const stand for the iterator and option chains beside them",
        "FxHashSet and FxHashMap are a set and a map, Vec::pop/push/first as in std, sort_by_key gives the same items in some order (stubs)",
        "std::mem::discriminant on reasons decides only how ranges that touch are grouped",
        "what counts as having no path is the definition beside the proof (dead_one, sure_one): return, stop functions of the settings, break and next inside loops leave; constants are TRUE, FALSE, parentheses and &&, ||, &, | of them; a loop can be passed by. Between the lower and the upper bound lie only bytes between statements and statements that themselves leave, or are an if or a loop",
        "which top-level diagnostics are left out because of their reason (after return, no path) is not decided by the proof: at the top level only the upper bound is proved",
    ],
    note="Unbounded proof over all syntax trees, from the builder to the diagnostics: unreachable_code reports no byte outside what no way through the function leads to (spec fn dead_body), and every byte of a plain statement no way through leads to (spec fn sure_body); the same upper bound for top-level code. By contract of every function of cfg/builder.rs (build_statements, build_statement, build_if/for/while/repeat_statement, build_return/stop/break/next, evaluate_constant_condition, has_incoming_edges, build, build_cfg, build_cfg_top_level: all mutually recursive, each checked against the others' contracts, with termination), of graph.rs (new, new_block, add_edge, block_mut) and of reachability.rs: find_reachable_blocks returns exactly the blocks a chain of edges from the entry leads to and ends on every graph, find_unreachable_code covers exactly the bytes of the blocks nothing leads to, the search for a reason ends. The oracle generates functions and compares what the program reports with which statements some way through the function leads to.",
)

PROPS["P23"] = dict(
    template="p23", real="p23",
    assumptions=[
        "std::path and std::fs are stubs of a file system that does not change while the package is read (spec fns anc, join, there, is_dir, kids, canon, file_text, comps, rel, ext); a directory lists a file once; lossy decoding is uninterpreted",
        "files are shorter than 4 GiB (short_files); no file is given twice, packages are not nested and no two files of a package have the same relative path (apart); that collect_files ends is not proved (a file system without cycles)",
        "letters and digits are char::is_alphanumeric / is_alphabetic (uninterpreted); regular expressions of skipped-functions are opaque (is_skipped = some expression matches)",
        "HashMap, HashSet and the sort are stubs; paths are ordered (path_lt: total, irreflexive); numbers of uses fit usize (countable); borrowed paths stand as copies and par_iter as iter; exact token sequences of iterator chains stand for stubs with the contract stated beside them",
        "the slices of get_checks and check_document that look the results up and report them are joined by the call whose text is required (//@require)",
    ],
    note="Unbounded proof over all files, packages and texts: scan_top_level_assignments finds exactly the definitions at the left margin (name, row, column, range), scan_symbols / scan_cpp_symbols count every name outside comments and strings as often as it is written, parse_namespace_exports reads exactly the exported names and patterns, compute_package_analysis and collect_files take exactly the package's R/, C++ and other R files, compute_duplicates_from_shared reports for each R/ file exactly the definitions whose name is defined above or in an R/ file of the same package that comes first in the order of paths, compute_unused_from_shared exactly the functions that are neither exported, nor S3 methods of a name in use, nor skipped by the settings, nor named anywhere else in the package; get_checks looks up the file's own entry and check_document reports each item once under its rule and range if the rule runs. The oracle runs the whole program on generated packages.")

NOT_APPLICABLE = {
    "P24": "what a rule reports and whether its fix keeps the meaning of R code can only be stated against a semantics of R (lazy evaluation, S3 dispatch, vector recycling, NA), which no contract within reach expresses and for which there is no oracle on this machine; the part that needs no semantics (the fix replaces exactly its range, only permitted rules run and fix, suppressed code is left alone) is P01, P02, P10",
    "P25": "the closure per file is under contract (P01, P03, P22: its result is a function of the file and the settings), but that rayon's par_iter runs it on every file once, on any schedule, and that no two closures touch the same state is a statement about threads of a library whose source is no part of this repository; Verus has no contracts for rayon, and a sequential stub of it would assume the property. P17's oracle checks that each file is checked once however many paths lead to it",
}
