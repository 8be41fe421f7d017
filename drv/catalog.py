"""The properties; `python3 drv/catalog.py` rewrites properties.jsonl and MANIFEST.json from this table."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


BOUND = ("Every recorded execution is checked by TLC to be a behaviour of the specification; executions are generated "
         "from the seed (and, where the note says so, enumerated by TLC from a bounded model). Trusted: TLC, the Rust "
         "executor's conversion of results to JSON, the case generators' reach. ")

prop("C01", "Scanning rewrites exactly the matched text and reports where it ended up",
     "After a scan, every string of the event equals the original with each reported match replaced as its rule's action says (redact, hash, partial redaction) and all other characters untouched. Each reported match carries the rule's position in the rule list, the path of the string, the kind of replacement, the start and end of the replaced text in the units of the caller's encoding, and a shift equal to how far the end of the match moved; without a changing action nothing changes.",
     ["inputs", "configurations"], "all events, rule sets and actions, UTF-8 and UTF-16 indices",
     "Tests check a few hand-written strings; index arithmetic depends on every combination of match positions, replacement widths and multi-byte characters.",
     ["sds/src/scanner/mod.rs", "sds/src/match_action.rs", "sds/src/encoding.rs", "sds/src/rule_match.rs"],
     [("apply matches left to right with a running index shift", "Scanner::apply_match_actions, apply_match_actions"), ("encoding of byte offsets", "Encoding::calculate_indices")],
     "TLA+ scan specification, trace validation with TLC", BOUND, ["scan result, strings of the event after the scan"])
prop("C02", "Overlapping candidates are resolved by a fixed priority",
     "Matches reported for one string never overlap. Among overlapping candidates the one whose rule changes the text wins over one that does not, then the one starting first, then the longer, then the rule listed first; a candidate is dropped only because it overlaps a reported one of higher priority.",
     ["inputs", "configurations"], "all sets of candidate intervals and rule orders",
     "The outcome depends on the whole set of overlapping candidates; tests try two or three intervals.",
     ["sds/src/scanner/mod.rs"], [("sort and retain pass over candidates", "Scanner::sort_and_remove_overlapping_rules")],
     "TLA+ scan specification, exhaustive TLC model, model vectors replayed, trace validation", BOUND + "Interval sets of up to three candidates on short strings are enumerated exhaustively by TLC and replayed.",
     ["scan result"])
prop("C03", "A rule looks at exactly the strings its scope selects",
     "A rule with an include scope reports only strings whose path extends one of the listed paths, and reports candidates in every such string that no exclude path of that scope covers; an exclude scope reports everything except strings whose path extends a listed path; a rule with no restriction sees every string. With implicit wildcard indexes enabled, list indexes in the event's path that the scope does not mention are skipped when comparing. A rule blocked for a scan reports nothing in that scan and does not influence what others report.",
     ["inputs", "configurations"], "all path trees, scopes and event shapes, both wildcard settings, any visiting order of nested containers",
     "Scope lookup is an incremental tree walk whose state must be restored at every push and pop; tests cover a handful of shapes.",
     ["sds/src/scoped_ruleset/mod.rs", "sds/src/scoped_ruleset/bool_set.rs", "sds/src/path.rs", "sds/src/scanner/scope.rs"],
     [("rule tree walked along with the path", "ScopedRuleSet::visit_string_rule_combinations")],
     "TLA+ scope specification, trace validation with TLC", BOUND, ["scan result per string"])
prop("C04", "Values found at excluded paths, and only those, are suppressed elsewhere",
     "With the multi-pass option on, a candidate of a rule that supports it is suppressed in the scanned part of the event when, in the same event, some rule would have reported exactly that text at a path its scope excludes. No other candidate is suppressed for that reason, the outcome does not depend on the order in which strings are visited, nothing is remembered from one scan to the next, and with the option off nothing is suppressed.",
     ["inputs", "configurations", "histories"], "all events, scopes, visiting orders and sequences of scans",
     "Suppression crosses strings, rules and paths; the tests contain few two-string events.",
     ["sds/src/scanner/mod.rs", "sds/src/scanner/regex_rule/compiled.rs", "sds/src/scoped_ruleset/mod.rs"],
     [("excluded_matches set filled in the visit pass and consulted before actions", "ScannerContentVisitor, Scanner::scan")],
     "TLA+ scan specification, trace validation with TLC", BOUND, ["scan result"])
prop("C05", "Included keywords gate matches by distance and word position",
     "A rule with included keywords reports a match in a string only if one of its keywords occurs, ignoring case and with any edge that is an ASCII letter or digit at a word boundary, starting at or before the match start and no further before it than the configured number of characters; with keyword matching on paths enabled, a keyword in the path counts for the whole string. Every match of the pattern that satisfies this is found, searching resumes after a reported match and one character after the start of a refused one.",
     ["inputs", "configurations"], "all strings, keywords, look-ahead distances and multi-byte text around the boundary",
     "Off-by-one errors show only at exact distances with multi-byte characters or adjacent keywords, which tests sample sparsely.",
     ["sds/src/proximity_keywords/mod.rs", "sds/src/proximity_keywords/included_keywords.rs", "sds/src/scanner/regex_rule/compiled.rs"],
     [("keyword search, sliding window, next-keyword cursor", "CompiledIncludedProximityKeywords")],
     "TLA+ keyword specification, trace validation with TLC", BOUND, ["scan result"])
prop("C06", "Excluded keywords suppress exactly the matches they precede",
     "A rule with excluded keywords never reports a match that is preceded, within the configured number of characters, by one of those keywords (ignoring case and ignoring hyphens and underscores; a keyword edge that is an ASCII letter or digit has to be at a word boundary), and reports every other match. When included keywords are configured too, only those decide.",
     ["inputs", "configurations"], "all strings, keywords and look-ahead distances",
     "Window edges interact with multi-byte characters and separators; tests use ASCII sentences.",
     ["sds/src/proximity_keywords/mod.rs", "sds/src/proximity_keywords/excluded_keywords.rs"],
     [("prefix window of look-ahead characters searched for excluded keywords", "CompiledExcludedProximityKeywords::is_false_positive_match")],
     "TLA+ keyword specification, trace validation with TLC", BOUND, ["scan result"])
prop("C07", "Keywords match event paths in standardized form",
     "With keyword matching on event paths enabled, a rule with included keywords reports every match in a string when one of its keywords matches the path of that string, where path segments are split into words at separators and case changes and joined in a standard form, and indexes are ignored; otherwise the keyword must be in the string itself. The answer depends only on the path, not on which strings were visited before.",
     ["inputs", "configurations", "histories"], "all paths and keyword spellings",
     "Paths are standardized incrementally and cached per visited path; tests use few spellings.",
     ["sds/src/path.rs", "sds/src/proximity_keywords/mod.rs", "sds/src/scanner/mod.rs", "sds/src/scoped_ruleset/mod.rs"],
     [("sanitized path and per-path keyword cache", "Path::sanitize, standardize_path_chars")],
     "TLA+ path and keyword specification, trace validation with TLC", BOUND, ["scan result"])
prop("C08", "A pattern matches what the documented dialect says",
     "For every pattern the library accepts, the matches reported in a string are the successive leftmost matches, first alternative preferred, of the pattern read in the documented dialect: ASCII-only shorthand classes and word boundaries, inline and group flags i m s x, an optional final newline before the end anchors, quoted literals, bracket and POSIX classes, escapes.",
     ["programs", "inputs"], "all patterns of the dialect and all strings",
     "The pattern is parsed and translated to another engine's syntax; tests compare translations of single constructs, not the matching behaviour of combinations.",
     ["sds/src/parser/regex_parser.rs", "sds/src/normalization/rust_regex_adapter.rs", "sds/src/validation.rs"],
     [("parser and conversion", "parse_regex_pattern, convert_to_rust_regex")],
     "TLA+ parser and matcher, trace validation with TLC",
     BOUND + "The third-party engine reports a later match for some patterns whose alternatives share a suffix literal; such a difference is accepted in random cases only when it disappears after adding an alternative that cannot match, and two instances are listed as known findings.", ["reported spans"])
prop("C09", "Rules are accepted exactly when they are valid, with the documented error",
     "Validating a pattern, and building a scanner from any list of rules, always returns: it never panics, hangs or aborts. Building fails exactly when some rule is invalid, with the error of the first invalid rule; within a rule the pattern is checked before the action and the action before the keywords. A pattern is refused when it is not in the dialect, is nested deeper than 50 groups, repeats more than 3000 times, is larger than the size limit, or can produce an empty match; partial redaction of zero characters is refused; keywords are refused when there are more than 50, the distance is not in 1..50, one is longer than the distance, or one is empty once cleaned. Pattern validation, the size estimate and building a scanner agree.",
     ["programs", "configurations"], "all patterns (well formed or not) and all rule lists",
     "Tests list single bad patterns; the guarantee is about every text a user may submit.",
     ["sds/src/parser/regex_parser.rs", "sds/src/validation.rs", "sds/src/normalization/rust_regex_adapter.rs", "sds/src/proximity_keywords/mod.rs", "sds/src/match_action.rs", "sds/src/scanner/mod.rs"],
     [("pattern validation", "validate_and_create_regex"), ("rule checks while building", "RegexRuleConfig::convert_to_compiled_rule, ScannerBuilder::build")],
     "TLA+ parser and configuration rules, trace validation with TLC",
     BOUND + "The size of a compiled pattern is known to the specification only between bounds; inside them either verdict is accepted if the estimate agrees.", ["result of validate_regex and ScannerBuilder::build"])
prop("C10", "Secondary validators accept exactly the well-formed values",
     "A rule with a secondary validator (Luhn, Chinese ID, NHS number, French social security number, Github token checksum, IBAN, JWT expiry) reports a match of its pattern exactly when the matched text satisfies the published check of that format; a refused match hides no later valid one.",
     ["inputs"], "all matched texts, including other scripts, separators and truncated or over-long values",
     "Tests hold a few dozen accepted and rejected examples per validator; check digits fail on rare values (leading zeros, remainder ten, extra digits).",
     ["sds/src/secondary_validation/"], [("one validator per format", "secondary_validation/*.rs")],
     "TLA+ check-digit specification, trace validation with TLC", BOUND + "IBAN: six country formats and unknown prefixes; token expiry away from the present.", ["scan result"])

prop("C13", "Validating matches keeps every match and gives it the strongest answer",
     "If no rule can be validated, validate_matches fails and sends nothing. Otherwise it returns every match it was given, in order of position and unchanged except for its status. A match of an HTTP-validated rule is sent, with the configured method and headers ($MATCH replaced by the matched text), exactly once to each endpoint; AWS ids and secrets are tried once in each pair. A check counts as valid or invalid by the configured status ranges (valid first; AWS: 2xx and 4xx, a redirect says nothing), as an error otherwise or when no answer came; a match ends with the strongest answer, valid over error over invalid, independent of the order of answers; other matches keep their status. Matched text is returned when some rule can be validated.",
     ["inputs", "configurations", "fault_sequences", "schedules"], "all rule lists, sets of matches, answers, failures and orders of the parallel checks",
     "Requests run in parallel and answers merge in any order; tests have one or two matches and a mock server.",
     ["sds/src/scanner/mod.rs", "sds/src/match_validation/"],
     [("grouping by validator, parallel requests, merge by rank", "Scanner::validate_matches, HttpValidator::validate, AwsValidator::validate, MatchStatus::merge")],
     "TLA+ validation specification, exhaustive TLC model over orders and answers, model vectors replayed, trace validation against a local HTTP server", BOUND + "Requests are observed at a local server on the loopback interface; AWS signatures are recognised with the same third-party signing crate.",
     ["matches after validate_matches, requests received by the server"])

prop("C11", "Scanners do not influence each other, in any history or thread schedule",
     "What building a scanner or a scan with it yields depends only on that scanner's rules and options and on the event: not on which scanners were built, used or dropped before, not on what other threads do at the same time, and not on earlier scans by the same scanner. The gauges follow: the scanner count equals the number of live scanners, and compiled patterns that no scanner uses any more are eventually released.",
     ["histories", "schedules", "configurations"], "all sequences and interleavings of building, scanning and dropping scanners that share patterns or keywords",
     "Compiled patterns and their scratch memory are shared in global stores that are garbage collected every thousand insertions; tests build one scanner each.",
     ["sds/src/scanner/regex_rule/regex_store.rs", "sds/src/scanner/regex_rule/regex_cache_store.rs", "sds/src/scanner/shared_pool.rs", "sds/src/scanner/mod.rs", "sds/src/proximity_keywords/mod.rs", "sds/src/stats.rs"],
     [("memoized regexes behind weak references", "get_memoized_regex, RegexStore"), ("per-regex caches in a shared pool", "access_regex_caches, RegexCaches")],
     "TLA+ model of the regex store checked exhaustively with TLC, its histories replayed in the code, trace validation of random and multi-threaded histories", BOUND + "Interleavings inside the store are explored in the model (two threads, two scanners); in the code, threads run freely from a barrier.",
     ["outcome of every operation of a history, metrics gauges"])


prop("C14", "Every string of an event is scanned at its own path and changed in place",
     "Scanning a string, a SimpleEvent, a JSON value or a map of JSON values looks at every string in it, at the path of keys and indices that leads to it (JSON numbers and booleans are looked at as their text, null not at all), whatever the depth and order of nesting. Each match carries the path of the string it is in. After the scan exactly the matched strings have changed, in place; keys, structure and all other values are as before (a number or boolean becomes a string only where a changing rule matched it). Strings of a SimpleEvent are visited in order of their keys, \"message\" first.",
     ["inputs", "configurations"], "all trees of strings, numbers, booleans, nulls, lists and maps, all rule lists",
     "Paths are kept on a stack during the visit and resolved again to change a string; every shape of nesting uses it differently. Tests use a handful of shapes.",
     ["sds/src/event.rs", "sds/src/event_json.rs", "sds/src/simple_event.rs", "sds/src/path.rs", "sds/src/scanner/mod.rs"],
     [("visit the strings with a path stack, then change strings by path", "Event::visit_event, Event::visit_string_mut, ScannerContentVisitor")],
     "TLA+ specification of events as trees, trace validation with TLC", BOUND, ["scan result, event after the scan"])
prop("C15", "Bytes of an event go in, bytes of the response come out, nothing is lost",
     "Through the bindings, an event given in the byte format (push field, push index, pop, string) is scanned exactly as the strings and paths it encodes; ill-formed UTF-8 is read with replacement characters. The response is empty when nothing matched, otherwise it lists each changed string once with its path and new text and each match with rule index, path, replacement type, start, end and shift (negative ones too). Bytes that are not in the format are refused with an error and no response; they never crash the process and the scanner stays usable.",
     ["inputs", "configurations"], "all byte strings, rule lists, UTF-8 and UTF-16 indices",
     "The format is read and written by hand-made code at the boundary to other languages; tests exercise it only from Go, on a few events.",
     ["sds-bindings-utils/src/binary_encoding.rs", "sds-go/rust/src/native/scan.rs", "sds/src/path.rs", "sds/src/rule_match.rs"],
     [("byte cursor over the event", "BinaryEvent::visit_event"), ("response writer", "encode_response, encode_match, encode_mutation"), ("panics become errors", "convert_panic_to_go_error")],
     "TLA+ specification of the byte format, trace validation of C interface calls with TLC", BOUND + "Events that leave the root or give two strings at one path are not specified.",
     ["response bytes, error of the C call"])
prop("C16", "Handles of the C interface can be combined and released in any order",
     "Rules, rule lists and scanners made through the C interface stay valid exactly as long as their own handle: a list keeps the rules appended to it (in order, also twice) after their handles are released, and a scanner keeps the rules its list had when it was made, whatever is appended later and in whatever order the handles are released. A document that is not a rule, and a list with a rule that cannot be built, give an error code and no handle, and disturb nothing else (-2 pattern, -3 keywords, -4 action). When all handles are released, scanners, rules, lists, responses and error texts are gone: repeating a history does not use more memory.",
     ["histories", "configurations"], "all legal histories of creating, appending, scanning and releasing",
     "Ownership is passed through raw pointers and reference counts by hand; a use after release or a leak needs a particular order of calls to show.",
     ["sds-go/rust/src/native/rule.rs", "sds-go/rust/src/native/create_scanner.rs", "sds-go/rust/src/native/delete_scanner.rs", "sds-go/rust/src/native/scan.rs", "sds-go/rust/src/native/mod.rs", "sds/src/scanner/error.rs"],
     [("raw pointers of reference counted objects", "Arc::into_raw / from_raw with ManuallyDrop in the native functions")],
     "TLA+ model of handles and reference counts checked exhaustively with TLC, its histories replayed in the code, trace validation of long random histories", BOUND + "The executor's allocator counts live memory and overwrites released memory.",
     ["results of the C calls, live memory"])


prop("C17", "A rule document means one rule, and writing a rule gives that rule back",
     "Reading a JSON rule document yields exactly the rule it describes: pattern, action with its parameters, scope paths, proximity keywords, validator, labels and match validation, whatever the order of keys; absent optional parts mean none (absent scope: everything, null lists: empty), unknown parts are ignored. A document with a missing or ill-typed part or an unknown tag is refused. Writing a rule gives a document that reads as the same rule, whether the rule came from a document or from the builder. The HTTP validation builder keeps what was set, uses its defaults otherwise, and makes one endpoint per host, refusing an endpoint without $HOST for given hosts and vice versa.",
     ["inputs", "configurations"], "all rule documents and rules",
     "Configurations are stored and exchanged between languages; a field that is dropped, defaulted or renamed changes what is scanned without any error.",
     ["sds/src/scanner/regex_rule/config.rs", "sds/src/match_action.rs", "sds/src/scanner/scope.rs", "sds/src/path.rs", "sds/src/observability/labels.rs", "sds/src/match_validation/config.rs"],
     [("serde representation of the configuration types", "RegexRuleConfig, MatchAction, Scope, Path, Labels, MatchValidationType"), ("builders", "RegexRuleConfig builder methods, HttpValidatorConfigBuilder::build")],
     "TLA+ specification of rule documents, trace validation with TLC of reading, scanning and writing", BOUND, ["rule as used in a scan, written document"])


prop("C18", "The Go binding scans and changes Go strings and maps as the library would",
     "Rules made with the Go constructors (matching, redacting, hash, partial redaction; proximity keywords; secondary validator) mean the corresponding rules of the library; CreateScanner returns the library's kind of error (regex, keywords, match action) and no scanner when a rule is invalid. Scan of a string returns the rewritten text with Mutated set, or the original bytes with Mutated unset, and every match with rule index, replacement type, start, end and shift. ScanEventsMap looks at every string in nested maps and lists, replaces exactly the changed strings in place and reports matches with their paths; an event with a value that is neither string, list nor map is refused with an error and left alone.",
     ["inputs", "configurations"], "all strings, nested maps and lists, rule lists",
     "Events are encoded, sent through C and the response is applied by recursion over untyped values; the Go tests are not part of the Rust tests and use a handful of shapes.",
     ["sds-go/go/scanner.go", "sds-go/go/regex_rule.go", "sds-go/go/rule.go", "sds-go/rust/src/native/", "sds-bindings-utils/src/binary_encoding.rs"],
     [("encode the event, decode the response in place", "encodeMapEvent, encodeListEvent, decodeEventMapResponse, applyStringMutation"), ("rules as JSON", "RegexRuleConfig, MatchAction.MarshalJSON")],
     "TLA+ scan and tree specification, trace validation with TLC of executions of the Go package", BOUND + "The Go package is built with cgo against the library built from /repo.", ["ScanResult and the map after the call"])

prop("C12", "Counters say what the scanner did",
     "With a metrics recorder installed, the counters of a scanner follow its history of scans and carry the labels given to the scanner. scanned_events grows by one with every scan, scanning.match_count by the number of matches reported, scanning.duration by the time spent. false_positive.multipass.excluded_match grows by the number of candidates of a rule suppressed because their text was found at an excluded path, false_positive.proximity_keywords (with type=excluded_keywords) by the number of matches refused for an excluded keyword; both carry the labels of the scanner followed by those of the rule, and rules that were not looked at, or blocked, add nothing. A rule of the user's own is told about each of its suppressed candidates.",
     ["histories", "configurations"], "all histories of scans by a scanner, all rule and scanner labels",
     "Counts accumulate over scans, rules and strings; tests look at single increments.",
     ["sds/src/scanner/metrics.rs", "sds/src/scanner/mod.rs", "sds/src/proximity_keywords/excluded_keywords.rs", "sds/src/observability/labels.rs"],
     [("counters registered per scanner and per rule", "ScannerMetrics, RuleMetrics"), ("counting in the scan", "Scanner::scan, is_false_positive_match")],
     "TLA+ history specification of the counters, trace validation with TLC", BOUND, ["counters of the metrics recorder after every scan"])

prop("C19", "A user-defined rule is asked about exactly its strings, with the right data",
     "A rule of the user's own (RuleConfig and CompiledRule) is made once per scanner, with its place in the rule list and the labels of the scanner. During a scan it is asked exactly once about every string its scope covers, unless it is blocked, and never about another: it gets the text and path of that string and an exclusion check that says, for every rule, whether the string is excluded for it. Data is shared as promised: group data by the rules of a type for one string only, the scan cache by the rules of a type for one scan only, the group config by the rules of a type for the life of the scanner, made from all of them. What it emits is what is reported and redacted, it is told about each of its candidates dropped because of an excluded place, and an error it returns when being made is the error of the build.",
     ["inputs", "histories", "configurations"], "all rule lists, scopes, events and histories of scans of a scanner",
     "Which data is shared between which calls depends on the order of rules, strings and scans; a test with one rule and one string sees none of it.",
     ["sds/src/scanner/mod.rs", "sds/src/scanner/scope.rs", "sds/src/scoped_ruleset/mod.rs"],
     [("rule type and its associated data", "CompiledRule, CompiledRuleDyn, GroupData, GroupConfig, RuleScanCache"), ("calling the rules", "ScannerContentVisitor::visit_content"), ("exclusion check", "ExclusionCheck::is_excluded")],
     "TLA+ state machine of the calls made to rules, trace validation with TLC", BOUND + "Rules record their calls and emit scripted matches.", ["calls received by the rules, matches, final event"])

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "drv", "props")) if f.startswith("c")}
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as h:
        for p in P:
            h.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}",
                     "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}", "evidence_file": f"evidence/{p['id']}.json",
                     "technique": p["technique"], "level": "model_checking", "level_note": p["note"].strip()}
                    for p in P if p["id"] in built],
         "not_applicable": [{"property": p["id"], "reason": "not built yet"} for p in P if p["id"] not in built],
         "notes": "No hooks: the checks observe the library through its public API."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as h:
        json.dump(m, h, indent=1)
        h.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]


if __name__ == "__main__":
    main()
