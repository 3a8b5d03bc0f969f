#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the statements can be edited in one place).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

L = "pw_diff_lib/src/"
p("P01", "The computed changes are a faithful edit script of the two inputs",
  "For any two sequences of lines or of bytes, the list of changes computed for them, read in order, covers every item of the first and every item of the second sequence exactly once and in order. Items reported as unchanged are equal on both sides, every inserted, deleted or replaced run is non-empty, and two identical sequences give no change.",
  ["inputs"], "every pair of input sequences (text lines or bytes)",
  "the tests compare a handful of fixed letter sequences; whether the recursion, the run extension and the merging of runs stay consistent depends on which items are equal to which, which only a quantifier over all equality patterns settles",
  [L+"changes.rs", L+"common_subsequence.rs", L+"sequence.rs"],
  [("Changes::new / ChangesGenerator::generate", L+"changes.rs"), ("longest_common_subsequences (recursion, sort, merge)", L+"changes.rs")],
  ["Changes::<String>::new(before, after).changes", "Changes::<u8>::new(before, after).changes"])
p("P02", "The longest-common-run search is right and maximal",
  "For any two sequences and any sub-ranges of them, the longest-common-run query returns a run that lies inside both sub-ranges and whose items are equal on both sides, and no longer common run exists inside them. It returns nothing exactly when the two sub-ranges have no item in common.",
  ["inputs"], "every pair of sequences and every pair of sub-ranges",
  "one documentation example exercises it; repeated items, sub-ranges not starting at 0 and runs touching the range ends are not sampled",
  [L+"changes.rs", L+"sequence.rs", L+"common_subsequence.rs"],
  [("ChangesGenerator::longest_common_subsequence", L+"changes.rs"), ("StringItemIndices / ByteItemIndices", L+"sequence.rs")],
  ["ChangesGenerator::longest_common_subsequence(before_range, after_range)"])
p("P03", "A text diff applied to its own input reproduces the other side",
  "For any two texts and any context size, applying the text diff computed from them to the first text yields exactly the second text, byte for byte, and applying it in reverse to the second text yields exactly the first. Every hunk is reported as applied cleanly and none as fuzzy, already applied or failed.",
  ["inputs", "configurations"], "every pair of texts (including empty ones and ones without a final newline), every context size, both directions",
  "tests apply three fixed patches with context 2; wrong hunks for particular equality patterns, context sizes or missing final newlines are not sampled",
  [L+"changes.rs", L+"text_diff.rs", L+"apply_text.rs", L+"snippet.rs", L+"sequence.rs"],
  [("Changes::change_clumps", L+"changes.rs"), ("TextChangeClump::from", L+"text_diff.rs"), ("ApplyClumpsFuzzy::apply_into", L+"apply_text.rs")],
  ["ApplyClumpsFuzzy::apply_into output and Statistics"])
p("P04", "A byte diff applied to its own input reproduces the other side",
  "For any two byte strings and any context size, applying the byte diff computed from them to the first yields exactly the second, and applying it in reverse to the second yields exactly the first.",
  ["inputs", "configurations"], "every pair of byte strings (including empty ones), every context size, both directions",
  "no test applies a byte diff at all",
  [L+"changes.rs", L+"byte_diff.rs", L+"apply_bytes.rs", L+"snippet.rs", L+"sequence.rs"],
  [("ByteChangeClump::from", L+"byte_diff.rs"), ("ApplyClumpsClean::apply_into", L+"apply_bytes.rs"), ("Seq::has_subsequence_at", L+"sequence.rs")],
  ["ApplyClumpsClean::apply_into output"])
p("P05", "Hunks carry every change exactly once with the requested context",
  "For any valid change list and any context size, grouping it into hunks keeps every insertion, deletion and replacement, in order, exactly once, in hunks that do not overlap and appear in file order. No hunk has more leading or trailing context than requested, it has exactly the requested amount where that many unchanged items are available, and its reported start, end and context lengths describe exactly its contents on both sides.",
  ["inputs", "configurations"], "every change list with runs of any length and every context size 0..255",
  "tests use context 2 and short runs; the trim/split arithmetic on long runs, context 0 and 255 and back-to-back hunks is not sampled",
  [L+"changes.rs", L+"common_subsequence.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs"],
  [("ChangeClumpIter::next (stash, split, trim)", L+"changes.rs"), ("CommonSubsequence::{starts_trimmed,ends_trimmed,split}", L+"common_subsequence.rs"), ("ChangeClump::{starts,ends,ranges,context_lengths}", L+"changes.rs")],
  ["Changes::change_clumps(context)", "ChangeClump::{starts,ends,ranges,context_lengths}"],
  state=[("stash", "the tail of an unchanged run saved as the leading context of the next hunk", L+"changes.rs")])
p("P06", "Text patching of any target never corrupts it",
  "Applying a text diff to any target text, not only the one it was made from, never crashes or fails to finish, and the output is the target with only some non-overlapping, in-order regions replaced, each of which equals what the hunk expects there (possibly less some context lines) and is replaced by what the hunk prescribes. Nothing else of the target is lost, duplicated or reordered, a hunk that applies nowhere leaves the target's lines untouched and is shown between conflict markers, and the reported counts add up to the number of hunks.",
  ["inputs", "histories"], "every diff, every target text (partially patched, displaced, truncated, empty), both directions",
  "tests use targets that are the original, fully patched or shifted by a prefix; partially patched, truncated or repetitive targets are not sampled",
  [L+"apply_text.rs", L+"text_diff.rs", L+"snippet.rs", L+"sequence.rs", L+"changes.rs"],
  [("ApplyClumpsFuzzy::apply_into", L+"apply_text.rs"), ("ApplyClumpFuzzy::will_apply_nearby", L+"apply_text.rs"), ("ConsumableSeq", L+"sequence.rs")],
  ["ApplyClumpsFuzzy::apply_into output and Statistics"],
  state=[("ConsumableSeq.consumed", "how much of the target has been copied or replaced so far", L+"sequence.rs")])
p("P07", "A reported text match is a real match, and the nearest one",
  "When a hunk is reported to apply at an offset with some context lines ignored, the remaining lines of the hunk really occur at that place in the target, only context lines were ignored, and at most as many at each end as the hunk has. An exact match at the expected place is always reported as clean and wins over any other, and a match reported for a nearby place is not farther away than another place in the searched window that also matches; when the hunk's lines occur exactly somewhere in the searched window, a match is found.",
  ["inputs"], "every hunk, target, offset and direction",
  "tests check counts on fixed shifted inputs only; the index arithmetic over offsets, reductions and the search window is not sampled at its ends",
  [L+"apply_text.rs", L+"changes.rs", L+"snippet.rs"],
  [("ApplyClumpFuzzy::will_apply", L+"apply_text.rs"), ("ApplyClumpFuzzy::will_apply_nearby", L+"apply_text.rs"), ("before_is_subsequence_in_at", L+"apply_text.rs")],
  ["ApplyClumpFuzzy::will_apply", "ApplyClumpFuzzy::will_apply_nearby", "ApplyClumpFuzzy::is_already_applied"])
p("P08", "Byte patching of any target never corrupts it",
  "Applying a byte diff to any target bytes, not only those it was made from, never crashes, and the output is the target with only non-overlapping, in-order regions replaced, each of which held exactly the bytes its hunk expects at that position and now holds the bytes the hunk prescribes. A hunk whose expected bytes are not there leaves the target's bytes untouched.",
  ["inputs", "histories"], "every byte diff, every target, both directions",
  "no test applies a byte diff",
  [L+"apply_bytes.rs", L+"byte_diff.rs", L+"sequence.rs"],
  [("ApplyClumpsClean::apply_into", L+"apply_bytes.rs"), ("ApplyClumpClean for ByteChangeClump", L+"byte_diff.rs"), ("ConsumableSeq::write_into_upto", L+"sequence.rs")],
  ["ApplyClumpsClean::apply_into output"])
p("P09", "An already patched target is recognised",
  "After a diff has been applied to the text or bytes it was made from, asking whether it is already applied to the result answers yes, in both directions. The answer is never yes when some hunk's resulting lines occur nowhere in the target.",
  ["inputs", "configurations"], "every pair of inputs and every context size, both directions",
  "one fixed example asserts it for text; none for bytes",
  [L+"apply_text.rs", L+"apply_bytes.rs", L+"byte_diff.rs", L+"text_diff.rs"],
  [("ApplyClumpsFuzzy::is_already_applied", L+"apply_text.rs"), ("ApplyClumpsClean::already_applied", L+"apply_bytes.rs")],
  ["ApplyClumpsFuzzy::is_already_applied", "ApplyClumpsClean::already_applied"])
p("P10", "Writing a diff to JSON and reading it back loses nothing",
  "Any diff, of any of the six kinds and with any text (quotes, control characters, carriage returns, non-ASCII) or bytes, written out and read back is the same diff: it writes out identically and applies identically.",
  ["inputs"], "every diff value",
  "one test writes a diff and never compares it after reading back",
  [L+"diff.rs", L+"text_diff.rs", L+"byte_diff.rs", L+"snippet.rs"],
  [("Diff::to_writer / Diff::from_reader", L+"diff.rs"), ("serde derives", L+"text_diff.rs")],
  ["Diff::to_writer", "Diff::from_reader"])
p("P11", "A diff of two paths has the right kind, paths and full content",
  "A diff made from two paths is a text or byte change, addition or removal according to which of the files exist and whether they are valid text, names the paths it was made from, and an addition or removal carries the complete content of the existing file. If neither exists, or a file cannot be read, an error is returned and no diff.",
  ["inputs", "fault_sequences"], "every combination of existence and content of the two files and every I/O failure",
  "one test reads two fixed text files",
  [L+"diff.rs", L+"text_diff.rs", L+"byte_diff.rs"],
  [("Diff::new", L+"diff.rs"), ("PathAndLines::new / PathAndBytes::new", L+"text_diff.rs")],
  ["Diff::new"])
p("P12", "pw_patch replaces the patched file atomically or not at all",
  "When the patch tool updates an existing file, at every instant, and after any I/O failure or crash, that file holds either its complete old content or the complete patched content. The tool exits with status 0 only if the file holds the patched content, and however it ends normally it leaves no temporary file behind.",
  ["fault_sequences", "crash_points", "inputs"], "every single or repeated I/O failure (open, read, write, rename), every short write and every crash point",
  "the tool has no tests",
  ["pw_patch/src/main.rs", L+"apply_text.rs", L+"apply_bytes.rs", L+"sequence.rs"],
  [("temporary file then rename", "pw_patch/src/main.rs")],
  ["file system after pw_patch ends or is killed", "exit status of pw_patch"])
p("P13", "pw_patch adds and removes files safely and reports failure",
  "When the patch tool applies a file addition (or reverses a removal) it never changes a file that already exists, and it exits with status 0 only if the new file exists with the complete recorded content (after a failure it leaves no part of it behind, unless removing it fails too); when it applies a removal (or reverses an addition) it exits with status 0 only if the file is gone. It never touches any file other than the one named in the patch and its own temporary file.",
  ["fault_sequences", "crash_points", "inputs"], "every I/O failure, short write and pre-existing file state",
  "the tool has no tests",
  ["pw_patch/src/main.rs", L+"text_diff.rs", L+"byte_diff.rs"],
  [("File::create_new / fs::remove_file and exit status", "pw_patch/src/main.rs")],
  ["file system after pw_patch ends", "exit status of pw_patch"])
p("P14", "Hunk headers survive being written and parsed",
  "The unified-diff hunk header printed for any starts and lengths parses back to exactly those numbers, whatever text or newline follows it. Any header line either parses to the decimal numbers it spells, with an omitted length meaning 1, or is rejected; a number too large to represent is an error and never a different number.",
  ["inputs"], "all four numbers over the full integer range, and every header line",
  "tests parse one fixed diff and look only at whether parsing succeeds",
  ["pw_cub_diff_lib/src/unified_diff.rs", "pw_cub_diff_lib/src/text_diff.rs"],
  [("Display for StartsAndLengths", "pw_cub_diff_lib/src/unified_diff.rs"), ("starts_and_lengths", "pw_cub_diff_lib/src/unified_diff.rs")],
  ["StartsAndLengths::to_string", "starts_and_lengths"])
p("P15", "Parsing a unified-diff hunk is safe and faithful",
  "Parsing a unified-diff hunk from any lines, starting at any position in them, never crashes. A hunk returned as parsed has exactly the number of old and new lines its header declares; they are the hunk's lines in order, prefix included, with context lines on both sides; a line followed by a \"\\\" marker loses its newline (and nothing else) on every side it is on; the context lengths count the context lines at the two ends (up to 255); and the number of lines reported as consumed is the number the hunk occupies. Asked in reverse, the hunk tells the same with its two sides exchanged. A hunk that is cut short, has more lines than declared or holds a foreign line is an error.",
  ["inputs"], "every sequence of lines following a header and every start position",
  "tests parse one well-formed hunk and only check that it parses",
  ["pw_cub_diff_lib/src/unified_diff.rs"],
  [("UnifiedDiffClump::get_from_at", "pw_cub_diff_lib/src/unified_diff.rs")],
  ["UnifiedDiffClump::get_from_at"])
p("P16", "Unified output describes the same change",
  "For any two texts and context size, each hunk produced by the unified-diff writer has a header whose starts (counted from 0, as the library counts) and lengths match its lines; written out one after the other, its lines are exactly the corresponding lines of the first and second text, each line without a newline is marked, and the hunk parses back as it was written; everything outside the hunks is the same in both texts.",
  ["inputs", "configurations"], "every pair of texts and context size",
  "there is no test of the writer",
  ["pw_cub_diff_lib/src/unified_diff.rs", L+"changes.rs"],
  [("Iterator for UnifiedClumpIter", "pw_cub_diff_lib/src/unified_diff.rs")],
  ["UnifiedClumpIter::next"])
p("P17", "Splitting a text or file into lines is lossless",
  "Reading a text into a sequence of lines, from a string or from a reader, keeps every byte: joining the lines gives the text back, every line except possibly the last ends in its only newline, and no line is empty. Reading gives the same lines however the reader delivers the data, invalid UTF-8 is reported as an error, and writing any range of a sequence out emits exactly that range.",
  ["inputs", "schedules"], "every text, every way of delivering it in pieces, every range",
  "tests only read well-formed short strings delivered whole",
  [L+"sequence.rs"],
  [("Seq::<String>::read / From<String>", L+"sequence.rs"), ("WriteDataInto, ConsumableSeq", L+"sequence.rs")],
  ["Seq::<String>::read", "Seq::<String>::from", "WriteDataInto", "ConsumableSeqIfce"])
p("P18", "The item index lists exactly where each item occurs",
  "For any sequence, looking an item up in its content index gives all positions at which that item occurs, in ascending order, and nothing for an item that does not occur.",
  ["inputs"], "every sequence and every item",
  "no test looks at the index directly",
  [L+"sequence.rs"],
  [("StringItemIndices / ByteItemIndices", L+"sequence.rs")],
  ["ContentItemIndices::indices"])
p("P19", "pw_diff reports success only with a complete diff written",
  "The diff tool exits with status 0 only if a complete diff of the two files was written to standard output; if the files cannot be read or the output cannot be written it exits with a non-zero status, and it never modifies its input files.",
  ["fault_sequences", "inputs"], "every I/O failure",
  "the tool has no tests",
  ["pw_diff/src/main.rs", L+"diff.rs"],
  [("main: exit codes", "pw_diff/src/main.rs")],
  ["exit status and standard output of pw_diff"])
p("P20", "File header lines give the path and time stamp they spell",
  "For any line, reading it as a unified-diff file header gives nothing unless the line is one; otherwise it gives the path exactly as spelled, quoted or up to the first blank, and the time stamp exactly as spelled when one follows in a recognised form, and no time stamp otherwise. It never crashes.",
  ["inputs"], "every header line",
  "there is no test of file headers",
  ["pw_cub_diff_lib/src/unified_diff.rs", "pw_cub_diff_lib/src/lib.rs"],
  [("before_path_and_time_stamp / after_path_and_time_stamp", "pw_cub_diff_lib/src/unified_diff.rs")],
  ["before_path_and_time_stamp", "after_path_and_time_stamp"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
