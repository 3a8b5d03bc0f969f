"""Which harnesses decide which property, their bounds, and the events each must reach."""


def H(entry, bounds, reach=(), time=400, opts=()):
    return {"entry": entry, "bounds": bounds, "reach": list(reach), "time": time, "opts": list(opts)}


CHECKS = {}


def C(pid, quick, thorough=(), outside="", **kw):
    CHECKS[pid] = {"quick": quick, "thorough": quick + list(thorough), "outside": outside, **kw}


WIDE = "lines of up to two arbitrary ASCII characters or one two-byte character"
LINES = "lines of one arbitrary ASCII character, the last with or without its newline"

C("P01", [
    H("p01_text_3", "texts of up to 3+3 lines: " + LINES, ["changed", "identical"]),
    H("p01_text_4", "texts of up to 4+4 lines: " + LINES, ["changed", "identical"]),
    H("p01_wide_3", "texts of up to 3+3 lines: " + WIDE, ["changed", "identical"]),
    H("p01_byte_3", "byte strings of up to 3+3 bytes, every content", ["changed", "identical"]),
    H("p01_long", "one 60-line text with an insertion, deletion or replacement at each of three places", ["changed"]),
], [
    H("p01_byte_4", "byte strings of up to 4+4 bytes, every content", ["changed", "identical"]),
    H("p01_text_5", "texts of up to 5+5 lines: " + LINES, ["changed", "identical"], time=800),
], outside="longer inputs with arbitrary contents (lines are only compared and hashed, never inspected)")

C("P02", [
    H("p02_text_33", "text, 3+3 one-character lines, every content and every pair of sub-ranges", ["found", "none"]),
    H("p02_text_44", "text, 4+4 one-character lines, every content, whole sequences", ["found", "none"]),
    H("p02_wide_3", "text, 3+3 lines, whole sequences: " + WIDE, ["found", "none"]),
    H("p02_byte_33", "bytes, 3+3, every content and every pair of sub-ranges", ["found", "none"]),
], [
    H("p02_byte_44", "bytes, 4+4, every content, whole sequences", ["found", "none"]),
    H("p02_text_55", "text, 5+5 one-character lines, every content, whole sequences", ["found", "none"]),
], outside="longer sequences")

C("P03", [
    H("p03_text_3", "texts of up to 3+3 lines, context 0 to 3: " + LINES, ["hunks", "several hunks"]),
    H("p03_text_4", "texts of up to 4+4 lines, context 0 to 3: " + LINES, ["hunks", "several hunks"]),
    H("p03_wide_2", "texts of up to 2+2 lines, context 0 to 2: " + WIDE, ["hunks"]),
    H("p03_wide_3", "texts of up to 3+3 lines without context: " + WIDE, ["hunks", "several hunks"]),
    H("p03_long", "one 300-line text with an insertion, deletion or replacement at each of two places, context 0, 1, 3, 127, 128, 200, 255", ["hunks", "several hunks"]),
], [
    H("p03_text_5", "texts of up to 5+5 lines, context 0 to 3: " + LINES, ["hunks", "several hunks"], time=1500),
], outside="longer texts with arbitrary contents")

C("P04", [
    H("p04_byte_3", "byte strings of up to 3+3 bytes, every content, context 0 to 3", ["hunks", "several hunks"]),
    H("p04_long", "one 600-byte string with an insertion, deletion or replacement at each of two places, context 0, 1, 3, 127, 128, 200, 255", ["hunks", "several hunks"]),
], [
    H("p04_byte_4", "byte strings of up to 4+4 bytes, every content, context 0 to 3", ["hunks", "several hunks"]),
], outside="longer byte strings with arbitrary contents")

C("P05", [
    H("p05_%d" % k, "every valid change list of %d changes, runs of any length up to 2^40, every context from 0 to 255" % k, (["no hunk"] if k == 0 else []) + (["several hunks"] if k > 1 else []), opts=["--lia"])
    for k in range(4)
], [
    H("p05_4", "every valid change list of 4 changes, runs of any length up to 2^40, every context from 0 to 255", ["several hunks"], opts=["--lia"]),
], outside="more changes in one list (grouping looks at one unchanged run at a time)")

C("P09", [
    H("p09_text_3", "texts of up to 3+3 lines, context 0 to 3: " + LINES, ["hunks"]),
    H("p09_byte_3", "byte strings of up to 3+3 bytes, every content, context 0 to 3", ["hunks"]),
    H("p09_wide_2", "texts of up to 2+2 lines without context: " + WIDE, ["hunks"]),
], [
    H("p09_text_4", "texts of up to 4+4 lines, context 0 to 3: " + LINES, ["hunks"]),
])

C("P17", [
    H("p17_str_4", "strings of 4 arbitrary bytes that are valid UTF-8", ["text"]),
    H("p17_read_4", "readers delivering up to 4 arbitrary bytes in any portions, one interruption", ["read"]),
    H("p17_read_3", "readers delivering up to 3 arbitrary bytes in any portions, failing anywhere", ["read", "failure reported", "invalid text reported"]),
    H("p17_read_ascii_7", "readers delivering 7 arbitrary ASCII bytes"),
    H("p17_read_bytes", "byte readers, up to 5 bytes in any portions, interruptions and failures", ["read", "failure reported"]),
    H("p17_read_long", "a text longer than the read buffer"),
    H("p17_write_text", "every range of a 3-line text, writers that take any portions or fail", ["written", "failure reported"]),
    H("p17_write_bytes", "every range of 4 bytes, writers that take any portions or fail", ["written", "failure reported"]),
    H("p17_consume_4", "every sequence of consuming writes over 4 lines"),
], outside="longer texts with arbitrary contents; read buffers other than the standard 8 KiB")

C("P18", [
    H("p18_text_6", "sequences of 6 lines, every content"),
    H("p18_wide_3", "sequences of up to 3 lines: " + WIDE, ["some", "several", "none"]),
    H("p18_byte_5", "sequences of 5 bytes, every content"),
    H("p18_long", "700 equal items with another one at one of three places"),
], outside="longer sequences")

C("P06", [
    H("p06_one_1", "one hunk with arbitrary lines, context 0 or 1, all endings, targets of up to 3 arbitrary lines", ["clean", "fuzzy", "already applied", "already applied, fuzzy", "failed"]),
    H("p06_one_2", "one hunk with arbitrary lines, context up to 2, targets of up to 4 arbitrary lines", ["clean", "fuzzy", "already applied", "already applied, fuzzy", "failed"]),
    H("p06_wide_1", "one hunk with context up to 1, targets of up to 2 lines: " + WIDE, ["clean", "fuzzy", "already applied", "already applied, fuzzy", "failed"]),
    H("p06_two_0", "two hunks with arbitrary lines and no context, targets of up to 4 arbitrary lines", ["clean", "fuzzy", "already applied", "already applied, fuzzy", "failed"]),
    H("p06_two_side", "two hunks with up to 3 arbitrary lines on each side and no context, targets of up to 3 arbitrary lines", ["clean", "fuzzy", "already applied", "already applied, fuzzy", "failed"]),
    H("p06_distinct_2", "two hunks of distinct lines with context up to 2, targets of up to 4 lines over those and others", ["clean", "fuzzy", "already applied", "already applied, fuzzy", "failed"]),
    H("p06_long", "one hunk with context 3 or 130 in a 290-line text, targets that differ in context lines and are displaced", ["applied", "failed"]),
    H("p06_two_1", "two hunks with arbitrary lines and context up to 1, targets of up to 4 arbitrary lines", ["clean", "fuzzy", "already applied", "already applied, fuzzy", "failed"]),
], [
    H("p06_distinct_3", "three hunks of distinct lines without context, targets of up to 4 lines over those and others", ["clean", "fuzzy", "already applied", "already applied, fuzzy", "failed"]),
], outside="more hunks, longer targets with arbitrary contents, lines of other lengths in larger cases (lines are only compared and copied), hand-made diffs whose recorded context is longer than the hunk")

C("P07", [
    H("p07_at_2", "one hunk with arbitrary lines, context up to 2, all endings, targets of up to 3 lines, every offset around the target", ["clean", "reduced", "none"]),
    H("p07_at_3", "one hunk with arbitrary lines, context up to 3, targets of up to 5 lines, every offset around the target", ["clean", "reduced", "none"]),
    H("p07_wide_1", "one hunk with context up to 1, targets of up to 2 lines, every offset inside: " + WIDE, ["clean", "none"]),
    H("p07_far", "the same, every offset from 20 to 2^44 lines away, either side", ["none"]),
    H("p07_wins_3", "one hunk with arbitrary lines, context up to 3, targets of up to 6 lines that hold it where expected", ["used"]),
    H("p07_near_1", "search for one hunk with context up to 1 in targets of up to 4 lines, any part of them used up", ["nearby", "nothing nearby", "clean"]),
    H("p07_near_2", "search for one hunk with context up to 2 in targets of up to 5 lines, any part of them used up", ["nearby", "nothing nearby", "clean", "reduced"]),
    H("p07_next_0", "search with a following hunk, no context, targets of up to 4 lines", ["nearby", "nothing nearby", "clean"]),
    H("p07_next_1", "search with a following hunk, context up to 1, targets of up to 4 lines", ["nearby", "nothing nearby", "clean"]),
    H("p07_long", "search in an 800-line target holding one or two copies at chosen distances up to 257 lines", ["clean"]),
], [
    H("p07_near_3", "search for one hunk with context up to 3 in targets of up to 5 lines, any part of them used up", ["nearby", "nothing nearby", "clean", "reduced"]),
], outside="longer targets with arbitrary contents; offsets beyond 2^44")

C("P08", [
    H("p08_one", "one hunk with arbitrary bytes, context up to 2, targets of up to 5 arbitrary bytes", ["applied", "untouched"]),
    H("p08_two_0", "two hunks with arbitrary bytes without context, targets of up to 5 arbitrary bytes", ["applied", "untouched"]),
    H("p08_two_1", "two hunks with arbitrary bytes with context up to 1, targets of up to 6 arbitrary bytes", ["applied", "untouched"]),
], [
    H("p08_three", "three hunks with arbitrary bytes without context, targets of up to 5 arbitrary bytes", ["applied", "untouched"]),
], outside="more hunks, longer targets with arbitrary contents")

C("P09", CHECKS["P09"]["quick"] + [
    H("p09_vain_1", "one hunk with arbitrary lines, context up to 2, targets of up to 4 arbitrary lines", ["applied", "not applied"]),
    H("p09_vain_2", "two hunks with arbitrary lines, context up to 1, targets of up to 4 arbitrary lines", ["applied", "not applied"]),
    H("p09_vain_w", "one hunk with context up to 1, targets of up to 2 lines: " + WIDE, ["applied", "not applied"]),
    H("p09_vain_b", "two hunks with arbitrary bytes, context up to 1, targets of up to 5 arbitrary bytes", ["applied", "not applied"]),
], CHECKS["P09"]["thorough"][len(CHECKS["P09"]["quick"]):], outside=CHECKS["P09"]["outside"])

KINDS = ["text change", "byte change", "text removal", "byte removal", "text addition", "byte addition"]
C("P11", [
    H("p11_any_2", "files of up to 2 arbitrary bytes each, or missing, context 0 or 3", KINDS + ["error"]),
    H("p11_single", "one file of 4 arbitrary bytes, the other missing", KINDS[2:]),
    H("p11_fault_1", "files of up to 1 arbitrary byte each, or missing, with any one failing, interrupted or short operation", KINDS + ["error"]),
    H("p11_dir", "one of the paths a directory", ["error"]),
    H("p11_fault_2", "files of up to 1 arbitrary byte each, or missing, with any two failing, interrupted or short operations", KINDS + ["error"]),
    H("p11_lines_3", "seven pairs of files of several lines, one or both there, with any three failing, interrupted or short operations", KINDS + ["error"]),
], [
    H("p11_fault_3", "files of up to 2 arbitrary bytes each, or missing, with any one failing, interrupted or short operation", KINDS + ["error"]),
], outside="longer files, more faults; whether a path exists is answered without failure", faults=True)

C("P10", [
    H("p10_one_1", "the removal of a file of one arbitrary byte", ["text removal", "byte removal"]),
    H("p10_one_2", "the removal of a file of two arbitrary bytes", ["text removal", "byte removal"]),
    H("p10_one_4", "the removal of a text of four bytes that starts with any character of three or four bytes", ["text removal"]),
    H("p10_two_1", "a change between files of one arbitrary byte each, context 0 or 3", ["text change", "byte change"]),
    H("p10_path_1", "an added file with any path of one byte", ["kept", "refused"]),
    H("p10_path_2", "an added file with any path of two bytes", ["kept", "refused"]),
    H("p10_at", "text and byte hunks at 27 places from 0 to 1300, context lengths from 0 to 255", ["kept"]),
    H("p10_device", "one diff, writers and readers that are interrupted, take portions or fail at any place", ["read", "written", "failure of the reader reported", "failure of the writer reported"]),
], [
    H("p10_one_3", "the removal of a file of three arbitrary bytes", ["text removal", "byte removal"], time=1500),
], outside="longer files and paths with arbitrary contents, places beyond 1300")

ANYWHERE = "one failure, interruption or short transfer of any file operation, at any of them; the file checked after every one"

C("P12", [
    H("p12_text,main,patched_", "a text change, both directions, of a file as expected, already changed, different or missing; " + ANYWHERE, ["success", "failure"]),
    H("p12_byte,main,patched_", "the same for a change of bytes", ["success", "failure"]),
    H("p12_text_2,main,patched_", "the same for a text, with up to two faults (of the reads of the patch only the first)", ["success", "failure"]),
    H("p12_any_2,main,patched_", "every two texts of 2 one-letter lines, both directions", ["success"]),
    H("p12_cut_text,main,patched_", "a patch cut short anywhere, empty or missing", ["failure"]),
], [
    H("p12_from_empty,main,patched_", "the same for a file that was empty", ["success", "failure"]),
    H("p12_to_empty,main,patched_", "the same for a file that becomes empty", ["success", "failure"]),
    H("p12_byte_2,main,patched_", "the same for bytes, with up to two faults (of the reads of the patch only the first)", ["success", "failure"]),
    H("p12_any_3,main,patched_", "every two texts of 3 one-letter lines, both directions", ["success"]),
    H("p12_cut_byte,main,patched_", "a patch of bytes cut short anywhere, empty or missing", ["failure"]),
], exe="pw_patch", outside="files in other directories, links and permissions; loss of power (what has reached the disk); signals while the tool runs, other than ones that end it between two file operations; other programs changing the files meanwhile",
assumptions=["the file system does what POSIX says (rename is atomic, O_EXCL is exclusive); it is modelled in the engine, and the same faults are injected into the real executable when paths are replayed"])

C("P13", [
    H("p13_fault,main,patched_", "additions and removals of text and of bytes, both directions, with the file there, different or not there; " + ANYWHERE, ["success", "failure"]),
    H("p13_fault_2,main,patched_", "the same with up to two faults (of the reads of the patch only the first)", ["success", "failure"]),
    H("p13_any_2,main,patched_", "every added file of 2 bytes", ["success"]),
    H("p13_way,main,patched_", "every file of 3 bytes in the way of an addition", ["failure"]),
], [
    H("p13_any_3,main,patched_", "every added file of 3 bytes", ["success"]),
    H("p13_fault_3,main,patched_", "the same with up to three faults (of the reads of the patch only the first)", ["success", "failure"]),
], exe="pw_patch", outside="files in other directories, links and permissions; other programs changing the files meanwhile",
assumptions=["the file system does what POSIX says; it is modelled in the engine, and the same faults are injected into the real executable when paths are replayed"])

C("P19", [
    H("p19_fault,main,diffed_", "every kind of diff, context 0, 2 and 255; " + ANYWHERE, ["success", "failure"]),
    H("p19_any_1,main,diffed_", "every two files of up to 1 byte, or none", ["success", "failure"]),
    H("p19_directory,main,diffed_dir_", "one of the paths is a directory", ["failure"]),
], [
    H("p19_fault_2,main,diffed_", "the same with up to two faults", ["success", "failure"]),
    H("p19_any_2,main,diffed_", "every two files of up to 2 bytes, or none", ["success", "failure"]),
], exe="pw_diff", outside="longer files with arbitrary contents (see P01 to P05 and P10 to P11 for what the diff says)",
assumptions=["the file system does what POSIX says; it is modelled in the engine, and the same faults are injected into the real executable when paths are replayed"])

C("P14", [
    H("p14_trip_1", "one number from 0 to 999 in each of the four places, the others 0, 1 or the largest, any of four tails", ["survives"]),
    H("p14_trip_2", "two numbers from 0 to 99 in any two of the four places, the others 0, 1 or the largest, any of four tails", ["survives"]),
    H("p14_trip_far", "four numbers each 0, 1, 2, 10, 65535, 2^32, 10^19 or the largest", ["survives"]),
    H("p14_digits", "headers with one number of up to 6 arbitrary digits in each of the four places", ["parsed"]),
    H("p14_max", "headers with one number of 18 to 21 digits of which the first and the last two are arbitrary, with up to two leading zeros", ["parsed", "refused"]),
    H("p14_hole_1", "three headers with up to one character anywhere replaced by one arbitrary ASCII character", ["parsed", "not a header"]),
    H("p14_hole_2", "three headers with up to two characters anywhere replaced by two arbitrary ASCII characters", ["parsed", "not a header"]),
    H("p14_wide_2", "three headers with up to one character anywhere replaced by any character of two bytes", ["parsed", "not a header", "refused"]),
    H("p14_short", "every line of up to 4 ASCII characters", ["not a header"]),
], [
    H("p14_hole_3", "three headers with up to three characters anywhere replaced by three arbitrary ASCII characters", ["parsed", "not a header"]),
    H("p14_wide_3", "three headers with up to one character anywhere replaced by any character of three bytes", ["parsed", "not a header", "refused"]),
    H("p14_max_2", "headers with one number of 18 to 21 digits of which the first two and the last three are arbitrary, with up to two leading zeros", ["parsed", "refused"]),
], outside="other numbers of more than three digits in a header that is printed, several unusual places in one line")

C("P15", [
    H("p15_any_3", "up to 3 lines, each with any first and second ASCII character and one of any of five unusual forms, after a header that declares up to 2+2 lines", ["hunk", "refused"]),
    H("p15_any_4", "the same with up to 4 lines", ["hunk", "refused"]),
    H("p15_ctx", "0 to 300 lines of context before and after a change, with or without a marker, whole or cut short", ["hunk", "refused"]),
    H("p15_more", "headers that declare 2^40 lines and more", ["refused"]),
    H("p15_other", "positions that hold no header, the end included", ["no hunk"]),
], [
    H("p15_any_5", "up to 5 lines, the same, after a header that declares up to 3+3 lines", ["hunk", "refused"], time=800),
], outside="hunks of more lines with arbitrary prefixes, non-ASCII characters in the first two places")

C("P16", [
    H("p16_any_3", "texts of up to 3+3 lines, context 0 to 2: " + LINES, ["hunk", "no hunk", "several hunks"]),
    H("p16_wide_2", "texts of up to 2+2 lines, context 0 to 1: " + WIDE, ["hunk", "no hunk", "several hunks"]),
    H("p16_made_3", "every list of 3 changes of one or two lines each, context 0 to 2, last lines with or without a newline", ["hunk", "several hunks"]),
    H("p16_made_4", "the same with 4 changes", ["hunk", "several hunks"]),
    H("p16_long", "one 300-line text with an insertion, deletion or replacement at each of two places, context 0, 1, 3, 128, 255", ["hunk", "several hunks"]),
], [
    H("p16_any_4", "texts of up to 4+4 lines, context 0 to 2: " + LINES, ["hunk", "no hunk", "several hunks"]),
], outside="longer texts with arbitrary contents")

C("P20", [
    H("p20_hole_1", "five file headers with one character anywhere replaced by an arbitrary ASCII character", ["time stamp", "no time stamp", "not a file header"]),
    H("p20_short", "lines that start with a mark and go on with up to 3 arbitrary ASCII characters", ["no time stamp", "not a file header"]),
], [
    H("p20_hole_2", "five file headers with an arbitrary ASCII character inserted anywhere", ["time stamp", "no time stamp", "not a file header"]),
    H("p20_hole_3", "five file headers with up to two characters anywhere replaced by two arbitrary ASCII characters", ["time stamp", "no time stamp", "not a file header"], time=1500),
    H("p20_short_4", "lines that start with a mark and go on with up to 4 arbitrary ASCII characters", ["no time stamp", "not a file header"], time=1500),
], outside="characters outside ASCII, several unusual places in one line")
