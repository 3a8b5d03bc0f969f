//! P11 (a diff of two paths), P10 (JSON).
use crate::rt::*;
use crate::util::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, TextClumpBasics};
use pw_diff_lib::diff::Diff;
use pw_diff_lib::byte_diff::ByteChangeClump;
use pw_diff_lib::changes::*;
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::*;
use pw_diff_lib::text_diff::{PathAndLines, TextChangeClump};
use std::path::Path;

pub const BEFORE: &str = "before.x";
pub const AFTER: &str = "after.x";

/// arbitrary bytes, or none for no file
pub fn content(max: usize) -> Option<Vec<u8>> {
    match choose(max + 2) {
        0 => None,
        n => Some(any_bytes(n - 1)),
    }
}

fn text(b: &[u8]) -> Option<String> {
    std::str::from_utf8(b).ok().map(|s| s.to_string())
}

/// What a diff of these contents must be.
pub fn judge(d: &Diff, before: &Option<Vec<u8>>, after: &Option<Vec<u8>>) {
    let valid = before.as_ref().is_none_or(|b| text(b).is_some()) && after.as_ref().is_none_or(|a| text(a).is_some());
    let mut out = vec![];
    match (d, before, after) {
        (Diff::TextChange(d), Some(b), Some(a)) => {
            reach("text change");
            check(valid, "a text change is made of texts");
            check(d.before_path() == Path::new(BEFORE) && d.after_path() == Path::new(AFTER), "the diff names its paths");
            let (b, a) = (text(b).unwrap_or_default(), text(a).unwrap_or_default());
            let (sb, sa) = (Seq::<String>::from(b.as_str()), Seq::<String>::from(a.as_str()));
            check(d.apply_into(&sb, &mut out, false).is_ok() && eq(&out, a.as_bytes()), "the diff turns the one file into the other");
            out.clear();
            check(d.apply_into(&sa, &mut out, true).is_ok() && eq(&out, b.as_bytes()), "in reverse, the diff turns the other file into the one");
        }
        (Diff::ByteChange(d), Some(b), Some(a)) => {
            reach("byte change");
            check(!valid, "two texts give a text change");
            check(d.before_path() == Path::new(BEFORE) && d.after_path() == Path::new(AFTER), "the diff names its paths");
            check(d.apply_into(&bseq(b), &mut out, false).is_ok() && eq(&out, a), "the diff turns the one file into the other");
            out.clear();
            check(d.apply_into(&bseq(a), &mut out, true).is_ok() && eq(&out, b), "in reverse, the diff turns the other file into the one");
        }
        (Diff::TextRemove(p), Some(b), None) => {
            reach("text removal");
            check(valid, "a text removal removes text");
            check(p.path() == Path::new(BEFORE), "the diff names its path");
            check(p.write_into(&mut out).is_ok() && eq(&out, b), "a removal carries the complete content");
        }
        (Diff::ByteRemove(p), Some(b), None) => {
            reach("byte removal");
            check(!valid, "the removal of a text is a text removal");
            check(p.path() == Path::new(BEFORE), "the diff names its path");
            check(p.write_into(&mut out).is_ok() && eq(&out, b), "a removal carries the complete content");
        }
        (Diff::TextAdd(p), None, Some(a)) => {
            reach("text addition");
            check(valid, "a text addition adds text");
            check(p.path() == Path::new(BEFORE), "the diff names its path");
            check(p.write_into(&mut out).is_ok() && eq(&out, a), "an addition carries the complete content");
        }
        (Diff::ByteAdd(p), None, Some(a)) => {
            reach("byte addition");
            check(!valid, "the addition of a text is a text addition");
            check(p.path() == Path::new(BEFORE), "the diff names its path");
            check(p.write_into(&mut out).is_ok() && eq(&out, a), "an addition carries the complete content");
        }
        _ => check(false, "the diff is a change, addition or removal according to which files exist"),
    }
}

pub fn put(before: &Option<Vec<u8>>, after: &Option<Vec<u8>>) {
    if let Some(b) = before {
        fs_put(BEFORE, b);
    }
    if let Some(a) = after {
        fs_put(AFTER, a);
    }
}

fn p11(n: usize, faults: usize) {
    p11_of(content(n), content(n), faults)
}

/// only one of the files
fn p11_one(n: usize, faults: usize) {
    let c = Some(any_bytes(n));
    if choose(2) == 0 {
        p11_of(c, None, faults)
    } else {
        p11_of(None, c, faults)
    }
}

fn p11_of(before: Option<Vec<u8>>, after: Option<Vec<u8>>, faults: usize) {
    put(&before, &after);
    let ctx = choose(2) as u8 * 3;
    fs_faults(faults);
    fs_armed(true);
    let d = Diff::new(Path::new(BEFORE), Path::new(AFTER), ctx);
    fs_armed(false);
    log(fs_nfaults() as u64);
    match d {
        Ok(d) => {
            check(before.is_some() || after.is_some(), "without any file there is no diff");
            judge(&d, &before, &after);
        }
        Err(_) => {
            reach("error");
            check((before.is_none() && after.is_none()) || fs_nhard() > 0, "a diff of readable files is made");
        }
    }
}

/// files of several lines, so that a fault may come after the first
fn p11_lines(faults: usize) {
    const B: [&[u8]; 4] = [b"a\nb\n", b"a\nb", b"a\n\xff", b"\xffa\n"];
    let pick = |k: usize| B.get(k).map(|x| x.to_vec());
    let (b, a) = [(0, 4), (4, 1), (2, 4), (4, 3), (0, 1), (0, 2), (3, 0)][choose(7)];
    p11_of(pick(b), pick(a), faults);
}

/// One of the paths is a directory: it cannot be read.
fn p11_directory() {
    let k = choose(3);
    let other = content(2);
    fs_mkdir(if k == 2 { AFTER } else { BEFORE });
    match (&other, k) {
        (Some(o), 0) => fs_put(AFTER, o),
        (Some(o), 2) => fs_put(BEFORE, o),
        _ => {}
    }
    check(Diff::new(Path::new(BEFORE), Path::new(AFTER), 3).is_err(), "a path that cannot be read is an error");
    reach("error");
}

// ------------------------------------------------------------------ P10

fn same_places(a: &Diff, b: &Diff) -> bool {
    match (a, b) {
        (Diff::TextChange(a), Diff::TextChange(b)) => {
            let x: Vec<_> = a.clumps().map(|c| (c.context_lengths(), c.before(false).start, c.after(false).start, c.before(false).items.len(), c.after(false).items.len())).collect();
            let y: Vec<_> = b.clumps().map(|c| (c.context_lengths(), c.before(false).start, c.after(false).start, c.before(false).items.len(), c.after(false).items.len())).collect();
            x == y
        }
        (Diff::ByteChange(a), Diff::ByteChange(b)) => {
            let x: Vec<_> = a.clumps().map(|c| (c.before(false).start, c.after(false).start, c.before(false).items.len(), c.after(false).items.len())).collect();
            let y: Vec<_> = b.clumps().map(|c| (c.before(false).start, c.after(false).start, c.before(false).items.len(), c.after(false).items.len())).collect();
            x == y
        }
        _ => true,
    }
}

/// Writes the diff out and reads it back.
fn through_json(d: &Diff) -> Option<Diff> {
    let mut w = vec![];
    if d.to_writer(&mut w).is_err() {
        check(false, "a diff can be written");
        return None;
    }
    log(w.len() as u64);
    let r = match Diff::from_reader(&mut &w[..]) {
        Ok(r) => r,
        Err(_) => {
            check(false, "a diff that was written can be read");
            return None;
        }
    };
    let mut v = vec![];
    check(r.to_writer(&mut v).is_ok() && eq(&v, &w), "a diff that was read writes out as it was written");
    check(same_places(d, &r), "hunks keep their places");
    Some(r)
}

fn p10_of(before: Option<Vec<u8>>, after: Option<Vec<u8>>) {
    put(&before, &after);
    if let Ok(d) = Diff::new(Path::new(BEFORE), Path::new(AFTER), choose(2) as u8 * 3) {
        if let Some(r) = through_json(&d) {
            judge(&r, &before, &after);
        }
    }
}

/// four bytes that start like a character of three or four
fn wide() -> Vec<u8> {
    let b = any_bytes(4);
    assume(b[0] >= 0xe0);
    assume(text(&b).is_some());
    b
}

/// any path, of an added or removed file
fn p10_any_path(n: usize) {
    let b = any_bytes(n);
    for x in &b {
        assume(*x != 0);
    }
    let path = std::path::PathBuf::from(<std::ffi::OsString as std::os::unix::ffi::OsStringExt>::from_vec(b.clone()));
    let mut p = PathAndLines::default();
    p.change_path(&path);
    let mut w = vec![];
    if Diff::TextAdd(p).to_writer(&mut w).is_err() {
        reach("refused");
        check(text(&b).is_none(), "only a path that is no text is refused");
        return;
    }
    match Diff::from_reader(&mut &w[..]) {
        Ok(Diff::TextAdd(p)) => {
            reach("kept");
            check(eq(std::os::unix::ffi::OsStrExt::as_bytes(p.path().as_os_str()), &b), "the path is kept");
        }
        _ => check(false, "a diff that was written can be read"),
    }
}

/// hunks at places and with context lengths of every number of digits
fn p10_places() {
    const AT: [usize; 9] = [0, 9, 10, 99, 100, 255, 256, 999, 1000];
    const CTX: [u8; 5] = [0, 9, 127, 128, 255];
    let at = AT[choose(AT.len())];
    let gap = [0usize, 1, 300][choose(3)];
    let ctx = CTX[choose(CTX.len())];
    let len = at + 300;
    // `gap` items more before the hunk on the after side
    let list = vec![
        Change::Insert(0, Range(0, gap)),
        Change::NoChange(CommonSubsequence(0, gap, at)),
        Change::Replace(Range(at, at + 1), Range(at + gap, at + gap + 1)),
        Change::NoChange(CommonSubsequence(at + 1, at + gap + 1, len - at - 1)),
    ];
    let list: Vec<Change> = list
        .into_iter()
        .filter(|c| match c {
            Change::Insert(_, r) => r.0 < r.1,
            Change::NoChange(m) => m.2 > 0,
            _ => true,
        })
        .collect();
    if choose(2) == 0 {
        let b = vec![b'x'; len];
        let a = vec![b'x'; len + gap];
        let c = Changes::<u8> { before: bseq(&b), after: bseq(&a), changes: list };
        for h in c.change_clumps(ctx) {
            let h = ByteChangeClump::from(h);
            let w = serde_json::to_vec(&h).unwrap_or_default();
            log(w.len() as u64);
            match serde_json::from_slice::<ByteChangeClump>(&w) {
                Ok(r) => {
                    check(r.before(false) == h.before(false) && r.after(false) == h.after(false), "hunks keep their places and contents");
                    check(eq(&serde_json::to_vec(&r).unwrap_or_default(), &w), "a hunk that was read writes out as it was written");
                }
                Err(_) => check(false, "a hunk that was written can be read"),
            }
        }
    } else {
        let b = vec![vec![b'x', b'\n']; len];
        let a = vec![vec![b'x', b'\n']; len + gap];
        let c = Changes::<String> { before: seq(&b), after: seq(&a), changes: list };
        for h in c.change_clumps(ctx) {
            let h = TextChangeClump::from(h);
            let w = serde_json::to_vec(&h).unwrap_or_default();
            log(w.len() as u64);
            match serde_json::from_slice::<TextChangeClump>(&w) {
                Ok(r) => {
                    check(r.before(false) == h.before(false) && r.after(false) == h.after(false), "hunks keep their places and contents");
                    check(r.context_lengths() == h.context_lengths(), "hunks keep their context lengths");
                    check(eq(&serde_json::to_vec(&r).unwrap_or_default(), &w), "a hunk that was read writes out as it was written");
                }
                Err(_) => check(false, "a hunk that was written can be read"),
            }
        }
    }
    reach("kept");
}

/// writing to a writer that takes portions, is interrupted or fails; reading from such a reader
fn p10_devices() {
    put(&Some(b"a\n\"\x01\xc3\xa9\n".to_vec()), &Some(b"a\nb".to_vec()));
    let d = match Diff::new(Path::new(BEFORE), Path::new(AFTER), 1) {
        Ok(d) => d,
        Err(_) => return check(false, "a diff of readable files is made"),
    };
    let mut w = vec![];
    check(d.to_writer(&mut w).is_ok(), "a diff can be written");
    if choose(2) == 0 {
        let k = choose(2);
        let mut s = Sink::new(k, k == 0);
        let r = d.to_writer(&mut s);
        if s.failed {
            reach("failure of the writer reported");
            check(r.is_err(), "a failure to write is reported");
        } else {
            reach("written");
            check(r.is_ok() && eq(&s.out, &w), "the whole diff is written");
        }
    } else {
        let k = choose(2);
        let mut p = Portions::new(&w, k, k == 0);
        match Diff::from_reader(&mut p) {
            Ok(r) => {
                reach("read");
                check(!p.failed, "a failure to read is reported");
                let mut v = vec![];
                check(r.to_writer(&mut v).is_ok() && eq(&v, &w), "a diff that was read writes out as it was written");
            }
            Err(_) => {
                reach("failure of the reader reported");
                check(p.failed, "a diff that was written can be read");
            }
        }
    }
}

harnesses! {
    p11_any_1 => p11(1, 0);
    p11_any_2 => p11(2, 0);
    p11_single => p11_one(4, 0);
    p11_fault_1 => p11(1, 1);
    p11_fault_2 => p11(1, 2);
    p11_fault_3 => p11(2, 1);
    p10_one_1 => p10_of(Some(any_bytes(1)), None);
    p10_one_2 => p10_of(Some(any_bytes(2)), None);
    p10_two_1 => p10_of(Some(any_bytes(1)), Some(any_bytes(1)));
    p10_one_3 => p10_of(Some(any_bytes(3)), None);
    p10_one_4 => p10_of(Some(wide()), None);
    p10_path_1 => p10_any_path(1);
    p10_path_2 => p10_any_path(2);
    p10_at => p10_places();
    p10_device => p10_devices();
    p11_lines_1 => p11_lines(1);
    p11_lines_2 => p11_lines(2);
    p11_lines_3 => p11_lines(3);
    p11_dir => p11_directory();
}
