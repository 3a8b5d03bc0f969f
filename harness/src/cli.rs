//! P12, P13 (pw_patch), P19 (pw_diff): the executables themselves. A harness's first phase lays
//! out the files and arguments, the executable's main is the second, and the third judges what is left.
use crate::diff;
use crate::rt::*;
use crate::util::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::ApplyClumpsFuzzy;
use pw_diff_lib::diff::Diff;
use pw_diff_lib::sequence::*;
use std::path::Path;

const FILE: &str = diff::BEFORE;
const OTHER: &str = diff::AFTER;
const PATCH: &str = "a.patch";
/// a file that has the name the tool's temporary file would have
const TEMP: &str = "10920";

/// what the last phase needs to know
#[derive(Default)]
struct Plan {
    /// the file as it was
    before: Option<Vec<u8>>,
    /// the file as it has to be if the tool reports success; None: it must report failure
    after: Option<Option<Vec<u8>>>,
    /// everything else, which stays as it is
    rest: Vec<(&'static str, Vec<u8>)>,
    faults: usize,
    /// whether success is possible without a fault
    applies: bool,
}
static mut PLAN: Option<Plan> = None;
fn plan() -> &'static mut Plan {
    unsafe { (*(&raw mut PLAN)).get_or_insert_with(Plan::default) }
}

/// The diff that takes `a` to `b`.
fn diff_of(a: Option<&[u8]>, b: Option<&[u8]>) -> Diff {
    if let Some(a) = a {
        fs_put(FILE, a);
    }
    if let Some(b) = b {
        fs_put(OTHER, b);
    }
    let d = Diff::new(Path::new(FILE), Path::new(OTHER), 2).unwrap();
    fs_remove(FILE);
    fs_remove(OTHER);
    d
}

/// What a change makes of a file; None if it cannot be applied.
fn applied(d: &Diff, file: &[u8], reverse: bool) -> Option<Vec<u8>> {
    let mut v = vec![];
    match d {
        Diff::TextChange(d) => {
            let s = std::str::from_utf8(file).ok()?;
            d.apply_into(&Seq::<String>::from(s), &mut v, reverse).ok()?;
        }
        Diff::ByteChange(d) => d.apply_into(&bseq(file), &mut v, reverse).ok()?,
        _ => return None,
    }
    Some(v)
}

/// Runs pw_patch with this patch on this file.
fn patching(patch: Vec<u8>, file: Option<Vec<u8>>, after: Option<Option<Vec<u8>>>, reverse: bool, faults: usize) {
    fs_put(PATCH, &patch);
    fs_put(TEMP, b"not yours\n");
    if let Some(f) = &file {
        fs_put(FILE, f);
        // at every instant, and so whenever it is killed, the file is complete; a file is only
        // ever removed or replaced as a whole
        match &after {
            Some(Some(a)) => fs_watch(FILE, f, a),
            Some(None) => {}
            None => fs_watch(FILE, f, f),
        }
    }
    let pl = plan();
    pl.before = file;
    pl.after = after;
    pl.rest = vec![(PATCH, patch), (TEMP, b"not yours\n".to_vec())];
    pl.faults = faults;
    arg("pw_patch");
    if reverse {
        arg("-r");
    }
    arg(PATCH);
    fs_faults(faults);
}

/// What is left must be what the tool reports.
fn patched() {
    let pl = plan();
    let now = fs_get(FILE);
    log(exit_code() as u64);
    log(fs_count() as u64);
    let same = match (&now, &pl.before) {
        (Some(a), Some(b)) => eq(a, b),
        (None, None) => true,
        _ => false,
    };
    if exit_code() == 0 {
        reach("success");
        match &pl.after {
            None => check(false, "what cannot be done is reported as a failure"),
            Some(a) => {
                let good = match (&now, a) {
                    (Some(x), Some(y)) => eq(x, y),
                    (None, None) => true,
                    _ => false,
                };
                check(good, "after status 0 the file is as the patch says");
            }
        }
    } else {
        reach("failure");
        check(pl.after.is_none() || fs_nhard() > 0, "the tool fails only if it cannot do its work");
        if fs_nfaults() < 2 {
            check(same, "after a failure the file is as it was");
        }
    }
    for (p, c) in &pl.rest {
        match fs_get(p) {
            Some(x) => check(eq(&x, c), "other files are left alone"),
            None => check(false, "other files are left alone"),
        }
    }
    if fs_nfaults() < 2 {
        check(fs_count() == pl.rest.len() + now.is_some() as usize, "no temporary file is left");
    }
}

/// texts or byte strings to change, and a file that is not quite what the patch expects
fn change(which: usize) -> (&'static [u8], &'static [u8], &'static [u8]) {
    match which {
        0 => (b"a\nb\nc\n", b"a\nB\nc", b"x\na\nb\nc\n"),
        1 => (b"a\n\xff\n", b"a\n\xfe\xfd\n", b"b\n\xff\n\xff"),
        2 => (b"", b"a\n", b"q\n"),
        _ => (b"a\n", b"", b"a\nq\n"),
    }
}

fn p12_of(which: usize, faults: usize, calm: usize) {
    let (a, b, c) = change(which);
    let d = diff_of(Some(a), Some(b));
    let reverse = choose(2) == 1;
    let mut patch = vec![];
    d.to_writer(&mut patch).unwrap();
    let (from, to) = if reverse { (b, a) } else { (a, b) };
    let (file, after) = match choose(4) {
        0 => {
            check(applied(&d, from, reverse).is_some_and(|x| x == to), "a patch fits the file it was made from");
            (Some(from), Some(Some(to.to_vec())))
        }
        1 => (Some(to), applied(&d, to, reverse).map(Some)),
        2 => (Some(c), applied(&d, c, reverse).map(Some)),
        _ => (None, None),
    };
    fs_calm(PATCH, calm);
    patching(patch, file.map(|f| f.to_vec()), after, reverse, faults);
}

/// every content of the file and of what it is changed to
fn p12_any(n: usize) {
    let a = any_lower(n);
    let b = any_lower(n);
    assume(!eq(&a, &b));
    let d = diff_of(Some(&a), Some(&b));
    let mut patch = vec![];
    d.to_writer(&mut patch).unwrap();
    let reverse = choose(2) == 1;
    let (from, to) = if reverse { (b, a) } else { (a, b) };
    patching(patch, Some(from), Some(Some(to)), reverse, 0);
}

/// n lines of one letter
fn any_lower(n: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(any_in(b'a', b'z'));
        v.push(b'\n');
    }
    v
}

/// a patch that was cut short, or that is not there
fn p12_cut(which: usize) {
    let (a, b, _) = change(which);
    let d = diff_of(Some(a), Some(b));
    let mut patch = vec![];
    d.to_writer(&mut patch).unwrap();
    let n = choose(patch.len());
    patch.truncate(n);
    patching(patch, Some(a.to_vec()), None, choose(2) == 1, 0);
    if n == 0 && choose(2) == 0 {
        fs_remove(PATCH);
        plan().rest.remove(0);
    }
}

/// additions and removals, in both directions, with and without the file
fn p13_of(faults: usize, calm: usize) {
    let content: &[u8] = if choose(2) == 0 { b"a\nb" } else { b"a\n\xff\n" };
    let add = choose(2) == 0;
    let d = if add { diff_of(None, Some(content)) } else { diff_of(Some(content), None) };
    let mut patch = vec![];
    d.to_writer(&mut patch).unwrap();
    let reverse = choose(2) == 1;
    let file = match choose(3) {
        0 => None,
        1 => Some(content),
        _ => Some(&b"other\n"[..]),
    };
    let after = match (add != reverse, file) {
        (true, None) => Some(Some(content.to_vec())),
        (true, Some(_)) => None,
        (false, Some(_)) => Some(None),
        (false, None) => None,
    };
    fs_calm(PATCH, calm);
    patching(patch, file.map(|f| f.to_vec()), after, reverse, faults);
}

/// every content of an added file
fn p13_any(n: usize) {
    let content = any_bytes(n);
    let d = diff_of(None, Some(&content));
    let mut patch = vec![];
    d.to_writer(&mut patch).unwrap();
    patching(patch, None, Some(Some(content)), false, 0);
}

/// every file that is in the way of an addition
fn p13_in_the_way(n: usize) {
    let content = any_bytes(n);
    let d = diff_of(None, Some(b"a\nb\n"));
    let mut patch = vec![];
    d.to_writer(&mut patch).unwrap();
    patching(patch, Some(content), None, false, 0);
}

fn diffing(before: Option<Vec<u8>>, after: Option<Vec<u8>>, faults: usize) {
    diff::put(&before, &after);
    if let Some(b) = &before {
        fs_watch(FILE, b, b);
    }
    let pl = plan();
    pl.before = before;
    pl.after = Some(after);
    pl.faults = faults;
    arg("pw_diff");
    match choose(3) {
        0 => {}
        1 => {
            arg("-c");
            arg("0");
        }
        _ => arg("--context=255"),
    }
    arg(FILE);
    arg(OTHER);
    fs_faults(faults);
}

fn diffed() {
    let pl = plan();
    log(exit_code() as u64);
    log(stdout().len() as u64);
    let after = pl.after.clone().unwrap_or(None);
    if exit_code() == 0 {
        reach("success");
        check(pl.before.is_some() || after.is_some(), "without any file there is no diff");
        match Diff::from_reader(&mut &stdout()[..]) {
            Ok(d) => diff::judge(&d, &pl.before, &after),
            Err(_) => check(false, "after status 0 the output is a complete diff"),
        }
    } else {
        reach("failure");
        check(fs_nhard() > 0 || pl.applies || (pl.before.is_none() && after.is_none()), "the tool fails only if it cannot do its work");
    }
    for (p, c) in [(FILE, &pl.before), (OTHER, &after)] {
        let same = match (&fs_get(p), c) {
            (Some(x), Some(y)) => eq(x, y),
            (None, None) => true,
            _ => pl.applies,
        };
        check(same, "the inputs are left alone");
    }
    if !pl.applies {
        check(fs_count() == pl.before.is_some() as usize + after.is_some() as usize, "no other file is made");
    }
}

fn p19_of(faults: usize) {
    let (a, b): (Option<&[u8]>, Option<&[u8]>) = match choose(7) {
        0 => (Some(b"a\nb\n"), Some(b"a\nc")),
        1 => (Some(b"\xff\n"), Some(b"a\xfe")),
        2 => (None, Some(b"a\n\xff")),
        3 => (Some(b"a\nb"), None),
        4 => (None, Some(b"a\n")),
        5 => (Some(b"a\xff"), None),
        _ => (None, None),
    };
    diffing(a.map(|x| x.to_vec()), b.map(|x| x.to_vec()), faults);
}

fn p19_any(n: usize) {
    diffing(diff::content(n), diff::content(n), 0);
}

/// one of the paths cannot be read
fn p19_dir() {
    let k = choose(2);
    diffing(if k == 0 { None } else { Some(b"a\n".to_vec()) }, if k == 0 { Some(b"a\n".to_vec()) } else { None }, 0);
    fs_mkdir(if k == 0 { FILE } else { OTHER });
    // neither side is a file that is not there
    plan().applies = true;
}
fn diffed_dir() {
    check(exit_code() != 0, "a path that cannot be read is reported as a failure");
    diffed();
}

crate::harnesses! {
    p12_text => p12_of(0, 1, 1 << 20);
    p12_byte => p12_of(1, 1, 1 << 20);
    p12_from_empty => p12_of(2, 1, 1 << 20);
    p12_to_empty => p12_of(3, 1, 1 << 20);
    p12_text_2 => p12_of(0, 2, 1);
    p12_byte_2 => p12_of(1, 2, 1);
    p12_any_1 => p12_any(1);
    p12_any_2 => p12_any(2);
    p12_any_3 => p12_any(3);
    p12_cut_text => p12_cut(0);
    p12_cut_byte => p12_cut(1);
    p13_fault => p13_of(1, 1 << 20);
    p13_fault_2 => p13_of(2, 1);
    p13_fault_3 => p13_of(3, 1);
    p13_any_2 => p13_any(2);
    p13_any_3 => p13_any(3);
    p13_way => p13_in_the_way(3);
    patched_ => patched();
    p19_fault => p19_of(1);
    p19_fault_2 => p19_of(2);
    p19_any_1 => p19_any(1);
    p19_any_2 => p19_any(2);
    p19_directory => p19_dir();
    diffed_ => diffed();
    diffed_dir_ => diffed_dir();
}
