//! P01 (edit script), P03, P04 (round trips), P05 (hunks), P09 (already applied).
use crate::rt::*;
use crate::util::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::{ApplyClumpsFuzzy, Statistics};
use pw_diff_lib::byte_diff::ByteChangeClump;
use pw_diff_lib::changes::*;
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::*;
use pw_diff_lib::sequence::*;
use pw_diff_lib::text_diff::TextChangeClump;

pub struct Text(pub Vec<TextChangeClump>);
impl ApplyClumpsFuzzy<TextChangeClump> for Text {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b TextChangeClump>
    where
        TextChangeClump: 'b,
    {
        self.0.iter()
    }
}
pub struct Bytes(pub Vec<ByteChangeClump>);
impl ApplyClumpsClean<'_, ByteChangeClump> for Bytes {
    fn clumps<'b>(&'b self) -> impl Iterator<Item = &'b ByteChangeClump>
    where
        ByteChangeClump: 'b,
    {
        self.0.iter()
    }
}

pub fn text_hunks(c: &Changes<String>, ctx: u8) -> Text {
    Text(c.change_clumps(ctx).map(TextChangeClump::from).collect())
}
pub fn byte_hunks(c: &Changes<u8>, ctx: u8) -> Bytes {
    Bytes(c.change_clumps(ctx).map(ByteChangeClump::from).collect())
}

// ------------------------------------------------------------------ P01

/// Walks the change list; `same(i, j, n)` tells whether before[i..i+n] equals after[j..j+n].
fn script(changes: &[Change], nb: usize, na: usize, same: impl Fn(usize, usize, usize) -> bool) {
    let (mut i, mut j) = (0usize, 0usize);
    let mut changed = false;
    for c in changes {
        let (bs, be, s, e) = (c.before_start(false), c.before_end(false), c.after_start(false), c.after_end(false));
        check((bs == i) & (s == j), "changes follow each other without gap or overlap");
        check((be >= bs) & (e >= s) & (be <= nb) & (e <= na), "changes stay inside the sequences");
        match c {
            Change::NoChange(m) => {
                check(m.len() > 0, "unchanged runs are not empty");
                check(be - bs == e - s, "unchanged runs are as long on both sides");
                check(same(bs, s, be - bs), "unchanged items are equal on both sides");
            }
            Change::Delete(..) => {
                check((be > bs) & (e == s), "a deletion deletes something");
                changed = true;
            }
            Change::Insert(..) => {
                check((be == bs) & (e > s), "an insertion inserts something");
                changed = true;
            }
            Change::Replace(..) => {
                check((be > bs) & (e > s), "a replacement has two sides");
                changed = true;
            }
        }
        i = be;
        j = e;
    }
    check((i == nb) & (j == na), "changes cover both sequences");
    if changed {
        reach("changed");
        check(nb != na || !same(0, 0, nb), "identical sequences give no change");
    } else {
        reach("identical");
    }
    log(changes.len() as u64);
}

fn p01_text(max: usize) {
    let b = any_lines(choose(max + 1));
    let a = any_lines(choose(max + 1));
    let c = Changes::<String>::new(seq(&b), seq(&a));
    script(&c.changes, b.len(), a.len(), |i, j, n| lines_eq(&b[i..i + n], &a[j..j + n]));
}

fn p01_wide(max: usize) {
    let (b, a) = (wide_lines(max), wide_lines(max));
    let c = Changes::<String>::new(seq(&b), seq(&a));
    script(&c.changes, b.len(), a.len(), |i, j, n| lines_eq(&b[i..i + n], &a[j..j + n]));
}

fn p01_byte(max: usize) {
    let b = any_bytes(choose(max + 1));
    let a = any_bytes(choose(max + 1));
    let c = Changes::<u8>::new(bseq(&b), bseq(&a));
    script(&c.changes, b.len(), a.len(), |i, j, n| eq(&b[i..i + n], &a[j..j + n]));
}

/// long texts: many distinct lines with a few edits at chosen places (sorting and merging of runs)
pub fn island(n: usize, edits: usize) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let mut b = vec![];
    for i in 0..n {
        b.push(format!("{i}\n").into_bytes());
    }
    let mut a = b.clone();
    let step = n / edits;
    for k in (0..edits).rev() {
        let at = k * step + step / 2;
        match choose(3) {
            0 => {
                a.remove(at);
            }
            1 => a.insert(at, format!("new{k}\n").into_bytes()),
            _ => a[at] = format!("new{k}\n").into_bytes(),
        }
    }
    (b, a)
}

fn p01_big(n: usize, edits: usize) {
    let (b, a) = island(n, edits);
    let c = Changes::<String>::new(seq(&b), seq(&a));
    script(&c.changes, b.len(), a.len(), |i, j, n| lines_eq(&b[i..i + n], &a[j..j + n]));
}

// ------------------------------------------------------------------ P03, P04, P09

fn all_clean(st: &Statistics, n: usize) {
    check(st.clean == n, "every hunk is reported as applied cleanly");
    check((st.fuzzy == 0) & (st.already_applied == 0) & (st.already_applied_fuzzy == 0) & (st.failed == 0), "no hunk is reported as anything else");
}

fn round_text(b: &[Vec<u8>], a: &[Vec<u8>], ctx: u8) {
    let (sb, sa) = (seq(b), seq(a));
    let c = Changes::<String>::new(seq(b), seq(a));
    let h = text_hunks(&c, ctx);
    log(h.0.len() as u64);
    if h.0.len() > 0 {
        reach("hunks");
    }
    if h.0.len() > 1 {
        reach("several hunks");
    }
    let mut out = vec![];
    match h.apply_into(&sb, &mut out, false) {
        Ok(st) => all_clean(&st, h.0.len()),
        Err(_) => check(false, "applying succeeds"),
    }
    check(eq(&out, &join(a)), "applying the diff gives the second text");
    let mut out = vec![];
    match h.apply_into(&sa, &mut out, true) {
        Ok(st) => all_clean(&st, h.0.len()),
        Err(_) => check(false, "applying in reverse succeeds"),
    }
    check(eq(&out, &join(b)), "applying the diff in reverse gives the first text");
}

fn p03(max: usize, ctx: usize) {
    let ctx = choose(ctx + 1) as u8;
    let b = any_lines(choose(max + 1));
    let a = any_lines(choose(max + 1));
    round_text(&b, &a, ctx);
}

fn p03_wide(max: usize, ctx: usize) {
    let ctx = choose(ctx + 1) as u8;
    let (b, a) = (wide_lines(max), wide_lines(max));
    round_text(&b, &a, ctx);
}

fn p03_big(n: usize, edits: usize) {
    let ctx = [0u8, 1, 3, 127, 128, 200, 255][choose(7)];
    let (b, a) = island(n, edits);
    round_text(&b, &a, ctx);
}

fn round_byte(b: &[u8], a: &[u8], ctx: u8) {
    let (sb, sa) = (bseq(b), bseq(a));
    let c = Changes::<u8>::new(bseq(b), bseq(a));
    let h = byte_hunks(&c, ctx);
    log(h.0.len() as u64);
    if h.0.len() > 0 {
        reach("hunks");
    }
    if h.0.len() > 1 {
        reach("several hunks");
    }
    let mut out = vec![];
    check(h.apply_into(&sb, &mut out, false).is_ok(), "applying succeeds");
    check(eq(&out, a), "applying the diff gives the second bytes");
    let mut out = vec![];
    check(h.apply_into(&sa, &mut out, true).is_ok(), "applying in reverse succeeds");
    check(eq(&out, b), "applying the diff in reverse gives the first bytes");
}

fn p04(max: usize, ctx: usize) {
    let ctx = choose(ctx + 1) as u8;
    let b = any_bytes(choose(max + 1));
    let a = any_bytes(choose(max + 1));
    round_byte(&b, &a, ctx);
}

fn p04_big(n: usize, edits: usize) {
    let ctx = [0u8, 1, 3, 127, 128, 200, 255][choose(7)];
    let mut b = vec![];
    for i in 0..n {
        b.push((i % 251) as u8);
    }
    let mut a = b.clone();
    let step = n / edits;
    for k in (0..edits).rev() {
        let at = k * step + step / 2;
        match choose(3) {
            0 => {
                a.remove(at);
            }
            1 => a.insert(at, 255),
            _ => a[at] = 254,
        }
    }
    round_byte(&b, &a, ctx);
}

fn p09_text(max: usize, ctx: usize) {
    let ctx = choose(ctx + 1) as u8;
    let b = any_lines(choose(max + 1));
    let a = any_lines(choose(max + 1));
    let c = Changes::<String>::new(seq(&b), seq(&a));
    let h = text_hunks(&c, ctx);
    if h.0.len() > 0 {
        reach("hunks");
    }
    check(h.is_already_applied(&seq(&a), false), "the patched text is recognised as patched");
    check(h.is_already_applied(&seq(&b), true), "the original text is recognised as patched in reverse");
}

fn p09_wide(max: usize) {
    let (b, a) = (wide_lines(max), wide_lines(max));
    let c = Changes::<String>::new(seq(&b), seq(&a));
    let h = text_hunks(&c, 0);
    if h.0.len() > 0 {
        reach("hunks");
    }
    check(h.is_already_applied(&seq(&a), false), "the patched text is recognised as patched");
    check(h.is_already_applied(&seq(&b), true), "the original text is recognised as patched in reverse");
}

fn p09_byte(max: usize, ctx: usize) {
    let ctx = choose(ctx + 1) as u8;
    let b = any_bytes(choose(max + 1));
    let a = any_bytes(choose(max + 1));
    let c = Changes::<u8>::new(bseq(&b), bseq(&a));
    let h = byte_hunks(&c, ctx);
    if h.0.len() > 0 {
        reach("hunks");
    }
    check(h.already_applied(&bseq(&a), false), "the patched bytes are recognised as patched");
    check(h.already_applied(&bseq(&b), true), "the original bytes are recognised as patched in reverse");
}

// ------------------------------------------------------------------ P05

/// a length from 1 to 2^bits
fn any_len(bits: u32) -> usize {
    ((any_u64() & ((1 << bits) - 1)) + 1) as usize
}

/// A valid change list with `k` changes: lengths are arbitrary, kinds and ends are chosen.
fn change_list(k: usize, bits: u32) -> Vec<Change> {
    let mut v = vec![];
    let (mut i, mut j) = (0usize, 0usize);
    for x in 0..=k {
        // unchanged run: always between changes, optional at the ends
        if (x > 0 && x < k) || choose(2) == 1 {
            let n = any_len(bits);
            v.push(Change::NoChange(CommonSubsequence(i, j, n)));
            i += n;
            j += n;
        }
        if x == k {
            break;
        }
        let c = choose(3);
        let d = if c == 1 { 0 } else { any_len(bits) };
        let e = if c == 0 { 0 } else { any_len(bits) };
        v.push(match c {
            0 => Change::Delete(Range(i, i + d), j),
            1 => Change::Insert(i, Range(j, j + e)),
            _ => Change::Replace(Range(i, i + d), Range(j, j + e)),
        });
        i += d;
        j += e;
    }
    v
}

fn span(c: &Change) -> (usize, usize, usize, usize) {
    match c {
        Change::NoChange(m) => (m.0, m.0 + m.2, m.1, m.1 + m.2),
        Change::Delete(r, j) => (r.0, r.1, *j, *j),
        Change::Insert(i, r) => (*i, *i, r.0, r.1),
        Change::Replace(r, s) => (r.0, r.1, s.0, s.1),
    }
}

fn p05(k: usize, bits: u32) {
    let list = change_list(k, bits);
    let ctx = any_u8();
    let cx = ctx as usize;
    // positions of the changes in the list
    let mut real = vec![];
    for (n, c) in list.iter().enumerate() {
        if !matches!(c, Change::NoChange(_)) {
            real.push(n);
        }
    }
    let run = |n: Option<usize>| match n.and_then(|n| list.get(n)) {
        Some(Change::NoChange(m)) => m.2,
        _ => 0,
    };
    let ch = Changes::<String> { before: Seq::default(), after: Seq::default(), changes: list.clone() };
    let mut at = 0;
    let mut prev = (0usize, 0usize);
    let mut hunks = 0;
    for h in ch.change_clumps(ctx) {
        hunks += 1;
        check(!h.changes.is_empty(), "no hunk is empty");
        let n = h.changes.len();
        let f = span(&h.changes[0]);
        let l = span(&h.changes[n - 1]);
        check((f.0 >= prev.0) & (f.2 >= prev.1), "hunks come in file order and do not overlap");
        prev = (l.1, l.3);
        let first = at;
        let (mut i, mut j) = (f.0, f.2);
        for (x, c) in h.changes.iter().enumerate() {
            let s = span(c);
            check((s.0 == i) & (s.2 == j) & (s.1 >= s.0) & (s.3 >= s.2), "a hunk's contents are contiguous");
            i = s.1;
            j = s.3;
            if let Change::NoChange(_) = c {
                check(s.1 - s.0 == s.3 - s.2, "context is as long on both sides");
                if x > 0 && x + 1 < n && at > first && at < real.len() {
                    let o = span(&list[real[at] - 1]);
                    check((s.0 == o.0) & (s.1 == o.1) & (s.2 == o.2) & (s.3 == o.3), "unchanged items inside a hunk are complete");
                }
            } else {
                if at >= real.len() {
                    check(false, "no change appears twice");
                    return;
                }
                let o = span(&list[real[at]]);
                check(std::mem::discriminant(c) == std::mem::discriminant(&list[real[at]]), "the change keeps its kind");
                check((s.0 == o.0) & (s.1 == o.1) & (s.2 == o.2) & (s.3 == o.3), "the change keeps its place");
                at += 1;
            }
        }
        check(at > first, "every hunk carries a change");
        if at == first {
            return;
        }
        // context
        let lead = if let Change::NoChange(m) = &h.changes[0] { m.2 } else { 0 };
        let trail = if let Change::NoChange(m) = &h.changes[n - 1] { m.2 } else { 0 };
        check((lead <= cx) & (trail <= cx), "no more context than requested");
        let avail = run(real[first].checked_sub(1));
        let rest = run(Some(real[at - 1] + 1));
        check((lead == cx) | (avail < cx), "the requested leading context where available");
        check((trail == cx) | (rest < cx), "the requested trailing context where available");
        check((lead == avail) | (avail >= cx), "all leading context where less is available");
        check((trail == rest) | (rest >= cx), "all trailing context where less is available");
        // what the hunk reports
        let (s, e) = (h.starts(), h.ends());
        check((s.0 == f.0) & (s.1 == f.2), "starts describe the contents");
        check((e.0 == l.1) & (e.1 == l.3), "ends describe the contents");
        let (rb, ra) = h.ranges();
        check((rb.0 == f.0) & (rb.1 == l.1) & (ra.0 == f.2) & (ra.1 == l.3), "ranges describe the contents");
        let (x, y) = h.context_lengths();
        check((x as usize == lead) & (y as usize == trail), "context lengths describe the contents");
        check((h.before_start(false) == f.0) & (h.before_start(true) == f.2), "before_start describes the contents");
        check((h.after_start(false) == f.2) & (h.after_start(true) == f.0), "after_start describes the contents");
        check((h.before_end(false) == l.1) & (h.before_end(true) == l.3), "before_end describes the contents");
        check((h.after_end(false) == l.3) & (h.after_end(true) == l.1), "after_end describes the contents");
        check((h.before_length(false) == l.1 - f.0) & (h.after_length(false) == l.3 - f.2), "lengths describe the contents");
    }
    check(at == real.len(), "every change appears in a hunk");
    if hunks > 1 {
        reach("several hunks");
    }
    if hunks == 0 {
        reach("no hunk");
    }
    log(hunks);
}

harnesses! {
    p01_text_3 => p01_text(3);
    p01_text_4 => p01_text(4);
    p01_text_5 => p01_text(5);
    p01_wide_2 => p01_wide(2);
    p01_wide_3 => p01_wide(3);
    p03_wide_2 => p03_wide(2, 2);
    p03_wide_3 => p03_wide(3, 0);
    p09_wide_2 => p09_wide(2);
    p01_byte_3 => p01_byte(3);
    p01_byte_4 => p01_byte(4);
    p01_long => p01_big(60, 3);
    p01_long_many => p01_big(120, 24);
    p03_text_3 => p03(3, 3);
    p03_text_4 => p03(4, 3);
    p03_text_5 => p03(5, 3);
    p03_long => p03_big(300, 2);
    p04_byte_3 => p04(3, 3);
    p04_byte_4 => p04(4, 3);
    p04_long => p04_big(600, 2);
    p05_0 => p05(0, 40);
    p05_1 => p05(1, 40);
    p05_2 => p05(2, 40);
    p05_3 => p05(3, 40);
    p05_4 => p05(4, 40);
    p09_text_3 => p09_text(3, 3);
    p09_text_4 => p09_text(4, 3);
    p09_byte_3 => p09_byte(3, 3);
}
