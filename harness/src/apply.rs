//! P06, P08 (patching any target), P07 (matches), P09 (never claimed in vain).
use crate::edit::*;
use crate::rt::*;
use crate::util::*;
use pw_diff_lib::apply_bytes::ApplyClumpsClean;
use pw_diff_lib::apply_text::*;
use pw_diff_lib::changes::*;
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::*;
use pw_diff_lib::sequence::*;
use pw_diff_lib::byte_diff::ByteChangeClump;
use pw_diff_lib::text_diff::TextChangeClump;
use serde_json::{json, Value};
use std::collections::BTreeMap;

type Lines = Vec<Vec<u8>>;

/// The shape of a change list: lengths of the unchanged runs and of the changes' two sides.
pub struct Shape {
    pub runs: Vec<usize>,
    pub changes: Vec<(usize, usize)>,
}

/// `k` changes with sides up to `side`, `mid.0..=mid.1` items between them and up to `end` around.
pub fn any_shape(k: usize, side: usize, mid: (usize, usize), end: usize) -> Shape {
    let mut s = Shape { runs: vec![choose(end + 1)], changes: vec![] };
    for x in 0..k {
        let d = choose(side + 1);
        let e = if d == 0 { 1 + choose(side) } else { choose(side + 1) };
        s.changes.push((d, e));
        s.runs.push(if x + 1 == k { choose(end + 1) } else { mid.0 + choose(mid.1 - mid.0 + 1) });
    }
    s
}

impl Shape {
    pub fn items(&self) -> usize {
        self.runs.iter().sum::<usize>() + self.changes.iter().map(|(d, e)| d + e).sum::<usize>()
    }
    /// both sides and the change list, out of `pool` (unchanged items appear on both sides)
    pub fn build<T: Clone>(&self, pool: &[T]) -> (Vec<T>, Vec<T>, Vec<Change>) {
        let (mut b, mut a, mut c) = (vec![], vec![], vec![]);
        let mut p = 0;
        for (x, n) in self.runs.iter().enumerate() {
            if *n > 0 {
                c.push(Change::NoChange(CommonSubsequence(b.len(), a.len(), *n)));
                b.extend_from_slice(&pool[p..p + n]);
                a.extend_from_slice(&pool[p..p + n]);
                p += n;
            }
            if let Some((d, e)) = self.changes.get(x) {
                let (i, j) = (b.len(), a.len());
                b.extend_from_slice(&pool[p..p + d]);
                p += d;
                a.extend_from_slice(&pool[p..p + e]);
                p += e;
                c.push(match (*d, *e) {
                    (_, 0) => Change::Delete(Range(i, i + d), j),
                    (0, _) => Change::Insert(i, Range(j, j + e)),
                    _ => Change::Replace(Range(i, i + d), Range(j, j + e)),
                });
            }
        }
        (b, a, c)
    }
}

/// `newline`: 0 both sides end in a newline, 1 only after, 2 only before, 3 neither
fn text_changes(s: &Shape, pool: &Lines, newline: usize) -> Changes<String> {
    let (mut b, mut a, c) = s.build(pool);
    if newline & 1 != 0 {
        b.last_mut().map(|l| l.pop());
    }
    if newline & 2 != 0 {
        a.last_mut().map(|l| l.pop());
    }
    Changes { before: seq(&b), after: seq(&a), changes: c }
}

fn any_ending(s: &Shape, all: bool) -> usize {
    if !all {
        return 0;
    }
    if *s.runs.last().unwrap() > 0 {
        return 3 * choose(2);
    }
    choose(4)
}

// ------------------------------------------------------------------ P06

struct Hunk {
    b: Lines,
    a: Lines,
    s: usize,
    e: usize,
}

const CLEAN: usize = 0;
const FUZZY: usize = 1;
const ALREADY: usize = 2;
const ALREADY_FUZZY: usize = 3;
const FAILED: usize = 4;

/// state: lines of the target used up, bytes of output explained, outcomes left per kind
type At = (usize, usize, [usize; 5]);

fn add(m: &mut BTreeMap<At, bool>, k: At, c: bool) {
    if maybe(c) {
        let e = m.entry(k).or_insert(false);
        *e |= c;
    }
}

/// out[o..] starts with `what`
fn starts(out: &[u8], o: usize, what: &[u8]) -> bool {
    out.len() - o >= what.len() && eq(&out[o..o + what.len()], what)
}

fn ends_open(l: &[u8]) -> bool {
    !l.is_empty() && l[l.len() - 1] != b'\n'
}

/// Whether `out` is the target with each hunk applied, found applied, or shown as failed, in
/// order, and `stats` counts just those outcomes. The condition covers all ways to read `out`.
fn explained(t: &Lines, hunks: &[Hunk], out: &[u8], stats: [usize; 5]) -> bool {
    let mut now: BTreeMap<At, bool> = BTreeMap::new();
    now.insert((0, 0, stats), true);
    for h in hunks {
        let mut next: BTreeMap<At, bool> = BTreeMap::new();
        for ((c, o, left), cond) in now {
            for kind in 0..5 {
                if left[kind] == 0 {
                    continue;
                }
                let mut rest = left;
                rest[kind] -= 1;
                if kind == FAILED {
                    let (open_b, open_a) = (h.b.last().is_some_and(|l| ends_open(l)), h.a.last().is_some_and(|l| ends_open(l)));
                    for q in c..=t.len() {
                        let copied = join(&t[c..q]);
                        // a newline may have to be put in where a side does not end in one
                        for nl in 0..8 {
                            if (nl & 2 != 0 && !open_b) || (nl & 4 != 0 && !open_a) {
                                continue;
                            }
                            let mut w = copied.clone();
                            if nl & 1 != 0 {
                                if !ends_open(&w) && !(q == c && c > 0) {
                                    continue;
                                }
                                w.push(b'\n');
                            }
                            w.extend_from_slice(b"<<<<<<<\n");
                            if !maybe(starts(out, o, &w)) {
                                continue;
                            }
                            for (bit, side) in [(2, &h.b), (4, &h.a)] {
                                let x = join(side);
                                w.extend_from_slice(&x);
                                if nl & bit != 0 && ends_open(&x) {
                                    w.push(b'\n');
                                }
                                w.extend_from_slice(if bit == 2 { b"=======\n" } else { b">>>>>>>\n" });
                            }
                            add(&mut next, (q, o + w.len(), rest), cond & starts(out, o, &w));
                        }
                    }
                    continue;
                }
                let exact = kind == CLEAN || kind == ALREADY;
                let (smax, emax) = if exact { (0, 0) } else { (h.s, h.e) };
                for r0 in 0..=smax {
                    for r1 in 0..=emax {
                        let (want, give) = (&h.b[r0..h.b.len() - r1], &h.a[r0..h.a.len() - r1]);
                        let want = if kind == ALREADY || kind == ALREADY_FUZZY { give } else { want };
                        for p in c..=t.len() {
                            if p + want.len() > t.len() || (p > c && !maybe(starts(out, o, &join(&t[c..p])))) {
                                break;
                            }
                            let there = lines_eq(want, &t[p..p + want.len()]);
                            if !maybe(there) {
                                continue;
                            }
                            let mut w = join(&t[c..p]);
                            w.extend_from_slice(&join(give));
                            let k = (p + want.len(), o + w.len(), rest);
                            add(&mut next, k, cond & there & starts(out, o, &w));
                        }
                    }
                }
            }
        }
        now = next;
    }
    let mut ok = false;
    for ((c, o, left), cond) in now {
        if left == [0; 5] {
            let w = join(&t[c..]);
            if out.len() - o == w.len() {
                ok |= cond & starts(out, o, &w);
            }
        }
    }
    ok
}

fn hunks_of(h: &Text, reverse: bool) -> Vec<Hunk> {
    h.0.iter()
        .map(|c| {
            let (s, e) = c.context_lengths();
            Hunk { b: strs(&c.before(reverse).items), a: strs(&c.after(reverse).items), s: s as usize, e: e as usize }
        })
        .collect()
}

fn patch_any(h: &Text, t: &Lines) {
    let reverse = choose(2) == 1;
    let mut out = vec![];
    let st = h.apply_into(&seq(t), &mut out, reverse);
    match st {
        Ok(st) => {
            let stats = [st.clean, st.fuzzy, st.already_applied, st.already_applied_fuzzy, st.failed];
            check(stats.iter().sum::<usize>() == h.0.len(), "every hunk is counted once");
            for (k, l) in [(CLEAN, "clean"), (FUZZY, "fuzzy"), (ALREADY, "already applied"), (ALREADY_FUZZY, "already applied, fuzzy"), (FAILED, "failed")] {
                if stats[k] > 0 {
                    reach(l);
                }
            }
            log(out.len() as u64);
            check(explained(t, &hunks_of(h, reverse), &out, stats), "the output is the target with only the hunks' regions replaced");
        }
        Err(_) => check(false, "patching into memory does not fail"),
    }
}

/// one hunk with arbitrary lines, any target
fn p06_one(ctx: usize, side: usize, extra: usize, target: usize, endings: bool) {
    let s = any_shape(1, side, (0, 0), ctx + extra);
    let pool = lines(s.items(), true);
    let n = any_ending(&s, endings);
    let c = text_changes(&s, &pool, n);
    let h = text_hunks(&c, ctx as u8);
    let t = if endings { any_lines(choose(target + 1)) } else { lines(choose(target + 1), true) };
    patch_any(&h, &t);
}

/// one hunk with arbitrary lines of other lengths, any target
fn p06_wide(ctx: usize, target: usize) {
    let s = any_shape(1, 1, (0, 0), ctx);
    let pool: Lines = (0..s.items()).map(|_| wide_line(true)).collect();
    let c = text_changes(&s, &pool, 0);
    let h = text_hunks(&c, ctx as u8);
    patch_any(&h, &wide_lines(target));
}

/// two hunks, arbitrary lines
fn p06_two(ctx: usize, side: usize, gap: usize, extra: usize, target: usize) {
    let s = any_shape(2, side, (2 * ctx + 1, 2 * ctx + 1 + gap), ctx + extra);
    let pool = lines(s.items(), true);
    let c = text_changes(&s, &pool, 0);
    let h = text_hunks(&c, ctx as u8);
    check(h.0.len() == 2, "two hunks");
    let t = lines(choose(target + 1), true);
    patch_any(&h, &t);
}

/// several hunks of distinct lines, any target over those and other lines
fn p06_distinct(k: usize, ctx: usize, side: usize, target: usize) {
    let s = any_shape(k, side, (2 * ctx + 1, 2 * ctx + 1), ctx);
    let pool: Lines = (0..s.items()).map(|i| vec![b'a' + i as u8, b'\n']).collect();
    let c = text_changes(&s, &pool, 0);
    let h = text_hunks(&c, ctx as u8);
    let t = lines(choose(target + 1), true);
    patch_any(&h, &t);
}

// ------------------------------------------------------------------ P08

fn p08(k: usize, ctx: usize, side: usize, extra: usize, target: usize) {
    let s = any_shape(k, side, (2 * ctx + 1, 2 * ctx + 1), ctx + extra);
    let (b, a, c) = s.build(&any_bytes(s.items()));
    let c = Changes::<u8> { before: bseq(&b), after: bseq(&a), changes: c };
    let h = byte_hunks(&c, ctx as u8);
    let t = any_bytes(choose(target + 1));
    let reverse = choose(2) == 1;
    let mut out = vec![];
    if h.apply_into(&bseq(&t), &mut out, reverse).is_err() {
        check(false, "patching into memory does not fail");
        return;
    }
    log(out.len() as u64);
    // (bytes of the target used up, bytes of output explained)
    let mut now: BTreeMap<(usize, usize), bool> = BTreeMap::new();
    now.insert((0, 0), true);
    for h in &h.0 {
        let (want, give) = (h.before(reverse), h.after(reverse));
        let mut next: BTreeMap<(usize, usize), bool> = BTreeMap::new();
        let there = want.start + want.items.len() <= t.len() && eq(&want.items, &t[want.start..want.start + want.items.len()]);
        let done = give.start + give.items.len() <= t.len() && eq(&give.items, &t[give.start..give.start + give.items.len()]);
        for ((c, o), cond) in now {
            let mut put = |k: (usize, usize), cond: bool| {
                if maybe(cond) {
                    let e = next.entry(k).or_insert(false);
                    *e |= cond;
                }
            };
            let p = want.start;
            if p >= c && maybe(there) {
                let mut w = t[c..p].to_vec();
                w.extend_from_slice(&give.items);
                put((p + want.items.len(), o + w.len()), cond & there & starts(&out, o, &w));
                // left alone although it is there: only if it may count as done
                put((c, o), cond & (!there | done));
                // found already applied: the target may be copied up to its end
            } else {
                put((c, o), cond);
            }
            let q = give.start;
            if q >= c && maybe(done) {
                let e = q + give.items.len();
                put((e, o + e - c), cond & done & starts(&out, o, &t[c..e]));
            }
        }
        now = next;
    }
    let mut ok = false;
    for ((c, o), cond) in now {
        if out.len() - o == t.len() - c {
            ok |= cond & starts(&out, o, &t[c..]);
        }
    }
    if !eq(&out, &t) {
        reach("applied");
    } else {
        reach("untouched");
    }
    check(ok, "the output is the target with only the hunks' regions replaced");
}

fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len())]
}

fn numbered(n: usize) -> Lines {
    (0..n).map(|i| vec![b'0' + (i / 64) as u8, b'0' + (i % 64) as u8, b'\n']).collect()
}

/// one hunk in a long text; the target has other lines where the hunk has context, and is displaced
fn displaced_context() {
    let b = numbered(290);
    let at = 140;
    let mut a = b.clone();
    a[at] = b"new\n".to_vec();
    let c = pick(&[3usize, 130]);
    let list = vec![
        Change::NoChange(CommonSubsequence(0, 0, at)),
        Change::Replace(Range(at, at + 1), Range(at, at + 1)),
        Change::NoChange(CommonSubsequence(at + 1, at + 1, b.len() - at - 1)),
    ];
    let h = text_hunks(&Changes { before: seq(&b), after: seq(&a), changes: list }, c as u8);
    let reverse = choose(2) == 1;
    let (mut t, other) = if reverse { (a, b) } else { (b, a) };
    let new = &other[at];
    // outermost context lines that differ in the target
    let lead = pick(&[0, c / 2, c - 1, c]);
    let trail = pick(&[0, c - 1]);
    for i in 0..lead {
        t[at - c + i] = b"x\n".to_vec();
    }
    for i in 0..trail {
        t[at + c - i] = b"y\n".to_vec();
    }
    let mut want = t.clone();
    want[at] = new.clone();
    let shift = pick(&[0isize, 1, 257, -9]);
    for x in [&mut t, &mut want] {
        for _ in 0..shift.max(0) {
            x.insert(0, b"z\n".to_vec());
        }
        for _ in 0..(-shift).max(0).min((at - c) as isize) {
            x.remove(0);
        }
    }
    let mut out = vec![];
    match h.apply_into(&seq(&t), &mut out, reverse) {
        Err(_) => check(false, "patching into memory does not fail"),
        Ok(st) => {
            check(st.clean + st.fuzzy + st.already_applied + st.already_applied_fuzzy + st.failed == 1, "every hunk is counted once");
            if st.clean + st.fuzzy == 1 {
                reach("applied");
                check(eq(&out, &join(&want)), "the hunk's region alone is replaced");
            } else {
                reach("failed");
                check(st.failed == 1, "the hunk is not there already");
                check(lead + trail > 0, "a hunk whose lines are all there is applied");
                // the target's lines and a conflict block, nothing else
                let mut block = b"<<<<<<<\n".to_vec();
                let (x, y) = (join(&strs(&h.0[0].before(reverse).items)), join(&strs(&h.0[0].after(reverse).items)));
                block.extend_from_slice(&x);
                block.extend_from_slice(b"=======\n");
                block.extend_from_slice(&y);
                block.extend_from_slice(b">>>>>>>\n");
                let whole = join(&t);
                check(out.len() == whole.len() + block.len(), "a failed hunk is shown and the target kept");
                let mut ok = false;
                let mut p = 0;
                for i in 0..=t.len() {
                    if out.len() >= p + block.len() && eq(&out[p..p + block.len()], &block) {
                        ok |= eq(&out[..p], &whole[..p]) & eq(&out[p + block.len()..], &whole[p..]);
                        break;
                    }
                    if i < t.len() {
                        p += t[i].len();
                    }
                }
                check(ok, "a failed hunk leaves the target's lines untouched");
            }
        }
    }
}

/// a displaced hunk in a long text: found exactly where it went, whether another copy is farther away or not
fn displaced_copies() {
    let c = pick(&[0usize, 3, 130]);
    let at = 400;
    let b = numbered(532);
    let mut a = b.clone();
    a[at] = b"new\n".to_vec();
    let list = vec![
        Change::NoChange(CommonSubsequence(0, 0, at)),
        Change::Replace(Range(at, at + 1), Range(at, at + 1)),
        Change::NoChange(CommonSubsequence(at + 1, at + 1, b.len() - at - 1)),
    ];
    let h = text_hunks(&Changes { before: seq(&b), after: seq(&a), changes: list }, c as u8);
    let reverse = choose(2) == 1;
    let h = &h.0[0];
    let lines = strs(&h.before(reverse).items);
    // the target holds nothing but copies of the hunk's lines, at chosen distances
    let d: [isize; 6] = [-257, -128, -1, 1, 127, 256];
    let (i, j) = (pick(&d), pick(&d));
    let mut t: Lines = vec![b"-\n".to_vec(); 800];
    let base = at - c;
    let mut here = |i: isize| {
        for (x, l) in lines.iter().enumerate() {
            t[(base as isize + i) as usize + x] = l.clone();
        }
    };
    here(j);
    here(i);
    // two copies may overlap: then only the one put last is whole
    let n = lines.len() as isize;
    let both = (i - j).abs() >= n;
    let st = seq(&t);
    let pd = ConsumableSeq::new(&st);
    let m = h.will_apply_nearby(&pd, None, 0, reverse);
    match m {
        Some((x, WillApply::Cleanly)) => {
            reach("clean");
            check(x == i || x == j, "the match is at one of the copies");
            check(!both || x.abs() <= i.abs().min(j.abs()), "the nearest copy is taken");
        }
        Some((_, WillApply::WithReductions(_))) => check(!both, "an exact match is not passed by"),
        None => check(false, "a displaced hunk is found"),
    }
}

// ------------------------------------------------------------------ P07

/// `want` occurs in `t` at line p
fn occurs(t: &Lines, p: isize, want: &[Vec<u8>]) -> bool {
    p >= 0 && p as usize + want.len() <= t.len() && lines_eq(want, &t[p as usize..p as usize + want.len()])
}

/// what a reported match at line p must mean
fn real_match(t: &Lines, p: isize, h: &Hunk, want: &Lines, m: &Option<WillApply>) {
    let exact = occurs(t, p, want);
    match m {
        Some(WillApply::Cleanly) => {
            reach("clean");
            check(exact, "a clean match is exact");
        }
        Some(WillApply::WithReductions((r0, r1))) => {
            reach("reduced");
            let (r0, r1) = (*r0 as usize, *r1 as usize);
            check((r0 <= h.s) & (r1 <= h.e), "only context lines are ignored");
            check(!exact, "an exact match is reported as clean");
            if r0 <= h.s && r1 <= h.e {
                check(occurs(t, p + r0 as isize, &want[r0..want.len() - r1]), "the remaining lines occur there");
            }
        }
        None => {
            reach("none");
            check(!exact, "an exact match is reported");
        }
    }
}

fn near_offset(start: usize, target: usize, slack: isize) -> isize {
    let low = -(start as isize) - slack;
    let high = target as isize + slack - start as isize;
    low + choose((high - low + 1) as usize) as isize
}

fn p07_at(ctx: usize, side: usize, extra: usize, target: usize, end: bool, far: bool) {
    let s = any_shape(1, side, (0, 0), ctx + extra);
    let pool = lines(s.items(), true);
    let ending = any_ending(&s, end);
    let c = text_changes(&s, &pool, ending);
    let h = text_hunks(&c, ctx as u8);
    let t = if end { any_lines(choose(target + 1)) } else { lines(choose(target + 1), true) };
    let reverse = choose(2) == 1;
    let k = &hunks_of(&h, reverse)[0];
    let (h, st) = (&h.0[0], seq(&t));
    let offset = match if far { 1 + choose(2) } else { 0 } {
        0 => near_offset(h.before_start(reverse), t.len(), 2),
        1 => 20 + (any_u64() >> 20) as isize,
        _ => -20 - (any_u64() >> 20) as isize,
    };
    if choose(2) == 0 {
        let m = h.will_apply(&st, offset, reverse);
        real_match(&t, h.before_start(reverse) as isize + offset, k, &k.b, &m);
    } else {
        let m = h.is_already_applied(&st, offset, reverse);
        real_match(&t, h.after_start(reverse) as isize + offset, k, &k.a, &m);
    }
}

/// lines of other lengths
fn p07_wide(ctx: usize, target: usize) {
    let s = any_shape(1, 1, (0, 0), ctx);
    let pool: Lines = (0..s.items()).map(|_| wide_line(true)).collect();
    let c = text_changes(&s, &pool, 0);
    let h = text_hunks(&c, ctx as u8);
    let t = wide_lines(target);
    let reverse = choose(2) == 1;
    let k = &hunks_of(&h, reverse)[0];
    let (h, st) = (&h.0[0], seq(&t));
    let offset = near_offset(h.before_start(reverse), t.len(), 0);
    if choose(2) == 0 {
        let m = h.will_apply(&st, offset, reverse);
        real_match(&t, h.before_start(reverse) as isize + offset, k, &k.b, &m);
    } else {
        let m = h.is_already_applied(&st, offset, reverse);
        real_match(&t, h.after_start(reverse) as isize + offset, k, &k.a, &m);
    }
}

/// An exact match at the expected place wins.
fn p07_wins(ctx: usize, side: usize, extra: usize, target: usize) {
    let s = any_shape(1, side, (0, 0), ctx + extra);
    let pool = lines(s.items(), true);
    let c = text_changes(&s, &pool, 0);
    let h = text_hunks(&c, ctx as u8);
    let t = lines(choose(target + 1), true);
    let reverse = choose(2) == 1;
    let k = &hunks_of(&h, reverse)[0];
    let p = h.0[0].before_start(reverse);
    if p + k.b.len() > t.len() {
        return;
    }
    assume(occurs(&t, p as isize, &k.b));
    let mut out = vec![];
    match h.apply_into(&seq(&t), &mut out, reverse) {
        Ok(st) => check(st.clean == 1, "an exact match at the expected place is clean"),
        Err(_) => check(false, "patching into memory does not fail"),
    }
    let mut want = join(&t[..p]);
    want.extend_from_slice(&join(&k.a));
    want.extend_from_slice(&join(&t[p + k.b.len()..]));
    check(eq(&out, &want), "an exact match at the expected place is used");
    reach("used");
}

fn p07_near(two: bool, ctx: usize, side: usize, extra: usize, target: usize) {
    let s = any_shape(1 + two as usize, side, (2 * ctx + 1, 2 * ctx + 1), ctx + extra);
    let pool = lines(s.items(), true);
    let c = text_changes(&s, &pool, 0);
    let h = text_hunks(&c, ctx as u8);
    let t = lines(choose(target + 1), true);
    let reverse = choose(2) == 1;
    let k = &hunks_of(&h, reverse)[0];
    let (next, h, st) = (h.0.get(1), &h.0[0], seq(&t));
    let used = choose(t.len() + 1);
    let mut pd = ConsumableSeq::new(&st);
    pd.advance_consumed_by(used);
    let already = choose(2) == 1;
    let dir = reverse != already;
    let start = h.before_start(dir);
    let offset = near_offset(start, t.len(), 1);
    let want = if already { &k.a } else { &k.b };
    let m = if already { h.is_already_applied_nearby(&pd, next, offset, reverse) } else { h.will_apply_nearby(&pd, next, offset, reverse) };
    let p = start as isize + offset;
    // the window as narrowly as it can be meant
    let limit = next.map_or(t.len() as isize, |n| n.before_start(dir) as isize + offset).min(t.len() as isize);
    let matches = |i: isize| {
        let q = p + i;
        q >= used as isize && q + (want.len() as isize) < limit && h.will_apply(&st, offset + i, dir).is_some()
    };
    match m {
        Some((i, w)) => {
            reach("nearby");
            check(i != 0, "nearby is not here");
            let (r, _) = match w {
                WillApply::Cleanly => (0, 0),
                WillApply::WithReductions(r) => r,
            };
            check(p + i + r as isize >= used as isize, "only lines not yet used up match");
            real_match(&t, p + i, k, want, &Some(w));
            let n = if i < 0 { -i } else { i };
            check(n <= 64, "the match is inside the target");
            for j in 1..n.min(64) {
                check(!matches(j) && !matches(-j), "no nearer place matches");
            }
        }
        None => {
            reach("nothing nearby");
            for q in 0..=t.len() as isize {
                check(q == p || !matches(q - p), "nothing in the window matches");
            }
        }
    }
}

// ------------------------------------------------------------------ P09

fn p09_vain(k: usize, ctx: usize, side: usize, target: usize, wide: bool) {
    let s = any_shape(k, side, (2 * ctx + 1, 2 * ctx + 1), ctx);
    let pool = if wide { (0..s.items()).map(|_| wide_line(true)).collect() } else { lines(s.items(), true) };
    let c = text_changes(&s, &pool, 0);
    let h = text_hunks(&c, ctx as u8);
    let t = if wide { wide_lines(target) } else { lines(choose(target + 1), true) };
    let reverse = choose(2) == 1;
    if ApplyClumpsFuzzy::is_already_applied(&h, &seq(&t), reverse) {
        reach("applied");
        for k in hunks_of(&h, reverse) {
            let mut found = false;
            for r0 in 0..=k.s {
                for r1 in 0..=k.e {
                    for p in 0..=t.len() {
                        found |= occurs(&t, p as isize, &k.a[r0..k.a.len() - r1]);
                    }
                }
            }
            check(found, "every hunk's resulting lines occur in the target");
        }
    } else {
        reach("not applied");
    }
}

fn p09_vain_byte(k: usize, ctx: usize, side: usize, target: usize) {
    let s = any_shape(k, side, (2 * ctx + 1, 2 * ctx + 1), ctx);
    let (b, a, c) = s.build(&any_bytes(s.items()));
    let c = Changes::<u8> { before: bseq(&b), after: bseq(&a), changes: c };
    let h = byte_hunks(&c, ctx as u8);
    let t = any_bytes(choose(target + 1));
    let reverse = choose(2) == 1;
    if h.already_applied(&bseq(&t), reverse) {
        reach("applied");
        for k in &h.0 {
            let a = &k.after(reverse).items;
            let mut found = false;
            for p in 0..=t.len() {
                found |= p + a.len() <= t.len() && eq(a, &t[p..p + a.len()]);
            }
            check(found, "every hunk's resulting bytes occur in the target");
        }
    } else {
        reach("not applied");
    }
}

// ------------------------------------------------------------------ P21

fn wild(c: (u8, u8), b: (u64, Value), a: (u64, Value)) -> Value {
    let side = |x: (u64, Value)| json!({"start": x.0, "items": x.1});
    json!({"context_lengths": [c.0, c.1], "before": side(b), "after": side(a)})
}

fn text_value(l: &[Vec<u8>]) -> Value {
    Value::Array(l.iter().map(|x| Value::String(string(x.clone()))).collect())
}

/// any number; ones that are small or near one of the others are told apart
fn any_place(others: &mut Vec<u64>) -> u64 {
    let k = choose(2 + others.len());
    let s = if k == 0 {
        choose(4) as u64
    } else if k == 1 {
        let s = any_u64();
        assume(s >= 4);
        for o in others.iter() {
            assume(s.wrapping_sub(*o).wrapping_add(2) >= 5);
        }
        s
    } else {
        others[k - 2].wrapping_add(choose(5) as u64).wrapping_sub(2)
    };
    others.push(s);
    s
}

/// any context length; small ones are told apart
fn any_context() -> u8 {
    let k = choose(3);
    if k < 2 {
        return k as u8;
    }
    let c = any_u8();
    assume(c >= 2);
    c
}

/// hunks as a file may hold them: any places, any context lengths, any numbers of lines
fn p21_text(k: usize, side: usize, target: usize) {
    let (mut h, mut at) = (vec![], vec![]);
    for _ in 0..k {
        let (b, a) = (vec![b"x\n".to_vec(); choose(side + 1)], vec![b"y\n".to_vec(); choose(side + 1)]);
        let v = wild((any_context(), any_context()), (any_place(&mut at), text_value(&b)), (any_place(&mut at), text_value(&a)));
        match serde_json::from_value::<TextChangeClump>(v) {
            Ok(x) => h.push(x),
            Err(_) => {
                // nothing that a diff may really hold is refused
                reach("refused");
                return;
            }
        }
    }
    reach("read");
    let h = Text(h);
    let t = lines(choose(target + 1), true);
    let fit = |h: &TextChangeClump| {
        let (x, y) = h.context_lengths();
        concrete((x as usize + y as usize <= h.before(false).items.len().min(h.after(false).items.len())) as u64) == 1
    };
    match choose(3) {
        0 => {
            let _ = ApplyClumpsFuzzy::is_already_applied(&h, &seq(&t), choose(2) == 1);
        }
        1 => {
            let r = h.apply_into(&seq(&t), &mut vec![], choose(2) == 1);
            check(r.is_ok(), "patching into memory does not fail");
        }
        _ => {
            if h.0.iter().all(fit) {
                patch_any(&h, &t);
            }
        }
    }
}

fn p21_bytes(k: usize, side: usize, target: usize) {
    let (mut h, mut at) = (vec![], vec![]);
    for _ in 0..k {
        let (b, a) = (any_bytes(choose(side + 1)), any_bytes(choose(side + 1)));
        let arr = |x: &[u8]| Value::Array(x.iter().map(|x| Value::from(*x)).collect());
        let v = wild((any_context(), any_context()), (any_place(&mut at), arr(&b)), (any_place(&mut at), arr(&a)));
        match serde_json::from_value::<ByteChangeClump>(v) {
            Ok(x) => h.push(x),
            Err(_) => {
                reach("refused");
                return;
            }
        }
    }
    reach("read");
    let h = Bytes(h);
    let t = bseq(&any_bytes(choose(target + 1)));
    let reverse = choose(2) == 1;
    if choose(2) == 0 {
        let _ = h.already_applied(&t, reverse);
    } else {
        check(h.apply_into(&t, &mut vec![], reverse).is_ok(), "patching into memory does not fail");
    }
}

harnesses! {
    p21_text_1 => p21_text(1, 2, 2);
    p21_text_2 => p21_text(2, 1, 2);
    p21_byte_1 => p21_bytes(1, 2, 3);
    p21_byte_2 => p21_bytes(2, 1, 3);
    p06_one_1 => p06_one(1, 1, 1, 3, true);
    p06_one_2 => p06_one(2, 1, 1, 4, false);
    p06_two_0 => p06_two(0, 1, 1, 1, 4);
    p06_two_side => p06_two(0, 3, 0, 0, 3);
    p06_two_1 => p06_two(1, 1, 0, 0, 4);
    p06_distinct_2 => p06_distinct(2, 2, 1, 4);
    p08_one => p08(1, 2, 2, 1, 5);
    p08_two_0 => p08(2, 0, 3, 1, 5);
    p08_two_1 => p08(2, 1, 2, 0, 6);
    p08_three => p08(3, 0, 2, 0, 5);
    p07_at_2 => p07_at(2, 1, 1, 3, true, false);
    p07_at_3 => p07_at(3, 1, 0, 5, false, false);
    p07_far => p07_at(2, 1, 1, 3, false, true);
    p06_long => displaced_context();
    p07_long => displaced_copies();
    p07_wins_3 => p07_wins(3, 1, 1, 6);
    p07_near_1 => p07_near(false, 1, 1, 1, 4);
    p07_near_2 => p07_near(false, 2, 1, 0, 5);
    p07_near_3 => p07_near(false, 3, 1, 0, 5);
    p07_next_0 => p07_near(true, 0, 1, 1, 4);
    p07_next_1 => p07_near(true, 1, 1, 0, 4);
    p09_vain_1 => p09_vain(1, 2, 1, 4, false);
    p09_vain_2 => p09_vain(2, 1, 1, 4, false);
    p09_vain_w => p09_vain(1, 1, 1, 2, true);
    p06_wide_0 => p06_wide(0, 2);
    p06_wide_1 => p06_wide(1, 2);
    p07_wide_1 => p07_wide(1, 2);
    p09_vain_b => p09_vain_byte(2, 1, 1, 5);
    p06_distinct_3 => p06_distinct(3, 0, 1, 4);
}
