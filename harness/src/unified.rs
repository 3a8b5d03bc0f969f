//! Unified-diff hunks: headers (P14), parsing (P15), writing (P16), file headers (P20).
use crate::rt::*;
use crate::util::*;
use pw_cub_diff_lib::text_diff::*;
use pw_cub_diff_lib::unified_diff::*;
use pw_diff_lib::apply_text::TextClumpBasics;
use pw_diff_lib::changes::*;
use pw_diff_lib::common_subsequence::CommonSubsequence;
use pw_diff_lib::range::Range;

/// compiles the regular expression before anything is chosen
fn warm() {
    for f in FORMS {
        let _ = starts_and_lengths(f, 0);
    }
    warmed();
}

// ---- P14

/// value of a decimal number, if it can be represented
fn value(d: &[u8]) -> Option<usize> {
    const MAX: &[u8] = b"18446744073709551615";
    let mut s = 0;
    while s < d.len() && s + MAX.len() < d.len() {
        if d[s] != b'0' {
            return None;
        }
        s += 1;
    }
    let d = &d[s..];
    if d.len() == MAX.len() {
        // compared as text: greater at the first place that differs
        let mut greater = false;
        let mut same = true;
        for i in 0..MAX.len() {
            greater |= same & (d[i] > MAX[i]);
            same &= d[i] == MAX[i];
        }
        if greater {
            return None;
        }
    }
    let mut v = 0usize;
    for b in d {
        v = v.wrapping_mul(10).wrapping_add((*b - b'0') as usize);
    }
    Some(v)
}

struct Spelled {
    nums: [Option<usize>; 4],
    /// spelled exactly as the library writes it
    canonical: bool,
}

fn ws(t: &str) -> usize {
    let mut n = 0;
    for c in t.chars() {
        if !c.is_whitespace() {
            break;
        }
        n += c.len_utf8();
    }
    n
}

fn digits(t: &[u8]) -> usize {
    let mut n = 0;
    while n < t.len() && t[n] >= b'0' && t[n] <= b'9' {
        n += 1;
    }
    n
}

/// what a header line spells, or None if it is not a header
fn spelled(t: &str) -> Option<Spelled> {
    let mut r = Spelled { nums: [None, Some(1), None, Some(1)], canonical: true };
    let mut t = t.strip_prefix("@@")?;
    for side in 0..2 {
        let n = ws(t);
        if n == 0 {
            return None;
        }
        r.canonical &= n == 1 && t.as_bytes()[0] == b' ';
        t = &t[n..];
        t = t.strip_prefix(if side == 0 { '-' } else { '+' })?;
        let n = digits(t.as_bytes());
        if n == 0 {
            return None;
        }
        r.nums[2 * side] = value(&t.as_bytes()[..n]);
        t = &t[n..];
        if let Some(u) = t.strip_prefix(',') {
            let n = digits(u.as_bytes());
            if n == 0 {
                return None;
            }
            r.nums[2 * side + 1] = value(&u.as_bytes()[..n]);
            t = &u[n..];
        }
    }
    let n = ws(t);
    if n == 0 {
        return None;
    }
    r.canonical &= n == 1 && t.as_bytes()[0] == b' ';
    t = t[n..].strip_prefix("@@")?;
    for (i, b) in t.bytes().enumerate() {
        if b == b'\n' && i + 1 < t.len() {
            r.canonical = false;
        }
    }
    Some(r)
}

fn judge_header(t: &str) {
    let got = starts_and_lengths(t, 7);
    let want = spelled(t);
    match got {
        Ok(Some(s)) => match want {
            Some(w) => {
                log(s.before.start as u64);
                log(s.after.length as u64);
                let ok = w.nums[0] == Some(s.before.start) && w.nums[1] == Some(s.before.length) && w.nums[2] == Some(s.after.start) && w.nums[3] == Some(s.after.length);
                check(ok, "a header parses to the numbers it spells");
                reach("parsed");
            }
            None => check(false, "only a header line parses"),
        },
        Ok(None) => {
            check(!matches!(want, Some(Spelled { canonical: true, .. })), "a header line is recognised");
            reach("not a header");
        }
        Err(_) => {
            let fits = match &want {
                Some(w) => w.canonical && w.nums.iter().all(|n| n.is_some()),
                None => false,
            };
            check(!fits, "a header whose numbers fit is no error");
            reach("refused");
        }
    }
}

const FAR: [usize; 8] = [0, 1, 2, 10, 65535, 1 << 32, 10_000_000_000_000_000_000, usize::MAX];
const SOME: [usize; 3] = [1, 0, usize::MAX];

const TAIL: [&str; 4] = ["", "\n", " fn main() {\n", "\t@@ -1 +1 @@"];

/// k of the four numbers arbitrary
fn trip(k: usize, max: u64) {
    warm();
    let mut n = [0usize; 4];
    let first = choose(4);
    let second = if k > 1 { (first + 1 + choose(3)) % 4 } else { first };
    let other = SOME[choose(SOME.len())];
    for (i, x) in n.iter_mut().enumerate() {
        if i == first || i == second {
            *x = any_u64() as usize;
            assume(*x as u64 <= max);
        } else {
            *x = other;
        }
    }
    judge_trip(n, TAIL[choose(TAIL.len())]);
}

fn judge_trip(n: [usize; 4], tail: &str) {
    let s = StartsAndLengths {
        before: StartAndLength { start: n[0], length: n[1] },
        after: StartAndLength { start: n[2], length: n[3] },
    };
    let mut t = s.to_string();
    t.push_str(tail);
    match starts_and_lengths(&t, 3) {
        Ok(Some(r)) => {
            check(r.before.start == n[0], "the start on the old side survives");
            check(r.before.length == n[1], "the length on the old side survives");
            check(r.after.start == n[2], "the start on the new side survives");
            check(r.after.length == n[3], "the length on the new side survives");
            reach("survives");
        }
        _ => check(false, "a header that was written can be read"),
    }
}

fn digit() -> u8 {
    any_in(b'0', b'9')
}

/// numbers of every number of digits, at the edges
fn trip_far() {
    warm();
    let mut n = [0usize; 4];
    for x in n.iter_mut() {
        *x = FAR[choose(FAR.len())];
    }
    judge_trip(n, TAIL[1]);
}

/// a header with one number of any digits, leading zeros included
fn any_digits(max: usize) {
    warm();
    let n = 1 + choose(max);
    let d: Vec<u8> = (0..n).map(|_| digit()).collect();
    in_header(string(d));
}

/// a header with one number around the largest that can be represented
fn around_max(first: usize, last: usize) {
    warm();
    let zeros = choose(3);
    let n = 18 + choose(4);
    let mut d = vec![b'0'; zeros];
    let fill = choose(3);
    for i in 0..n {
        d.push(if i < first || i + last >= n {
            digit()
        } else {
            match fill {
                0 => b'0',
                1 => b"1844674407370955161500"[i],
                _ => b'9',
            }
        });
    }
    in_header(string(d));
}

fn in_header(d: String) {
    let t = match choose(4) {
        0 => format!("@@ -{d},5 +1,4 @@ x\n"),
        1 => format!("@@ -3,{d} +2 @@\n"),
        2 => format!("@@ -0,0 +{d} @@"),
        _ => format!("@@ -1 +12,{d} @@\n"),
    };
    judge_header(&t);
}

const FORMS: [&str; 3] = ["@@ -1,2 +34,5 @@ f\n", "@@ -1 +2 @@\n", "@@ -0,0 +7 @@"];

/// a header in which up to `old` bytes anywhere are replaced by `new` arbitrary bytes
fn hole(old: usize, new: usize) {
    warm();
    let f = FORMS[choose(FORMS.len())].as_bytes();
    let at = choose(f.len() + 1);
    let del = choose(old.min(f.len() - at) + 1);
    let b = any_bytes(new);
    for x in &b {
        assume(*x < 0x80);
    }
    let mut t = f[..at].to_vec();
    t.extend_from_slice(&b);
    t.extend_from_slice(&f[at + del..]);
    judge_header(&string(t));
}

/// the same with one arbitrary character of n bytes
fn wide_hole(n: usize) {
    warm();
    let f = FORMS[choose(FORMS.len())].as_bytes();
    let at = choose(f.len() + 1);
    let del = choose(1.min(f.len() - at) + 1);
    let b = any_bytes(n);
    assume(b[0] >= 0xc0);
    assume(std::str::from_utf8(&b).is_ok());
    let mut t = f[..at].to_vec();
    t.extend_from_slice(&b);
    t.extend_from_slice(&f[at + del..]);
    judge_header(&string(t));
}

fn short(n: usize) {
    warm();
    let n = choose(n + 1);
    let b = any_bytes(n);
    for x in &b {
        assume(*x < 0x80);
    }
    judge_header(&string(b));
}

// ---- P15

struct Hunk {
    before: Vec<Vec<u8>>,
    after: Vec<Vec<u8>>,
    context: (usize, usize),
    consumed: usize,
}

/// The hunk of nb old and na new lines after a header, read independently of the library;
/// None if it is cut short or holds a foreign line.
fn read_hunk(lines: &[Vec<u8>], nb: usize, na: usize) -> Option<Hunk> {
    let mut h = Hunk { before: vec![], after: vec![], context: (0, 0), consumed: 1 };
    let mut changed = false;
    let mut last = 0; // sides the last line is on
    let mut at = 0;
    loop {
        let full = h.before.len() == nb && h.after.len() == na;
        if at == lines.len() {
            return if full { Some(h) } else { None };
        }
        let l = &lines[at];
        let first = if l.is_empty() { 0 } else { l[0] };
        if first == b'\\' && last != 0 {
            for (bit, side) in [(1, &mut h.before), (2, &mut h.after)] {
                if last & bit != 0 {
                    let n = side.len();
                    if side[n - 1].last() == Some(&b'\n') {
                        side[n - 1].pop();
                    }
                }
            }
            last = 0;
        } else if full {
            return Some(h);
        } else {
            last = match first {
                b' ' => 3,
                b'-' => 1,
                b'+' => 2,
                _ => return None,
            };
            if (last & 1 != 0 && h.before.len() == nb) || (last & 2 != 0 && h.after.len() == na) {
                return None;
            }
            if last & 1 != 0 {
                h.before.push(l.clone());
            }
            if last & 2 != 0 {
                h.after.push(l.clone());
            }
            if last != 3 {
                changed = true;
                h.context.1 = 0;
            } else if changed {
                h.context.1 += 1;
            } else {
                h.context.0 += 1;
            }
        }
        h.consumed += 1;
        at += 1;
    }
}

/// what the hunk says of itself, in one direction
fn judge_side(g: &UnifiedDiffClump, reverse: bool, b: (usize, usize), a: (usize, usize), old: &[Vec<u8>], new: &[Vec<u8>]) {
    check((g.before_start(reverse), g.before_length(reverse)) == b, "the place of the old lines");
    check((g.after_start(reverse), g.after_length(reverse)) == a, "the place of the new lines");
    if b.0.checked_add(b.1).is_some() && a.0.checked_add(a.1).is_some() {
        check(g.before_end(reverse) == b.0 + b.1 && g.after_end(reverse) == a.0 + a.1, "the ends of the lines");
    }
    check(TextClumpBasics::context_lengths(g) == g.context_lengths, "context lengths");
    let own = |v: Vec<&String>| -> Vec<Vec<u8>> { v.into_iter().map(|x| x.clone().into_bytes()).collect() };
    check(lines_eq(&own(g.before_lines(None, reverse).collect()), old), "the old lines in this direction");
    check(lines_eq(&own(g.after_lines(None, reverse).collect()), new), "the new lines in this direction");
    if old.len() > 0 && old.len() < 9 {
        let (x, y) = (old.len() / 2, old.len());
        check(lines_eq(&own(g.before_lines(Some(Range(x, y)), reverse).collect()), &old[x..y]), "part of the old lines");
    }
    if new.len() > 0 && new.len() < 9 {
        let (x, y) = (new.len() / 2, new.len());
        check(lines_eq(&own(g.after_lines(Some(Range(x, y)), reverse).collect()), &new[x..y]), "part of the new lines");
    }
}

fn judge_hunk(text: &[Vec<u8>], at: usize, b: (usize, usize), a: (usize, usize)) {
    let got = UnifiedDiffClump::get_from_at(&seq(text), at);
    match (got, read_hunk(&text[at + 1..], b.1, a.1)) {
        (Ok(Some(g)), Some(w)) => {
            let s = &g.starts_and_lengths;
            check(s.before.start == b.0 && s.before.length == b.1 && s.after.start == a.0 && s.after.length == a.1, "the header's numbers");
            check(g.before_lines.len() == b.1, "as many old lines as declared");
            check(g.after_lines.len() == a.1, "as many new lines as declared");
            check(lines_eq(&strs(&g.before_lines), &w.before), "the old lines in order");
            check(lines_eq(&strs(&g.after_lines), &w.after), "the new lines in order");
            check(g.context_lengths.0 as usize == w.context.0.min(255), "context at the start");
            check(g.context_lengths.1 as usize == w.context.1.min(255), "context at the end");
            check(g.lines_consumed == w.consumed, "lines consumed");
            judge_side(&g, false, b, a, &w.before, &w.after);
            judge_side(&g, true, a, b, &w.after, &w.before);
            log(g.lines_consumed as u64);
            reach("hunk");
        }
        (Ok(Some(_)), None) => check(false, "a hunk that is cut short or holds a foreign line is an error"),
        (Ok(None), _) => check(false, "a header is recognised"),
        (Err(_), Some(_)) => check(false, "a whole hunk is parsed"),
        (Err(_), None) => reach("refused"),
    }
}

fn header(b: (usize, usize), a: (usize, usize)) -> Vec<u8> {
    let side = |x: (usize, usize)| if x.1 == 1 && x.0 & 1 == 1 { format!("{}", x.0) } else { format!("{},{}", x.0, x.1) };
    format!("@@ -{} +{} @@\n", side(b), side(a)).into_bytes()
}

/// up to k lines with any first character after a header of up to n old and n new lines
fn p15_any(k: usize, n: usize) {
    warm();
    let b = (choose(2), choose(n + 1));
    let a = (7, choose(n + 1));
    let lead = choose(2);
    let mut t = vec![vec![b'+', b'\n']; lead];
    t.push(header(b, a));
    let k = choose(k + 1);
    // one of the lines may be of an unusual form
    let odd = choose(k + 1);
    for i in 0..k {
        let p = any_in(0, 127);
        let c = any_in(0, 127);
        t.push(if i + 1 != odd { vec![p, c, b'\n'] } else { match choose(5) {
            0 => vec![],
            1 => vec![p],
            2 => vec![p, b'\n'],
            3 => vec![p, c],
            _ => vec![p, b'x', c, b' ', b'\n'],
        }});
    }
    judge_hunk(&t, lead, b, a);
}

/// much context before and after a change, with or without a final newline
fn p15_context() {
    warm();
    const N: [usize; 6] = [0, 1, 254, 255, 256, 300];
    let x = N[choose(N.len())];
    let y = N[choose(N.len())];
    let (d, i) = (choose(2), choose(2));
    let b = (1, x + d + y);
    let a = (1, x + i + y);
    let mut t = vec![header(b, a)];
    for _ in 0..x {
        t.push(b" x\n".to_vec());
    }
    if d == 1 {
        t.push(b"-d\n".to_vec());
    }
    if i == 1 {
        t.push(b"+i\n".to_vec());
    }
    for _ in 0..y {
        t.push(b" y\n".to_vec());
    }
    let cut = choose(3);
    match cut {
        1 => t.push(b"\\ No newline at end of file\n".to_vec()),
        2 => {
            let _ = t.pop();
        }
        _ => {}
    }
    if t.is_empty() {
        return;
    }
    judge_hunk(&t, 0, b, a);
}

/// a header that declares more lines than there can be
fn p15_huge() {
    warm();
    const N: [usize; 3] = [1 << 40, usize::MAX - 1, usize::MAX];
    let x = N[choose(N.len())];
    let (b, a) = match choose(3) {
        0 => ((1, x), (1, 1)),
        1 => ((1, 0), (1, x)),
        _ => ((x, x), (x, x)),
    };
    let mut t = vec![header(b, a)];
    for _ in 0..choose(3) {
        t.push(vec![any_in(0, 127), b'a', b'\n']);
    }
    judge_hunk(&t, 0, b, a);
}

/// lines that are not a header
fn p15_none() {
    warm();
    let t = [b"-a\n".to_vec(), b"@@\n".to_vec(), b"--- f\n".to_vec(), b" @@ -1 +1 @@\n".to_vec(), vec![]];
    let at = choose(t.len() + 1);
    match UnifiedDiffClump::get_from_at(&seq(&t), at) {
        Ok(None) => reach("no hunk"),
        _ => check(false, "only a header starts a hunk"),
    }
}

// ---- P16

fn cut(t: &[u8]) -> Vec<Vec<u8>> {
    let mut l: Vec<Vec<u8>> = vec![];
    let mut open = false;
    for b in t {
        if !open {
            l.push(vec![]);
        }
        if let Some(x) = l.last_mut() {
            x.push(*b);
        }
        open = *b != b'\n';
    }
    l
}

fn unprefixed(l: &[Vec<u8>]) -> Vec<Vec<u8>> {
    l.iter().map(|x| x[1..].to_vec()).collect()
}

fn judge_output(c: &Changes<String>, b: &[Vec<u8>], a: &[Vec<u8>], ctx: u8) {
    let mut end = (0, 0);
    let mut n = 0;
    for h in (UnifiedClumpIter { before: &c.before, after: &c.after, iter: c.change_clumps(ctx) }) {
        n += 1;
        let w = match spelled(&h.header) {
            Some(w) => w,
            None => return check(false, "every hunk has a header"),
        };
        let num = |i: usize| w.nums[i].unwrap_or(usize::MAX);
        let (bs, bl, as_, al) = (num(0), num(1), num(2), num(3));
        let mut t = vec![];
        for l in &h.lines {
            t.extend_from_slice(l.as_bytes());
        }
        let t = cut(&t);
        let r = match read_hunk(&t, bl, al) {
            Some(r) => r,
            None => return check(false, "a hunk has as many lines as its header says"),
        };
        check(r.consumed == t.len() + 1, "a hunk has no other lines");
        if bs > b.len() || bl > b.len() - bs || as_ > a.len() || al > a.len() - as_ {
            return check(false, "a hunk lies within the texts");
        }
        check(lines_eq(&unprefixed(&r.before), &b[bs..bs + bl]), "old lines are those of the first text");
        check(lines_eq(&unprefixed(&r.after), &a[as_..as_ + al]), "new lines are those of the second text");
        check(lines_eq(&b[end.0..bs], &a[end.1..as_]), "what lies between hunks is the same");
        end = (bs + bl, as_ + al);
        // and the library reads it back
        let mut all = vec![format!("{}\n", h.header).into_bytes()];
        all.extend(t);
        match UnifiedDiffClump::get_from_at(&seq(&all), 0) {
            Ok(Some(g)) => {
                check(lines_eq(&strs(&g.before_lines), &r.before) & lines_eq(&strs(&g.after_lines), &r.after), "a hunk that was written is read as it was");
                check(g.lines_consumed == all.len(), "all of a hunk that was written is read");
            }
            _ => check(false, "a hunk that was written can be read"),
        }
        reach("hunk");
    }
    check(lines_eq(&b[end.0..], &a[end.1..]), "what follows the last hunk is the same");
    if n > 1 {
        reach("several hunks");
    }
    if n == 0 {
        reach("no hunk");
    }
    log(n);
}

fn p16_any(max: usize, ctx: usize) {
    warm();
    let b = any_lines(choose(max + 1));
    let a = any_lines(choose(max + 1));
    let ctx = choose(ctx + 1) as u8;
    let c = Changes::<String>::new(seq(&b), seq(&a));
    judge_output(&c, &b, &a, ctx);
}

fn p16_wide(max: usize) {
    warm();
    let (b, a) = (wide_lines(max), wide_lines(max));
    let ctx = choose(2) as u8;
    let c = Changes::<String>::new(seq(&b), seq(&a));
    judge_output(&c, &b, &a, ctx);
}

/// lists of k changes of one or two lines each, as a change list may be
fn p16_made(k: usize) {
    warm();
    let mut b: Vec<Vec<u8>> = vec![];
    let mut a: Vec<Vec<u8>> = vec![];
    let mut list = vec![];
    let mut last = 9;
    for i in 0..k {
        let kind = choose(4);
        // two unchanged runs or two changes are never neighbours
        assume((kind == 0) != (last == 0) || i == 0);
        last = kind;
        let (x, y) = (1 + choose(2), 1 + choose(2));
        let (bs, as_) = (b.len(), a.len());
        let line = |m: usize| vec![b'a' + (i * 4 + m) as u8, b'\n'];
        match kind {
            0 => {
                assume(y == 1);
                for m in 0..x {
                    b.push(line(m));
                    a.push(line(m));
                }
                list.push(Change::NoChange(CommonSubsequence(bs, as_, x)));
            }
            1 => {
                assume(y == 1);
                for m in 0..x {
                    b.push(line(m));
                }
                list.push(Change::Delete(Range(bs, bs + x), as_));
            }
            2 => {
                assume(y == 1);
                for m in 0..x {
                    a.push(line(m));
                }
                list.push(Change::Insert(bs, Range(as_, as_ + x)));
            }
            _ => {
                for m in 0..x {
                    b.push(line(m));
                }
                for m in 0..y {
                    a.push(line(2 + m));
                }
                list.push(Change::Replace(Range(bs, bs + x), Range(as_, as_ + y)));
            }
        }
    }
    // texts that end without a newline
    let nl = choose(4);
    let ok = match last {
        0 => nl == 0 || nl == 3,
        1 => nl < 2,
        2 => nl == 0 || nl == 2,
        _ => true,
    };
    if !ok {
        return assume(false);
    }
    if nl & 1 != 0 {
        if let Some(l) = b.last_mut() {
            l.pop();
        }
    }
    if nl & 2 != 0 {
        if let Some(l) = a.last_mut() {
            l.pop();
        }
    }
    let ctx = choose(3) as u8;
    let c = Changes::<String> { before: seq(&b), after: seq(&a), changes: list };
    judge_output(&c, &b, &a, ctx);
}

fn p16_big() {
    warm();
    const CTX: [u8; 5] = [0, 1, 3, 128, 255];
    let (b, a) = crate::edit::island(300, 2);
    let ctx = CTX[choose(CTX.len())];
    let c = Changes::<String>::new(seq(&b), seq(&a));
    judge_output(&c, &b, &a, ctx);
}

// ---- P20

fn stamp(t: &[u8], form: &[u8]) -> bool {
    if t.len() < form.len() {
        return false;
    }
    for (f, b) in form.iter().zip(t) {
        let ok = match *f {
            b'0' => *b >= b'0' && *b <= b'9',
            b'A' => *b >= b'A' && *b <= b'Z',
            b'a' => *b >= b'a' && *b <= b'z',
            b'+' => *b == b'+' || *b == b'-',
            f => *b == f,
        };
        if !ok {
            return false;
        }
    }
    true
}

const STAMPS: [&[u8]; 3] = [b"0000-00-00 00:00:00.000000000 +0000", b"0000-00-00 00:00:00 +0000", b"Aaa Aaa 00 00:00:00 0000 +0000"];

/// path and time stamp that a file header of ASCII characters spells
fn file_header(t: &[u8], mark: &[u8]) -> Option<(Vec<u8>, Option<Vec<u8>>)> {
    if t.len() < 4 || &t[..4] != mark {
        return None;
    }
    let t = &t[4..];
    let blank = |b: u8| (b as char).is_whitespace();
    let mut path = None;
    if t.first() == Some(&b'"') {
        if let Some(n) = t[1..].iter().position(|b| *b == b'"') {
            if n > 0 && n + 2 < t.len() && blank(t[n + 2]) {
                path = Some((t[1..n + 1].to_vec(), n + 2));
            }
        }
    }
    if path.is_none() {
        let n = t.iter().position(|b| blank(*b))?;
        if n == 0 {
            return None;
        }
        path = Some((t[..n].to_vec(), n));
    }
    let (p, mut at) = path?;
    while at < t.len() && blank(t[at]) {
        at += 1;
    }
    let t = &t[at..];
    let mut ts = None;
    for f in STAMPS {
        if ts.is_none() && stamp(t, f) {
            ts = Some(t[..f.len()].to_vec());
        }
    }
    // one line only
    for (i, b) in t.iter().enumerate() {
        if *b == b'\n' && i + 1 < t.len() {
            return None;
        }
    }
    Some((p, ts))
}

fn judge_file_header(t: &[u8], old: bool, new: bool) {
    let s = string(t.to_vec());
    for (ask, mark) in [(old, b"--- "), (new, b"+++ ")] {
        if !ask {
            continue;
        }
        let got = if mark[0] == b'-' { before_path_and_time_stamp(&s) } else { after_path_and_time_stamp(&s) };
        match (got, file_header(t, mark)) {
            (Some(g), Some((p, ts))) => {
                check(eq(g.file_path.as_bytes(), &p), "the path as spelled");
                log(p.len() as u64);
                match (&g.time_stamp, &ts) {
                    (Some(x), Some(y)) => {
                        check(eq(x.as_bytes(), y), "the time stamp as spelled");
                        reach("time stamp");
                    }
                    (None, None) => reach("no time stamp"),
                    _ => check(false, "a time stamp is recognised"),
                }
            }
            (None, None) => reach("not a file header"),
            (Some(_), None) => check(false, "only a file header is recognised"),
            (None, Some(_)) => check(false, "a file header is recognised"),
        }
    }
}

const FILES: [&str; 5] = [
    "--- a/b.c\t2002-02-21 23:30:39.942229878 -0800\n",
    "+++ \"a b\" 2002-02-21 23:30:39 +0800",
    "--- f\tMon Jul 01 12:00:00 2024 +1000\n",
    "+++ f x\n",
    "--- /dev/null\n",
];

fn warm_files() {
    for f in FILES {
        let _ = before_path_and_time_stamp(f);
        let _ = after_path_and_time_stamp(f);
    }
    warmed();
}

fn p20_hole_at(old: usize, new: usize, exact: bool) {
    warm_files();
    let f = FILES[choose(FILES.len())].as_bytes();
    let at = choose(f.len() + 1);
    let del = old.min(f.len() - at);
    let del = if exact { del } else { choose(del + 1) };
    let mut t = f[..at].to_vec();
    for _ in 0..new {
        t.push(any_in(0, 127));
    }
    t.extend_from_slice(&f[at + del..]);
    judge_file_header(&t, f[0] == b'-', f[0] == b'+');
}

/// lines that start with a mark and go on with n arbitrary characters
fn p20_short_path(n: usize) {
    warm_files();
    let mut t = if choose(2) == 0 { b"--- ".to_vec() } else { b"+++ ".to_vec() };
    for _ in 0..choose(n + 1) {
        t.push(any_in(0, 127));
    }
    judge_file_header(&t, true, true);
}

harnesses! {
    p15_any_2 => p15_any(2, 1);
    p15_any_3 => p15_any(3, 2);
    p15_any_4 => p15_any(4, 2);
    p15_any_5 => p15_any(5, 3);
    p15_ctx => p15_context();
    p15_more => p15_huge();
    p15_other => p15_none();
    p16_any_2 => p16_any(2, 2);
    p16_wide_2 => p16_wide(2);
    p16_any_3 => p16_any(3, 2);
    p16_any_4 => p16_any(4, 2);
    p16_made_3 => p16_made(3);
    p16_made_4 => p16_made(4);
    p16_long => p16_big();
    p20_hole_1 => p20_hole_at(1, 1, true);
    p20_hole_2 => p20_hole_at(1, 1, false);
    p20_hole_3 => p20_hole_at(2, 2, false);
    p20_short => p20_short_path(3);
    p20_short_4 => p20_short_path(4);
    p14_trip_1 => trip(1, 999);
    p14_trip_2 => trip(2, 99);
    p14_trip_9 => trip(1, u64::MAX);
    p14_trip_far => trip_far();
    p14_digits => any_digits(6);
    p14_max => around_max(1, 2);
    p14_max_2 => around_max(2, 3);
    p14_hole_1 => hole(1, 1);
    p14_hole_2 => hole(2, 2);
    p14_hole_3 => hole(3, 3);
    p14_wide_2 => wide_hole(2);
    p14_wide_3 => wide_hole(3);
    p14_short => short(4);
}
