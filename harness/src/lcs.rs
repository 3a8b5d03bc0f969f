//! P02: the longest-common-run query.
use crate::rt::*;
use crate::util::*;
use pw_diff_lib::changes::ChangesGenerator;
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::*;

/// n one-character lines with arbitrary characters
fn sym_lines(n: usize) -> (Vec<u8>, Seq<String>) {
    let l = one_char(n);
    (join(&l), seq(&l))
}

fn sub_range(n: usize) -> Range {
    let e = choose(n + 1);
    let s = choose(e + 1);
    Range(s, e)
}

fn judge(b: &[u8], a: &[u8], rb: Range, ra: Range, r: Option<(Range, Range)>) {
    match r {
        Some((x, y)) => {
            reach("found");
            let (xs, xe, ys, ye) = (concrete(x.0 as u64) as usize, concrete(x.1 as u64) as usize, concrete(y.0 as u64) as usize, concrete(y.1 as u64) as usize);
            log(xs as u64);
            log(xe as u64);
            log(ys as u64);
            check(xs < xe && xe - xs == ye - ys, "run is non-empty and of the same length on both sides");
            check(rb.0 <= xs && xe <= rb.1 && ra.0 <= ys && ye <= ra.1, "run lies inside the sub-ranges");
            check(eq(&b[xs..xe], &a[ys..ye]), "items of the run are equal on both sides");
            // no longer run anywhere
            let k = xe - xs + 1;
            for i in rb.0..=rb.1 {
                for j in ra.0..=ra.1 {
                    if i + k <= rb.1 && j + k <= ra.1 {
                        check(!eq(&b[i..i + k], &a[j..j + k]), "no longer common run exists");
                    }
                }
            }
        }
        None => {
            reach("none");
            for i in rb.0..rb.1 {
                for j in ra.0..ra.1 {
                    check(b[i] != a[j], "nothing is reported only when nothing is common");
                }
            }
        }
    }
}

fn text(nb: usize, na: usize, whole: bool) {
    let (b, sb) = sym_lines(nb);
    let (a, sa) = sym_lines(na);
    let (rb, ra) = if whole { (Range(0, nb), Range(0, na)) } else { (sub_range(nb), sub_range(na)) };
    let g = ChangesGenerator::<String, StringItemIndices>::new(&sb, &sa);
    let r = g.longest_common_subsequence(rb, ra).map(|c| (c.before_range(), c.after_range()));
    judge(&b, &a, rb, ra, r);
}

/// lines of other lengths
fn wide(max: usize) {
    let (b, a) = (wide_lines(max), wide_lines(max));
    let (sb, sa) = (seq(&b), seq(&a));
    let (rb, ra) = (Range(0, b.len()), Range(0, a.len()));
    let g = ChangesGenerator::<String, StringItemIndices>::new(&sb, &sa);
    match g.longest_common_subsequence(rb, ra).map(|c| (c.before_range(), c.after_range())) {
        Some((x, y)) => {
            reach("found");
            check(x.0 < x.1 && x.1 - x.0 == y.1 - y.0, "run is non-empty and of the same length on both sides");
            check(x.1 <= b.len() && y.1 <= a.len(), "run lies inside the sequences");
            check(lines_eq(&b[x.0..x.1], &a[y.0..y.1]), "items of the run are equal on both sides");
            let k = x.1 - x.0 + 1;
            for i in 0..=b.len() {
                for j in 0..=a.len() {
                    if i + k <= b.len() && j + k <= a.len() {
                        check(!lines_eq(&b[i..i + k], &a[j..j + k]), "no longer common run exists");
                    }
                }
            }
        }
        None => {
            reach("none");
            for x in &b {
                for y in &a {
                    check(!eq(x, y), "nothing is reported only when nothing is common");
                }
            }
        }
    }
}

fn byte(nb: usize, na: usize, whole: bool) {
    let mut b = vec![0u8; nb];
    bytes(&mut b);
    let mut a = vec![0u8; na];
    bytes(&mut a);
    let (rb, ra) = if whole { (Range(0, nb), Range(0, na)) } else { (sub_range(nb), sub_range(na)) };
    let (sb, sa) = (Seq::<u8>(b.clone().into_boxed_slice()), Seq::<u8>(a.clone().into_boxed_slice()));
    let g = ChangesGenerator::<u8, ByteItemIndices>::new(&sb, &sa);
    let r = g.longest_common_subsequence(rb, ra).map(|c| (c.before_range(), c.after_range()));
    judge(&b, &a, rb, ra, r);
}

harnesses! {
    p02_text_33 => text(3, 3, false);
    p02_text_44 => text(4, 4, true);
    p02_text_55 => text(5, 5, true);
    p02_wide_2 => wide(2);
    p02_wide_3 => wide(3);
    p02_byte_33 => byte(3, 3, false);
    p02_byte_44 => byte(4, 4, true);
}
