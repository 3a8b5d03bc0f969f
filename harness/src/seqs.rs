//! P17 (splitting and writing), P18 (content index).
use crate::rt::*;
use crate::util::*;
use pw_diff_lib::range::Range;
use pw_diff_lib::sequence::*;

/// what splitting must give
fn split(t: &[u8]) -> Vec<Vec<u8>> {
    let mut l = vec![];
    let mut cur = vec![];
    for b in t {
        cur.push(*b);
        if *b == b'\n' {
            l.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        l.push(cur);
    }
    l
}

fn judge(t: &[u8], s: &Seq<String>) {
    let got = strs(s);
    check(eq(&join(&got), t), "joining the lines gives the text back");
    check(lines_eq(&got, &split(t)), "lines end exactly at their newlines");
    if got.len() > 1 {
        reach("several lines");
    }
    log(got.len() as u64);
}

/// text of n arbitrary valid characters (1 to 4 bytes) from a string
fn from_str(n: usize) {
    let t = any_bytes(n);
    match std::str::from_utf8(&t) {
        Ok(x) => {
            if choose(2) == 0 {
                judge(&t, &Seq::<String>::from(x));
            } else {
                judge(&t, &Seq::<String>::from(x.to_string()));
            }
            reach("text");
        }
        Err(_) => assume(false),
    }
}

fn read(n: usize, interrupts: usize, may_fail: bool) {
    let t = any_bytes(choose(n + 1));
    let mut r = Portions::new(&t, interrupts, may_fail);
    let res = Seq::<String>::read(&mut r);
    let failed = r.failed;
    match res {
        Ok(s) => {
            check(!failed, "a failed read is reported");
            check(std::str::from_utf8(&t).is_ok(), "invalid UTF-8 is reported");
            judge(&t, &s);
            reach("read");
        }
        Err(_) => {
            check(failed | std::str::from_utf8(&t).is_err(), "valid text is read");
            if failed {
                reach("failure reported");
            } else {
                reach("invalid text reported");
            }
        }
    }
}

/// ASCII only, more bytes
fn read_ascii(n: usize) {
    let t = any_bytes(n);
    for b in &t {
        assume(*b < 0x80);
    }
    let mut r = Portions::new(&t, 0, false);
    match Seq::<String>::read(&mut r) {
        Ok(s) => judge(&t, &s),
        Err(_) => check(false, "valid text is read"),
    }
}

fn read_bytes(n: usize, interrupts: usize, may_fail: bool) {
    let t = any_bytes(choose(n + 1));
    let mut r = Portions::new(&t, interrupts, may_fail);
    let res = Seq::<u8>::read(&mut r);
    match res {
        Ok(s) => {
            check(!r.failed, "a failed read is reported");
            check(eq(&s.0, &t), "every byte is read");
            reach("read");
        }
        Err(_) => {
            check(r.failed, "bytes are read");
            reach("failure reported");
        }
    }
}

/// a long text whose only unknown part lies across the buffer boundary of the reader
fn read_long(n: usize) {
    let island = any_bytes(n);
    for b in &island {
        assume(*b < 0x80);
    }
    let before = 8192 - n / 2;
    let mut t = vec![];
    for i in 0..before {
        t.push(if i % 61 == 60 { b'\n' } else { b'a' + (i % 26) as u8 });
    }
    t.extend_from_slice(&island);
    t.extend_from_slice(b"tail\nof the text");
    match Seq::<String>::read(&t[..]) {
        Ok(s) => judge(&t, &s),
        Err(_) => check(false, "valid text is read"),
    }
}

fn sub_range(n: usize) -> Range {
    let e = choose(n + 1);
    let s = choose(e + 1);
    Range(s, e)
}

fn write_text(n: usize) {
    let l = lines(n, choose(2) == 0);
    let s = seq(&l);
    let mut w = Sink::new(1, true);
    let (r, res) = if choose(2) == 0 {
        let r = sub_range(n);
        (r, s.write_into(&mut w, r))
    } else {
        let from = choose(n + 1);
        (Range(from, n), s.write_into_all_from(&mut w, from))
    };
    match res {
        Ok(()) => {
            check(!w.failed, "a failed write is reported");
            check(eq(&w.out, &join(&l[r.0..r.1])), "exactly the range is written");
            reach("written");
        }
        Err(_) => {
            check(w.failed, "writing succeeds");
            reach("failure reported");
        }
    }
}

fn write_bytes(n: usize) {
    let l = any_bytes(n);
    let s = bseq(&l);
    let mut w = Sink::new(2, true);
    let (r, res) = if choose(2) == 0 {
        let r = sub_range(n);
        (r, s.write_into(&mut w, r))
    } else {
        let from = choose(n + 1);
        (Range(from, n), s.write_into_all_from(&mut w, from))
    };
    match res {
        Ok(()) => {
            check(!w.failed, "a failed write is reported");
            check(eq(&w.out, &l[r.0..r.1]), "exactly the range is written");
            reach("written");
        }
        Err(_) => {
            check(w.failed, "writing succeeds");
            reach("failure reported");
        }
    }
}

/// consuming a sequence piece by piece writes every item once
fn consume(n: usize, k: usize) {
    let l = lines(n, true);
    let s = seq(&l);
    let mut c = ConsumableSeq::<String>::new(&s);
    let mut out = vec![];
    let mut want = vec![];
    let mut at = 0;
    for _ in 0..k {
        match choose(2) {
            0 => {
                let to = choose(n + 1);
                let _ = c.write_into_upto(&mut out, to);
                if to > at {
                    want.extend(join(&l[at..to]));
                    at = to;
                }
            }
            _ => {
                let by = choose(n - at + 1);
                c.advance_consumed_by(by);
                at += by;
            }
        }
        check(c.consumed() == at, "the consumed count is the position");
    }
    let _ = c.write_remainder(&mut out);
    want.extend(join(&l[at..]));
    check(eq(&out, &want), "items not skipped are written once and in order");
    check(c.consumed() == n, "everything is consumed at the end");
}

fn positions(s: &[Vec<u8>], x: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    for (i, y) in s.iter().enumerate() {
        if eq(x, y) {
            v.push(i);
        }
    }
    v
}

fn judge_index(want: &[usize], got: Option<&Vec<usize>>) {
    match got {
        Some(v) => {
            let mut w = vec![];
            for x in v {
                w.push(concrete(*x as u64) as usize);
            }
            check(!w.is_empty() && w == want, "the index lists exactly the positions in order");
            if w.len() > 1 {
                reach("several");
            }
            reach("some");
        }
        None => {
            check(want.is_empty(), "an item that occurs is listed");
            reach("none");
        }
    }
}

fn index_text(n: usize) {
    // lines of different lengths
    let mut l = lines(n, true);
    if n > 1 && choose(2) == 1 {
        l[n - 1].pop();
    }
    let probe = lines(1, choose(2) == 0).pop().unwrap();
    let s = seq(&l);
    let ix = StringItemIndices::generate_from(&s);
    judge_index(&positions(&l, &probe), ix.indices(&string(probe.clone())));
    for x in &l {
        judge_index(&positions(&l, x), ix.indices(&string(x.clone())));
    }
}

fn index_wide(max: usize) {
    let l = wide_lines(max);
    let probe = wide_line(choose(2) == 0);
    let ix = StringItemIndices::generate_from(&seq(&l));
    judge_index(&positions(&l, &probe), ix.indices(&string(probe.clone())));
    for x in &l {
        judge_index(&positions(&l, x), ix.indices(&string(x.clone())));
    }
}

fn index_byte(n: usize) {
    let b = any_bytes(n);
    let probe = any_u8();
    let s = bseq(&b);
    let ix = ByteItemIndices::generate_from(&s);
    let l: Vec<Vec<u8>> = b.iter().map(|x| vec![*x]).collect();
    judge_index(&positions(&l, &[probe]), ix.indices(&probe));
}

/// many equal items with an odd one among them
fn index_long(n: usize) {
    let at = choose(3) * (n / 2 - 1);
    let (x, y) = [(0u8, 1u8), (7, 255), (255, 0)][choose(3)];
    let judge = |m: Option<&Vec<usize>>, want: Vec<usize>| match m {
        Some(m) => {
            check(m.len() == want.len(), "every position is listed once");
            let mut ok = m.len() == want.len();
            for i in 0..want.len().min(m.len()) {
                ok &= m[i] == want[i];
            }
            check(ok, "positions come in order");
        }
        None => check(false, "an item that occurs is listed"),
    };
    let rest: Vec<usize> = (0..n).filter(|i| *i != at).collect();
    if choose(2) == 0 {
        let mut b = vec![x; n];
        b[at] = y;
        let ix = ByteItemIndices::generate_from(&bseq(&b));
        judge(ix.indices(&x), rest);
        judge(ix.indices(&y), vec![at]);
        check(ix.indices(&128).is_none(), "an item that does not occur is not listed");
    } else {
        let mut l = vec![vec![b'a', b'\n']; n];
        l[at] = vec![b'b', b'\n'];
        let ix = StringItemIndices::generate_from(&seq(&l));
        judge(ix.indices(&"a\n".to_string()), rest);
        judge(ix.indices(&"b\n".to_string()), vec![at]);
        check(ix.indices(&"a".to_string()).is_none(), "an item that does not occur is not listed");
    }
}

harnesses! {
    p17_str_3 => from_str(3);
    p17_str_4 => from_str(4);
    p17_read_3 => read(3, 1, true);
    p17_read_4 => read(4, 1, false);
    p17_read_ascii_5 => read_ascii(5);
    p17_read_ascii_7 => read_ascii(7);
    p17_read_bytes => read_bytes(5, 1, true);
    p17_read_long => read_long(4);
    p17_write_text => write_text(3);
    p17_write_bytes => write_bytes(4);
    p17_consume => consume(3, 3);
    p17_consume_4 => consume(4, 4);
    p18_long => index_long(700);
    p18_text_5 => index_text(5);
    p18_text_6 => index_text(6);
    p18_wide_2 => index_wide(2);
    p18_wide_3 => index_wide(3);
    p18_byte_4 => index_byte(4);
    p18_byte_5 => index_byte(5);
}
