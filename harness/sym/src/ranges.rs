//! A07, A08: the range manager and the merging of updates, on their own, anywhere in the word space.
use crate::harness;
use crate::rt::*;
use craballoc::range::{IsRange, Range, RangeManager};
use craballoc::runtime::SlabUpdate;
use crabslab::Array;

fn has(r: &Range, x: u32) -> bool {
    (r.first_index <= x) & (x <= r.last_index)
}
fn apart(a: &Range, b: &Range) -> bool {
    (a.last_index < b.first_index) | (b.last_index < a.first_index)
}
fn check_shape(m: &RangeManager<Range>) {
    let mut good = true;
    for (i, a) in m.ranges.iter().enumerate() {
        good &= a.first_index <= a.last_index;
        for b in m.ranges[..i].iter() {
            good &= apart(a, b);
        }
    }
    check(good, "stored ranges are well formed and disjoint");
}
fn member(m: &RangeManager<Range>, x: u32) -> bool {
    let mut r = false;
    for a in m.ranges.iter() {
        r |= has(a, x);
    }
    r
}
/// Where in the word space a history takes place: at its start, in the middle, at its end.
fn window(words: u32) -> u32 {
    [0, (1 << 31) - words / 2, u32::MAX - words][pick(3) as usize]
}
/// Adding disjoint ranges anywhere in a window of `WORDS` words and removing any counts; `x` stands for every word.
fn ranges_history(steps: u32, shape: u32, base: u32) {
    const WORDS: u32 = 16;
    let mut m = RangeManager::<Range>::default();
    let x = base + below(WORDS);
    let mut inside = false;
    let mut removed = 0;
    for s in 0..steps {
        // `shape` fixes the first operations
        let add = if s < shape { true } else { pick(2) == 0 };
        if add {
            let r = Range { first_index: base + below(WORDS), last_index: base + below(WORDS) };
            assume(r.first_index <= r.last_index);
            for b in m.ranges.iter() {
                // a path for either side keeps the conditions of a path conjunctive
                if r.first_index > b.last_index {
                    continue;
                }
                assume(r.last_index < b.first_index);
            }
            m.add_range(r);
            inside |= has(&r, x);
        } else {
            let n = below(2 * WORDS);
            let before = m.ranges.clone();
            match m.remove(n) {
                Some(r) => {
                    check((r.first_index <= r.last_index) & (r.last_index.wrapping_sub(r.first_index).wrapping_add(1) == n), "a removed range has the requested length");
                    check(!has(&r, x) | inside, "a removed range was stored");
                    inside &= !has(&r, x);
                    removed += 1;
                }
                None => {
                    let mut none = true;
                    for b in before.iter() {
                        none &= b.last_index - b.first_index + 1 < n;
                    }
                    check((n == 0) | none, "a removal fails only if no range is long enough");
                }
            }
        }
        check_shape(&m);
        check(member(&m, x) == inside, "the manager stores exactly what was added and not removed");
    }
    cover(m.len() > 2, "three ranges at once");
    cover(removed > 0, "something removed");
    // defragmentation: re-adding
    let ranges = std::mem::take(&mut m.ranges);
    for r in ranges {
        m.add_range(r);
    }
    check_shape(&m);
    check(member(&m, x) == inside, "re-adding the ranges preserves the set");
    let mut touching = false;
    for (i, a) in m.ranges.iter().enumerate() {
        for b in m.ranges[..i].iter() {
            touching |= (a.last_index + 1 == b.first_index) | (b.last_index + 1 == a.first_index);
        }
    }
    check(!touching, "touching ranges are one after re-adding");
    trace(m.len() as u32);
    for r in m.ranges.iter() {
        trace(r.first_index);
        trace(r.last_index);
    }
}
fn range_facts() {
    let a = Range { first_index: any(), last_index: any() };
    let b = Range { first_index: any(), last_index: any() };
    let x = any();
    assume((a.first_index <= a.last_index) & (a.last_index < u32::MAX));
    assume((b.first_index <= b.last_index) & (b.last_index < u32::MAX));
    check(a.len() == a.last_index - a.first_index + 1, "a range has the length of its words");
    check(a.intersects(&b) | !(has(&a, x) & has(&b, x)), "ranges that share a word intersect");
    check(!a.intersects(&b) | !apart(&a, &b), "ranges that intersect are not apart");
    check(a.intersects(&b) == b.intersects(&a), "intersection is symmetric");
    if !a.intersects(&b) {
        let touch = (a.last_index + 1 == b.first_index) | (b.last_index + 1 == a.first_index);
        check(a.should_merge_with(&b) == touch, "ranges merge exactly when they touch");
        if touch {
            let mut u = a;
            u.union(b);
            check(has(&u, x) == has(&a, x) | has(&b, x), "a union has exactly the words of both");
            cover(true, "touching");
        } else {
            cover(true, "apart");
        }
    }
    let n = any();
    let s = any();
    assume((n > 0) & (s < u32::MAX - n));
    let r: Range = Array::<u32>::new(s, n).into();
    check((r.first_index == s) & (r.last_index == s + n - 1), "the range of an array is its words");
    let r: Range = Array::<u64>::new(s & 0xffff, n & 0xffff | 1).into();
    check((r.first_index == s & 0xffff) & (r.len() == 2 * (n & 0xffff | 1)), "the range of a typed array is its words");
    trace(a.len());
}

/// `n` updates anywhere in a window of `words` words; `x` stands for every word of the buffer.
fn updates(n: usize, words: u32, maxlen: u32, base: u32) {
    let mut m = RangeManager::<SlabUpdate>::default();
    let x = any();
    let old = any();
    let mut want = old;
    let mut touched = false;
    for _ in 0..n {
        let len = 1 + pick(maxlen);
        let first = base + below(words);
        let mut elements = vec![];
        for k in 0..len {
            let v = any();
            elements.push(v);
            want = sel(x == first + k, v, want);
            touched |= x == first + k;
        }
        m.add_range(SlabUpdate { array: Array::new(first, len), elements });
    }
    cover(m.len() == 1, "all merged");
    cover(m.len() == n, "none merged");
    let mut got = old;
    let mut hit = false;
    let mut good = true;
    for u in m.ranges.iter() {
        good &= u.array.len() == u.elements.len();
        for (k, e) in u.elements.iter().enumerate() {
            got = sel(x == u.array.index + k as u32, *e, got);
            hit |= x == u.array.index + k as u32;
        }
    }
    check(good, "a collected update is as long as its array");
    check(hit == touched, "exactly the words of the updates are written");
    check(got == want, "collected updates equal the updates in order");
    // and as the runtime applies them, no two touch the same word
    let mut apart = true;
    for (i, a) in m.ranges.iter().enumerate() {
        for b in m.ranges[..i].iter() {
            apart &= !a.intersects(b);
        }
    }
    cover(apart, "collected updates are apart");
    trace(got);
    trace(m.len() as u32);
}

harness! { LIST:
    a07_facts ["touching", "apart"] { range_facts() }
    a07_history_4 ["three ranges at once", "something removed"] { ranges_history(4, 0, 0) }
    a07_window_4 ["three ranges at once", "something removed"] { ranges_history(4, 3, window(16)) }
    a07t_history_5b ["three ranges at once", "something removed"] { ranges_history(5, 3, 0) }
    a07t_history_5 ["three ranges at once", "something removed"] { ranges_history(5, 0, 0) }
    a07t_history_6 ["three ranges at once", "something removed"] { ranges_history(6, 4, 0) }
    a08_updates_3 ["all merged", "none merged"] { updates(3, 8, 4, window(16)) }
    a08_updates_4 ["all merged", "none merged"] { updates(4, 8, 2, 0) }
    a08t_updates_4 ["all merged", "none merged"] { updates(4, 8, 3, 0) }
    a08t_updates_3 ["all merged", "none merged"] { updates(3, 16, 8, window(32)) }
}
