//! Reference segmentation of hyphen-separated lists.

/// Index of the first hyphen at or after `i`, or the length.
pub fn seg_end(t: &str, i: usize) -> usize {
    let b = t.as_bytes();
    let mut j = i;
    while j < b.len() && b[j] != b'-' {
        j += 1;
    }
    j
}
/// Start of the segment ending at `e`.
pub fn seg_start(t: &str, e: usize) -> usize {
    let b = t.as_bytes();
    let mut j = e;
    while j > 0 && b[j - 1] != b'-' {
        j -= 1;
    }
    j
}
/// End of the extension starting at `i`: up to the next one-character segment.
pub fn ext_end(t: &str, i: usize) -> usize {
    let b = t.as_bytes();
    let mut j = i;
    loop {
        // at a segment start
        let e = seg_end(t, j);
        if e >= b.len() {
            return e;
        }
        let n = seg_end(t, e + 1);
        if n - (e + 1) == 1 {
            return e;
        }
        j = e + 1;
    }
}
