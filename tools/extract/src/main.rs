//! Mechanical extraction of the real source text of /repo for verification.
//!
//!   c2w-extract verus  <repo> <overlay> <out.rs> <report.json>
//!   c2w-extract widen  <repo> <outdir>
//!
//! `verus` expands an overlay: verbatim Verus text plus directives that pull types, constants
//! and functions out of /repo's current source by (file, path) and splice contracts into them.
//! `widen` copies the crate, changing nothing but visibility (every item and field `pub`), so
//! that a harness module inside the copy can call private functions.
mod verus;
mod widen;

use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let r = match a.get(1).map(|s| s.as_str()) {
        Some("verus") if a.len() == 6 => verus::run(Path::new(&a[2]), Path::new(&a[3]), Path::new(&a[4]), Path::new(&a[5])),
        Some("widen") if a.len() == 4 => widen::run(Path::new(&a[2]), Path::new(&a[3])),
        _ => Err("usage: c2w-extract verus REPO OVERLAY OUT REPORT | widen REPO OUTDIR".to_string()),
    };
    if let Err(e) = r {
        eprintln!("EXTRACT-ERROR: {e}");
        std::process::exit(3);
    }
}

/// A textual edit: replace bytes [start, end) by `text`. Insertions have start == end.
#[derive(Debug, Clone)]
pub struct Edit {
    pub start: usize,
    pub end: usize,
    pub text: String,
    pub order: usize,
}

/// Apply edits to `src[base_start..base_end]`. Edits nested inside a replaced range are dropped.
pub fn apply(src: &str, base_start: usize, base_end: usize, edits: &[Edit]) -> String {
    let mut es: Vec<Edit> = edits.to_vec();
    es.sort_by_key(|e| (e.start, if e.start == e.end { 0 } else { 1 }, std::cmp::Reverse(e.end), e.order));
    let mut out = String::new();
    let mut pos = base_start;
    for e in es {
        if e.start < pos {
            continue; // inside a range already replaced
        }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..base_end]);
    out
}
