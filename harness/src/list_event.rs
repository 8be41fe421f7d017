//! An event that is a list of (path, string) leaves, visited in order, recording every callback
//! the scanner makes. Generic over the index encoding.
use crate::conv;
use dd_sds::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::marker::PhantomData;

pub struct ListEvent<E> {
    pub leaves: Vec<(Path<'static>, String)>,
    pub trace: Vec<Value>,
    _p: PhantomData<E>,
}

impl<E> ListEvent<E> {
    pub fn from_json(v: &Value) -> Self {
        ListEvent {
            leaves: v
                .as_array()
                .unwrap()
                .iter()
                .map(|l| (conv::path(&l["p"]), conv::st(&l["s"])))
                .collect(),
            trace: vec![],
            _p: PhantomData,
        }
    }
}

impl<E: Encoding> Event for ListEvent<E> {
    type Encoding = E;
    fn visit_event<'a>(&'a mut self, visitor: &mut impl EventVisitor<'a>) {
        let mut cur: Vec<PathSegment<'static>> = vec![];
        let mut trace = vec![];
        for (i, (p, s)) in self.leaves.iter().enumerate() {
            // keep the shared prefix, pop the rest, push the rest: a depth first walk
            let mut k = 0;
            while k < cur.len() && k < p.segments.len() && cur[k] == p.segments[k] {
                k += 1;
            }
            while cur.len() > k {
                visitor.pop_segment();
                cur.pop();
            }
            while cur.len() < p.segments.len() {
                let s = &p.segments[cur.len()];
                visitor.push_segment(match s {
                    PathSegment::Field(f) => PathSegment::Field(f.as_ref().into()),
                    PathSegment::Index(i) => PathSegment::Index(*i),
                });
                cur.push(s.clone());
            }
            let r = visitor.visit_string(s);
            let path_ok = r.path.into_static() == *p;
            trace.push(json!({"e": "visit", "i": i, "might": r.might_mutate, "path_ok": path_ok}));
        }
        self.trace.extend(trace);
    }
    fn visit_string_mut(&mut self, path: &Path, mut visit: impl FnMut(&mut String) -> bool) {
        let path = path.into_static();
        let i = self
            .leaves
            .iter()
            .position(|(p, _)| *p == path)
            .expect("visit_string_mut called with a path that was never visited");
        let before = self.leaves[i].1.clone();
        let chg = visit(&mut self.leaves[i].1);
        self.trace.push(json!({
            "e": "mut", "i": i, "before": conv::cps(&before), "after": conv::cps(&self.leaves[i].1), "chg": chg
        }));
    }
}

thread_local! {
    /// contract violations seen by the custom encoding
    pub static ENC_ERRORS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

/// UTF-16 code unit indices, as a binding for a UTF-16 language would implement them: one pass
/// over the content, relying on the documented guarantee that starts come in ascending order.
pub struct Utf16Encoding;

impl Encoding for Utf16Encoding {
    type Index = usize;
    type IndexShift = isize;
    fn zero_index() -> usize {
        0
    }
    fn zero_shift() -> isize {
        0
    }
    fn get_index(value: &usize, _utf8_index: usize) -> usize {
        *value
    }
    fn get_shift(value: &isize, _utf8_shift: isize) -> isize {
        *value
    }
    fn calculate_indices<'a>(content: &str, matches: impl Iterator<Item = EncodeIndices<'a, Self>>) {
        let mut pos8 = 0;
        let mut pos16 = 0;
        for m in matches {
            if m.utf8_start < pos8 {
                ENC_ERRORS.with(|e| e.borrow_mut().push("starts not ascending".into()));
                continue;
            }
            pos16 += content[pos8..m.utf8_start].encode_utf16().count();
            pos8 = m.utf8_start;
            *m.custom_start = pos16;
            *m.custom_end = pos16 + content[m.utf8_start..m.utf8_end].encode_utf16().count();
        }
    }
    fn adjust_shift(shift: &mut isize, before: &str, after: &str) {
        *shift += after.encode_utf16().count() as isize - before.encode_utf16().count() as isize;
    }
}
