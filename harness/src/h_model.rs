//! Order on elements, bounding boxes, coordinates.
use crate::{gen::*, sym::*};
use osm_io::osm::model::element::Element;
use std::cmp::Ordering;

fn any_el(t: &str) -> Element { let k = pick(&format!("{t}.kind"), 4); if k == 3 { return Element::Sentinel; } plain(k, any64(&format!("{t}.id")), any32(&format!("{t}.version"))) }
harnesses! {
    fn c15_order() {
        let (a, b, c) = (any_el("a"), any_el("b"), any_el("c"));
        let (ab, ba, bc, ac) = (a.cmp(&b), b.cmp(&a), b.cmp(&c), a.cmp(&c));
        check(a.cmp(&a) == Ordering::Equal, "not reflexive");
        check(ab == ba.reverse(), "not antisymmetric");
        if ab != Ordering::Greater && bc != Ordering::Greater { check(ac != Ordering::Greater, "not transitive"); reach(1); }
        check((a == b) == (ab == Ordering::Equal), "eq disagrees with cmp");
        check(a.partial_cmp(&b) == Some(ab), "partial_cmp disagrees with cmp");
        let key = |e: &Element| (kind(e), if kind(e) == 3 { 0 } else { id_of(e) }, version_of(e));
        let (x, y) = (key(&a), key(&b));
        let want = if x.0 != y.0 { x.0.cmp(&y.0) } else if x.0 == 3 { Ordering::Equal } else if x.1 != y.1 { x.1.cmp(&y.1) } else { x.2.cmp(&y.2) };
        check(ab == want, "not the type, id, version order");
        reach(0);
    }
    // the predicates on kinds
    fn c15_kinds() {
        let (a, b) = (any_el("a"), any_el("b")); let k = kind(&a);
        check(a.is_node() == (k == 0) && a.is_way() == (k == 1) && a.is_relation() == (k == 2) && a.is_sentinel() == (k == 3), "a predicate disagrees with the kind");
        check(Element::same_type(&a, &b) == (k == kind(&b)), "same_type disagrees with the kinds"); check(Element::same_type(&a, &b) == Element::same_type(&b, &a), "same_type is not symmetric"); reach(0);
    }
}
