//! Symbolic OSM values and comparisons.
#![allow(dead_code)]
use crate::sym::*;
use osm_io::osm::model::{coordinate::Coordinate, element::Element, node::Node, relation::{Member, MemberData, Relation}, tag::Tag, way::Way};

pub const LAT: i64 = 900_000_000;
pub const LON: i64 = 1_800_000_000;
/// OSM ids and other 64 bit quantities used with delta coding: any value whose differences fit
pub const BIG: i64 = (1 << 62) - 1;
pub const WORDS: [&str; 6] = ["highway", "residential", "", "name", "Zażółć 東京 🚲", "a\tb\n\\c"];
pub fn word(t: &str, n: usize) -> String { WORDS[pick(t, n)].to_string() }
pub fn coord(t: &str) -> (i64, i64, Coordinate) {
    let la = int(&format!("{t}.lat7"), -LAT, LAT); let lo = int(&format!("{t}.lon7"), -LON, LON);
    (la, lo, Coordinate::new(la as f64 / 1e7, lo as f64 / 1e7))
}
/// milliseconds on a whole second (the file format's resolution)
pub fn stamp(t: &str) -> i64 { int(&format!("{t}.sec"), -62_135_596_800, 253_402_300_799) * 1000 }
pub struct Meta { pub id: i64, pub version: i32, pub ts: i64, pub cs: i64, pub uid: i32, pub visible: bool }
pub fn meta(t: &str) -> Meta { Meta { id: int(&format!("{t}.id"), -BIG, BIG), version: i32(&format!("{t}.version"), 0, i32::MAX), ts: stamp(t), cs: int(&format!("{t}.changeset"), 0, BIG), uid: i32(&format!("{t}.uid"), -1, i32::MAX - 1), visible: boolean(&format!("{t}.visible")) } }
pub fn tags(kv: &[(&str, &str)]) -> Vec<Tag> { kv.iter().map(|(k, v)| Tag::new(k.to_string(), v.to_string())).collect() }
pub fn node(m: &Meta, c: Coordinate, user: &str, t: Vec<Tag>) -> Node { Node::new(m.id, m.version, c, m.ts, m.cs, m.uid, user.to_string(), m.visible, t) }
pub fn way(m: &Meta, user: &str, refs: Vec<i64>, t: Vec<Tag>) -> Way { Way::new(m.id, m.version, m.ts, m.cs, m.uid, user.to_string(), m.visible, refs, t) }
pub fn relation(m: &Meta, user: &str, mem: Vec<Member>, t: Vec<Tag>) -> Relation { Relation::new(m.id, m.version, m.ts, m.cs, m.uid, user.to_string(), m.visible, mem, t) }
pub fn member(kind: usize, id: i64, role: &str) -> Member { let d = MemberData::new(id, role.to_string()); match kind { 0 => Member::Node { member: d }, 1 => Member::Way { member: d }, _ => Member::Relation { member: d } } }
pub fn el_node(n: Node) -> Element { Element::Node { node: n } }
pub fn el_way(w: Way) -> Element { Element::Way { way: w } }
pub fn el_rel(r: Relation) -> Element { Element::Relation { relation: r } }
/// a plain element of the given kind
pub fn plain(kind: usize, id: i64, version: i32) -> Element {
    match kind {
        0 => el_node(Node::new(id, version, Coordinate::new(1.5, 2.5), 1000, 1, 1, "u".to_string(), true, vec![])),
        1 => el_way(Way::new(id, version, 1000, 1, 1, "u".to_string(), true, vec![1, 2], vec![])),
        2 => el_rel(Relation::new(id, version, 1000, 1, 1, "u".to_string(), true, vec![member(0, 1, "r")], vec![])),
        _ => Element::Sentinel,
    }
}
pub fn kind(e: &Element) -> usize { match e { Element::Node { .. } => 0, Element::Way { .. } => 1, Element::Relation { .. } => 2, Element::Sentinel => 3 } }
pub fn id_of(e: &Element) -> i64 { match e { Element::Node { node } => node.id(), Element::Way { way } => way.id(), Element::Relation { relation } => relation.id(), Element::Sentinel => i64::MAX } }
pub fn version_of(e: &Element) -> i32 { match e { Element::Node { node } => node.version(), Element::Way { way } => way.version(), Element::Relation { relation } => relation.version(), Element::Sentinel => 0 } }
pub fn same_tags(a: &[Tag], b: &[Tag], w: &str) { check(a.len() == b.len(), &format!("{w}: number of tags")); for (x, y) in a.iter().zip(b) { check(x.k() == y.k() && x.v() == y.v(), &format!("{w}: tags")); } }
pub fn same_node(a: &Node, b: &Node) {
    check(a.id() == b.id(), "node id"); check(a.version() == b.version(), "node version");
    check(a.coordinate().lat() == b.coordinate().lat(), "node latitude"); check(a.coordinate().lon() == b.coordinate().lon(), "node longitude");
    check(a.timestamp() == b.timestamp(), "node timestamp"); check(a.changeset() == b.changeset(), "node changeset"); check(a.uid() == b.uid(), "node uid");
    check(a.user() == b.user(), "node user"); check(a.visible() == b.visible(), "node visible"); same_tags(a.tags(), b.tags(), "node");
}
pub fn same_way(a: &Way, b: &Way) {
    check(a.id() == b.id(), "way id"); check(a.version() == b.version(), "way version"); check(a.timestamp() == b.timestamp(), "way timestamp");
    check(a.changeset() == b.changeset(), "way changeset"); check(a.uid() == b.uid(), "way uid"); check(a.user() == b.user(), "way user"); check(a.visible() == b.visible(), "way visible");
    check(a.refs().len() == b.refs().len(), "way number of refs"); for (x, y) in a.refs().iter().zip(b.refs()) { check(x == y, "way refs"); } same_tags(a.tags(), b.tags(), "way");
}
pub fn member_parts(m: &Member) -> (usize, i64, &String) { match m { Member::Node { member } => (0, member.id(), member.role()), Member::Way { member } => (1, member.id(), member.role()), Member::Relation { member } => (2, member.id(), member.role()) } }
pub fn same_relation(a: &Relation, b: &Relation) {
    check(a.id() == b.id(), "relation id"); check(a.version() == b.version(), "relation version"); check(a.timestamp() == b.timestamp(), "relation timestamp");
    check(a.changeset() == b.changeset(), "relation changeset"); check(a.uid() == b.uid(), "relation uid"); check(a.user() == b.user(), "relation user"); check(a.visible() == b.visible(), "relation visible");
    check(a.members().len() == b.members().len(), "relation number of members");
    for (x, y) in a.members().iter().zip(b.members()) { let (x, y) = (member_parts(x), member_parts(y)); check(x.0 == y.0, "relation member type"); check(x.1 == y.1, "relation member id"); check(x.2 == y.2, "relation member role"); }
    same_tags(a.tags(), b.tags(), "relation");
}
pub fn same_element(a: &Element, b: &Element) {
    match (a, b) { (Element::Node { node: x }, Element::Node { node: y }) => same_node(x, y), (Element::Way { way: x }, Element::Way { way: y }) => same_way(x, y), (Element::Relation { relation: x }, Element::Relation { relation: y }) => same_relation(x, y), (Element::Sentinel, Element::Sentinel) => {} _ => fail("element kind") }
}
/// observations compared between the engine and native runs
pub fn seen(e: &Element) { observe(kind(e) as i64); observe(id_of(e)); observe(version_of(e) as i64); match e { Element::Node { node } => { observe(node.timestamp()); observe(node.changeset()) } Element::Way { way } => { observe(way.timestamp()); for r in way.refs() { observe(*r) } } Element::Relation { relation } => { observe(relation.timestamp()); for m in relation.members() { observe(member_parts(m).1) } } _ => {} } }
/// any text of n ASCII characters; needs flat_hash() wherever it is a key
pub fn ascii(tag: &str, n: usize) -> String { letters(tag, n, 0) }
pub fn letters(tag: &str, n: usize, low: i64) -> String { let mut s = String::new(); for i in 0..n { s.push(int(&format!("{tag}{i}"), low, 127) as u8 as char) } s }
/// one character of two, three or four bytes
pub fn wide(tag: &str) -> String { let (a, b) = [(0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)][pick("bytes", 4)]; let mut s = String::new(); s.push(char::from_u32(int(tag, a, b) as u32).unwrap()); s }
/// ASCII text of up to n characters, or, the last alternative, a wide character
pub fn text(tag: &str, n: usize) -> String { let k = pick(tag, n + 2); if k > n { wide(tag) } else { ascii(tag, k) } }
