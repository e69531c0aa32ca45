//! PBF files written and read back.
use crate::{enc, gen::*, sym::*};
use osm_io::osm::{model::{bounding_box::BoundingBox, coordinate::Coordinate, element::Element, node::Node, tag::Tag}, pbf::{compression_type::CompressionType, file_block::FileBlock, file_info::FileInfo, reader::Reader, writer::Writer}};
use std::path::PathBuf;

pub fn compression(zlib: bool) -> CompressionType { if zlib { CompressionType::Zlib } else { CompressionType::Uncompressed } }
pub fn writer(name: &str, info: FileInfo, zlib: bool) -> (PathBuf, Writer) {
    let p = dir().join(name);
    let mut w = Writer::from_file_info(p.clone(), info, compression(zlib)).expect("writer");
    w.write_header().expect("header");
    (p, w)
}
pub fn write_file(name: &str, info: FileInfo, zlib: bool, els: Vec<Element>) -> PathBuf {
    let (p, mut w) = writer(name, info, zlib);
    for e in els { w.write_element(e).expect("element"); }
    w.close().expect("close");
    p
}
pub fn read_file(p: &PathBuf) -> Vec<Element> { let r = Reader::new(p).expect("reader"); r.elements().expect("elements").collect() }
fn round_trip(zlib: bool, els: Vec<Element>) {
    let p = write_file("f.osm.pbf", FileInfo::default(), zlib, els.clone());
    let got = read_file(&p);
    check(got.len() == els.len(), "number of elements");
    for (a, b) in els.iter().zip(&got) { same_element(a, b); seen(b); }
    reach(0);
}
const TAGS: [&[(&str, &str)]; 5] = [&[], &[("highway", "residential")], &[("name", "Zażółć"), ("k", "")], &[("a", "b"), ("b", "a"), ("a", "b")], &[("", "x")]];
const USERS: [&str; 4] = ["alice", "bob", "", "Zoë 東"];

fn fixed_meta(i: usize) -> Meta { Meta { id: i as i64 + 1, version: 1, ts: 1000, cs: 5, uid: 6, visible: true } }
fn kv_tags(kv: &[(String, String)]) -> Vec<Tag> { kv.iter().map(|(k, v)| Tag::new(k.clone(), v.clone())).collect() }
/// users and tags of two neighbouring elements: the texts of one place vary fully, the others are single characters
/// that may or may not equal it and each other
fn text_plan() -> Vec<(String, Vec<(String, String)>)> {
    let focus = pick("focus", 6); let n = 2; let len = bound(2, 3);
    let mut at = 0; let mut t = |tag: &str, l: usize| { let s = if at == focus { text(tag, len) } else { ascii(tag, l) }; at += 1; s };
    (0..n).map(|i| { let u = t(&format!("user{i}."), 1); let kv = vec![(t(&format!("k{i}."), 1 + i % 2), t(&format!("v{i}."), 1))]; (u, kv) }).collect()
}
/// tags of two neighbouring elements, any of whose keys and values may be equal
fn tags_plan() -> Vec<Vec<(String, String)>> {
    let t = |tag: String| ascii(&tag, 1);
    [1, bound(2, 3)].iter().enumerate().map(|(i, n)| (0..*n).map(|j| (t(format!("k{i}.{j}")), t(format!("v{i}.{j}")))).collect()).collect()
}
/// a text as long as a power of two or one off, and a short one, that differ in a symbolic character at either end
fn long_texts() -> (String, String) {
    let n = [127usize, 128, 255, 256, 257, 1024, 4096, 16_383, 16_384, 32_768, 65_535, 65_536, 70_000][pick("length", 13)];
    let mut s = ascii("first", 1); for i in 0..n - 2 { s.push((b'a' + (i % 23) as u8) as char) } s.push_str(&ascii("last", 1)); let t = if coin("twin") { let mut t = s[..n - 1].to_string(); t.push_str(&ascii("other", 1)); t } else { ascii("short", 1) }; (s, t)
}
/// more different strings than 16 bits can count, in one block
fn many_strings(kind: usize) -> Vec<Element> {
    let n = 33_000; let id = int("id", 0, BIG); let kv: Vec<(String, String)> = (0..n).map(|i| (format!("k{i}"), format!("v{i}"))).collect(); let m = |i: i64| Meta { id: id + i, ..fixed_meta(i as usize) }; let late = kv_tags(&[("later".into(), "k32999".into()), ("k7".into(), "latest".into())]); let c = Coordinate::new(1.5, 2.5);
    match kind {
        0 => vec![el_node(node(&m(0), c.clone(), "u", kv_tags(&kv))), el_node(node(&m(1), c, "late", late))],
        1 => vec![el_way(way(&m(0), "u", vec![1], kv_tags(&kv))), el_way(way(&m(1), "late", vec![2], late))],
        _ => vec![el_rel(relation(&m(0), "u", kv.iter().map(|x| member(0, 7, &x.1)).collect(), kv_tags(&kv))), el_rel(relation(&m(1), "late", vec![member(1, 8, "final"), member(2, 8, "v32999")], late))],
    }
}
harnesses! {
    // every field symbolic
    fn c01_node() {
        let n = 1 + pick("nodes", bound(2, 3));
        let zlib = coin("zlib");
        let mut els = vec![];
        for i in 0..n { let t = ["n0", "n1", "n2"][i]; let (_, _, c) = coord(t); let m = meta(t); els.push(el_node(node(&m, c, USERS[pick("user", 3)], tags(TAGS[pick("tags", 3)])))); }
        round_trip(zlib, els)
    }
    // delta chains over more neighbours, without the alternatives of text
    fn c01_chain() {
        let n = bound(4, 6); let mut els = vec![];
        for i in 0..n { let t = format!("n{i}"); let (_, _, c) = coord(&t); let m = meta(&t); els.push(el_node(node(&m, c, USERS[i % 3], tags(TAGS[(i * 2) % 5])))); }
        round_trip(true, els)
    }
    // any text, equal or not, in tags and users of neighbours
    fn c01_text() {
        flat_hash(); let plan = text_plan(); let mut els = vec![];
        for (i, (u, kv)) in plan.iter().enumerate() { els.push(el_node(node(&fixed_meta(i), Coordinate::new(1.5, -2.25), u, kv_tags(kv)))); }
        round_trip(false, els)
    }
    // any equalities among the tags of an element and of its neighbour
    fn c01_tags() {
        flat_hash(); let els = tags_plan().iter().enumerate().map(|(i, kv)| el_node(node(&fixed_meta(i), Coordinate::new(1.5, -2.25), "u", kv_tags(kv)))).collect();
        round_trip(true, els)
    }
    // timestamps off the second, negative ones included
    fn c01_millis() {
        let ms = int("ms", -62_135_596_800_000, 253_402_300_799_999);
        let n = Node::new(5, 1, Coordinate::new(1.5, 2.5), ms, 1, 1, "u".into(), true, vec![]);
        let p = write_file("f.osm.pbf", FileInfo::default(), false, vec![el_node(n)]);
        let got = read_file(&p); check(got.len() == 1, "number of elements");
        let Element::Node { node } = &got[0] else { fail("kind") };
        let t = node.timestamp(); check(t - ms < 1000 && ms - t < 1000, "timestamp not within the second"); if ms >= 0 { check(t <= ms, "timestamp after the written one"); }
        reach(0);
    }
    // coordinates off the 1e-7 grid
    fn c01_grid() {
        let la = int("lat9", -90_000_000_000, 90_000_000_000); let lo = int("lon9", -180_000_000_000, 180_000_000_000);
        let n = Node::new(5, 1, Coordinate::new(la as f64 / 1e9, lo as f64 / 1e9), 1000, 1, 1, "u".into(), true, vec![]);
        let p = write_file("f.osm.pbf", FileInfo::default(), false, vec![el_node(n)]);
        let got = read_file(&p); check(got.len() == 1, "number of elements");
        let Element::Node { node } = &got[0] else { fail("kind") };
        let (a, o) = ((node.coordinate().lat() * 1e9).round() as i64, (node.coordinate().lon() * 1e9).round() as i64);
        check(a - la <= 50 && la - a <= 50, "latitude not the nearest 1e-7 degree"); check(o - lo <= 50 && lo - o <= 50, "longitude not the nearest 1e-7 degree");
        reach(0);
    }
    // many strings: indexes beyond one varint byte, repeated use of early and late ones
    fn c01_many() {
        let n = bound(200, 500); let mut els = vec![];
        for i in 0..n { let m = Meta { id: int(&format!("id{}", i % 3), 0, BIG), version: 1, ts: 1000 * i as i64, cs: i as i64, uid: i as i32, visible: i % 2 == 0 };
            let t: Vec<(String, String)> = (0..i % 4).map(|j| (format!("k{}", (i * 7 + j) % 150), format!("v{}", i * j))).collect(); let t: Vec<(&str, &str)> = t.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            els.push(el_node(node(&m, Coordinate::new((i as i64 - 100) as f64 / 10.0, (100 - i as i64) as f64 / 5.0), &format!("user{}", i % 140), tags(&t)))); }
        round_trip(true, els)
    }
    fn c01_long() { flat_hash(); let (a, b) = long_texts(); round_trip(coin("zlib"), (0..2).map(|i| { let (a, b) = if i == 0 { (&a, &b) } else { (&b, &a) }; el_node(node(&fixed_meta(i), Coordinate::new(1.5, 2.5), a, kv_tags(&[(a.clone(), b.clone()), ("k".into(), a.clone())]))) }).collect()) }
    fn c02_long() { flat_hash(); let (a, b) = long_texts(); round_trip(coin("zlib"), (0..2).map(|i| { let (a, b) = if i == 0 { (&a, &b) } else { (&b, &a) }; el_way(way(&fixed_meta(i), a, vec![1], kv_tags(&[(a.clone(), b.clone()), ("k".into(), a.clone())]))) }).collect()) }
    fn c03_long() { flat_hash(); let (a, b) = long_texts(); round_trip(coin("zlib"), (0..2).map(|i| { let (a, b) = if i == 0 { (&a, &b) } else { (&b, &a) }; el_rel(relation(&fixed_meta(i), a, vec![member(i, 5, b), member(2, 6, a)], kv_tags(&[(a.clone(), b.clone()), ("k".into(), a.clone())]))) }).collect()) }
    fn c01_strings() { round_trip(true, many_strings(0)) }
    fn c02_strings() { round_trip(true, many_strings(1)) }
    fn c03_strings() { round_trip(true, many_strings(2)) }
    fn c02_way() {
        let n = 1 + pick("ways", bound(2, 3)); let mut els = vec![];
        for i in 0..n { let t = format!("w{i}"); let m = meta(&t); let k = pick("refs", bound(4, 6)); let refs: Vec<i64> = (0..k).map(|j| int(&format!("{t}.ref{j}"), -BIG, BIG)).collect(); els.push(el_way(way(&m, USERS[pick("user", 3)], refs, tags(TAGS[pick("tags", 3)])))); }
        round_trip(n == 1, els)
    }
    fn c02_text() {
        flat_hash(); let plan = text_plan(); let mut els = vec![];
        for (i, (u, kv)) in plan.iter().enumerate() { els.push(el_way(way(&fixed_meta(i), u, vec![int("r", -BIG, BIG)], kv_tags(kv)))); }
        round_trip(false, els)
    }
    fn c02_tags() {
        flat_hash(); let els = tags_plan().iter().enumerate().map(|(i, kv)| el_way(way(&fixed_meta(i), "u", vec![7, 7], kv_tags(kv)))).collect();
        round_trip(true, els)
    }
    fn c02_many() {
        let n = bound(150, 400); let mut els = vec![];
        for i in 0..n { let m = Meta { id: i as i64 + 1, version: 1, ts: 1000 * i as i64, cs: i as i64, uid: i as i32, visible: i % 2 == 0 };
            let t: Vec<(String, String)> = (0..i % 4).map(|j| (format!("k{}", (i * 7 + j) % 150), format!("v{}", i * j))).collect(); let t: Vec<(&str, &str)> = t.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let refs = if i == 7 { (0..bound(140_000, 1_000_000)).map(|j| (j as i64 * 7919) % 65537).collect() } else { (0..i % 5).map(|j| int(&format!("r{}", j % 3), -BIG, BIG)).collect() };
            els.push(el_way(way(&m, &format!("user{}", i % 140), refs, tags(&t)))); }
        round_trip(true, els)
    }
    fn c03_relation() {
        let n = 1 + pick("relations", bound(2, 2)); let mut els = vec![];
        for i in 0..n { let t = format!("r{i}"); let m = meta(&t); let k = pick("members", if i == 0 { bound(3, 4) } else { bound(2, 3) }); let mem = (0..k).map(|j| member(pick("type", 3), int(&format!("{t}.m{j}"), -BIG, BIG), ["outer", "", "inner"][pick("role", if i == 0 { bound(2, 3) } else { 1 })])).collect(); els.push(el_rel(relation(&m, USERS[pick("user", 2)], mem, tags(TAGS[pick("tags", 2)])))); }
        round_trip(n == 1, els)
    }
    fn c03_text() {
        flat_hash(); let plan = text_plan(); let mut els = vec![];
        // the words of the plan are roles in one half of the runs and tags in the other
        let roles = coin("roles");
        for (i, (u, kv)) in plan.iter().enumerate() {
            if roles { let mem = kv.iter().flat_map(|(a, b)| [member(i, 7, a), member(2 - i, 7, b)]).collect(); els.push(el_rel(relation(&fixed_meta(i), u, mem, vec![]))); }
            else { els.push(el_rel(relation(&fixed_meta(i), u, vec![], kv_tags(kv)))); }
        }
        round_trip(false, els)
    }
    // any equalities among tags and roles
    fn c03_tags() {
        flat_hash(); let els = tags_plan().iter().enumerate().map(|(i, kv)| { let m = (0..=i).map(|j| member(if i == 0 { 0 } else { pick("kind", 2) }, int(&format!("m{i}.{j}"), 1, 3), &ascii(&format!("role{i}.{j}"), 1))).collect(); el_rel(relation(&fixed_meta(i), "u", m, kv_tags(&kv[..i]))) }).collect();
        round_trip(true, els)
    }
    fn c03_many() {
        let n = bound(150, 400); let mut els = vec![];
        for i in 0..n { let m = Meta { id: i as i64 + 1, version: 1, ts: 1000 * i as i64, cs: i as i64, uid: i as i32, visible: i % 2 == 0 };
            let t: Vec<(String, String)> = (0..i % 4).map(|j| (format!("k{}", (i * 7 + j) % 150), format!("v{}", i * j))).collect(); let t: Vec<(&str, &str)> = t.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let k = if i == 7 { bound(70_000, 300_000) } else { i % 5 }; let mem = (0..k).map(|j| member((i + j) % 3, if j < 3 { int(&format!("m{j}"), -BIG, BIG) } else { j as i64 * 31 % 101 }, &format!("role{}", (i + j) % 160))).collect();
            els.push(el_rel(relation(&m, &format!("user{}", i % 140), mem, tags(&t)))); }
        round_trip(true, els)
    }
    // every kind sequence around the block capacity
    fn c04_blocks() {
        let start = pick("kind of the long run", 3);
        let (p, mut w) = writer("f.osm.pbf", FileInfo::default(), false);
        let pre = [0, 7998][pick("run", 2)]; let mut want: Vec<(usize, i64)> = vec![]; let mut bad = false;
        for i in 0..pre { let id = i as i64 + 1; want.push((start, id)); bad |= w.write_element(plain(start, id, 1)).is_err(); }
        let mut k = if pre == 0 { 0 } else { start };
        for i in 0..bound(4, 6) { let more = 3 - k; let c = pick("next", more + 1); if c == more { break; } k += c; let id = int(&format!("id{i}"), -BIG, BIG); want.push((k, id)); bad |= w.write_element(plain(k, id, 1)).is_err(); }
        bad |= w.close().is_err();
        check(!bad, "a legal stream is refused"); drop(w);
        blocks_hold(&p, &want, 8000);
        reach(0); if want.len() > 8000 { reach(1); } if pre == 0 && want.iter().all(|x| x.0 == 2) { reach(2); }
    }
    // several full blocks of one kind, then the rest
    fn c04_full() {
        let kind = pick("kind", 3); let n = [8000, 8001, 15999, 16000, 16001][pick("length", 5)];
        let (p, mut w) = writer("f.osm.pbf", FileInfo::default(), false); let mut want = vec![];
        for i in 0..n { let id = i as i64 + 1; want.push((kind, id)); w.write_element(plain(kind, id, 1)).expect("element"); }
        let last = pick("tail", 3 - kind + 1); if last < 3 - kind { let id = int("id", -BIG, BIG); want.push((kind + last, id)); w.write_element(plain(kind + last, id, 1)).expect("element"); }
        w.close().expect("close"); drop(w);
        blocks_hold(&p, &want, 8000);
        reach(0);
    }
    // elements handed over one by one and in batches, empty, mixed and long ones included
    fn c04_ready() {
        let (p, mut w) = writer("f.osm.pbf", FileInfo::default(), true); let mut k = 0; let mut want = vec![]; let mut bad = false; let mut mixed = false; let mut n = 0;
        for c in 0..bound(3, 3) {
            let api = pick("api", 2); let len = if api == 0 { 1 } else { pick("batch", bound(4, 5)) }; let mut els = vec![]; let first = k;
            for _ in 0..len { k += pick("step", (3 - k).min(2)); let id = int(&format!("id{n}"), -BIG, BIG); n += 1; want.push((k, id)); els.push(plain(k, id, 1)); }
            mixed |= els.len() > 1 && k != first && c > 0;
            bad |= if api == 0 { w.write_element(els.pop().unwrap()).is_err() } else { w.write_elements(els).is_err() };
        }
        bad |= w.close().is_err(); check(!bad, "a legal stream is refused"); drop(w);
        blocks_hold(&p, &want, 8000);
        reach(0); if mixed { reach(1); }
    }
    // batches longer than a block, or crossing from one block to the next
    fn c04_batch() {
        let kind = pick("kind", 3); let (p, mut w) = writer("f.osm.pbf", FileInfo::default(), false); let before = [0, 1, 7999][pick("before", 3)]; let n = [2, 8000, 8001, 16001][pick("batch", bound(3, 4))]; let mut want = vec![]; let mut bad = false;
        for i in 0..before { let id = i as i64 + 1; want.push((kind, id)); bad |= w.write_element(plain(kind, id, 1)).is_err() }
        let els = (0..n).map(|i| { let i = (before + i) as i64; let id = i; want.push((kind, id)); plain(kind, id, 1) }).collect(); bad |= w.write_elements(els).is_err();
        let id = int("id", -BIG, BIG); want.push((kind.max(1), id)); bad |= w.write_element(plain(kind.max(1), id, 1)).is_err();
        bad |= w.close().is_err(); check(!bad, "a legal stream is refused"); drop(w); blocks_hold(&p, &want, 8000); reach(0);
    }
    fn c07_header() {
        let txt = |t: &str| -> Option<String> { match pick(t, 3) { 0 => None, 1 => Some(String::new()), _ => Some(format!("{t}-Ż")) } };
        let num = |t: &str| -> Option<i64> { if coin(t) { Some(any64(t)) } else { None } };
        let mut b9 = None;
        let bbox = if coin("bbox") { let v: Vec<i64> = ["l", "b", "r", "t"].iter().enumerate().map(|(i, t)| { let m = if i % 2 == 0 { 180_000_000_000 } else { 90_000_000_000 }; int(t, -m, m) }).collect(); let d = |i: usize| v[i] as f64 / 1e9; let b = BoundingBox::new(d(0), d(1), d(2), d(3)); b9 = Some(v); Some(b) } else { None };
        let req: Vec<String> = [&[][..], &["OsmSchema-V0.6"][..], &["DenseNodes", "OsmSchema-V0.6", "HistoricalInformation"][..]][pick("required", 3)].iter().map(|s| s.to_string()).collect();
        let opt: Vec<String> = [&[][..], &["Sort.Type_then_ID"][..], &["x", "", "x"][..]][pick("optional", 3)].iter().map(|s| s.to_string()).collect();
        let i = FileInfo::new(bbox, req, opt, txt("program"), txt("source"), num("timestamp"), num("sequence"), txt("url"));
        let p = write_file("h.osm.pbf", i.clone(), coin("zlib"), vec![]);
        let r = Reader::new(&p); let Ok(r) = r else { fail("the header is not readable") }; let g = r.info();
        same_box(b9.as_deref(), g.bounding_box().as_ref());
        check(g.required_features() == i.required_features(), "required features"); check(g.optional_features() == i.optional_features(), "optional features");
        check(g.writingprogram() == i.writingprogram(), "writing program"); check(g.source() == i.source(), "source"); check(g.osmosis_replication_base_url() == i.osmosis_replication_base_url(), "base URL");
        check(g.osmosis_replication_timestamp() == i.osmosis_replication_timestamp(), "replication timestamp"); check(g.osmosis_replication_sequence_number() == i.osmosis_replication_sequence_number(), "sequence number");
        check(r.elements().expect("elements").count() == 0, "elements in an empty file");
        reach(0); if g.required_features().is_empty() && g.optional_features().is_empty() && g.source().is_none() { reach(1); }
    }
    // texts of any characters, feature lists with repetitions
    fn c07_text() {
        let focus = pick("focus", 5); let t = |i: usize, n: &str| -> String { if focus == i { text(n, bound(2, 3)) } else { ascii(n, 1) } };
        let (a, b, c) = (t(0, "program"), t(1, "source"), t(2, "url")); let (f, g) = (t(3, "required"), t(4, "optional"));
        let list = |x: &str, y: &str| -> Vec<String> { match pick("list", 5) { 0 => vec![x, x], 1 => vec![x, y, x], 2 => vec![y, x, x], 3 => vec![x], _ => vec![x, y, y, x] }.iter().map(|s| s.to_string()).collect() };
        let (req, opt) = (list("DenseNodes", "OsmSchema-V0.6"), list(&g, "Sort.Type_then_ID")); let _ = f;
        let i = FileInfo::new(None, req.clone(), opt.clone(), Some(a.clone()), Some(b.clone()), None, Some(int("sequence", -BIG, BIG)), Some(c.clone()));
        let p = write_file("h.osm.pbf", i.clone(), false, vec![]); let Ok(r) = Reader::new(&p) else { fail("the header is not readable") }; let g = r.info();
        check(*g.required_features() == req, "required features"); check(*g.optional_features() == opt, "optional features");
        check(g.writingprogram().as_ref() == Some(&a), "writing program"); check(g.source().as_ref() == Some(&b), "source"); check(g.osmosis_replication_base_url().as_ref() == Some(&c), "base URL");
        check(g.osmosis_replication_timestamp().is_none() && g.osmosis_replication_sequence_number() == i.osmosis_replication_sequence_number(), "numbers"); reach(0);
    }
    // a header that is filled in step by step, over an earlier content or none
    fn c07_steps() {
        let old = || FileInfo::new(Some(BoundingBox::new(1.0, 2.0, 3.0, 4.0)), vec!["DenseNodes".into()], vec!["old".into()], Some("old".into()), Some("old".into()), Some(1), Some(2), Some("old".into()));
        let mut i = if coin("earlier") { old() } else { FileInfo::default() }; let set = pick("given", 3); let t = |n: &str| -> Option<String> { if set == 0 { None } else { Some(if set == 1 { ascii(n, 1) } else { format!("{n}-Ż") }) } };
        let (prog, src, url) = (t("program"), t("source"), t("url")); let (ts, seq) = if set == 0 { (None, None) } else { (Some(any64("timestamp")), Some(any64("sequence"))) };
        let req: Vec<String> = [vec![], vec!["OsmSchema-V0.6"], vec!["DenseNodes", "OsmSchema-V0.6"]][pick("required", 3)].iter().map(|s| s.to_string()).collect(); let opt: Vec<String> = [vec![], vec!["x"], vec!["Sort.Type_then_ID", "x", "x"]][pick("optional", 3)].iter().map(|s| s.to_string()).collect();
        let v: Vec<i64> = ["l", "b", "r", "t"].iter().enumerate().map(|(i, t)| { let m = if i % 2 == 0 { 180_000_000_000 } else { 90_000_000_000 }; int(t, -m, m) }).collect(); let d = |i: usize| v[i] as f64 / 1e9; let b9 = if set == 1 { Some(v.clone()) } else { None };
        i.with_bounding_box(&b9.as_ref().map(|_| BoundingBox::new(d(0), d(1), d(2), d(3)))); i.with_required_features(&req); i.with_optional_features(&opt);
        match &prog { Some(x) if coin("str") => i.with_writingprogram_str(x), _ => i.with_writingprogram(&prog) } i.with_source(&src); i.with_osmosis_replication_timestamp(&ts); i.with_osmosis_replication_sequence_number(&seq); i.with_osmosis_replication_base_url(&url);
        let p = write_file("h.osm.pbf", i, false, vec![]); let Ok(r) = Reader::new(&p) else { fail("the header is not readable") }; let g = r.info();
        same_box(b9.as_deref(), g.bounding_box().as_ref()); check(*g.required_features() == req && *g.optional_features() == opt, "features");
        check(*g.writingprogram() == prog && *g.source() == src && *g.osmosis_replication_base_url() == url, "texts"); check(*g.osmosis_replication_timestamp() == ts && *g.osmosis_replication_sequence_number() == seq, "numbers"); reach(0);
    }
    // the other constructor, with history
    fn c07_new() {
        let h = coin("history"); let ts = any64("ts");
        let p = dir().join("n.osm.pbf");
        let url = if coin("url") { Some("http://x/".to_string()) } else { None };
        let mut w = Writer::new(p.clone(), "prog", "src", Some(ts), None, url.clone(), compression(true), None, h).expect("writer"); w.write_header().expect("header"); w.close().expect("close");
        let r = Reader::new(&p).expect("reader"); let g = r.info();
        check(g.required("OsmSchema-V0.6") && g.required("DenseNodes") && g.required("HistoricalInformation") == h && g.required_features().len() == 2 + h as usize, "required features");
        check(g.optional("Sort.Type_then_ID") && g.optional_features().len() == 1, "optional features");
        check(g.writingprogram().as_deref() == Some("prog") && g.source().as_deref() == Some("src") && *g.osmosis_replication_base_url() == url, "text fields");
        check(*g.osmosis_replication_timestamp() == Some(ts) && g.osmosis_replication_sequence_number().is_none() && g.bounding_box().is_none(), "numbers");
        reach(0);
    }
    fn c08_features() {
        let known = ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"]; let strange = ["LocationsOnWays", "", "densenodes", "OsmSchema-V0.7", "DenseNodes "];
        let n = pick("required", bound(4, 5)); let mut req = vec![]; let mut missing = vec![];
        for _ in 0..n { let k = pick("feature", bound(5, 7)); let (k, lim) = (k, bound(3, 4)); if k < lim { req.push(known[k]); } else { let s = strange[(k - lim) * bound(2, 1)]; req.push(s); missing.push(s); } }
        let opt: &[&str] = [&[][..], &["LocationsOnWays", "Unknown"][..]][pick("optional", 2)];
        let p = enc::save("f.osm.pbf", &[enc::frame("OSMHeader", None, &enc::blob(enc::Store::RawSized, &enc::header_msg(&req, opt).0))]);
        match Reader::new(&p) {
            Ok(r) => { check(missing.is_empty(), "a file that needs an unsupported feature is accepted"); check(r.info().required_features().iter().map(|s| s.as_str()).eq(req.iter().copied()), "required features as listed"); reach(0) }
            Err(e) => { check(!missing.is_empty(), "a file whose required features are all supported is refused"); let t = format!("{:?}", e); check(missing.iter().any(|m| t.contains(m)), "the error does not name a missing feature"); reach(1) }
        }
    }
    // every supported feature at once, and more besides
    fn c08_all() {
        let known = ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"]; let n = pick("required", 7); let twice = pick("twice", 2);
        let mut req: Vec<String> = known.iter().take(n.min(4)).map(|s| s.to_string()).collect(); for _ in 0..twice { req.extend(req.clone()); }
        let extra = pick("unsupported", 4); let at = pick("at", req.len() + 1); for i in 0..extra { req.insert(at, format!("Vendor{i}")); }
        let r: Vec<&str> = req.iter().map(|s| s.as_str()).collect();
        let p = enc::save("f.osm.pbf", &[enc::frame("OSMHeader", None, &enc::blob(enc::Store::RawSized, &enc::header_msg(&r, &[]).0))]);
        match Reader::new(&p) { Ok(_) => { check(extra == 0, "a file that needs an unsupported feature is accepted"); reach(0) } Err(_) => { check(extra > 0, "a file whose required features are all supported is refused"); reach(1) } }
    }
    // names next to the supported ones, and short names of any text
    fn c08_near() {
        flat_hash();
        let known = ["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation", "Sort.Type_then_ID"];
        let base = pick("feature", 5); let mut b = if base < 4 { known[base].as_bytes().to_vec() } else { vec![] }; let any = || int("char", 0, 127) as u8;
        match pick("edit", if base < 4 { 4 } else { 1 }) { _ if base == 4 => for i in 0..pick("length", 3) { b.push(int(&format!("char{i}"), 0, 127) as u8) }, 0 => { let i = pick("at", b.len()); b[i] = any(); } 1 => { let i = pick("at", b.len() + 1); b.insert(i, any()); } 2 => { let i = pick("at", b.len()); b.remove(i); } _ => { let i = pick("at", b.len()); b.truncate(i); } }
        let odd = String::from_utf8(b).unwrap(); let good = known.contains(&odd.as_str());
        let other = known[pick("other", bound(2, 4))]; let req = match pick("order", 3) { 0 => vec![odd.as_str()], 1 => vec![odd.as_str(), other], _ => vec![other, odd.as_str()] };
        let p = enc::save("f.osm.pbf", &[enc::frame("OSMHeader", None, &enc::blob(enc::Store::RawSized, &enc::header_msg(&req, &[]).0))]);
        match Reader::new(&p) {
            Ok(r) => { check(good, "a file that needs an unsupported feature is accepted"); check(r.info().required_features().iter().map(|s| s.as_str()).eq(req.iter().copied()), "required features as listed"); reach(0) }
            Err(_) => { check(!good, "a file whose required features are all supported is refused"); reach(1) }
        }
    }
    // the first block decides
    fn c08_first() {
        let id = int("id", -BIG, BIG);
        let d = enc::data(&enc::block(&[""], &[enc::plain_group(0, id)]));
        let like = |t: &[u8]| { let t = String::from_utf8(t.to_vec()).unwrap(); enc::frame(&t, None, &enc::blob(enc::Store::Raw, &enc::header_msg(&["OsmSchema-V0.6", "DenseNodes"], &[]).0)) };
        let mut good = false;
        let parts = match pick("file", 7) {
            0 => vec![d.clone(), enc::header()], 1 => vec![d.clone()], 2 => vec![], 3 => { good = true; vec![enc::header(), d.clone()] }
            4 => { let mut t = b"OSMHeader".to_vec(); let i = pick("at", t.len()); t[i] = int("char", 0, 127) as u8; good = t == b"OSMHeader"; vec![like(&t), d.clone()] }
            5 => { let mut t = b"OSMHeader".to_vec(); t.truncate(pick("at", t.len())); vec![like(&t), d.clone()] }
            _ => { let mut t = b"OSMHeader".to_vec(); t.push(int("char", 0, 127) as u8); vec![like(&t), d.clone()] }
        };
        let p = enc::save("f.osm.pbf", &parts);
        let r = catch(|| Reader::new(&p).is_ok());
        check(r == Some(good), "first block"); reach(!good as u64);
    }
}
fn same_box(want: Option<&[i64]>, got: Option<&BoundingBox>) {
    match (want, got) {
        (None, None) => {}
        (Some(v), Some(b)) => { let n = |x: f64| (x * 1e9).round() as i64; check(n(b.left()) == v[0], "left edge"); check(n(b.bottom()) == v[1], "bottom edge"); check(n(b.right()) == v[2], "right edge"); check(n(b.top()) == v[3], "top edge"); }
        _ => fail("bounding box presence"),
    }
}
/// the file's blocks hold exactly these elements, one kind per block and never more than `max`
pub fn blocks_hold(p: &PathBuf, want: &[(usize, i64)], max: usize) {
    let r = Reader::new(p).expect("reader"); let mut at = 0; let mut first = true;
    for mut b in r.blocks().expect("blocks") {
        if first { check(matches!(b, FileBlock::Header { .. }), "first block is not a header"); first = false; continue; }
        let FileBlock::Data { data, .. } = &mut b else { fail("a second header") };
        let els = data.take_elements();
        check(els.len() <= max, "a block holds too many elements");
        for e in &els {
            check(kind(e) == kind(&els[0]), "a block mixes kinds"); check(at < want.len(), "more elements than written");
            check(kind(e) == want[at].0, "wrong kind"); check(id_of(e) == want[at].1, "wrong element"); at += 1;
        }
    }
    check(at == want.len(), "elements lost");
    let got = r.elements().expect("elements").count(); check(got == want.len(), "elements() disagrees with blocks()");
}
