//! Database dumps: rows written, rows read, escaping, tiles, users and changesets.
use crate::{gen::*, sym::*};
use osm_io::osm::{apidb_dump::{read::reader::Reader, write::writer::Writer}, model::{coordinate::Coordinate, element::Element, node::Node, relation::Relation, tag::Tag, way::Way}};
use std::path::PathBuf;

/// what the table of contents declares: table, data file, columns
pub struct Toc { dir: PathBuf, tables: Vec<(String, String, Vec<String>)> }
fn find(h: &[u8], n: &[u8], from: usize) -> Option<usize> { let mut i = from; while i + n.len() <= h.len() { if h[i] == n[0] && &h[i..i + n.len()] == n { return Some(i); } i += 1; } None }
pub fn toc(dir: &PathBuf) -> Toc {
    let t = std::fs::read(dir.join("toc.dat")).expect("toc.dat"); let mut tables = vec![]; let mut at = 0;
    while let Some(i) = find(&t, b"COPY public.", at) {
        let o = find(&t, b" (", i).expect("columns"); let e = find(&t, b") FROM stdin", o).expect("columns"); let d = find(&t, b".dat", e).expect("file");
        let mut s = d; while s > e && t[s - 1].is_ascii_digit() { s -= 1; }
        let txt = |a: usize, b: usize| String::from_utf8(t[a..b].to_vec()).unwrap();
        tables.push((txt(i + 12, o), txt(s, d + 4), txt(o + 2, e).split(", ").map(|c| c.trim_matches('"').to_string()).collect())); at = d;
    }
    Toc { dir: dir.clone(), tables }
}
/// PostgreSQL's text format for COPY
pub fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '\\' => o.push_str("\\\\"), '\x08' => o.push_str("\\b"), '\x0c' => o.push_str("\\f"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), '\x0b' => o.push_str("\\v"), c => o.push(c) } } o }
/// a reader of that format
pub fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = vec![]; let mut i = 0;
    while i < s.len() {
        if s[i] != b'\\' || i + 1 == s.len() { o.push(s[i]); i += 1; continue; }
        i += 1; let c = s[i]; i += 1;
        match c {
            b'b' => o.push(8), b'f' => o.push(12), b'n' => o.push(10), b'r' => o.push(13), b't' => o.push(9), b'v' => o.push(11),
            b'0'..=b'7' => { let mut v = (c - b'0') as u32; let mut n = 1; while n < 3 && i < s.len() && (b'0'..=b'7').contains(&s[i]) { v = v * 8 + (s[i] - b'0') as u32; i += 1; n += 1; } o.push(v as u8) }
            b'x' if i < s.len() && s[i].is_ascii_hexdigit() => { let mut v = 0; let mut n = 0; while n < 2 && i < s.len() && s[i].is_ascii_hexdigit() { v = v * 16 + (s[i] as char).to_digit(16).unwrap(); i += 1; n += 1; } o.push(v as u8) }
            c => o.push(c),
        }
    }
    o
}
type Row = Vec<(&'static str, Vec<u8>)>;
fn t<T: std::fmt::Display>(v: T) -> Vec<u8> { format!("{}", v).into_bytes() }
fn b(v: bool) -> Vec<u8> { if v { b"t".to_vec() } else { b"f".to_vec() } }
impl Toc {
    fn rows(&self, table: &str) -> Vec<Vec<Vec<u8>>> {
        let Some(d) = self.tables.iter().find(|x| x.0 == table) else { fail("a table is missing from the table of contents") };
        let Ok(raw) = std::fs::read(self.dir.join(&d.1)) else { fail("a table file is missing") };
        check(raw.len() >= 3 && &raw[raw.len() - 3..] == b"\\.\n", "no end-of-data marker"); let body = &raw[..raw.len() - 3];
        check(body.is_empty() || body[body.len() - 1] == b'\n', "an unfinished row");
        let mut out = vec![]; for l in body.split(|c| *c == b'\n') { if l.is_empty() { continue; } let r: Vec<Vec<u8>> = l.split(|c| *c == b'\t').map(|x| x.to_vec()).collect(); check(r.len() == d.2.len(), "a row with a wrong number of columns"); out.push(r); }
        out
    }
    fn col(&self, table: &str, c: &str) -> usize { let d = self.tables.iter().find(|x| x.0 == table).unwrap(); match d.2.iter().position(|x| x == c) { Some(i) => i, None => fail("a column is missing from the table of contents") } }
    /// the table holds exactly these rows, in any order; `skip`: columns not compared
    fn holds(&self, table: &str, want: &[Row]) {
        let mut got = self.rows(table); check(got.len() == want.len(), &format!("number of rows of {table}"));
        for w in want {
            let same = |g: &Vec<Vec<u8>>| w.iter().all(|(c, v)| { let i = self.col(table, c); let x = if *c == "k" || *c == "v" || *c == "member_role" { unesc(&g[i]) } else { g[i].clone() }; x.len() == v.len() && x == *v });
            match got.iter().position(same) { Some(i) => { got.remove(i); } None => fail(&format!("a row of {table} is missing or wrong")) }
        }
    }
}
/// the instant as the database writes it, to the second (years 0 to 9999)
fn when(ms: i64) -> Vec<u8> {
    let s = ms.div_euclid(1000); let (d, r) = (s.div_euclid(86400), s.rem_euclid(86400));
    let z = d + 719468; let era = z.div_euclid(146097); let doe = z.rem_euclid(146097); let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 }; let y = yoe + era * 400 + (m <= 2) as i64;
    let mut o = vec![]; for (v, w, sep) in [(y, 4, b'-'), (m, 2, b'-'), (day, 2, b' '), (r / 3600, 2, b':'), (r / 60 % 60, 2, b':'), (r % 60, 2, 0)] { if w == 4 { o.push(b'0' + (v / 1000 % 10) as u8); o.push(b'0' + (v / 100 % 10) as u8) } o.push(b'0' + (v / 10 % 10) as u8); o.push(b'0' + (v % 10) as u8); if sep != 0 { o.push(sep) } }
    o
}
/// OpenStreetMap's quadtile in integers: linear scaling to 0..=65535, rounded to nearest, longitude bit first
fn tile(lat7: i64, lon7: i64) -> u64 {
    let x = (2 * (lon7 + LON) * 65535 + 2 * LON) / (4 * LON); let y = (2 * (lat7 + LAT) * 65535 + 2 * LAT) / (4 * LAT);
    let mut r = 0; for i in (0..16).rev() { r = r << 1 | (x as u64 >> i & 1); r = r << 1 | (y as u64 >> i & 1); } r
}
/// numbers of a fixed count of digits, so that one path covers all of them
const IDS: [(i64, i64); 5] = [(100, 999), (1, 9), (-999, -100), (1_000_000_000_000_000_000, i64::MAX), (i64::MIN, -1_000_000_000_000_000_000)];
fn id(tag: &str, w: usize) -> i64 { let (a, b) = IDS[w]; int(tag, a, b) }
const VERSIONS: [(i32, i32); 4] = [(1, 9), (100, 999), (1_000_000_000, i32::MAX), (0, 0)];
fn version(tag: &str, w: usize) -> i32 { let (a, b) = VERSIONS[w]; i32(tag, a, b) }
/// corners of windows of 1000 units in which the quadtile does not change
const PLACES: [(i64, i64); 6] = [(515_000_000, -1_278_000), (-338_569_000, 1_512_154_000), (1_000, 2_000), (-899_999_000, -1_799_999_000), (899_998_000, 1_799_998_000), (-5_000, -9_000)];
/// `w` behind the last: one fixed value per tag
fn place(tag: &str, w: usize) -> Coordinate { if w == PLACES.len() { let k = tag.as_bytes()[tag.len() - 1] as f64; return Coordinate::new(k / 10.0, -k) } let (a, b) = PLACES[w]; let la = a + int(&format!("{tag}.lat"), 0, 999); let lo = b + int(&format!("{tag}.lon"), 0, 999); Coordinate::new(la as f64 / 1e7, lo as f64 / 1e7) }
/// a day (seconds since the epoch at its start); the time of the day, milliseconds included, is symbolic
const DAYS: [i64; 7] = [19_000, 0, -1, 19_782, -25_509, -719_162, 2_932_896];
fn time(tag: &str, w: usize) -> i64 { if w == DAYS.len() { return 1_600_000_000_123 + 86_461_000 * tag.bytes().map(|c| c as i64).sum::<i64>() } DAYS[w] * 86_400_000 + int(tag, 0, 86_399_999) }
const USERS: [(i32, &str); 4] = [(5, "u"), (0, ""), (-1, "Zażółć"), (i32::MAX, "a b")];
const TAGS: [&[(&str, &str)]; 4] = [&[], &[("highway", "residential")], &[("name", "Zażółć 東京 🚲"), ("note", ""), ("highway", "a\tb\n\\c")], &[("", "\r\x08\x0b\x0c"), ("k", "v")]];
const SETS: [i64; 4] = [77, 1, 0, 9_000_000_000];
fn rows_of(e: &Element, current: bool, out: &mut Vec<(String, Row)>) {
    let p = if current { "current_" } else { "" }; let key = |n: &'static str| if current { "id" } else { n };
    let tagrows = |out: &mut Vec<(String, Row)>, table: &str, key: &'static str, id: i64, version: i32, tags: &[Tag]| for x in tags { let mut r: Row = vec![(key, t(id)), ("k", x.k().clone().into_bytes()), ("v", x.v().clone().into_bytes())]; if !current { r.push(("version", t(version))) } out.push((format!("{p}{table}"), r)) };
    match e {
        Element::Node { node: n } => {
            let c = n.coordinate(); let (la, lo) = (c.lat7(), c.lon7());
            let mut r = vec![(key("node_id"), t(n.id())), ("version", t(n.version())), ("latitude", t(la)), ("longitude", t(lo)), ("changeset_id", t(n.changeset())), ("visible", b(n.visible())), ("timestamp", when(n.timestamp())), ("tile", t(tile(conc_place(la, true), conc_place(lo, false))))]; if !current { r.push(("redaction_id", b"\\N".to_vec())) }
            out.push((format!("{p}nodes"), r)); tagrows(out, "node_tags", "node_id", n.id(), n.version(), n.tags());
        }
        Element::Way { way: w } => {
            let mut r = vec![(key("way_id"), t(w.id())), ("version", t(w.version())), ("changeset_id", t(w.changeset())), ("visible", b(w.visible())), ("timestamp", when(w.timestamp()))]; if !current { r.push(("redaction_id", b"\\N".to_vec())) }
            out.push((format!("{p}ways"), r)); tagrows(out, "way_tags", "way_id", w.id(), w.version(), w.tags());
            for (i, x) in w.refs().iter().enumerate() { let mut r = vec![("way_id", t(w.id())), ("node_id", t(*x)), ("sequence_id", t(i + 1))]; if !current { r.push(("version", t(w.version()))) } out.push((format!("{p}way_nodes"), r)) }
        }
        Element::Relation { relation: w } => {
            let mut r = vec![(key("relation_id"), t(w.id())), ("version", t(w.version())), ("changeset_id", t(w.changeset())), ("visible", b(w.visible())), ("timestamp", when(w.timestamp()))]; if !current { r.push(("redaction_id", b"\\N".to_vec())) }
            out.push((format!("{p}relations"), r)); tagrows(out, "relation_tags", "relation_id", w.id(), w.version(), w.tags());
            for (i, x) in w.members().iter().enumerate() { let (k, id, role) = member_parts(x); let mut r = vec![("relation_id", t(w.id())), ("member_type", ["Node", "Way", "Relation"][k].as_bytes().to_vec()), ("member_id", t(id)), ("member_role", role.clone().into_bytes()), ("sequence_id", t(i + 1))]; if !current { r.push(("version", t(w.version()))) } out.push((format!("{p}relation_members"), r)) }
        }
        _ => {}
    }
}
/// the window a coordinate lies in
fn conc_place(v: i64, lat: bool) -> i64 { for (a, b) in PLACES { let x = if lat { a } else { b }; if v >= x && v < x + 1000 { return x } } v }
const HISTORY: [&str; 8] = ["nodes", "node_tags", "ways", "way_nodes", "way_tags", "relations", "relation_members", "relation_tags"];
fn check_history(toc: &Toc, els: &[Element]) {
    let mut want = vec![]; for e in els { rows_of(e, false, &mut want) }
    for name in HISTORY { let w: Vec<Row> = want.iter().filter(|x| x.0 == name).map(|x| x.1.clone()).collect(); toc.holds(name, &w) } reach(0)
}
/// `last`: the last versions
fn check_current(toc: &Toc, last: &[Element]) {
    let mut want = vec![]; for e in last { rows_of(e, true, &mut want) }
    for name in HISTORY { let n = format!("current_{name}"); let w: Vec<Row> = want.iter().filter(|x| x.0 == n).map(|x| x.1.clone()).collect(); toc.holds(&n, &w) } reach(0)
}
fn dump() -> (Writer, Toc) { let d = dir().join("dump"); let w = match Writer::new(d.clone(), 0) { Ok(w) => w, Err(_) => fail("no dump") }; let t = toc(&d); (w, t) }
fn write(w: &mut Writer, e: &Element) { check(w.write_element(e.clone()).is_ok(), "element refused") }
/// an element with more references, members or tags than 16 bits can count
fn many_dump(sizes: [[usize; 3]; 2]) -> (Element, Toc) {
    let (mut w, toc) = dump(); let kind = pick("kind", 3); let n = sizes[deep() as usize][kind]; let x = int("reference", 100, 999); let at = [0, n / 2, n - 1][pick("place", 3)]; let r = |i: usize| if i == at { x } else { (i as i64 * 7919) % 65_537 };
    let e = match kind { 0 => el_node(Node::new(12, 3, Coordinate::new(1.5, 2.5), 1_600_000_000_000, 7, 1, "u".into(), true, (0..n).map(|i| Tag::new(format!("k{i:05}"), format!("{}", r(i)))).collect())), 1 => el_way(Way::new(12, 3, 1_600_000_000_000, 7, 1, "u".into(), true, (0..n).map(r).collect(), vec![])), _ => el_rel(Relation::new(12, 3, 1_600_000_000_000, 7, 1, "u".into(), true, (0..n).map(|i| member(i % 3, r(i), "r")).collect(), vec![])) };
    write(&mut w, &e); check(w.close().is_ok(), "close"); (e, toc)
}
fn many_hold(toc: &Toc, e: &Element, current: bool) {
    let p = if current { "current_" } else { "" }; let (table, key, value) = match e { Element::Node { .. } => ("node_tags", "k", "v"), Element::Way { .. } => ("way_nodes", "sequence_id", "node_id"), _ => ("relation_members", "sequence_id", "member_id") };
    let want: Vec<(Vec<u8>, Vec<u8>)> = match e { Element::Node { node } => node.tags().iter().map(|t| (t.k().clone().into_bytes(), t.v().clone().into_bytes())).collect(), Element::Way { way } => way.refs().iter().enumerate().map(|(i, r)| (t(i + 1), t(*r))).collect(), Element::Relation { relation } => relation.members().iter().enumerate().map(|(i, m)| (t(i + 1), t(member_parts(m).1))).collect(), _ => vec![] };
    let table = format!("{p}{table}"); let (k, v) = (toc.col(&table, key), toc.col(&table, value)); let rows = toc.rows(&table); check(rows.len() == want.len(), "number of rows");
    let by: std::collections::BTreeMap<&[u8], &[u8]> = rows.iter().map(|r| (&r[k][..], &r[v][..])).collect(); for (a, b) in &want { match by.get(&a[..]) { Some(x) => check(**x == b[..], "row"), None => fail("a row is missing") } } reach(0)
}
/// elements with many tags, references and members
fn long_dump(sym: bool) -> (Writer, Toc, Vec<Element>) {
    let (mut w, toc) = dump(); let n = [300, 1000][deep() as usize]; let kind = pick("kind", 3); let base = if sym { int("base", 1_000_000, 8_999_999) } else { 1_234_567 }; let v = i32("version", 1, 9);
    let mut els = vec![]; for j in 0..2 { let many = (j == 0) != coin("many last"); let (r, t) = if many { (n, n / 4) } else { (1, 1) }; let tg: Vec<Tag> = (0..t).map(|i| Tag::new(format!("k{i}"), format!("v{j}"))).collect(); let i = base + j;
        els.push(match kind { 0 => el_node(Node::new(i, v, Coordinate::new(1.5, 2.5), 1_600_000_000_000, 7, 1, "u".into(), true, (0..r).map(|i| Tag::new(format!("k{i}"), format!("v{j}"))).collect())), 1 => el_way(Way::new(i, v, 1_600_000_000_000, 7, 1, "u".into(), true, (0..r as i64).map(|x| base + (x * 7) % 100).collect(), tg)), _ => el_rel(Relation::new(i, v, 1_600_000_000_000, 7, 1, "u".into(), true, (0..r).map(|x| member(x % 3, base + x as i64 % 100, "r")).collect(), tg)) }); if many { break } }
    for e in &els { write(&mut w, e) } (w, toc, els)
}
struct Opt { id: usize, version: usize, place: usize, day: usize, user: usize, set: usize, tags: usize, refs: usize }
fn fixed() -> Opt { Opt { place: PLACES.len(), day: DAYS.len(), ..usual() } }
fn usual() -> Opt { Opt { id: 0, version: 0, place: 0, day: 0, user: 0, set: 0, tags: 1, refs: 1 } }
fn make(tag: &str, kind: usize, id: i64, version: i32, visible: bool, o: &Opt) -> Element {
    let (uid, user) = USERS[o.user]; let ts = time(&format!("{tag}.time"), o.day); let cs = SETS[o.set]; let tg = tags(TAGS[o.tags]);
    match kind {
        0 => el_node(Node::new(id, version, place(tag, o.place), ts, cs, uid, user.to_string(), visible, tg)),
        1 => el_way(Way::new(id, version, ts, cs, uid, user.to_string(), visible, (0..o.refs).map(|i| self::id(&format!("{tag}.ref{i}"), i % 5)).collect(), tg)),
        _ => el_rel(Relation::new(id, version, ts, cs, uid, user.to_string(), visible, (0..o.refs).map(|i| member(i % 3, self::id(&format!("{tag}.member{i}"), (i + 1) % 5), ["", "outer", "a\tb"][i % 3])).collect(), tg)),
    }
}
/// one usual element in which one aspect takes any of its alternatives
fn varied(o: &mut Opt, kind: usize) {
    match pick("aspect", if kind == 0 { 7 } else { 7 }) {
        0 => o.id = pick("id", 5), 1 => o.version = pick("version", 4), 2 => if kind == 0 { o.place = pick("place", 6) } else { o.refs = pick("refs", bound(4, 6)) },
        3 => o.day = pick("day", 7), 4 => o.user = pick("user", 4), 5 => o.set = pick("set", 4), _ => o.tags = pick("tags", 4),
    }
}

/// an element with one tag whose value has `len` characters
pub fn plain_rows(kind: usize, id: i64, len: usize) -> Element {
    let tg = tags(&[("k", &"v".repeat(len))]);
    match kind { 0 => el_node(Node::new(id, 1, Coordinate::new(1.5, 2.5), 1_600_000_000_000, 7, 1, "u".into(), true, tg)), 1 => el_way(Way::new(id, 1, 1_600_000_000_000, 7, 1, "u".into(), true, vec![5, 6], tg)), _ => el_rel(Relation::new(id, 1, 1_600_000_000_000, 7, 1, "u".into(), true, vec![member(1, 5, "r")], tg)) }
}
/// the i-th element of a sorted history, of any kind
pub fn plain_make(tag: &str, kind: usize, i: usize) -> Element { let id = int(&format!("{tag}.id"), [-99, 1000, 5_000_000_000][i], [-10, 9999, 8_999_999_999][i]); make(tag, kind, id, i32(&format!("{tag}.version"), 1, 9), boolean("visible"), &Opt { tags: i % 3, refs: i, user: i, set: i, ..fixed() }) }
pub fn history_holds(d: &PathBuf, els: &[Element]) { check_history(&toc(d), els) }
pub fn current_holds(d: &PathBuf, els: &[Element]) { check_current(&toc(d), els) }
pub fn unrelated_empty(d: &PathBuf) { let t = toc(d); for x in &t.tables { if !x.0.starts_with("current_") && !HISTORY.contains(&x.0.as_str()) && !["users", "changesets", "changeset_tags"].contains(&x.0.as_str()) { check(t.rows(&x.0).is_empty(), "rows in an unrelated table") } } }
pub fn dump_at(name: &str, els: &[Element]) -> PathBuf { let d = dir().join(name); let mut w = match Writer::new(d.clone(), 0) { Ok(w) => w, Err(_) => fail("no dump") }; for e in els { write(&mut w, e) } check(w.close().is_ok(), "close"); d }
pub fn dump_of(els: &[Element]) -> PathBuf { let (mut w, toc) = dump(); for e in els { write(&mut w, e) } check(w.close().is_ok(), "close"); toc.dir }

/// an element with the text in one of its fields, through a dump and back, and its rows
fn text_case(field: usize, text: String) {
    let (k, v, role, user) = match field { 0 | 1 => (text.as_str(), "v", "role", "u"), 2 | 3 => ("k", text.as_str(), "role", "u"), 4 => ("k", "v", text.as_str(), "u"), _ => ("k", "v", "role", text.as_str()) };
    let e = if field == 0 || field == 2 || field == 5 { el_node(Node::new(7, 1, Coordinate::new(1.0, 2.0), 0, 1, 1, user.into(), true, tags(&[(k, v)]))) } else if field == 1 { el_way(Way::new(7, 1, 0, 1, 1, user.into(), true, vec![], tags(&[(k, v)]))) } else { el_rel(Relation::new(7, 1, 0, 1, 1, user.into(), true, vec![member(0, 1, role)], tags(&[(k, v)]))) };
    let (mut w, toc) = dump(); write(&mut w, &e); check(w.close().is_ok(), "close"); let got = read(&toc.dir); let plain = got.iter().filter(|x| kind(x) < 3).count(); check(plain == 1, "number of elements");
    for x in &got { if kind(x) < 3 { same_restored(&e, x) } }
    let (kind, table) = match &e { Element::Node { .. } => (0, "node_tags"), Element::Way { .. } => (1, "way_tags"), _ => (2, "relation_tags") };
    for p in ["", "current_"] { let t = format!("{p}{table}"); let r = toc.rows(&t); check(r.len() == 1 && unesc(&r[0][toc.col(&t, "k")]) == k.as_bytes() && unesc(&r[0][toc.col(&t, "v")]) == v.as_bytes(), "tag text in the dump"); if kind == 2 { let t = format!("{p}relation_members"); let r = toc.rows(&t); check(r.len() == 1 && unesc(&r[0][toc.col(&t, "member_role")]) == role.as_bytes(), "role in the dump") } }
    let r = toc.rows("users"); check(r.len() == 1 && unesc(&r[0][toc.col("users", "display_name")]) == user.as_bytes(), "user name in the dump");
    if field < 2 { check(esc(k).as_bytes() == &toc.rows(table)[0][toc.col(table, "k")][..], "characters that need no escape are left alone") } reach(0)
}
harnesses! {
    fn c19_rows() {
        let (mut w, toc) = dump(); check(toc.tables.len() > 40, "tables");
        let kind = pick("kind", 3); let mut o = usual(); varied(&mut o, kind);
        let e = make("e", kind, id("id", o.id), version("version", o.version), boolean("visible"), &o);
        write(&mut w, &e); check(w.close().is_ok(), "close"); check_history(&toc, &[e]);
        for t in &toc.tables { if !t.0.starts_with("current_") && !HISTORY.contains(&t.0.as_str()) && t.0 != "users" && t.0 != "changesets" && t.0 != "changeset_tags" { check(toc.rows(&t.0).is_empty(), "rows in an unrelated table") } }
    }

    fn c19_stream() {
        let (mut w, toc) = dump(); let mut els = vec![]; let o = usual(); let mut kind = 0;
        for j in 0..3 { kind = pick("kind", 3).max(kind); let mut o = Opt { tags: pick("tags", 2) * 2, refs: pick("refs", bound(2, 3)), user: j, set: j, ..fixed() }; if kind == 0 { o.refs = 0 } els.push(make(&format!("e{j}"), kind, int("id", 100 * (j + 1) as i64, 100 * (j + 1) as i64 + 99), 1 + j as i32, true, &o)); }
        for e in &els { write(&mut w, e) }
        if coin("sentinel") { write(&mut w, &Element::Sentinel) }
        check(w.close().is_ok(), "close"); check_history(&toc, &els); for t in &toc.tables { toc.rows(&t.0); } let _ = o;
    }
    fn c19_long() { let (w, toc, els) = long_dump(true); let mut w = w; check(w.close().is_ok(), "close"); check_history(&toc, &els) }
    fn c20_long() { let (w, toc, els) = long_dump(true); let mut w = w; check(w.close().is_ok(), "close"); check_current(&toc, &els) }
    fn c23_long() { let (w, toc, els) = long_dump(false); let mut w = w; check(w.close().is_ok(), "close"); compare(&els, &read(&toc.dir)) }
    fn c19_many() { let (e, toc) = many_dump([[20_000, 70_000, 70_000], [70_000, 140_000, 140_000]]); many_hold(&toc, &e, false) }
    fn c20_many() { let (e, toc) = many_dump([[20_000, 70_000, 70_000], [70_000, 140_000, 140_000]]); many_hold(&toc, &e, true) }
    fn c23_many() { let (e, toc) = many_dump([[5000; 3], [70_000; 3]]); compare(&[e], &read(&toc.dir)) }
    fn c21_text() {
        let field = pick("field", 6); let text = if coin("wide") { wide("c") } else { letters("c", 1 + pick("length", bound(2, 3)), 0) };
        text_case(field, text)
    }
    // texts around powers of two, all of one kind of character or with something to escape in between, and a symbolic character near or at the end
    fn c21_long() {
        let field = [2, 4, 5, 0, 1, 3][pick("field", bound(3, 6))]; let n = [128usize, 255, 256, 8192, 65_536, 127, 63, 64, 257, 1024, 4095, 65_535, 70_000][pick("length", bound(5, 13))]; let filler = pick("filler", 4); let at = [n - 1, n / 2, n - 2][pick("at", bound(2, 3))];
        let c = letters("c", 1, 1); let mut s = String::new();
        for i in 0..n { if i == at { s.push_str(&c) } else { s.push(match filler { 0 => (b'a' + (i % 23) as u8) as char, 1 => '\\', 2 => if i % 9 == 8 { '\t' } else { 'x' }, _ => 'ä' }) } }
        text_case(field, s)
    }
    fn c21_forms() {
        // the forms a reader of the format has to accept
        let (raw, want): (Vec<u8>, Vec<u8>) = match pick("form", 6) {
            0 => { let i = pick("letter", 7); (vec![b'\\', b"bfnrtv\\"[i]], vec![b"\x08\x0c\n\r\t\x0b\\"[i]]) }
            1 => { let n = 1 + pick("digits", 3); let d: Vec<u8> = (0..n).map(|i| b'0' + int("octal", 0, if i == 0 && n == 3 { 1 } else { 7 }) as u8).collect(); let v = d.iter().fold(0u32, |a, x| a * 8 + (*x - b'0') as u32); assume(v > 0); (([&b"\\"[..], &d].concat()), vec![v as u8]) }
            2 => { let n = 1 + pick("digits", 2); let up = coin("upper"); let mut v = 0u32; let mut d = b"\\x".to_vec(); for i in 0..n { let letter = !(i == 0 && n == 2) && coin("letter"); let x = if letter { int("hex", 10, 15) } else { int("hex", 0, if i == 0 && n == 2 { 7 } else { 9 }) } as u8; v = v * 16 + x as u32; d.push(if letter { x - 10 + if up { b'A' } else { b'a' } } else { b'0' + x }) } assume(v > 0); (d, vec![v as u8]) }
            3 => { let c = int("char", 33, 126) as u8; assume(!(b'0'..=b'7').contains(&c) && !b"bfnrtvxN.".contains(&c)); (vec![b'\\', c], vec![c]) }
            4 => { let c = int("char", 33, 126) as u8; assume(c != b'\\'); (vec![c], vec![c]) }
            _ => (b"\\xg".to_vec(), b"xg".to_vec()),
        };
        let around = coin("around"); let (mut r, mut q) = (raw, want); if around { r.insert(0, b'a'); r.push(b'z'); q.insert(0, b'a'); q.push(b'z') }
        let e = el_node(Node::new(7, 1, Coordinate::new(1.0, 2.0), 0, 1, 1, "u".into(), true, vec![])); let mut f = Files::new(); f.add(&[e]); f.user(1, b"u"); f.set(1, 1);
        f.rows.push(("node_tags".into(), vec![("node_id", t(7)), ("version", t(1)), ("k", b"k".to_vec()), ("v", r)])); f.write(0, 0);
        let got = read(&f.dir); match &got[0] { Element::Node { node } => { check(node.tags().len() == 1 && node.tags()[0].v().as_bytes() == &q[..], "restored text"); reach(0) }, _ => fail("kind") }
    }
    fn c22_join() {
        // elements of one kind with up to two tags and references each; the rows in several orders
        let kind = pick("kind", 3); let n = 1 + pick("elements", bound(2, 3)); let scheme = pick("keys", 3); let mut els = vec![];
        for j in 0..n { let (id, version) = keys(scheme, j); let c = pick("contents", 4); els.push(make(&format!("e{j}"), kind, id, version, boolean("visible"), &Opt { tags: [0, 2, 1, 2][c], refs: if kind == 0 { 0 } else { [0, 0, 2, 3][c] }, user: j, set: j, ..fixed() })) }
        let mut f = Files::new(); f.add(&els); f.owners(); f.write(pick("rows", bound(3, 4)), 0); compare(&els, &read(&f.dir));
    }
    fn c22_versions() {
        // the versions of one element and its neighbours: any of them with tags, members or references, any without
        let kind = pick("kind", 3); let n = bound(3, 4); let same = pick("same", 3); let mut els = vec![];
        for j in 0..n {
            let (id, version) = match same { 0 => (12, [1, i32("version", 2, 9), i32("version", 10, 99), 100][j]), 1 => ([12, 12, 13, 13][j], [2, i32("version", 3, 9), 2, 3][j]), _ => ([11, 12, 12, 13][j], [1, 1, i32("version", 2, 9), 1][j]) };
            let full = coin("contents") as usize; els.push(make(&format!("e{j}"), kind, id, version, true, &Opt { tags: full, refs: if kind == 0 { 0 } else { full * 2 }, user: j, set: j, ..fixed() }))
        }
        let mut f = Files::new(); f.add(&els); f.owners(); f.write(pick("rows", 2), 0); compare(&els, &read(&f.dir));
    }
    fn c22_columns() {
        let kind = pick("kind", 3); let e = make("e", kind, id("id", 0), version("version", 1), boolean("visible"), &Opt { tags: 2, refs: if kind == 0 { 0 } else { 3 }, ..usual() });
        let mut f = Files::new(); f.add(&[e.clone()]); f.owners(); f.write(0, 1 + pick("columns", 4)); compare(&[e], &read(&f.dir));
    }
    fn c22_sequence() {
        // way nodes and members whose sequence numbers have different numbers of digits, in every order of rows
        let way = coin("way"); let n = bound(3, 4); let all = [(2, 9), (10, 20), (100, 120), (3_000, 3_100)]; let mut order: Vec<usize> = vec![]; for _ in 0..n { let k = pick("row", n - order.len()); let left: Vec<usize> = (0..n).filter(|i| !order.contains(i)).collect(); order.push(left[k]) }
        let refs: Vec<i64> = (0..n).map(|i| id("ref", [1, 0, 2, 3][i])).collect(); let mut f = Files::new(); f.user(1, b"u"); f.set(1, 1);
        let e = if way { el_way(Way::new(5, 1, 0, 1, 1, "u".into(), true, vec![], vec![])) } else { el_rel(Relation::new(5, 1, 0, 1, 1, "u".into(), true, vec![], vec![])) }; f.add(&[e]);
        for i in order { let s = int("sequence", all[i].0, all[i].1); f.rows.push(if way { ("way_nodes".into(), vec![("way_id", t(5)), ("node_id", t(refs[i])), ("version", t(1)), ("sequence_id", t(s))]) } else { ("relation_members".into(), vec![("relation_id", t(5)), ("member_type", ["Node", "Way", "Relation"][i % 3].into()), ("member_id", t(refs[i])), ("member_role", ["b", "", "a"][i % 3].into()), ("version", t(1)), ("sequence_id", t(s))]) }) }
        f.write(0, 0); let got = read(&f.dir); let got: Vec<&Element> = got.iter().filter(|x| crate::gen::kind(x) < 3).collect(); check(got.len() == 1, "number of elements");
        match got[0] { Element::Way { way } => check(way.refs() == &refs, "way nodes out of sequence"), Element::Relation { relation } => { check(relation.members().len() == n, "members"); for (i, m) in relation.members().iter().enumerate() { let p = member_parts(m); check(p.0 == i % 3 && p.1 == refs[i] && p.2 == ["b", "", "a"][i % 3], "members out of sequence") } } _ => fail("kind") }
        reach(0)
    }
    fn c22_owner() {
        // several changesets and users, listed in any order, some unused, some with absent optional columns
        let n = bound(3, 3); let uids: Vec<usize> = (0..n).map(|_| pick("user", n)).collect(); let us = [9, 10, 2_000_000_000i64]; let cs = [8, 30, 5_000_000_000i64]; let names = [&b"first"[..], b"", "Za\u{17c}".as_bytes()];
        let of = pick("changeset", n); let kind = pick("kind", 3); let mut f = Files::new(); let back = coin("backwards"); let null = coin("nulls");
        for i in 0..n { let i = if back { n - 1 - i } else { i }; f.user(us[i], names[i]); f.set(cs[i], us[uids[i]]) }
        if null { for r in &mut f.rows { for (c, v) in &mut r.1 { if ["min_lat", "max_lat", "min_lon", "max_lon", "home_lat", "home_lon", "home_zoom", "pass_salt", "new_email", "creation_ip", "languages", "terms_agreed", "auth_uid", "preferred_editor", "auth_provider", "home_tile", "tou_agreed"].contains(c) { *v = b"\\N".to_vec() } } } }
        let u = uids[of]; let name = std::str::from_utf8(names[u]).unwrap().to_string(); let e = match kind { 0 => el_node(Node::new(1, 1, Coordinate::new(1.0, 2.0), 0, cs[of], us[u] as i32, name, true, vec![])), 1 => el_way(Way::new(1, 1, 0, cs[of], us[u] as i32, name, true, vec![], vec![])), _ => el_rel(Relation::new(1, 1, 0, cs[of], us[u] as i32, name, true, vec![], vec![])) };
        f.add(&[e.clone()]); f.write(0, 0); match catch(|| read(&f.dir)) { Some(g) => compare(&[e], &g), None => fail("panic") }
    }
    fn c22_users() {
        // every column of users and changesets with the values PostgreSQL writes for it
        let mut f = Files::new(); let e = el_node(Node::new(int("id", 1, 9), 1, Coordinate::new(1.0, 2.0), 0, 7, 5, "some one".into(), true, vec![])); f.add(&[e.clone()]); f.user(5, b"some one"); f.set(7, 5);
        let user = coin("users"); let r = f.rows.iter_mut().find(|r| r.0 == if user { "users" } else { "changesets" }).unwrap(); let cols: Vec<&str> = r.1.iter().map(|c| c.0).filter(|c| !["id", "user_id", "display_name"].contains(c)).collect(); let c = cols[pick("column", cols.len())];
        let forms: &[&str] = match c {
            "email" | "pass_crypt" | "description" => &["", "a\\tb\\\\N", "\u{17c}\\n", "\\\\."], "created_at" | "closed_at" | "creation_time" => &["2004-02-29 23:59:59", "1999-12-31 00:00:00.5", "2038-01-19 03:14:08.000001", "2100-12-31 12:00:00.12"],
            "data_public" | "email_valid" | "consider_pd" | "terms_seen" | "image_use_gravatar" => &["t", "f"], "status" => &["pending", "active", "confirmed", "suspended", "deleted"], "description_format" => &["html", "markdown", "text"],
            "home_lat" | "home_lon" => &["\\N", "-0", "1.5e-07", "-179.99999999999997"], "home_zoom" => &["\\N", "0", "19", "-1"], "terms_agreed" | "tou_agreed" => &["\\N", "2012-03-25 02:30:00.999999", "2012-03-25 02:30:00"],
            "home_tile" => &["\\N", "0", "4294967295"], "changesets_count" | "traces_count" | "diary_entries_count" | "num_changes" => &["0", "2147483647"], "min_lat" | "max_lat" | "min_lon" | "max_lon" => &["\\N", "-1800000000", "1800000000"],
            _ => &["\\N", "", "x\\\\N"],
        };
        r.1.iter_mut().find(|x| x.0 == c).unwrap().1 = forms[pick("form", forms.len())].as_bytes().to_vec();
        f.write(0, pick("columns", 2)); match catch(|| read(&f.dir)) { Some(g) => compare(&[e], &g), None => fail("a row of users or changesets is refused") }
    }
    fn c23_each() {
        let kind = pick("kind", 3); let mut o = usual(); varied(&mut o, kind); let e = make("e", kind, id("id", o.id), version("version", o.version), boolean("visible"), &o);
        let (mut w, toc) = dump(); write(&mut w, &e); check(w.close().is_ok(), "close"); compare(&[e], &read(&toc.dir));
    }
    fn c23_history() {
        let (mut w, toc) = dump(); let n = 3; let scheme = pick("keys", 3); let mut els = vec![]; let mut kind = 0;
        for j in 0..n { kind = if deep() { pick("kind", 3) } else { kind.max(pick("kind", 3)) }; let (id, version) = keys(scheme, j); els.push(make(&format!("e{j}"), kind, id, version, boolean("visible"), &Opt { tags: if j == 1 { 2 } else { 0 }, refs: if kind == 0 { 0 } else { j }, user: j, set: j, ..fixed() })) }
        if coin("backwards") { els.reverse() }
        for e in &els { write(&mut w, e) } check(w.close().is_ok(), "close"); compare(&els, &read(&toc.dir));
    }
    fn c20_history() {
        let (mut w, toc) = dump(); let n = bound(3, 4); let mut last: Vec<Element> = vec![]; let mut all = vec![]; let mut kind = pick("kind", 3); let base = [-900, 100, 2_147_483_600, 4_294_967_200, 1_000_000_000_000_000_000][pick("ids", bound(3, 5))]; let (mut obj, mut ver) = (0, 0); let mut the_id = 0;
        for j in 0..n {
            let step = if j == 0 { 1 } else { pick("step", if kind < 2 { 3 } else { 2 }) };
            if step > 0 { if j > 0 && step == 2 { kind += 1; obj = 0 } the_id = int("id", base + 100 * obj, base + 100 * obj + 99); obj += 1; ver = 0 }
            let lo = 10i32.pow(ver); let v = i32("version", lo, lo * 10 - 1); ver += 1; let visible = coin("visible"); let full = if j == n - 1 || deep() { pick("contents", 2) } else { j % 2 };
            let e = make(&format!("e{j}"), kind, the_id, v, visible, &Opt { tags: full * 2, refs: full * 2, ..fixed() });
            if step == 0 { if all.last().map(|x: &(Element, bool)| x.1).unwrap_or(false) { last.pop(); } }
            if visible { last.push(e.clone()) } all.push((e, visible));
        }
        for (e, _) in &all { write(&mut w, e) } check(w.close().is_ok(), "close");
        check_current(&toc, &last);
    }
    fn c24_refs() {
        let (mut w, toc) = dump(); let n = bound(3, 4); let owner: Vec<usize> = (0..3).map(|_| pick("owner", 3)).collect(); let mut used: Vec<usize> = vec![];
        for j in 0..n { let c = pick("changeset", 3); if !used.contains(&c) { used.push(c) } let e = make(&format!("e{j}"), j.min(2), int("id", 100 * (j + 1) as i64, 100 * (j + 1) as i64 + 99), 1, true, &Opt { user: owner[c], set: c, ..fixed() }); write(&mut w, &e) }
        check(w.close().is_ok(), "close");
        check_refs(&toc, &used.iter().map(|c| (SETS[*c], USERS[owner[*c]].0, USERS[owner[*c]].1.to_string())).collect::<Vec<_>>());
    }
    fn c24_many() {
        let (mut w, toc) = dump(); let n = bound(600, 3000); let mut used = vec![]; let x = int("id", 1, 9);
        for j in 0..n { let c = (j * 37) % (n / 2); let u = (c % 101) as i32; let e = el_node(Node::new(x * 100_000 + j as i64, 1, Coordinate::new(1.0, 2.0), 0, c as i64, u, format!("user{u}"), true, vec![])); write(&mut w, &e); if !used.iter().any(|q: &(i64, i32, String)| q.0 == c as i64) { used.push((c as i64, u, format!("user{u}"))) } }
        check(w.close().is_ok(), "close"); check_refs(&toc, &used); check(toc.rows("nodes").len() == n, "rows");
    }
    fn c25_tile() {
        let (mut w, toc) = dump();
        let (a, b) = CORNERS[pick("window", CORNERS.len())]; let n = bound(100_000, 1_000_000) as i64; let (fa, fo) = match pick("axis", 3) { 0 => (n - 1, 0), 1 => (0, n - 1), _ => (n / 10 - 1, n / 10 - 1) };
        let la = a + int("lat", 0, fa); let lo = b + int("lon", 0, fo);
        write(&mut w, &el_node(Node::new(1, 1, Coordinate::new(la as f64 / 1e7, lo as f64 / 1e7), 0, 1, 1, "u".into(), true, vec![]))); check(w.close().is_ok(), "close");
        for (t, k) in [("nodes", "tile"), ("current_nodes", "tile")] {
            let r = toc.rows(t); check(r.len() == 1, "rows"); let d = &r[0][toc.col(t, k)]; let mut v = 0u64; check(!d.is_empty() && d.len() <= 10, "tile is no number"); for c in d { check(c.is_ascii_digit(), "tile is no number"); v = v * 10 + (c - b'0') as u64 }
            check(v < 1 << 32, "tile of more than 32 bits"); let (mut x, mut y) = (0i64, 0i64); for i in (0..16).rev() { x = x << 1 | (v >> (2 * i + 1) & 1) as i64; y = y << 1 | (v >> (2 * i) & 1) as i64 }
            // nearest to (lon + 180) * 65535 / 360, allowing both results where the exact value is halfway
            let dx = x * 3_600_000_000 - (lo + LON) * 65535; let dy = y * 1_800_000_000 - (la + LAT) * 65535;
            check(dx.abs() <= 1_800_000_000, "longitude part of the tile"); check(dy.abs() <= 900_000_000, "latitude part of the tile"); reach(0)
        }
    }
    fn c26_iso() {
        let w = pick("window", DAYS.len() + 10); const MAX: i64 = 8_210_266_876_799_999_999; const MIN: i64 = -8_334_601_228_800_000_000; const DAY: i64 = 86_400_000_000;
        if w < DAYS.len() {
            let us = DAYS[w] * DAY + int("us", 0, DAY - 1); let mut want = when(us.div_euclid(1000)); want[10] = b'T'; want.push(b'Z');
            match catch(|| osm_io::osm::converters::timestamp_to_iso8601_seconds(us)) { None => fail("panic"), Some(Err(_)) => fail("a representable timestamp is refused"), Some(Ok(s)) => check(s.as_bytes().len() == want.len() && s.as_bytes() == &want[..], "text of a timestamp") }
            reach(0);
        } else {
            let us = match w - DAYS.len() { 0 => FAR[pick("far", 3)] * DAY + int("us", 0, DAY - 1), 1 => int("us", 106_751_991 * DAY, i64::MAX), 8 => int("us", i64::MIN, -106_751_991 * DAY - 1), 2 => MAX + 1 - DAY + int("us", 0, DAY - 1), 3 => MIN + int("us", 0, DAY - 1), 4 => int("us", MAX - 5, MAX + 5), 5 => int("us", MIN - 5, MIN + 5), 6 => int("us", MAX + 1, MAX + DAY), 7 => int("us", MIN - DAY, MIN - 1), _ => FAR[3 + pick("far", 3)] * DAY + int("us", 0, DAY - 1) };
            match catch(|| osm_io::osm::converters::timestamp_to_iso8601_seconds(us)) { None => fail("panic"), Some(Err(_)) => { check(us < MIN || us > MAX, "a representable timestamp is refused"); reach(1) } Some(Ok(s)) => { check(us >= MIN && us <= MAX, "text for a timestamp out of range"); let r = s.as_bytes(); let n = r.len(); check(n >= 20 && r[n - 1] == b'Z' && r[n - 10] == b'T', "text of a timestamp"); let want = when((us - if us < 0 { MIN } else { MAX - DAY + 1 }) / 1000); check(&want[11..] == &r[n - 9..n - 1], "text of a timestamp"); let date = if us < 0 { &b"-262143-01-01"[..] } else { &b"+262142-12-31"[..] }; check(&r[..n - 10] == date, "date of a timestamp") } }
        }
    }
    fn c26_dump() {
        let (mut w, toc) = dump(); let far = pick("range", 5); let ts = match far { 0 => { let d = pick("day", DAYS.len()); time("time", d) } 1 => FAR[pick("far", 6)] * 86_400_000 + int("ms", 0, 86_399_999), 2 => if coin("end") { int("ms", i64::MAX - 86_399_999, i64::MAX) } else { int("ms", i64::MIN, i64::MIN + 86_399_999) }, 3 => int("ms", 8_210_266_876_800_000, 8_210_266_963_199_999), _ => int("ms", -8_334_601_315_200_000, -8_334_601_228_800_001) };
        let kind = pick("kind", 3); let e = match kind { 0 => el_node(Node::new(1, 1, Coordinate::new(1.0, 2.0), ts, 1, 1, "u".into(), true, vec![])), 1 => el_way(Way::new(1, 1, ts, 1, 1, "u".into(), true, vec![], vec![])), _ => el_rel(Relation::new(1, 1, ts, 1, 1, "u".into(), true, vec![], vec![])) };
        match catch(|| w.write_element(e)) {
            None => fail("panic"), Some(Err(_)) => { check(far > 0, "a representable timestamp is refused"); reach(0) }
            Some(Ok(())) => { check(far == 0, "a timestamp out of range is written"); check(w.close().is_ok(), "close"); for p in ["", "current_"] { let t = format!("{p}{}", ["nodes", "ways", "relations"][kind]); let r = toc.rows(&t); check(r.len() == 1 && r[0][toc.col(&t, "timestamp")] == when(ts), "timestamp") } reach(1) }
        }
    }
    fn c26_coords() {
        let (la, lo) = (int("lat", -90_000_000_000, 90_000_000_000), int("lon", -180_000_000_000, 180_000_000_000));
        let c = Coordinate::new(la as f64 / 1e9, lo as f64 / 1e9);
        check((c.lat7() * 100 - la).abs() <= 50, "lat7 is not the nearest"); check((c.lon7() * 100 - lo).abs() <= 50, "lon7 is not the nearest");
        let (a, b) = (int("lat7", -LAT, LAT), int("lon7", -LON, LON)); let c = Coordinate::new(a as f64 / 1e7, b as f64 / 1e7); check(c.lat7() == a && c.lon7() == b, "scaled coordinates"); reach(0)
    }
}
/// days no date can denote
const FAR: [i64; 6] = [95_026_300, 100_000_000, 106_751_990, -96_465_400, -100_000_000, -106_751_991];
/// corners of windows of coordinates, in units of 1e-7 degree
const CORNERS: [(i64, i64); 16] = [(515_000_000, 135_000_000), (899_000_000, 1_799_000_000), (-900_000_000, -1_800_000_000), (-900_000_000, 1_799_000_000), (899_000_000, -1_800_000_000), (0, 0), (-1_000_000, -1_000_000), (0, -1_000_000), (-1_000_000, 0), (450_000_000, 900_000_000), (449_000_000, 899_000_000), (-450_000_000, -901_000_000), (-338_000_000, 1_511_000_000), (377_000_000, -1_224_000_000), (-10_000_000, 1_000_000_000), (100_000_000, -5_000_000)];
/// (changeset, user, name)
fn check_refs(toc: &Toc, want: &[(i64, i32, String)]) {
    let (ci, cu) = (toc.col("changesets", "id"), toc.col("changesets", "user_id")); let r = toc.rows("changesets"); check(r.len() == want.len(), "number of changesets");
    for w in want { let n = r.iter().filter(|x| x[ci] == t(w.0) && x[cu] == t(w.1)).count(); check(n == 1, "a changeset is missing, repeated or belongs to another user") } reach(0);
    let mut users: Vec<(i32, &String)> = vec![]; for w in want { if !users.iter().any(|u| u.0 == w.1) { users.push((w.1, &w.2)) } }
    let (ui, un) = (toc.col("users", "id"), toc.col("users", "display_name")); let r = toc.rows("users"); check(r.len() == users.len(), "number of users");
    for u in users { check(r.iter().filter(|x| x[ui] == t(u.0) && unesc(&x[un]) == u.1.as_bytes()).count() == 1, "a user is missing, repeated or has another name") }
    let (ti, tk) = (toc.col("changeset_tags", "changeset_id"), toc.col("changeset_tags", "k")); let r = toc.rows("changeset_tags");
    for (i, x) in r.iter().enumerate() { check(want.iter().any(|w| x[ti] == t(w.0)), "a tag of an unknown changeset"); if want.len() < 10 { check(!r[..i].iter().any(|y| y[ti] == x[ti] && y[tk] == x[tk]), "a repeated changeset tag") } }
}
/// any characters of ASCII but NUL, which a database cannot hold
pub fn read(dir: &PathBuf) -> Vec<Element> {
    let r = match Reader::new(dir.clone(), crate::sym::dir().join("tmp")) { Ok(r) => r, Err(_) => fail("the dump is refused") };
    let it = match r.elements() { Ok(i) => i, Err(_) => fail("the dump is refused") };
    let mut out = vec![]; for e in it { out.push(e); check(out.len() < 50, "too many elements") } out
}
/// as restored from a dump: seconds, and tags in any order
pub fn same_restored(a: &Element, b: &Element) { same_but(a, b, false) }
/// a timestamp that is absent may become any other on the way
pub fn same_but(a: &Element, b: &Element, absent: bool) {
    fn set(a: &[Tag], b: &[Tag]) { check(a.len() == b.len(), "number of tags"); for x in a { check(b.iter().any(|y| x.k().len() == y.k().len() && x.v().len() == y.v().len() && x.k() == y.k() && x.v() == y.v()), "tags") } }
    let sec = |x: i64| x.div_euclid(1000) * 1000;
    match (a, b) {
        (Element::Node { node: x }, Element::Node { node: y }) => { check(x.id() == y.id() && x.version() == y.version(), "id or version"); check(x.coordinate().lat7() == y.coordinate().lat7() && x.coordinate().lon7() == y.coordinate().lon7(), "coordinate"); check(absent && x.timestamp() == -1 || sec(x.timestamp()) == y.timestamp(), "timestamp"); check(x.changeset() == y.changeset() && x.uid() == y.uid() && x.user() == y.user() && x.visible() == y.visible(), "metadata"); set(x.tags(), y.tags()) }
        (Element::Way { way: x }, Element::Way { way: y }) => { check(x.id() == y.id() && x.version() == y.version(), "id or version"); check(absent && x.timestamp() == -1 || sec(x.timestamp()) == y.timestamp(), "timestamp"); check(x.changeset() == y.changeset() && x.uid() == y.uid() && x.user() == y.user() && x.visible() == y.visible(), "metadata"); check(x.refs().len() == y.refs().len(), "way nodes"); for (p, q) in x.refs().iter().zip(y.refs()) { check(p == q, "way nodes") } set(x.tags(), y.tags()) }
        (Element::Relation { relation: x }, Element::Relation { relation: y }) => { check(x.id() == y.id() && x.version() == y.version(), "id or version"); check(absent && x.timestamp() == -1 || sec(x.timestamp()) == y.timestamp(), "timestamp"); check(x.changeset() == y.changeset() && x.uid() == y.uid() && x.user() == y.user() && x.visible() == y.visible(), "metadata"); check(x.members().len() == y.members().len(), "members"); for (p, q) in x.members().iter().zip(y.members()) { let (p, q) = (member_parts(p), member_parts(q)); check(p.0 == q.0 && p.1 == q.1 && p.2.len() == q.2.len() && p.2 == q.2, "members") } set(x.tags(), y.tags()) }
        _ => fail("kind of an element"),
    }
}
/// what was read is `want`, in order of kind, id and version
pub fn compare(want: &[Element], got: &[Element]) {
    let mut w: Vec<&Element> = want.iter().collect(); let less = |a: &Element, b: &Element| (kind(a), id_of(a), version_of(a)) < (kind(b), id_of(b), version_of(b));
    for i in 1..w.len() { let mut j = i; while j > 0 && less(w[j], w[j - 1]) { w.swap(j, j - 1); j -= 1 } }
    let g: Vec<&Element> = got.iter().filter(|x| kind(x) < 3).collect(); check(g.len() == w.len(), "number of elements"); for (a, b) in w.iter().zip(g) { same_restored(a, b); seen(b) } reach(0)
}
/// id and version of the j-th element of a history: several versions of one element, ids of several lengths, both
fn keys(scheme: usize, j: usize) -> (i64, i32) {
    match scheme {
        0 => (12, [i32("version", 10, 99), i32("version", 2, 9), i32("version", 100, 200), 1][j]),
        1 => ([int("id", 10, 99), int("id", 1, 9), int("id", -99, -10), int("id", -9, -1)][j], 1),
        _ => ([int("id", 1_000_000_000_000, 9_000_000_000_000), 20, 20, 7][j], [3, 11, 2, i32("version", 1, 9)][j]),
    }
}
/// a dump written by hand
struct Files { dir: PathBuf, rows: Vec<(String, Row)> }
const COLUMNS: [(&str, &str); 10] = [("nodes", "node_id latitude longitude changeset_id visible timestamp tile version redaction_id"), ("node_tags", "node_id version k v"), ("ways", "way_id changeset_id timestamp version visible redaction_id"), ("way_nodes", "way_id node_id version sequence_id"), ("way_tags", "way_id k v version"), ("relations", "relation_id changeset_id timestamp version visible redaction_id"), ("relation_members", "relation_id member_type member_id member_role version sequence_id"), ("relation_tags", "relation_id k v version"), ("changesets", "id user_id created_at min_lat max_lat min_lon max_lon closed_at num_changes"), ("users", "email id pass_crypt creation_time display_name data_public description home_lat home_lon home_zoom pass_salt email_valid new_email creation_ip languages status terms_agreed consider_pd auth_uid preferred_editor terms_seen description_format changesets_count traces_count diary_entries_count image_use_gravatar auth_provider home_tile tou_agreed")];
impl Files {
    fn new() -> Files { Files { dir: dir().join("byhand"), rows: vec![] } }
    fn add(&mut self, els: &[Element]) { for e in els { rows_of(e, false, &mut self.rows) } for r in &mut self.rows { for (c, v) in &mut r.1 { if ["k", "v", "member_role"].contains(c) { *v = esc(std::str::from_utf8(v).unwrap()).into_bytes() } } } }
    fn user(&mut self, id: i64, name: &[u8]) {
        let v: [&[u8]; 29] = [b"a@b", b"", b"0000", b"2020-01-01 00:00:00", name, b"t", b"text", b"1.5", b"2.5", b"3", b"salt", b"f", b"\\N", b"\\N", b"\\N", b"active", b"\\N", b"f", b"\\N", b"\\N", b"f", b"markdown", b"0", b"0", b"0", b"f", b"\\N", b"7", b"\\N"];
        let mut r: Row = COLUMNS[9].1.split(' ').zip(v).map(|(c, v)| (c, v.to_vec())).collect(); r[1].1 = t(id); self.rows.push(("users".into(), r));
    }
    fn set(&mut self, id: i64, user: i64) { self.rows.push(("changesets".into(), vec![("id", t(id)), ("user_id", t(user)), ("created_at", b"2020-01-01 00:00:00.123".to_vec()), ("min_lat", t(-1)), ("max_lat", t(1)), ("min_lon", t(-2)), ("max_lon", t(2)), ("closed_at", b"2020-01-01 01:00:00".to_vec()), ("num_changes", t(1))])) }
    fn owners(&mut self) { for i in 0..4 { self.user(USERS[i].0 as i64, esc(USERS[i].1).as_bytes()); self.set(SETS[i], USERS[i].0 as i64) } }
    /// `order`: of the rows; `columns`: of the columns
    fn write(&self, order: usize, columns: usize) {
        std::fs::create_dir_all(&self.dir).unwrap(); let mut toc = b"PGDMP\x01\x0e\x00 COPY ".to_vec(); toc.truncate(9);
        for (i, (name, cols)) in COLUMNS.iter().enumerate() {
            let mut c: Vec<&str> = cols.split(' ').collect(); let n = c.len(); match columns { 0 => {} 1 => c.reverse(), 2 => c.rotate_left(1), 3 => c.rotate_right(1), _ => for k in 0..n / 2 { c.swap(2 * k, 2 * k + 1) } }
            let mut rows: Vec<&Row> = self.rows.iter().filter(|r| r.0 == *name).map(|r| &r.1).collect(); let n = rows.len(); match order { 0 => {} 1 => rows.reverse(), 2 => if n > 0 { rows.rotate_left(n / 2) }, _ => for k in 0..n / 2 { rows.swap(2 * k, 2 * k + 1) } }
            let mut body = vec![]; for r in rows { for (k, c) in c.iter().enumerate() { if k > 0 { body.push(b'\t') } body.extend_from_slice(&r.iter().find(|x| x.0 == *c).unwrap().1) } body.push(b'\n') } body.extend_from_slice(b"\\.\n\n\n");
            std::fs::write(self.dir.join(format!("{}.dat", 4000 + i)), body).unwrap();
            toc.extend_from_slice(&[0, 7, 0, 0]); toc.extend_from_slice(format!("COPY public.{name} ({}) FROM stdin;\n", c.iter().map(|c| if *c == "timestamp" { "\"timestamp\"" } else { c }).collect::<Vec<_>>().join(", ")).as_bytes()); toc.extend_from_slice(&[1, 1, 0, 0]); toc.extend_from_slice(format!("{}.dat", 4000 + i).as_bytes());
        }
        std::fs::write(self.dir.join("toc.dat"), toc).unwrap();
    }
}
