//! Files from other producers: hand-encoded blocks, framing, compression variants, damage.
use crate::{enc::*, gen::*, sym::*};
use osm_io::osm::{model::element::Element, pbf::{file_block::FileBlock, reader::Reader}};
use std::path::PathBuf;

fn open(parts: &[Vec<u8>]) -> (PathBuf, Reader) { let p = save("f.osm.pbf", parts); let r = Reader::new(&p).expect("reader"); (p, r) }
fn read(b: &Msg) -> Vec<Element> { let (_, r) = open(&[header(), data(b)]); r.elements().expect("elements").collect() }
pub const TABLE_: [&str; 6] = ["", "alice", "highway", "residential", "name", "Zażółć"];
fn gran(t: &str, l: &[i64]) -> Option<i64> { let k = pick(t, l.len() + 1); if k == 0 { None } else { Some(l[k - 1]) } }
fn nano(x: f64) -> i64 { (x * 1e9).round() as i64 }
pub struct Info { version: Option<i64>, ts: Option<i64>, cs: Option<i64>, uid: Option<i64>, user: Option<i64>, visible: Option<i64> }
pub fn any_info(t: &str, has: impl Fn(usize) -> bool) -> Info {
    let f = |k: usize, n: &str, lo: i64, hi: i64| if has(k) { Some(int(&format!("{t}.{n}"), lo, hi)) } else { None };
    Info { version: f(0, "version", 0, i32::MAX as i64), ts: f(1, "ts", -1 << 40, 1 << 40), cs: f(2, "changeset", 0, BIG), uid: f(3, "uid", 0, i32::MAX as i64), user: if has(4) { Some(pick("user", 2) as i64) } else { None }, visible: f(5, "visible", 0, 1) }
}
pub fn info_msg(i: &Info) -> Msg { Msg::new().opt(1, i.version).opt(2, i.ts).opt(3, i.cs).opt(4, i.uid).opt(5, i.user).opt(6, i.visible) }
fn same_info(i: &Info, dg: i64, version: i32, ts: i64, cs: i64, uid: i32, user: &str, visible: bool) {
    if let Some(v) = i.version { check(version as i64 == v, "version"); }
    if let Some(v) = i.ts { check(ts == v * dg, "timestamp"); }
    if let Some(v) = i.cs { check(cs == v, "changeset"); }
    if let Some(v) = i.uid { check(uid as i64 == v, "uid"); }
    check(user == TABLE_[i.user.unwrap_or(0) as usize], "user name");
    check(visible == (i.visible.unwrap_or(1) != 0), "visible");
}
/// dense group; `has(k)` says which metadata arrays are there (7: none of the metadata)
pub fn dense(ids: &[i64], lats: &[i64], lons: &[i64], infos: Option<&[Info]>, kv: &[i64]) -> Msg {
    let mut d = Msg::new().packed_z(1, &delta(ids));
    if let Some(l) = infos {
        let col = |f: &dyn Fn(&Info) -> Option<i64>| -> Vec<i64> { l.iter().filter_map(|i| f(i)).collect() };
        let m = Msg::new().packed(1, &col(&|i| i.version)).packed_z(2, &delta(&col(&|i| i.ts))).packed_z(3, &delta(&col(&|i| i.cs))).packed_z(4, &delta(&col(&|i| i.uid))).packed_z(5, &delta(&col(&|i| i.user))).packed(6, &col(&|i| i.visible));
        d = d.msg(5, &m);
    }
    Msg::new().msg(2, &d.packed_z(8, &delta(lats)).packed_z(9, &delta(lons)).packed(10, kv))
}
pub fn with(b: Msg, g: Option<i64>, dg: Option<i64>, la: Option<i64>, lo: Option<i64>) -> Msg { b.opt(17, g).opt(18, dg).opt(19, la).opt(20, lo) }

/// a string table of three texts of any characters behind the empty one
fn any_table() -> (Msg, Vec<String>) { let t: Vec<String> = vec![String::new(), ascii("s1.", 1), ascii("s2.", 2), if bound(0, 1) == 1 && coin("wide") { wide("s3.") } else { ascii("s3.", 1) }]; let l: Vec<&str> = t.iter().map(|s| s.as_str()).collect(); (strings(&l), t) }
fn with_table(t: Msg, g: Msg) -> Msg { Msg::new().msg(1, &t).msg(2, &g) }
fn tagged(m: Msg, kv: &[(i64, i64)]) -> Msg { m.packed(2, &kv.iter().map(|x| x.0).collect::<Vec<_>>()).packed(3, &kv.iter().map(|x| x.1).collect::<Vec<_>>()) }
fn same_tags(got: &[osm_io::osm::model::tag::Tag], kv: &[(i64, i64)], t: &[String]) { check(got.len() == kv.len(), "number of tags"); for (g, w) in got.iter().zip(kv) { check(*g.k() == t[w.0 as usize], "tag key"); check(*g.v() == t[w.1 as usize], "tag value"); } }
fn plain_block(id: i64) -> Vec<u8> { block(&[""], &[plain_group(0, id)]).0 }
harnesses! {
    // coordinates: granularity, offsets, dense and plain coding, delta chain
    fn c05_coords() {
        let g = gran("granularity", &[100, 1, 1000, 10_000_000]); let gv = g.unwrap_or(100); let n = bound(2, 3);
        let off = |t: &str, m: i64| if coin(t) { Some(int(t, -m, m)) } else { None };
        let (la, lo) = (off("lat_offset", 30_000_000_000), off("lon_offset", 60_000_000_000));
        let mut ids = vec![]; let mut lat = vec![]; let mut lon = vec![];
        for i in 0..n { ids.push(int(&format!("id{i}"), -BIG, BIG)); lat.push(int(&format!("lat{i}"), -60_000_000_000 / gv, 60_000_000_000 / gv)); lon.push(int(&format!("lon{i}"), -120_000_000_000 / gv, 120_000_000_000 / gv)); }
        let groups = if coin("dense") { vec![dense(&ids, &lat, &lon, None, &[])] } else { let mut m = Msg::new(); for i in 0..n { m = m.msg(1, &Msg::new().z(1, ids[i]).z(8, lat[i]).z(9, lon[i])); } vec![m] };
        let got = read(&with(block(&TABLE_, &groups), g, None, la, lo));
        check(got.len() == n, "number of nodes");
        for i in 0..n {
            let Element::Node { node } = &got[i] else { fail("kind") };
            check(node.id() == ids[i], "id"); check(nano(node.coordinate().lat()) == la.unwrap_or(0) + gv * lat[i], "latitude"); check(nano(node.coordinate().lon()) == lo.unwrap_or(0) + gv * lon[i], "longitude");
            check(node.visible(), "visible by default"); check(node.user().is_empty() && node.tags().is_empty(), "no user, no tags"); seen(&got[i]);
        }
        reach(0);
    }
    // metadata of dense nodes: none, all, each array absent, only one present
    fn c05_dense_info() {
        let dg = gran("date granularity", &[1000, 1, 500, 60_000]); let dv = dg.unwrap_or(1000);
        let mode = pick("metadata", 14); let n = 2; // 0 none, 1 all, 2..8 all but one, 8..14 only one
        let has = |k: usize| match mode { 0 => false, 1 => true, m if m < 8 => k != m - 2, m => k == m - 8 };
        let infos: Vec<Info> = (0..n).map(|i| any_info(&format!("n{i}"), has)).collect();
        let kv: Vec<i64> = match pick("tags", bound(3, 4)) { 0 => vec![], 1 => vec![0, 0], 2 => vec![2, 3, 4, 5, 0, 0], _ => vec![0, 2, 2, 2, 2, 0] };
        let got = read(&with(block(&TABLE_, &[dense(&[5, 7], &[1, 2], &[3, 4], if mode == 0 && coin("no denseinfo") { None } else { Some(&infos) }, &kv)]), None, dg, None, None));
        check(got.len() == n, "number of nodes"); let mut at = 0;
        for i in 0..n {
            let Element::Node { node } = &got[i] else { fail("kind") };
            same_info(&infos[i], dv, node.version(), node.timestamp(), node.changeset(), node.uid(), node.user(), node.visible());
            let mut want = vec![]; while at < kv.len() && kv[at] != 0 { want.push((TABLE_[kv[at] as usize], TABLE_[kv[at + 1] as usize])); at += 2; } at += 1;
            check(node.tags().len() == want.len() && node.tags().iter().zip(&want).all(|(t, w)| t.k() == w.0 && t.v() == w.1), "tags"); seen(&got[i]);
        }
        reach(0);
    }
    // metadata of plain nodes, field by field
    fn c05_plain_info() {
        let dg = gran("date granularity", &[1000, 1, 500]); let dv = dg.unwrap_or(1000); let mode = pick("metadata", 15);
        let has = |k: usize| match mode { 0 | 14 => false, 1 => true, m if m < 8 => k != m - 2, m => k == m - 8 };
        let i = any_info("n", has);
        let mut m = Msg::new().z(1, 9).packed(2, &[2, 4, 2]).packed(3, &[3, 5, 0]); if mode != 14 { m = m.msg(4, &info_msg(&i)); }
        let got = read(&with(block(&TABLE_, &[Msg::new().msg(1, &m.z(8, 1).z(9, 2))]), None, dg, None, None)); check(got.len() == 1, "number of nodes");
        let Element::Node { node } = &got[0] else { fail("kind") };
        same_info(&i, dv, node.version(), node.timestamp(), node.changeset(), node.uid(), node.user(), node.visible());
        check(node.tags().len() == 3 && node.tags()[1].k() == "name" && node.tags()[1].v() == "Zażółć" && node.tags()[2].k() == "highway" && node.tags()[2].v().is_empty(), "tags"); seen(&got[0]);
        reach(0);
    }
    // several groups per block and several blocks: deltas start afresh, nothing is lost
    fn c05_groups() {
        let n = 1 + pick("groups", bound(3, 4)); let split = pick("blocks", 2); let mut groups = vec![]; let mut want = vec![];
        for i in 0..n {
            let a = int(&format!("a{i}"), -BIG, BIG); let b = int(&format!("b{i}"), -BIG, BIG);
            match pick("coding", 3) { 0 => { groups.push(dense(&[a, b], &[1, 2], &[3, 4], None, &[])); want.push(a); want.push(b) } 1 => { groups.push(plain_group(0, a)); want.push(a) } _ => { groups.push(Msg::new()) } }
        }
        let parts = if split == 0 { vec![header(), data(&block(&TABLE_, &groups))] } else { let mut v = vec![header()]; for g in &groups { v.push(data(&block(&TABLE_, std::slice::from_ref(g)))); } v };
        let (_, r) = open(&parts); let got: Vec<Element> = r.elements().expect("elements").collect();
        check(got.len() == want.len(), "number of nodes"); for (g, w) in got.iter().zip(&want) { check(id_of(g) == *w, "id"); check(kind(g) == 0, "kind"); }
        reach(0);
    }
    // any granularity and any date granularity, over some positions and times
    fn c05_gran() {
        let which = pick("granularity of", 2); let g = int("granularity", 1, 1 << 24);
        let x = [7i64, 1, -3, 250, -5000][pick("value", 5)]; let off = [0, 123_456_789, -5][pick("offset", 3)];
        let b = block(&TABLE_, &[if coin("dense") { dense(&[1, 2], &[x, x + 1], &[-x, x], Some(&[0, 1].map(|i| Info { version: None, ts: Some(x + i), cs: None, uid: None, user: None, visible: None })), &[]) } else { Msg::new().msg(1, &Msg::new().z(1, 1).z(8, x).z(9, -x).msg(4, &Msg::new().v(2, x))).msg(1, &Msg::new().z(1, 2).z(8, x + 1).z(9, x).msg(4, &Msg::new().v(2, x + 1))) }]);
        let (gv, dv) = if which == 0 { (g, 1000) } else { (100, g) };
        let got = read(&with(b, if which == 0 { Some(g) } else { None }, if which == 1 { Some(g) } else { None }, Some(off), None)); check(got.len() == 2, "number of nodes");
        for (i, y) in [(x, -x), (x + 1, x)].iter().enumerate() {
            let Element::Node { node } = &got[i] else { fail("kind") };
            check(nano(node.coordinate().lat()) == off + gv * y.0, "latitude"); check(nano(node.coordinate().lon()) == gv * y.1, "longitude"); check(node.timestamp() == y.0 * dv, "timestamp"); seen(&got[i]);
        }
        reach(0);
    }
    // one, and no, node with everything at once
    fn c05_single() {
        let one = pick("nodes", 2) == 0; let (id, la, lo) = (int("id", -BIG, BIG), int("lat", -300_000_000, 300_000_000), int("lon", -600_000_000, 600_000_000)); let (ola, olo) = (int("lat_offset", -30_000_000_000, 30_000_000_000), int("lon_offset", -60_000_000_000, 60_000_000_000));
        let i = any_info("n", |_| true); let l = [i];
        let group = if !one { dense(&[], &[], &[], Some(&[]), &[]) } else if coin("dense") { dense(&[id], &[la], &[lo], Some(&l), [&[][..], &[0][..], &[2, 3, 0][..]][pick("tags", 3)]) } else { Msg::new().msg(1, &Msg::new().z(1, id).msg(4, &info_msg(&l[0])).z(8, la).z(9, lo)) };
        let got = read(&with(block(&TABLE_, &[group]), None, None, Some(ola), Some(olo))); check(got.len() == one as usize, "number of nodes");
        if let Some(Element::Node { node }) = got.first() { check(node.id() == id, "id"); check(nano(node.coordinate().lat()) == ola + 100 * la, "latitude"); check(nano(node.coordinate().lon()) == olo + 100 * lo, "longitude"); same_info(&l[0], 1000, node.version(), node.timestamp(), node.changeset(), node.uid(), node.user(), node.visible()); reach(0) } else { check(!one, "kind"); reach(1) }
    }
    // any text in the string table, any index into it
    // more nodes in a block than any writer of this library puts there
    fn c05_big() {
        let n = bound(20_000, 140_000); let x = int("id", -BIG, BIG); let y = int("lat", -900_000_000, 900_000_000); let d = coin("dense"); let at = |i: usize, l: i64, s: i64| if i + 1 == n { s } else { (i as i64 * 7919) % 65_537 * l - 30_000 };
        let ids: Vec<i64> = (0..n).map(|i| at(i, 1, x)).collect(); let lat: Vec<i64> = (0..n).map(|i| at(i, 3, y)).collect(); let lon: Vec<i64> = (0..n).map(|i| at(i, 2, 5)).collect();
        let g = if d { let mut kv = vec![]; for i in 0..n { if i % 3 == 1 { kv.push(2); kv.push(3) } kv.push(0) } dense(&ids, &lat, &lon, None, &kv) } else { let mut m = Msg::new(); for i in 0..n { let e = Msg::new().z(1, ids[i]); let e = if i % 3 == 1 { tagged(e, &[(2, 3)]) } else { e }; m = m.msg(1, &e.z(8, lat[i]).z(9, lon[i])) } m };
        let got = read(&block(&TABLE_, &[g])); check(got.len() == n, "number of nodes");
        for i in 0..n { let Element::Node { node } = &got[i] else { fail("kind") }; check(node.id() == ids[i], "id"); check(node.tags().len() == (i % 3 == 1) as usize, "tags"); if i % 100 == 0 || i + 1 == n { check(node.coordinate().lat7() == lat[i] && node.coordinate().lon7() == lon[i], "coordinate") } } reach(0);
    }
    // blocks of many elements, elements of many references and members
    fn c06_big() {
        let n = bound(20_000, 140_000); let x = int("last", -BIG, BIG); let list = |k: usize| -> Vec<i64> { (0..k).map(|i| if i + 1 == k { x } else { (i as i64 * 7919) % 65_537 }).collect() };
        let many = coin("many elements"); let way = coin("way"); let k = if many { 3 } else { bound(70_000, 300_000) }; let refs = list(k); let dl = delta(&refs); let roles: Vec<i64> = (0..k).map(|i| (i % 6) as i64).collect(); let types: Vec<i64> = (0..k).map(|i| (i % 3) as i64).collect();
        let mut g = Msg::new(); let c = if many { n } else { 1 }; for i in 0..c { let e = Msg::new().v(1, i as i64); let full = !many || i % 1000 == 999; g = if way { g.msg(3, &if full { e.packed_z(8, &dl) } else { e }) } else { g.msg(4, &if full { e.packed(8, &roles).packed_z(9, &dl).packed(10, &types) } else { e }) } }
        let got = read(&block(&TABLE_, &[g])); check(got.len() == c, "number of elements");
        for (i, e) in got.iter().enumerate() { check(id_of(e) == i as i64, "id"); let full = !many || i % 1000 == 999; match e {
            Element::Way { way: w } => check(way && if full { *w.refs() == refs } else { w.refs().is_empty() }, "references"),
            Element::Relation { relation: r } => { check(!way && r.members().len() == if full { k } else { 0 }, "number of members"); for (j, m) in r.members().iter().enumerate() { let m = member_parts(m); check(m.0 == j % 3 && m.1 == refs[j] && m.2 == TABLE_[j % 6], "members") } }
            _ => fail("kind") } } reach(0);
    }
    fn c05_strings() {
        let (tab, t) = any_table(); let sy = pick("symbolic", 3); let ix = |n: &str, lo: i64| if [b'k', b'v', b'u'][sy] == n.as_bytes()[0] { int(n, lo, 3) } else { 2 }; let tagn = [[2, 0], [0, 1], [1, 1], [2, 1]][pick("tags", bound(3, 4))]; let kv: Vec<Vec<(i64, i64)>> = (0..2).map(|i| (0..tagn[i]).map(|j| (ix(&format!("k{i}{j}"), 1), ix(&format!("v{i}{j}"), 0))).collect()).collect(); let user = [1, ix("user1", 0)];
        let group = if coin("dense") { let mut f = vec![]; for l in &kv { for (k, v) in l { f.push(*k); f.push(*v); } f.push(0); } dense(&[1, 2], &[3, 4], &[5, 6], Some(&user.map(|u| Info { version: Some(1), ts: Some(1), cs: Some(1), uid: Some(1), user: Some(u), visible: None })), &f) } else { let mut m = Msg::new(); for i in 0..2 { m = m.msg(1, &tagged(Msg::new().z(1, i as i64), &kv[i]).msg(4, &Msg::new().v(5, user[i])).z(8, 1).z(9, 2)); } m };
        let got = read(&with_table(tab, group)); check(got.len() == 2, "number of nodes");
        for i in 0..2 { let Element::Node { node } = &got[i] else { fail("kind") }; check(*node.user() == t[user[i] as usize], "user name"); same_tags(node.tags(), &kv[i], &t); } reach(0);
    }
    fn c06_strings() {
        let (tab, t) = any_table(); let sy = pick("symbolic", 3); let ix = |n: &str| if [&b"k"[..], b"v", b"ur"][sy].contains(&n.as_bytes()[0]) { int(n, 0, 3) } else { 2 }; let way = coin("way"); let n = 1 + pick("second", 2);
        let last = |i: usize| i + 1 == n;
        let kv: Vec<Vec<(i64, i64)>> = (0..n).map(|i| (0..if last(i) { pick("tags", bound(3, 4)) } else { 1 }).map(|j| (if last(i) { ix(&format!("k{i}{j}")) } else { 2 }, if last(i) { ix(&format!("v{i}{j}")) } else { 3 })).collect()).collect(); let user: Vec<i64> = (0..n).map(|i| if last(i) { ix(&format!("user{i}")) } else { 1 }).collect();
        let roles: Vec<Vec<i64>> = (0..n).map(|i| if way { vec![] } else { (0..pick("members", 3)).map(|j| if last(i) { ix(&format!("role{i}{j}")) } else { 2 }).collect() }).collect();
        let mut g = Msg::new();
        for i in 0..n { let e = tagged(Msg::new().v(1, i as i64), &kv[i]).msg(4, &Msg::new().v(5, user[i])); let k = roles[i].len(); g = if way { g.msg(3, &e.packed_z(8, &[1, 1])) } else { g.msg(4, &e.packed(8, &roles[i]).packed_z(9, &vec![1; k]).packed(10, &vec![1; k])) }; }
        let got = read(&with_table(tab, g)); check(got.len() == n, "number of elements");
        for i in 0..n { match &got[i] {
            Element::Way { way } => { check(*way.user() == t[user[i] as usize], "user name"); same_tags(way.tags(), &kv[i], &t) }
            Element::Relation { relation } => { check(*relation.user() == t[user[i] as usize], "user name"); same_tags(relation.tags(), &kv[i], &t); check(relation.members().len() == roles[i].len(), "number of members"); for (m, r) in relation.members().iter().zip(&roles[i]) { check(*member_parts(m).2 == t[*r as usize], "member role"); } }
            _ => fail("kind") } }
        reach(0); if !way { reach(1); }
    }
    fn c06_way() {
        let dg = gran("date granularity", &[1000, 1, 500]); let dv = dg.unwrap_or(1000); let mode = pick("metadata", 15);
        let has = |k: usize| match mode { 0 | 14 => false, 1 => true, m if m < 8 => k != m - 2, m => k == m - 8 };
        let i = any_info("w", has); let k = pick("refs", bound(3, 5)); let refs: Vec<i64> = (0..k).map(|j| int(&format!("ref{j}"), -BIG, BIG)).collect(); let id = any64("id");
        let mut m = Msg::new().v(1, id); let t = pick("tags", 2); if t == 1 { m = m.packed(2, &[4, 2]).packed(3, &[5, 0]); } if mode != 14 { m = m.msg(4, &info_msg(&i)); }
        let got = read(&with(block(&TABLE_, &[Msg::new().msg(3, &m.packed_z(8, &delta(&refs)))]), None, dg, None, None)); check(got.len() == 1, "number of ways");
        let Element::Way { way } = &got[0] else { fail("kind") };
        check(way.id() == id, "id"); same_info(&i, dv, way.version(), way.timestamp(), way.changeset(), way.uid(), way.user(), way.visible());
        check(way.refs().len() == k, "number of references"); for (a, b) in way.refs().iter().zip(&refs) { check(a == b, "references"); }
        check(way.tags().len() == 2 * t && (t == 0 || (way.tags()[0].k() == "name" && way.tags()[0].v() == "Zażółć" && way.tags()[1].k() == "highway" && way.tags()[1].v().is_empty())), "tags"); seen(&got[0]);
        reach(0);
    }
    fn c06_relation() {
        let dg = gran("date granularity", &[1, 500]); let dv = dg.unwrap_or(1000); let mode = pick("metadata", bound(4, 15));
        let has = |k: usize| match mode { 0 => false, 1 => true, 2 => k == 1, 3 => k != 4, 14 => false, m if m < 10 => k != m - 4, m => k == m - 10 };
        let i = any_info("r", has); let k = pick("members", bound(3, 4)); let mut mem = vec![]; for j in 0..k { mem.push((pick("type", 3), int(&format!("m{j}"), -BIG, BIG), pick("role", bound(2, 3)) as i64 * 2)); } let id = any64("id");
        let tl = [[2, 4], [3, 5]]; let tn = 1 + (k == 0 || mode % 2 == 1) as usize; let mut m = Msg::new().v(1, id).packed(2, &tl[0][..tn]).packed(3, &tl[1][..tn]); if mode != 0 { m = m.msg(4, &info_msg(&i)); }
        m = m.packed(8, &mem.iter().map(|x| x.2).collect::<Vec<_>>()).packed_z(9, &delta(&mem.iter().map(|x| x.1).collect::<Vec<_>>())).packed(10, &mem.iter().map(|x| x.0 as i64).collect::<Vec<_>>());
        let got = read(&with(block(&TABLE_, &[Msg::new().msg(4, &m)]), None, dg, None, None)); check(got.len() == 1, "number of relations");
        let Element::Relation { relation } = &got[0] else { fail("kind") };
        check(relation.id() == id, "id"); same_info(&i, dv, relation.version(), relation.timestamp(), relation.changeset(), relation.uid(), relation.user(), relation.visible());
        check(relation.members().len() == k, "number of members"); for (a, b) in relation.members().iter().zip(&mem) { let a = member_parts(a); check(a.0 == b.0, "member type"); check(a.1 == b.1, "member id"); check(a.2 == TABLE_[b.2 as usize], "member role"); }
        check(relation.tags().len() == tn && relation.tags().iter().enumerate().all(|(j, t)| t.k() == TABLE_[tl[0][j] as usize] && t.v() == TABLE_[tl[1][j] as usize]), "tags"); seen(&got[0]);
        reach(0);
    }
    // groups of every kind in any order
    fn c06_order() {
        let n = 1 + pick("groups", bound(4, 5)); let mut groups = vec![]; let mut want = vec![];
        for i in 0..n { let k = pick("kind", 4); let id = int(&format!("id{i}"), -BIG, BIG); if k == 3 { let b = int(&format!("b{i}"), -BIG, BIG); groups.push(dense(&[id, b], &[1, 2], &[3, 4], None, &[])); want.push((0, id)); want.push((0, b)); } else { groups.push(plain_group(k, id)); want.push((k, id)); } }
        let got = read(&block(&TABLE_, &groups)); check(got.len() == want.len(), "number of elements");
        for (g, w) in got.iter().zip(&want) { check(kind(g) == w.0, "kind"); check(id_of(g) == w.1, "id"); }
        reach(0);
    }
    // several elements of one kind in a group: nothing carries over from one to the next
    fn c06_several() {
        let n = bound(3, 5); let kind_ = 1 + pick("kind", 2); let mut m = Msg::new(); let mut want = vec![];
        for i in 0..n { let id = any64(&format!("id{i}")); let a = int(&format!("a{i}"), -BIG, BIG); let b = int(&format!("b{i}"), -BIG, BIG); let ts = int(&format!("ts{i}"), 0, 1 << 40); want.push((id, a, b, ts));
            let info = Msg::new().v(1, i as i64).v(2, ts).v(5, (i % 2) as i64); let tag = (2 + i as i64 % 4, 3);
            let e = Msg::new().v(1, id).packed(2, &[tag.0]).packed(3, &[tag.1]).msg(4, &info);
            m = if kind_ == 1 { m.msg(3, &e.packed_z(8, &delta(&[a, b]))) } else { m.msg(4, &e.packed(8, &[2, 3]).packed_z(9, &delta(&[a, b])).packed(10, &[i as i64 % 3, 2])) }; }
        let got = read(&block(&TABLE_, &[m])); check(got.len() == n, "number of elements");
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            check(id_of(g) == w.0, "id"); check(version_of(g) == i as i32, "version");
            match g { Element::Way { way } => { check(way.refs().len() == 2 && way.refs()[0] == w.1 && way.refs()[1] == w.2, "references"); check(way.timestamp() == w.3 * 1000, "timestamp"); check(way.user() == TABLE_[i % 2], "user"); check(way.tags().len() == 1 && way.tags()[0].k() == TABLE_[2 + i % 4], "tags") }
                Element::Relation { relation } => { check(relation.members().len() == 2, "number of members"); let (x, y) = (member_parts(&relation.members()[0]), member_parts(&relation.members()[1])); check(x.0 == i % 3 && x.1 == w.1 && x.2 == "highway" && y.0 == 2 && y.1 == w.2 && y.2 == "residential", "members"); check(relation.timestamp() == w.3 * 1000, "timestamp"); check(relation.user() == TABLE_[i % 2], "user"); check(relation.tags().len() == 1 && relation.tags()[0].k() == TABLE_[2 + i % 4], "tags") }
                _ => fail("kind") }
        }
        reach(0);
    }
    // framing: index data, stored sizes, empty blocks, unknown types, extra headers, many blocks
    fn c09_blocks() {
        let n = pick("blocks", bound(3, 4)); let mut parts = vec![header()]; let mut want = vec![]; let mut types = vec![true];
        for i in 0..n {
            let id = int(&format!("id{i}"), -BIG, BIG); let pad = "x".repeat([0, 100, 300][pick("padding", bound(2, 3))]);
            let idx = match pick("index data", bound(3, 4)) { 0 => None, 1 => Some(vec![]), 2 => Some(vec![0xAA; 5]), _ => Some(vec![0x0A; 300]) };
            let b = block(&["", &pad], &[plain_group(pick("kind", 2), id)]);
            let st = [Store::Raw, Store::Zlib][pick("store", 2)];
            match pick("block", bound(3, 5)) {
                0 | 4 => { parts.push(frame("OSMData", idx.as_deref(), &blob(st, &b.0))); want.push(id); types.push(false) }
                1 => { parts.push(frame("OSMData", idx.as_deref(), &blob(st, &block(&[""], &[]).0))); types.push(false) }
                2 => { parts.push(frame("Vendor", idx.as_deref(), &blob(st, &b.0))) }
                _ => { parts.push(header()); types.push(true) }
            }
        }
        let (_, r) = open(&parts); let got: Vec<Element> = r.elements().expect("elements").collect();
        check(got.len() == want.len(), "number of elements"); for (g, w) in got.iter().zip(&want) { check(id_of(g) == *w, "order of elements"); }
        let bl: Vec<FileBlock> = r.blocks().expect("blocks").collect(); check(bl.len() == types.len(), "number of blocks");
        let mut at = 0; for (b, h) in bl.iter().zip(&types) { match b { FileBlock::Header { .. } => check(*h, "a data block became a header"), FileBlock::Data { data, .. } => { check(!*h, "a header became a data block"); for e in data.elements() { check(at < want.len() && id_of(e) == want[at], "order of blocks"); at += 1; } } } }
        check(at == want.len(), "elements in blocks"); reach(0); if n > 1 && want.len() + 1 < types.len() { reach(1); }
    }
    // a block's type decides, not its neighbourhood
    fn c09_types() {
        let mut t = [&b"OSMData"[..], &b"OSMHeader"[..]][pick("like", 2)].to_vec(); match pick("edit", 4) { 0 => { let i = pick("at", t.len()); t[i] = int("char", 0, 127) as u8; } 1 => t.push(int("char", 0, 127) as u8), 2 => t.truncate(pick("at", t.len())), _ => { t.remove(0); } }
        let t = String::from_utf8(t).unwrap(); assume(t != "OSMHeader"); let known = t == "OSMData"; let ids = [1, int("id", -BIG, BIG), 3]; let n = pick("after", 2);
        let mut parts = vec![header(), data(&block(&[""], &[plain_group(0, 1)])), frame(&t, None, &blob(Store::Raw, &block(&[""], &[plain_group(0, ids[1])]).0))]; if n == 1 { parts.push(data(&block(&[""], &[plain_group(0, 3)]))); }
        let (_, r) = open(&parts); let got: Vec<i64> = r.elements().expect("elements").map(|e| id_of(&e)).collect();
        let mut want = vec![1]; if known { want.push(ids[1]); } if n == 1 { want.push(3); }
        check(got.len() == want.len(), "number of elements"); for (g, w) in got.iter().zip(&want) { check(g == w, "order of elements"); } reach(if known { 0 } else { 1 });
    }
    // sizes of bodies and of index data around the powers of two
    fn c09_sizes() {
        let pads = [0usize, 1, 60, 90, 127, 128, 230, 255, 256, 16_383, 32_767, 65_480, 65_535, 65_536, 70_000, 131_072, 300_000]; let idxs = [0usize, 1, 7, 8, 16, 127, 128, 255, 256, 300, 5_000, 60_000];
        let (p, x) = (pads[pick("body", pads.len())], pick("index data", idxs.len() + 1)); let idx = if x == 0 { None } else { Some(vec![0x0Au8; idxs[x - 1]]) }; let third = coin("twice");
        let id = int("id", -BIG, BIG); let b = |i: i64| frame("OSMData", idx.as_deref(), &blob(Store::Raw, &block(&["", &"x".repeat(p)], &[plain_group(0, i)]).0));
        let mut parts = vec![header(), b(id)]; let mut want = vec![id]; if third { parts.push(b(2)); want.push(2); } parts.push(data(&block(&[""], &[plain_group(1, 3)]))); want.push(3);
        let (_, r) = open(&parts); let got: Vec<i64> = r.elements().expect("elements").map(|e| id_of(&e)).collect();
        check(got.len() == want.len(), "number of elements"); for (g, w) in got.iter().zip(&want) { check(g == w, "order of elements"); } reach(0);
    }
    // blocks behind 2 and 4 GiB: the space between is taken by blocks of a type to be ignored, at most 32 MiB each as the format demands
    fn c09_far() {
        use std::io::{Seek, SeekFrom, Write}; crate::h_par::schedules_eager(0);
        const SKIP: u64 = (32 << 20) - 1; let ids: Vec<i64> = (0..3).map(|i| int(&format!("id{i}"), 0, BIG)).collect(); let mut at = 0u64; let mut writes: Vec<(u64, Vec<u8>)> = vec![]; let mut add = |at: &mut u64, b: Vec<u8>, gap: u64| { let n = b.len() as u64; writes.push((*at, b)); *at += n + gap };
        let skip = { let h = Msg::new().bytes(1, b"Vendor").v(3, SKIP as i64); let mut o = (h.0.len() as i32).to_be_bytes().to_vec(); o.extend_from_slice(&h.0); o };
        add(&mut at, header(), 0);
        for (i, end) in [(0, 0u64), (1, (2 << 30) + 1000), (2, (4 << 30) + 5)] { while at < end { add(&mut at, skip.clone(), SKIP) } add(&mut at, data(&block(&[""], &[plain_group(i % 3, ids[i])])), 0) }
        let p = dir().join("far.osm.pbf"); { let mut f = std::fs::File::create(&p).expect("scratch file"); f.set_len(at).expect("length"); for (o, b) in writes { f.seek(SeekFrom::Start(o)).expect("seek"); f.write_all(&b).expect("scratch file") } }
        let r = Reader::new(&p).expect("reader");
        match pick("way", 3) {
            0 => { let got: Vec<Element> = r.elements().expect("elements").collect(); check(got.len() == 3, "number of elements"); for (i, g) in got.iter().enumerate() { check(kind(g) == i && id_of(g) == ids[i], "element") } }
            1 => { let n = r.count_objects().expect("counts"); check(n == (1, 1, 1), "counts") }
            _ => { let n = r.blocks().expect("blocks").count(); check(n == 4, "number of blocks") }
        }
        std::fs::remove_file(&p).expect("remove"); reach(0);
    }
    // long files and long bodies
    fn c09_many() {
        let n = bound(60, 300); let kind_ = pick("kind", 2); let mut parts = vec![header()]; let mut want = vec![]; let base = int("id", -BIG, BIG / 2);
        for i in 0..n { let pad = "y".repeat(i * i * 7 % 40_000); let id = if i % 3 == 0 { base + i as i64 } else { i as i64 }; if i % 5 != 4 { want.push(id); } parts.push(data(&block(&["", &pad], &if i % 5 == 4 { vec![] } else { vec![plain_group(kind_, id)] }))); }
        let (_, r) = open(&parts); let got: Vec<Element> = r.elements().expect("elements").collect();
        check(got.len() == want.len(), "number of elements"); for (g, w) in got.iter().zip(&want) { check(id_of(g) == *w, "order of elements"); }
        reach(0);
    }
    // every storage variant, stated sizes right, absent or wrong
    fn c10_stores() {
        let id = int("id", -BIG, BIG); let b = block(&TABLE_, &[plain_group(pick("kind", 2), id)]); let n = b.0.len() as i64;
        let all = [Store::Raw, Store::RawSized, Store::Zlib, Store::ZlibUnsized, Store::None, Store::Lzma, Store::Bzip2, Store::Lz4, Store::Zstd]; let s = all[pick("store", 9)];
        let before = plain_group(0, 1); let first = data(&block(&[""], &[before]));
        let (_, r) = open(&[header(), first, frame("OSMData", None, &blob(s, &b.0))]);
        let got = catch(|| r.elements().expect("elements").collect::<Vec<Element>>());
        let good = matches!(s, Store::Raw | Store::RawSized | Store::Zlib | Store::ZlibUnsized);
        match got { Some(v) => { check(good, "a block that cannot be decoded is passed over"); check(v.len() == 2 && id_of(&v[1]) == id, "elements"); reach(0) } None => { check(!good, "a readable block is refused"); reach(1) } }
        let _ = n;
    }
    // foreign compressions and no data at all, with any content and any stated size
    fn c10_foreign() {
        let f = 3 + pick("field", 6) as u32; let content: Vec<u8> = match pick("content", 4) { 0 => vec![], 1 => vec![int("byte", 0, 255) as u8], 2 => plain_block(7), _ => zlib(&plain_block(7)) }; let size = [None, Some(0), Some(content.len() as i64), Some(1)][pick("stated size", 4)];
        assume(f != 3 || (content.len() < 2)); let m = Msg::new().opt(2, size); let m = if f == 8 { m } else { m.bytes(f, &content) };
        let (_, r) = open(&[header(), frame("OSMData", None, &m), data(&block(&[""], &[plain_group(0, 1)]))]);
        check(catch(|| r.elements().expect("elements").count()).is_none(), "a block that cannot be decoded is passed over"); reach(0);
    }
    // a raw block's content counts, whatever size is stated with it
    fn c10_raw() {
        let ids: Vec<i64> = vec![3, 17, 29]; let groups: Vec<Msg> = ids.iter().map(|i| plain_group(0, *i)).collect(); let b = block(&TABLE_, &groups); let n = b.0.len() as i64; let off = int("off", -60, 60);
        let (_, r) = open(&[header(), frame("OSMData", None, &Msg::new().bytes(1, &b.0).v(2, n + off))]);
        match catch(|| r.elements().expect("elements").collect::<Vec<Element>>()) { Some(v) => check(v.len() == 3 && v.iter().zip(&ids).all(|(e, i)| id_of(e) == *i), "misread"), None => check(off != 0, "a readable block is refused") } reach(0);
    }
    // the stated uncompressed size against the real one
    fn c10_size() {
        let ids: Vec<i64> = (0..3).map(|i| int(&format!("id{i}"), -BIG, BIG)).collect();
        let groups: Vec<Msg> = ids.iter().map(|i| plain_group(0, *i)).collect(); let b = block(&TABLE_, &groups); let n = b.0.len() as i64;
        let stated = match pick("stated", 3) { 0 => [100_000, -1, i32::MIN as i64, i32::MAX as i64 / 64, 0, 1][pick("far", 6)], 1 => n + int("off", -50, bound(40, 200) as i64), _ => int("size", i32::MIN as i64, i32::MAX as i64) };
        let m = Msg::new().v(2, stated).bytes(3, &zlib(&b.0));
        let (_, r) = open(&[header(), frame("OSMData", None, &m)]);
        match catch(|| r.elements().expect("elements").collect::<Vec<Element>>()) {
            Some(v) => { check(stated == n, "data of another size than stated is accepted"); check(v.len() == 3 && v.iter().zip(&ids).all(|(e, i)| id_of(e) == *i), "misread"); reach(0) }
            None => { check(stated != n, "a readable block is refused"); reach(1) }
        }
    }
    // damaged compressed data
    fn c10_damage() {
        let id = int("id", -BIG, BIG); let b = block(&TABLE_, &[plain_group(0, id)]); let z = zlib(&b.0);
        let cut = match pick("damage", 3) { 0 => vec![], 1 => z[..z.len() / 2].to_vec(), _ => vec![0x55; 40] };
        let (_, r) = open(&[header(), frame("OSMData", None, &Msg::new().v(2, b.0.len() as i64).bytes(3, &cut))]);
        check(catch(|| r.elements().expect("elements").count()).is_none(), "damaged data accepted"); reach(0);
    }
    // a cut at every position
    fn c27_cut() {
        let ids: Vec<i64> = (0..2).map(|i| int(&format!("id{i}"), 0, 63)).collect();
        let st = pick("store", 2);
        let parts: Vec<Vec<u8>> = std::iter::once(header()).chain(ids.iter().map(|i| { let b = block(&["", "t"], &[plain_group(0, *i)]); if st == 0 { data(&b) } else { frame("OSMData", Some(b"ix"), &blob(Store::Zlib, &b.0)) } })).collect();
        let mut all = vec![]; let mut edges = vec![]; for p in &parts { all.extend_from_slice(p); edges.push(all.len()); }
        let n = pick("cut", all.len()); all.truncate(n);
        let p = save("f.osm.pbf", &[all]);
        let how = pick("reader", 3);
        let got = catch(|| -> Result<usize, anyhow::Error> { let r = Reader::new(&p)?; if how == 0 { Ok(r.elements()?.count()) } else if how == 1 { let (a, b, c) = r.count_objects()?; Ok((a + b + c) as usize) } else { let k = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0)); let k2 = k.clone(); r.parallel_for_each(2, move |e| { if kind(&e) != 3 { k2.fetch_add(1, std::sync::atomic::Ordering::SeqCst); } Ok(()) })?; Ok(k.load(std::sync::atomic::Ordering::SeqCst)) } });
        match edges.iter().position(|e| *e == n) {
            Some(k) => { match got { Some(Ok(c)) => check(c == k, "complete blocks lost"), _ => fail("a file of whole blocks is refused") } reach(0) }
            None => { if let Some(Ok(_)) = got { fail("a truncated file reads as complete") } reach(1) }
        }
    }
    // any stated size of the blob or of its header
    fn c27_sizes() {
        let b = block(&["", "t"], &[plain_group(0, 7), plain_group(1, 8)]); let bl = blob(Store::Raw, &b.0); let n = bl.0.len() as i64;
        let which = pick("size of", 2); let d = if which == 0 { int("data size", -64, n + 40) } else { n };
        let h = Msg::new().bytes(1, b"OSMData").v(3, d); let hn = h.0.len() as i64; let hl = if which == 1 { int("header size", -4, hn + n + 40) } else { hn };
        let mut o = (hl as i32).to_be_bytes().to_vec(); o.extend_from_slice(&h.0); o.extend_from_slice(&bl.0); if coin("another block") { o.extend_from_slice(&data(&block(&[""], &[plain_group(0, 1)]))); } else { assume(d != 0 && hl != hn + n); }
        let two = o.len() as i64 > hn + n + 4; let p = save("f.osm.pbf", &[header(), o]);
        let got = catch(|| -> Result<usize, anyhow::Error> { Ok(Reader::new(&p)?.elements()?.take(10).count()) });
        if d == n && hl == hn { match got { Some(Ok(c)) => check(c == 2 + two as usize, "elements"), _ => fail("an intact file is refused") } reach(0) } else { if let Some(Ok(_)) = got { fail("a damaged file reads as complete") } reach(1) }
    }
    // inconsistent framing
    fn c27_framing() {
        let id = int("id", -BIG, BIG); let b = block(&["", "t"], &[plain_group(0, id)]); let bl = blob(Store::Raw, &b.0); let n = bl.0.len() as i64;
        let kind_ = pick("damage", 8);
        let h = |size: i64| Msg::new().bytes(1, b"OSMData").v(3, size);
        let raw = |h: &Msg, len: i32| { let mut o = len.to_be_bytes().to_vec(); o.extend_from_slice(&h.0); o.extend_from_slice(&bl.0); o };
        let hn = |h: &Msg| h.0.len() as i32;
        let good = h(n);
        let part = match kind_ {
            0 => raw(&good, hn(&good)), 1 => { let x = h(n + 1); raw(&x, hn(&x)) } 2 => { let x = h(n + 1_000_000); raw(&x, hn(&x)) } 3 => { let x = h(-1); raw(&x, hn(&x)) }
            4 => { let x = h(-(hn(&h(-30)) as i64) - 4); raw(&x, hn(&x)) } 5 => raw(&good, -1), 6 => raw(&good, hn(&good) + 100_000), _ => { let x = Msg::new().bytes(1, b"OSMData").v(3, n); let mut o = hn(&x).to_be_bytes().to_vec(); o.extend_from_slice(&vec![0xFF; x.0.len()]); o.extend_from_slice(&bl.0); o }
        };
        let p = save("f.osm.pbf", &[header(), data(&block(&[""], &[plain_group(0, 1)])), part]);
        let how = pick("reader", 2);
        let got = catch(|| -> Result<usize, anyhow::Error> { let r = Reader::new(&p)?; if how == 0 { Ok(r.elements()?.take(10).count()) } else { let (a, b, c) = r.count_objects()?; Ok((a + b + c) as usize) } });
        if kind_ == 0 { match got { Some(Ok(c)) => check(c == 2, "elements"), _ => fail("an intact file is refused") } reach(0) } else { if let Some(Ok(_)) = got { fail("a damaged file reads as complete") } reach(1) }
    }
}
