//! Faults of the file system: failing, short and interrupted writes and reads.
use crate::{gen::*, h_api, h_par::schedules_eager, h_pbf::*, sym::*};
use osm_io::osm::{apidb_dump, model::element::Element, pbf::{file_info::FileInfo, parallel_writer::ParallelWriter, reader::Reader, writer::Writer}};
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};

/// arms a fault at any of the next `n` operations of one kind; true when nothing may be lost by it
fn arm(n: usize, what: usize) -> bool { let at = 1 + pick("operation", n); let how = if what == 2 { pick("manner", 2) } else { pick("manner", 4) }; fault(what, at, how); how >= 2 }
/// what came out of writing with a fault armed; true when the file has to be complete
fn outcome<T>(got: Option<Result<T, anyhow::Error>>, harmless: bool) -> bool {
    let struck = faults() > 0; fault(0, 0, 0);
    match got { None => fail("a failing file system operation panics instead of returning an error"), Some(Err(_)) => { check(struck && !harmless, "an error without a failure"); reach(0); false } Some(Ok(_)) => { check(!struck || harmless, "a failed write is not reported"); reach(1); true } }
}
fn fields(n: usize) -> Vec<Element> { (0..n).map(|i| { let t = format!("n{i}"); let (_, _, c) = coord(&t); el_node(node(&meta(&t), c, "u", tags(&[("k", "v")]))) }).collect() }
fn holds(want: &[Element], got: &[Element]) { check(want.len() == got.len(), "number of elements"); for (a, b) in want.iter().zip(got) { same_element(a, b) } }
/// counts the elements of a file in one of several ways
fn counted(r: &Reader, how: usize) -> Result<usize, anyhow::Error> {
    let k = Arc::new(AtomicUsize::new(0)); let k2 = k.clone();
    match how {
        0 => Ok(r.elements()?.filter(|e| kind(e) < 3).count()),
        1 => { let (a, b, c) = r.count_objects()?; Ok((a + b + c) as usize) }
        2 => { r.parallel_for_each(2, move |e| { if kind(&e) < 3 { k2.fetch_add(1, SeqCst); } Ok(()) })?; Ok(k.load(SeqCst)) }
        _ => { let mut n = 0; for mut b in r.blocks()? { if let osm_io::osm::pbf::file_block::FileBlock::Data { data, .. } = &mut b { n += data.take_elements().iter().filter(|e| kind(e) < 3).count() } } Ok(n) }
    }
}

/// the order in which two parties take `a` and `b` steps
fn turns(a: usize, b: usize) -> Vec<usize> { let mut left = [a, b]; let mut o = vec![]; while left[0] + left[1] > 0 { let w = if left[0] == 0 { 1 } else if left[1] == 0 { 0 } else { pick("turn", 2) }; left[w] -= 1; o.push(w) } o }
fn ids(tag: &str, n: usize) -> Vec<i64> { (0..n).map(|i| int(&format!("{tag}{i}"), 100 * (i as i64 + 1), 100 * (i as i64 + 1) + 99)).collect() }
/// writes a block of its own
fn block(w: &mut Writer, els: Vec<Element>) { let p = write_file("block.osm.pbf", FileInfo::default(), false, els); let b = Reader::new(&p).expect("reader").blocks().expect("blocks").last().expect("block"); w.write_file_block(b).expect("written") }
fn has(p: &std::path::PathBuf, kind_: usize, want: &[i64]) { let got = read_file(p); check(got.len() == want.len(), "number of elements"); for (g, w) in got.iter().zip(want) { check(kind(g) == kind_ && id_of(g) == *w, "element of another file") } }

harnesses! {
    fn c31_readers() {
        let (a, b) = (ids("a", 3), ids("b", 2)); let mut r = vec![];
        for (name, k, l) in [("a.osm.pbf", 0, &a), ("b.osm.pbf", 1, &b)] { let (p, mut w) = writer(name, FileInfo::default(), k == 0); for i in l { block(&mut w, vec![plain(k, *i, 1)]) } w.close().expect("close"); r.push(Reader::new(&p).expect("reader")) }
        let mut its = [r[0].elements().expect("elements"), r[1].elements().expect("elements")]; let mut again = r[0].elements().expect("elements"); let mut at = [0, 0]; let third = pick("third", 3);
        for (step, w) in turns(4, 3).into_iter().enumerate() {
            let l = [&a, &b][w]; let g = its[w].next(); if at[w] < l.len() { check(g.is_some_and(|e| kind(&e) == w && id_of(&e) == l[at[w]]), "element of another iterator") } else { check(g.is_none(), "too many elements") } at[w] += 1;
            if step % 3 == third && step < 6 && step / 3 < 3 { let e = again.next(); check(e.is_some_and(|e| kind(&e) == 0 && id_of(&e) == a[step / 3]), "element of another iterator") }
        }
        for _ in 0..2 { let n: Vec<i64> = r[0].elements().expect("elements").map(|e| id_of(&e)).collect(); check(n.len() == 3 && n[0] == a[0] && n[1] == a[1] && n[2] == a[2], "a second iteration differs"); } reach(0)
    }
    fn c31_writers() {
        let l = [ids("a", 2), ids("b", 2)]; let (p, w) = writer("a.osm.pbf", FileInfo::default(), false); let (q, v) = writer("b.osm.pbf", FileInfo::default(), coin("zlib")); let mut w = [w, v]; let mut at = [0, 0];
        for t in turns(3, 3) { if at[t] < 2 { w[t].write_element(plain(t, l[t][at[t]], 1)).expect("element") } else { w[t].close().expect("close") } at[t] += 1 }
        has(&p, 0, &l[0]); has(&q, 1, &l[1]); reach(0)
    }
    fn c31_parallel() {
        schedules_eager(0);
        let l = [ids("a", 2), ids("b", 2)]; let ps = [dir().join("a.osm.pbf"), dir().join("b.osm.pbf")]; let mut w: Vec<ParallelWriter> = (0..2).map(|i| ParallelWriter::from_file_info(2 + i, 1 + i, ps[i].clone(), FileInfo::default(), compression(i == 1)).expect("writer")).collect(); let mut at = [0, 0];
        for t in turns(4, 4) { match at[t] { 0 => w[t].write_header().expect("header"), 3 => check(w[t].close().is_ok(), "close"), _ => w[t].write_element(plain(t, l[t][at[t] - 1], 1)).expect("element") } at[t] += 1 }
        drop(w); for i in 0..2 { has(&ps[i], i, &l[i]) } reach(0)
    }
    fn c31_dumps() {
        let l = [ids("a", 2), ids("b", 2)]; let ds = [dir().join("dump"), dir().join("other")]; let ks = [pick("kind", 3), 0];
        let els: Vec<Vec<Element>> = (0..2).map(|i| l[i].iter().map(|x| h_api::plain_rows(ks[i], *x, i + 1)).collect()).collect();
        let mut w: Vec<apidb_dump::write::writer::Writer> = ds.iter().map(|d| apidb_dump::write::writer::Writer::new(d.clone(), 0).expect("writer")).collect(); let mut at = [0, 0];
        for t in turns(3, 3) { if at[t] < 2 { w[t].write_element(els[t][at[t]].clone()).expect("element") } else { w[t].close().expect("close") } at[t] += 1 }
        for i in 0..2 { h_api::history_holds(&ds[i], &els[i]); h_api::current_holds(&ds[i], &els[i]) } reach(0)
    }
    fn c31_dump_readers() {
        let l = [ids("a", 2), ids("b", 2)]; let els: Vec<Vec<Element>> = (0..2).map(|i| l[i].iter().map(|x| h_api::plain_rows(2 * i, *x, 1)).collect()).collect();
        let mut rs = vec![]; for i in 0..2 { let d = h_api::dump_at(if i == 0 { "dump" } else { "other" }, &els[i]); let t = dir().join(format!("tmp{i}")); std::fs::create_dir_all(&t).expect("tmp"); rs.push(apidb_dump::read::reader::Reader::new(d, t).expect("reader")) }
        let mut its = [rs[0].elements().expect("elements"), rs[1].elements().expect("elements"), rs[0].elements().expect("elements")]; let mut got: Vec<Vec<Element>> = vec![vec![], vec![], vec![]]; let mut over = [false; 3]; let order = pick("order", 6);
        while over.iter().any(|x| !x) { for k in 0..3 { let i = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order][k]; match its[i].next() { Some(e) => { if kind(&e) < 3 { got[i].push(e) } } None => over[i] = true } } }
        for (i, g) in got.iter().enumerate() { let w = &els[i % 2]; check(g.len() == 2, "number of elements"); for (a, b) in w.iter().zip(g) { same_element(a, b) } } reach(0)
    }
    // a file or a dump that was there before
    fn c31_again() {
        schedules_eager(0); let k = pick("old kind", 3); let old: Vec<Element> = ids("old", 3).iter().map(|i| h_api::plain_rows(k, *i, 40)).collect(); let new = vec![h_api::plain_rows(pick("kind", 3), int("id", 100, 999), 2)];
        match pick("writer", 3) {
            0 => { let p = write_file("f.osm.pbf", FileInfo::default(), false, old.clone()); has(&p, kind(&old[0]), &old.iter().map(id_of).collect::<Vec<_>>()); let p = write_file("f.osm.pbf", FileInfo::default(), false, new.clone()); holds(&new, &read_file(&p)) }
            1 => { let p = write_file("f.osm.pbf", FileInfo::default(), false, old); let mut w = ParallelWriter::from_file_info(2, 1, p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header"); w.write_elements(new.clone()).expect("elements"); check(w.close().is_ok(), "close"); drop(w); holds(&new, &read_file(&p)) }
            _ => { h_api::dump_at("dump", &old); let d = h_api::dump_at("dump", &new); h_api::history_holds(&d, &new); h_api::current_holds(&d, &new); h_api::unrelated_empty(&d) }
        }
        reach(0)
    }
    fn c29_pbf() {
        let els = fields(2); let p = dir().join("f.osm.pbf"); let how = pick("api", 2); let zlib = coin("zlib"); let e = els.clone(); let q = p.clone();
        let harmless = arm(12, pick("kind of operation", 2) * 2);
        let got = catch(move || -> Result<(), anyhow::Error> {
            let mut w = Writer::from_file_info(q, FileInfo::default(), compression(zlib))?; w.write_header()?;
            if how == 0 { for x in e { w.write_element(x)?; } } else { for x in e { w.write_elements(vec![x])?; } }
            w.close()
        });
        if outcome(got, harmless) { holds(&els, &read_file(&p)) }
    }
    // blocks that fill up while elements are added
    fn c29_full() {
        let p = dir().join("f.osm.pbf"); let n = 8001; let last = int("id", -BIG, BIG);
        let (_, mut w) = writer("f.osm.pbf", FileInfo::default(), false); let harmless = arm(7, 0);
        let got = catch(move || -> Result<(), anyhow::Error> { for i in 0..n { w.write_element(plain(0, if i == n - 1 { last } else { i as i64 }, 1))?; } w.close() });
        if outcome(got, harmless) { let g = read_file(&p); check(g.len() == n, "number of elements"); check(id_of(&g[n - 1]) == last, "element") }
    }
    fn c29_parallel() {
        schedules_eager(0); let els = fields(3); let p = dir().join("f.osm.pbf"); let blk = 1 + pick("block", 2); let batch = coin("batch"); let e = els.clone(); let q = p.clone();
        for i in 1..3 { assume(id_of(&els[i - 1]) < id_of(&els[i])) }
        let harmless = arm(14, pick("kind of operation", 2) * 2);
        let got = catch(move || -> Result<(), anyhow::Error> {
            let mut w = ParallelWriter::from_file_info(2, blk, q, FileInfo::default(), compression(false))?; w.write_header()?;
            if batch { w.write_elements(e)?; } else { for x in e { w.write_element(x)?; } }
            w.close()
        });
        if outcome(got, harmless) { holds(&els, &read_file(&p)) }
    }
    fn c29_dump() {
        let d = dir().join("dump"); let kind = pick("kind", 3); let long = coin("long");
        let e = h_api::plain_rows(kind, int("id", 100, 999), if long { 9_000 } else { 3 }); let e2 = e.clone(); let d2 = d.clone();
        let harmless = arm(bound(64, 64), pick("kind of operation", 2) * 2);
        let got = catch(move || -> Result<(), anyhow::Error> { let mut w = apidb_dump::write::writer::Writer::new(d2, 0)?; w.write_element(e2)?; w.close() });
        if outcome(got, harmless) { h_api::history_holds(&d, &[e]) }
    }
    // the files behind the indexes of users and changesets cannot grow from the start or from closing on
    fn c29_index() {
        let d = dir().join("dump"); let e = h_api::plain_rows(pick("kind", 3), int("id", 100, 999), 3); let early = coin("early"); let armed = coin("armed"); let e2 = e.clone(); let d2 = d.clone();
        let got = catch(move || -> Result<(), anyhow::Error> { if armed && early { fault(3, 1, 1) } let mut w = apidb_dump::write::writer::Writer::new(d2, 0)?; w.write_element(e2)?; if armed && !early { fault(3, 1, 1) } w.close() });
        if outcome(got, false) { h_api::history_holds(&d, &[e]) }
    }
    fn c30_pbf() {
        schedules_eager(0);
        let els = fields(2); let p = write_file("f.osm.pbf", FileInfo::default(), coin("zlib"), els.clone());
        let how = pick("reader", 4); let what = 1 + pick("kind of operation", 2); let r = Reader::new(&p).expect("reader"); let harmless = arm(if what == 1 { 14 } else { 3 }, what);
        let got = catch(|| counted(&r, how)); let struck = faults() > 0; fault(0, 0, 0);
        match got { Some(Ok(n)) => { check(n == 2, "a failing read passes for the end of the file"); reach(0) } _ => { check(struck && !harmless, "an error without a failure"); reach(1) } }
    }
    fn c30_blocks() {
        schedules_eager(0);
        // several blocks, some of which are read before the failure
        let n = bound(3, 6); let (p, mut w) = writer("f.osm.pbf", FileInfo::default(), false); for i in 0..n { block(&mut w, vec![plain(0, int("id", 0, 60) + i as i64, 1); 2]) } w.close().expect("close");
        let how = pick("reader", 4); let r = Reader::new(&p).expect("reader"); let harmless = arm(4 * n + 6, 1);
        let got = catch(|| counted(&r, how)); let struck = faults() > 0; fault(0, 0, 0);
        match got { Some(Ok(k)) => { check(k == 2 * n, "a failing read passes for the end of the file"); reach(0) } _ => { check(struck && !harmless, "an error without a failure"); reach(1) } }
    }
    fn c30_open() {
        let p = write_file("f.osm.pbf", FileInfo::default(), coin("zlib"), fields(1)); let harmless = arm(8, 1 + pick("kind of operation", 2));
        let got = catch(|| -> Result<usize, anyhow::Error> { let r = Reader::new(&p)?; counted(&r, 0) }); let struck = faults() > 0; fault(0, 0, 0);
        match got { Some(Ok(n)) => { check(n == 1, "a failing read passes for the end of the file"); reach(0) } _ => { check(struck && !harmless, "an error without a failure"); reach(1) } }
    }
    fn c30_dump() {
        let kind_ = pick("kind", 3); let e = h_api::plain_rows(kind_, int("id", 100, 999), 3); let d = h_api::dump_of(&[e.clone(), h_api::plain_rows(2, 5_000, 2)]);
        let t = dir().join("tmp"); std::fs::create_dir_all(&t).expect("tmp");
        let r = apidb_dump::read::reader::Reader::new(d, t).expect("reader"); let harmless = arm(bound(30, 40), 1 + pick("kind of operation", 2));
        let got = catch(|| -> Result<Vec<Element>, anyhow::Error> { Ok(r.elements()?.filter(|e| kind(e) < 3).collect()) }); let struck = faults() > 0; fault(0, 0, 0);
        match got { Some(Ok(v)) => { check(v.len() == 2, "a failing read passes for the end of a table"); same_element(&e, &v[0]); reach(0) } _ => { check(struck && !harmless, "an error without a failure"); reach(1) } }
    }
}
