//! The thread pools: parallel iteration, counting, bounding boxes, the parallel writer, accumulators.
use crate::{enc::*, gen::*, h_pbf::{blocks_hold, compression}, sym::*};
use osm_io::osm::{model::{bounding_box::BoundingBox, coordinate::Coordinate, element::Element}, pbf::{bounding_box_calculator::BoundingBoxCalculator, file_info::FileInfo, parallel_writer::ParallelWriter, reader::Reader, thread_local_accumulator::ThreadLocalAccumulator}};
use std::path::PathBuf;
use std::sync::{atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst}, Arc, Mutex};
use std::thread::ThreadId;

/// how many voluntary switches between threads are explored
#[cfg(feature = "stubbed")] pub fn schedules(budget: u64) { command_executor::sched::configure(budget, false) }
#[cfg(feature = "stubbed")] pub fn schedules_eager(budget: u64) { command_executor::sched::configure(budget, true) }
/// schedules that also switch where the code under test loads or stores an atomic or takes a lock
#[cfg(feature = "stubbed")] pub fn schedules_inside(budget: u64) { command_executor::sched::configure(budget, true); command_executor::sched::hooks(true) }
#[cfg(not(feature = "stubbed"))] pub fn schedules_inside(_: u64) {}
#[cfg(feature = "stubbed")] pub fn switch() { command_executor::sched::yield_point() }
#[cfg(feature = "stubbed")] fn wait_for(p: &std::sync::atomic::AtomicU32) { command_executor::sched::wait_for(p) }
#[cfg(not(feature = "stubbed"))] fn wait_for(_: &std::sync::atomic::AtomicU32) {}
/// runs `f` under a lock that the explored schedules know about
pub struct Gate<T>(std::sync::atomic::AtomicU32, Mutex<T>);
impl<T> Gate<T> {
    pub fn new(t: T) -> Gate<T> { Gate(std::sync::atomic::AtomicU32::new(0), Mutex::new(t)) }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R { wait_for(&self.0); let mut g = self.1.lock().unwrap(); self.0.store(1, SeqCst); let r = f(&mut g); self.0.store(0, SeqCst); drop(g); r }
}
#[cfg(not(feature = "stubbed"))] pub fn schedules(_: u64) {}
#[cfg(not(feature = "stubbed"))] pub fn schedules_eager(_: u64) {}
#[cfg(not(feature = "stubbed"))] pub fn switch() { std::thread::yield_now() }

/// a node of its own without metadata, one that says it is a deleted version, or a dense node, by its id
fn node_group(id: i64, lat: i64, lon: i64) -> Msg {
    let deleted = Msg::new().v(1, 2).v(2, 77).v(3, 5).v(6, 0);
    match id % 3 { 0 => Msg::new().msg(1, &Msg::new().z(1, id).z(8, lat).z(9, lon)), 1 => Msg::new().msg(1, &Msg::new().z(1, id).msg(4, &deleted).z(8, lat).z(9, lon)), _ => crate::h_spec::dense(&[id], &[lat], &[lon], None, &[]) }
}
/// a file of blocks, each with these (kind, id) groups
fn file(blocks: &[Vec<(usize, i64)>]) -> PathBuf { let mut parts = vec![header()]; for b in blocks { let g: Vec<Msg> = b.iter().map(|(k, i)| plain_group(*k, *i)).collect(); parts.push(data(&block(&["", "r"], &g))); } save("f.osm.pbf", &parts) }
/// an element with metadata, tags and position of any values; ids may repeat
fn rich(kind: usize, id: i64, t: &str) -> Msg {
    let info = Msg::new().v(1, int(&format!("{t}.version"), 0, i32::MAX as i64)).v(2, int(&format!("{t}.ts"), -1 << 40, 1 << 40)).v(3, int(&format!("{t}.changeset"), 0, BIG)).v(4, int(&format!("{t}.uid"), -1, i32::MAX as i64)).v(5, 2).v(6, int(&format!("{t}.visible"), 0, 1));
    match kind { 0 => Msg::new().msg(1, &Msg::new().z(1, id).packed(2, &[1]).packed(3, &[2]).msg(4, &info).z(8, int(&format!("{t}.lat"), -LAT, LAT)).z(9, int(&format!("{t}.lon"), -LON, LON))), 1 => Msg::new().msg(3, &Msg::new().v(1, id).packed(2, &[1]).packed(3, &[2]).msg(4, &info).packed_z(8, &[int(&format!("{t}.ref"), -BIG, BIG), 1])), _ => Msg::new().msg(4, &Msg::new().v(1, id).packed(2, &[1]).packed(3, &[2]).msg(4, &info).packed(8, &[1]).packed_z(9, &[int(&format!("{t}.member"), -BIG, BIG)]).packed(10, &[id % 3])) }
}
/// blocks of such elements: each list holds the kinds of one block, ids count from 1
fn rich_file(l: &[Vec<usize>]) -> PathBuf { let mut parts = vec![header()]; let mut id = 0; for b in l { let g: Vec<Msg> = b.iter().map(|k| { id += 1; rich(*k, id, &format!("e{id}")) }).collect(); parts.push(data(&block(&["", "k", "v"], &g))); } save("f.osm.pbf", &parts) }
fn layout(max_blocks: usize, max_els: usize, kinds: bool) -> Vec<Vec<(usize, i64)>> {
    let n = pick("blocks", max_blocks + 1); let mut id = 0;
    (0..n).map(|_| { let k = pick("elements", max_els + 1); (0..k).map(|_| { id += 1; (if kinds { pick("kind", 3) } else { id as usize % 3 }, int(&format!("id{id}"), id * 1000, id * 1000 + 999)) }).collect() }).collect()
}

harnesses! {
    fn c11_each() {
        schedules(bound(1, 2) as u64);
        let l = layout(bound(2, 3), bound(2, 2), false); let p = file(&l); let r = Reader::new(&p).expect("reader");
        let got: Arc<Mutex<Vec<(ThreadId, usize, i64)>>> = Arc::new(Mutex::new(vec![])); let g2 = got.clone();
        let over = Arc::new(AtomicBool::new(false)); let o2 = over.clone(); let late = Arc::new(AtomicBool::new(false)); let l2 = late.clone();
        let tasks = 1 + pick("tasks", bound(2, 3));
        let res = r.parallel_for_each(tasks, move |e| { switch(); if o2.load(SeqCst) { l2.store(true, SeqCst); } g2.lock().unwrap().push((std::thread::current().id(), kind(&e), if e.is_sentinel() { 0 } else { id_of(&e) })); Ok(()) });
        over.store(true, SeqCst); check(res.is_ok(), "an intact file fails"); check(!late.load(SeqCst), "delivered after the call");
        let got = got.lock().unwrap(); let mut left: Vec<&Vec<(usize, i64)>> = l.iter().collect(); let mut seen_: Vec<ThreadId> = vec![];
        for (t, _, _) in got.iter() { if !seen_.contains(t) { seen_.push(*t); } }
        check(seen_.len() <= tasks, "more threads than asked for");
        for t in seen_ {
            let mut seg = vec![];
            for (_, k, i) in got.iter().filter(|x| x.0 == t) {
                if *k == 3 { match left.iter().position(|b| b.len() == seg.len() && b.iter().zip(&seg).all(|(x, y): (&(usize, i64), &(usize, i64))| x.0 == y.0 && x.1 == y.1)) { Some(x) => { left.remove(x); } None => fail("a sentinel without its block, or a block delivered twice") } seg = vec![]; } else { seg.push((*k, *i)); }
            }
            check(seg.is_empty(), "elements without a sentinel");
        }
        check(left.is_empty(), "blocks not delivered"); observe(got.len() as i64); reach(0); if l.len() > 1 && tasks > 1 { reach(1); }
    }
    // whatever the elements hold, the callback gets what sequential iteration yields
    fn c11_content() {
        schedules_eager(1);
        let p = rich_file(&(0..1 + pick("blocks", 2)).map(|_| (0..1 + pick("elements", 2)).map(|_| pick("kind", 3)).collect()).collect::<Vec<_>>()); let r = Reader::new(&p).expect("reader");
        let want: Vec<Element> = r.elements().expect("elements").collect(); let got: Arc<Mutex<Vec<Element>>> = Arc::new(Mutex::new(vec![])); let g2 = got.clone();
        check(r.parallel_for_each(2, move |e| { if !e.is_sentinel() { g2.lock().unwrap().push(e); } Ok(()) }).is_ok(), "an intact file fails");
        let got = got.lock().unwrap(); check(got.len() == want.len(), "number of elements");
        for w in &want { match got.iter().find(|g| id_of(g) == id_of(w)) { Some(g) => same_element(w, g), None => fail("an element is missing") } } reach(0);
    }
    // many elements in a block
    fn c11_big() {
        schedules_eager(0);
        let n = bound(20_000, 140_000); let id = int("id", 0, 1000); let sizes = if coin("first") { [n, 2] } else { [3, n] }; let l: Vec<Vec<(usize, i64)>> = sizes.iter().enumerate().map(|(b, k)| (0..*k).map(|i| (i % 3, if i + 1 == *k { id } else { (b * n + i) as i64 * 1000 })).collect()).collect();
        let p = file(&l); let r = Reader::new(&p).expect("reader"); let got: Arc<Mutex<Vec<i64>>> = Arc::new(Mutex::new(vec![])); let g2 = got.clone();
        check(r.parallel_for_each(2, move |e| { g2.lock().unwrap().push(if e.is_sentinel() { -1 } else { id_of(&e) }); Ok(()) }).is_ok(), "an intact file fails");
        let got = got.lock().unwrap(); check(got.len() == sizes[0] + sizes[1] + 2, "number of calls"); let mut at = 0;
        for _ in 0..2 { let Some(k) = got[at..].iter().position(|x| *x == -1) else { fail("sentinels") }; let Some(b) = sizes.iter().position(|s| *s == k) else { fail("elements of a block") }; for i in 0..k { check(got[at + i] == l[b][i].1, "elements") } at += k + 1 } reach(0);
    }
    // more blocks than the queue holds, and more workers than blocks
    fn c11_queue() {
        schedules_eager(0);
        let n = [1030, 2, 0][pick("blocks", 3)]; let id = int("id", 0, 1000); let l: Vec<Vec<(usize, i64)>> = (0..n).map(|i| vec![(i % 3, if i % 500 == 1 { id } else { i as i64 })]).collect();
        let p = file(&l); let r = Reader::new(&p).expect("reader"); let c = Arc::new(Mutex::new((0usize, 0usize, 0i64))); let c2 = c.clone();
        check(r.parallel_for_each([1, 4, 9][pick("tasks", 3)], move |e| { let mut g = c2.lock().unwrap(); if e.is_sentinel() { g.1 += 1 } else { g.0 += 1; g.2 += id_of(&e) } Ok(()) }).is_ok(), "an intact file fails");
        let g = c.lock().unwrap(); check(g.0 == n && g.1 == n, "number of calls"); check(g.2 == l.iter().map(|b| b[0].1).sum::<i64>(), "elements"); reach(0);
    }
    // counted whatever they hold
    fn c12_content() {
        schedules_eager(0);
        let l: Vec<Vec<usize>> = (0..1 + pick("blocks", 2)).map(|_| (0..pick("elements", 3)).map(|_| pick("kind", 3)).collect()).collect(); let p = rich_file(&l);
        let want = |k: usize| l.iter().flatten().filter(|x| **x == k).count() as i64;
        match Reader::new(&p).expect("reader").count_objects() { Ok((a, b, c)) => { check(a == want(0), "number of nodes"); check(b == want(1), "number of ways"); check(c == want(2), "number of relations") } Err(_) => fail("an intact file fails") } reach(0);
    }
    // the same, with the workers interrupted inside the code that counts
    fn c12_race() {
        schedules_inside(bound(2, 3) as u64);
        let n = 1 + pick("blocks", bound(2, 3)); let l: Vec<Vec<(usize, i64)>> = (0..n).map(|i| (0..2).map(|j| (pick("kind", 3), (2 * i + j) as i64)).collect()).collect(); let p = file(&l); let r = Reader::new(&p).expect("reader");
        let want = |k: usize| l.iter().flatten().filter(|x| x.0 == k).count() as i64;
        match r.count_objects() { Ok((a, b, c)) => { check(a == want(0), "number of nodes"); check(b == want(1), "number of ways"); check(c == want(2), "number of relations"); observe(a); observe(b); observe(c) } Err(_) => fail("an intact file fails") }
        reach(0); if n > 1 { reach(1); }
    }
    fn c12_count() {
        schedules(bound(1, 2) as u64);
        let l = layout(bound(2, 3), 2, true); let p = file(&l); let r = Reader::new(&p).expect("reader");
        let want = |k: usize| l.iter().flatten().filter(|x| x.0 == k).count() as i64;
        match r.count_objects() { Ok((a, b, c)) => { check(a == want(0), "number of nodes"); check(b == want(1), "number of ways"); check(c == want(2), "number of relations"); observe(a); observe(b); observe(c) } Err(_) => fail("an intact file fails") }
        let mut n = [0i64; 3]; for e in r.elements().expect("elements") { n[kind(&e)] += 1; } check((0..3).all(|k| n[k] == want(k)), "sequential iteration disagrees");
        reach(0); if l.len() > 1 { reach(1); }
    }
    // many blocks of many elements, dense ones included
    fn c12_many() {
        schedules_eager(0);
        let n = bound(40, 200); let id = int("id", 0, 1000); let mut parts = vec![header()]; let mut want = [0i64; 3];
        for i in 0..n { let k = i % 7; let mut g = vec![]; for j in 0..k { g.push(plain_group(j % 3, id + j as i64)); want[j % 3] += 1; } if i % 2 == 0 { g.push(Msg::new().msg(2, &Msg::new().packed_z(1, &[id, 1, 1]).packed_z(8, &[1, 1, 1]).packed_z(9, &[1, 1, 1]))); want[0] += 3; } parts.push(data(&block(&["", "r"], &g))); }
        let p = save("f.osm.pbf", &parts); let (a, b, c) = Reader::new(&p).expect("reader").count_objects().expect("counts"); check(a == want[0] && b == want[1] && c == want[2], "counts"); reach(0);
    }
    // many elements in a block and many blocks
    fn c12_big() {
        schedules_eager(0);
        let n = bound(20_000, 140_000); let id = int("id", 0, BIG); let mut parts = vec![header()]; let mut want = [0i64; 3]; let k = pick("kind", 4);
        let mut g = vec![]; for i in 0..n { let kd = if k == 3 { i % 3 } else { k }; want[kd] += 1; g.push(plain_group(kd, if i % 5000 == 0 { id } else { i as i64 })) } parts.push(data(&block(&["", "r"], &g)));
        for i in 0..bound(1100, 3000) { let kd = i % 3; want[kd] += 1; parts.push(data(&block(&["", "r"], &[plain_group(kd, i as i64)]))) }
        let p = save("f.osm.pbf", &parts); let (a, b, c) = Reader::new(&p).expect("reader").count_objects().expect("counts"); check(a == want[0] && b == want[1] && c == want[2], "counts"); reach(0);
    }
    fn c16_big() {
        schedules_eager(0);
        let n = bound(20_000, 70_000); let at = [0, 7999, 8000, n - 1][pick("place", 4)]; let (la, lo) = (int("lat", -LAT, LAT), int("lon", -LON, LON)); let blocks = coin("blocks"); let n = if blocks { 1100 } else { n }; let at = at.min(n - 1);
        let g: Vec<Msg> = (0..n).map(|i| if i == at { node_group(i as i64, la, lo) } else { node_group(i as i64, 10_000_000, 20_000_000) }).collect(); let mut parts = vec![header()]; if blocks { for m in g { parts.push(data(&block(&["", "r"], &[m]))) } } else { parts.push(data(&block(&["", "r"], &g))) }
        let p = save("f.osm.pbf", &parts); let f = |v: i64| v as f64 / 1e7; let (a, o) = (f(la), f(lo)); let want = (o.min(2.0), a.min(1.0), o.max(2.0), a.max(1.0));
        match BoundingBoxCalculator::new(&p).calc() { Ok(b) => same(&b, want.0, want.1, want.2, want.3), Err(_) => fail("no box for a file with nodes") }
        if !blocks { for b in Reader::new(&p).expect("reader").blocks().expect("blocks") { if let osm_io::osm::pbf::file_block::FileBlock::Data { data, .. } = &b { match data.recompute_bounding_box() { Some(b) => same(&b, want.0, want.1, want.2, want.3), None => fail("no box for a block with nodes") } } } } reach(0);
    }
    fn c16_box() {
        schedules(1);
        let n = pick("blocks", bound(3, 4)); let mut parts = vec![header()]; let mut pts = vec![]; let mut id = 0;
        for _ in 0..n { let mut g = vec![]; for _ in 0..pick("elements", 3) { id += 1; if pick("kind", 2) == 0 { let (la, lo) = (int(&format!("lat{id}"), -LAT, LAT), int(&format!("lon{id}"), -LON, LON)); g.push(node_group(id, la, lo)); pts.push((la, lo)); } else { g.push(plain_group(1 + id as usize % 2, id)); } } parts.push(data(&block(&["", "r"], &g))); }
        let p = save("f.osm.pbf", &parts);
        match BoundingBoxCalculator::new(&p).calc() {
            Ok(b) => { check(!pts.is_empty(), "a box without nodes"); let f = |v: i64| v as f64 / 1e7; same(&b, f(pts.iter().map(|x| x.1).min().unwrap()), f(pts.iter().map(|x| x.0).min().unwrap()), f(pts.iter().map(|x| x.1).max().unwrap()), f(pts.iter().map(|x| x.0).max().unwrap())); reach(0) }
            Err(_) => { check(pts.is_empty(), "no box for a file with nodes"); reach(1) }
        }
    }
    // the box of each block
    fn c16_block() {
        let n = 1 + pick("blocks", bound(2, 3)); let mut parts = vec![header()]; let mut pts: Vec<Vec<(i64, i64)>> = vec![]; let mut id = 0;
        for j in 0..n { let mut g = vec![]; let mut l = vec![]; for _ in 0..pick("elements", if j == 0 { bound(4, 5) } else { 2 }) { id += 1; if coin("node") { let (la, lo) = (int(&format!("lat{id}"), -LAT, LAT), int(&format!("lon{id}"), -LON, LON)); g.push(node_group(id, la, lo)); l.push((la, lo)); } else { g.push(plain_group(1 + id as usize % 2, id)); } } pts.push(l); parts.push(data(&block(&["", "r"], &g))); }
        let p = save("f.osm.pbf", &parts); let mut at = 0;
        for b in Reader::new(&p).expect("reader").blocks().expect("blocks") {
            let osm_io::osm::pbf::file_block::FileBlock::Data { data, .. } = &b else { continue }; let l = &pts[at]; at += 1; let f = |v: i64| v as f64 / 1e7;
            for got in [data.compute_bounding_box(), data.recompute_bounding_box()] { match got { Some(b) => { check(!l.is_empty(), "a box without nodes"); same(&b, f(l.iter().map(|x| x.1).min().unwrap()), f(l.iter().map(|x| x.0).min().unwrap()), f(l.iter().map(|x| x.1).max().unwrap()), f(l.iter().map(|x| x.0).max().unwrap())); reach(0) } None => { check(l.is_empty(), "no box for a block with nodes"); reach(1) } } }
        }
        check(at == n, "number of blocks");
    }
    // the same, with the workers interrupted where they take locks
    fn c16_race() {
        schedules_inside(bound(2, 3) as u64);
        let n = 2 + pick("blocks", bound(1, 2)); let mut parts = vec![header()]; let mut pts = vec![];
        for i in 0..n { let (la, lo) = (int(&format!("lat{i}"), -LAT, LAT), int(&format!("lon{i}"), -LON, LON)); pts.push((la, lo)); parts.push(data(&block(&["", "r"], &[node_group(i as i64, la, lo)]))); }
        let p = save("f.osm.pbf", &parts);
        match BoundingBoxCalculator::new(&p).calc() {
            Ok(b) => { let f = |v: i64| v as f64 / 1e7; same(&b, f(pts.iter().map(|x| x.1).min().unwrap()), f(pts.iter().map(|x| x.0).min().unwrap()), f(pts.iter().map(|x| x.1).max().unwrap()), f(pts.iter().map(|x| x.0).max().unwrap())); reach(0) }
            Err(_) => fail("no box for a file with nodes")
        }
    }
    // what the parallel writer closes successfully is sorted and complete; within the buffer's reach it never refuses
    fn c13_small() { par_write(0) }
    fn c13_batches() { par_write(1) }
    fn c13_kinds() { par_write(2) }
    // contents survive
    fn c13_content() {
        schedules_eager(0);
        let (_, _, c) = coord("n"); let m = meta("n"); let m2 = meta("w"); let m3 = meta("r");
        let els = vec![el_node(node(&m, c, "alice", tags(&[("highway", "residential"), ("name", "Ż")]))), el_way(way(&m2, "bob", vec![int("ref0", -BIG, BIG), int("ref1", -BIG, BIG)], tags(&[("a", "b")]))), el_rel(relation(&m3, "", vec![member(pick("type", 3), int("m", -BIG, BIG), "outer"), member(0, 5, "")], vec![]))];
        let p = dir().join("o.osm.pbf"); let mut w = ParallelWriter::from_file_info(100, 10, p.clone(), FileInfo::default(), compression(coin("zlib"))).expect("writer"); w.write_header().expect("header");
        let ord = [[0, 1, 2], [2, 1, 0], [1, 2, 0]][pick("order", 3)];
        if coin("batch") { w.write_elements(ord.iter().map(|i| els[*i].clone()).collect()).expect("elements"); } else { for i in ord { w.write_element(els[i].clone()).expect("element"); } }
        check(w.close().is_ok(), "close"); drop(w);
        let got: Vec<Element> = Reader::new(&p).expect("reader").elements().expect("elements").collect(); check(got.len() == 3, "number of elements"); for (a, b) in els.iter().zip(&got) { same_element(a, b); }
        reach(0);
    }
    // long streams through small buffers, with schedules of the encoding threads
    fn c13_long() {
        schedules_eager(bound(2, 3) as u64);
        let n = bound(5, 7); let first = int("id", 0, 1000); let p = dir().join("o.osm.pbf");
        let mut w = ParallelWriter::from_file_info(1 + pick("buffer", 2), 1 + pick("block", 2), p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header");
        let mut want = vec![]; for i in 0..n { let k = i / 2 % 3; let k = if i >= 4 { 2 } else { k }; want.push((k, first + i as i64)); w.write_element(plain(k, first + i as i64, 1)).expect("element"); }
        check(w.close().is_ok(), "close"); drop(w); blocks_hold(&p, &want, 2); reach(0);
    }
    // a long stream, every element possibly out of order with its neighbours, through small buffers
    fn c13_stream() {
        schedules_eager(0);
        let n = bound(8, 10); let buf = 1 + pick("buffer", bound(2, 3)); let blk = 1 + pick("block", 2); let batch = 1 + pick("batch", 3); let kinds = coin("kinds");
        let mut els: Vec<(usize, i64, i32)> = (0..n).map(|i| { let i2 = 2 * i as i64; (if kinds { i * 3 / n } else { 0 }, if i % 4 == 3 { i2 + 1 } else { int(&format!("id{i}"), i2, i2 + 3) }, 1) }).collect();
        let p = dir().join("o.osm.pbf"); let mut w = ParallelWriter::from_file_info(buf + batch - 1 + blk, blk, p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header");
        for c in els.chunks(batch) { let l: Vec<Element> = c.iter().map(|e| plain(e.0, e.1, e.2)).collect(); if batch == 1 { w.write_element(l[0].clone()).expect("element"); } else { w.write_elements(l).expect("elements"); } }
        check(w.close().is_ok(), "close fails although the disorder fits the buffer"); drop(w);
        els.sort(); holds(&p, &els, blk); reach(0);
    }
    // one encoding thread far behind the others
    fn c13_window() {
        schedules_eager(bound(1, 2) as u64);
        let n = bound(9, 12); let first = int("id", 0, 1000); let p = dir().join("o.osm.pbf");
        let mut w = ParallelWriter::from_file_info(1, 1, p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header");
        let want: Vec<(usize, i64)> = (0..n).map(|i| (i / 7, first + i as i64)).collect(); for (k, i) in &want { w.write_element(plain(*k, *i, 1)).expect("element"); }
        check(w.close().is_ok(), "close"); drop(w); blocks_hold(&p, &want, 1); reach(0);
    }
    // usual sizes: blocks of 8000, a long buffer, neighbourhoods in reverse order
    fn c13_big() {
        schedules_eager(0);
        let (n, buf, kinds, turn, batch) = [(8001usize, 8100usize, false, 100usize, 1usize), (16_001, 9000, true, 100, 8000), (8001, 20_000, true, 100, 1), (16_000, 1, false, 1, 10_007), (24_000, 8100, true, 100, 1), (24_000, 20_000, false, 100, 8000), (16_001, 8000, false, 1, 1)][pick("shape", bound(4, 7))];
        let at = [n - 1, 7999][pick("place", 2)]; let x = int("id", 2 * at as i64 - 1, 2 * at as i64 + 1); let mut want: Vec<(usize, i64, i32)> = (0..n).map(|i| (if kinds { 3 * i / n } else { 0 }, if i == at { x } else { 2 * i as i64 }, 1)).collect();
        let mut els = want.clone(); for c in els.chunks_mut(turn) { c.reverse() } let p = dir().join("o.osm.pbf");
        let mut w = ParallelWriter::from_file_info(buf, 8000, p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header");
        if batch == 1 { for e in &els { w.write_element(plain(e.0, e.1, e.2)).expect("element") } } else { for c in els.chunks(batch) { w.write_elements(c.iter().map(|e| plain(e.0, e.1, e.2)).collect()).expect("elements") } }
        check(w.close().is_ok(), "close fails although everything fits the buffer"); drop(w); want.truncate(n); holds(&p, &want, 8000); reach(0);
    }
    // one element far too late in a long stream
    fn c14_big() {
        schedules_eager(0);
        let n = 9000usize; let (buf, blk) = [(1usize, 8000usize), (1000, 100), (1000, 1000), (1, 100), (1, 1000), (1000, 8000)][pick("sizes", bound(3, 6))]; let batch = [1usize, 1000][pick("batch", 2)]; let from = [0usize, 700, 7998][pick("from", 3)]; let to = [from + 99, from + buf + blk, n - 1][pick("to", 3)]; if to >= n { reach(0); return }
        let x = int("id", 2 * from as i64 - 1, 2 * from as i64 + 1); let mut els: Vec<(usize, i64, i32)> = (0..n).map(|i| (0, if i == from { x } else { 2 * i as i64 }, 1)).collect(); let mut want = els.clone(); let e = els.remove(from); els.insert(to, e); let p = dir().join("o.osm.pbf");
        let mut w = ParallelWriter::from_file_info(buf, blk, p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header");
        let mut ok = true; if batch == 1 { for e in &els { ok &= w.write_element(plain(e.0, e.1, e.2)).is_ok() } } else { for c in els.chunks(batch) { ok &= w.write_elements(c.iter().map(|e| plain(e.0, e.1, e.2)).collect()).is_ok() } }
        ok &= w.close().is_ok(); drop(w); want.truncate(n); if ok { holds(&p, &want, blk); reach(0) } else { reach(1) }
    }
    // the encoding threads interrupted where they take the writer's locks
    fn c13_race() {
        schedules_inside(bound(2, 3) as u64);
        let n = bound(3, 4); let first = int("id", 0, 1000); let p = dir().join("o.osm.pbf");
        let mut w = ParallelWriter::from_file_info(1, 1, p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header");
        let want: Vec<(usize, i64)> = (0..n).map(|i| (i / 2, first + i as i64)).collect(); for (k, i) in &want { w.write_element(plain(*k, *i, 1)).expect("element"); }
        check(w.close().is_ok(), "close"); drop(w); blocks_hold(&p, &want, 1); reach(0);
    }
    fn c14_order() {
        schedules_eager(0);
        let n = bound(4, 5); let buf = pick("buffer", 3); let blk = 1 + pick("block", 3); let batch = pick("batch", 3); let kinds = coin("kinds");
        let els: Vec<(usize, i64, i32)> = (0..n).map(|i| (if kinds && i % 2 == 0 { pick("kind", 3) } else if kinds { 1 } else { 0 }, int(&format!("id{i}"), 0, 1 << 40), if kinds { 1 } else { i32(&format!("v{i}"), 0, 1 << 20) })).collect();
        let p = dir().join("o.osm.pbf"); let mut w = ParallelWriter::from_file_info(buf, blk, p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header");
        let mut ok = true; let mut i = 0;
        while i < n { let k = (1 + batch).min(n - i); if batch == 0 { ok &= w.write_element(plain(els[i].0, els[i].1, els[i].2)).is_ok(); } else { ok &= w.write_elements(els[i..i + k].iter().map(|e| plain(e.0, e.1, e.2)).collect()).is_ok(); } i += k; }
        ok &= w.close().is_ok(); drop(w);
        let mut sorted = true; for i in 1..n { if els[i] < els[i - 1] { sorted = false; } }
        if sorted { check(ok, "an ordered stream is refused"); reach(1); }
        if ok { let mut want = els.clone(); want.sort(); holds(&p, &want, blk); reach(0); } else { reach(2); }
    }
    fn c28_callback() {
        schedules(1);
        let l = layout(bound(2, 3), bound(1, 2), false); let p = file(&l); let r = Reader::new(&p).expect("reader"); let n: usize = l.iter().map(|b| b.len() + 1).sum();
        let bad = pick("failing call", n + 1); let c = Arc::new(AtomicUsize::new(0)); let c2 = c.clone();
        let res = catch(|| r.parallel_for_each(1 + pick("tasks", 2), move |_| { switch(); if c2.fetch_add(1, SeqCst) == bad { Err(anyhow::anyhow!("no")) } else { Ok(()) } }));
        match res { None => fail("a panic instead of an error"), Some(r) => check(r.is_ok() == (bad >= n), "result of a failing callback") }
        reach(0); if bad < n { reach(1); }
    }
    // far into a block or into a file
    fn c28_far() {
        schedules_eager(0);
        let one = coin("one block"); let n = if one { 20_000 } else { 1100 }; let bad = [n - 1, 8000.min(n - 2), 255][pick("place", 3)]; let l: Vec<Vec<(usize, i64)>> = if one { vec![(0..n).map(|i| (i % 3, i as i64)).collect()] } else { (0..n).map(|i| vec![(i % 3, i as i64)]).collect() };
        let p = file(&l); let r = Reader::new(&p).expect("reader"); let y = int("failing", bad as i64, bad as i64);
        match catch(|| r.parallel_for_each([1, 4][pick("tasks", 2)], move |e| if !e.is_sentinel() && id_of(&e) == y { Err(anyhow::anyhow!("no")) } else { Ok(()) })) { None => fail("a panic instead of an error"), Some(r) => check(r.is_err(), "result of a failing callback") } reach(0);
    }
    fn c28_block() {
        schedules(1);
        let n = 1 + pick("blocks", bound(2, 3)); let bad = pick("bad block", n + 1); let how = pick("damage", bound(6, 9)); let id = int("id", 0, BIG);
        let mut parts = vec![header()];
        for i in 0..n {
            let g = |m: Msg| block(&["", "r"], &[m]);
            parts.push(if i != bad { data(&g(plain_group(i % 2, id))) } else { match how {
                0 => frame("OSMData", None, &Msg::new().bytes(4, b"xx")), 1 => { let mut m = Msg::new().msg(1, &Msg::new().bytes(1, &[0xff, 0xfe])); m = m.msg(2, &plain_group(0, id)); data(&m) } 2 => data(&g(Msg::new().msg(3, &Msg::new().v(1, id).packed(2, &[9]).packed(3, &[1])))),
                3 => data(&g(Msg::new().msg(4, &Msg::new().v(1, id).packed(8, &[1]).packed_z(9, &[1]).packed(10, &[7])))), 4 => data(&g(Msg::new().msg(2, &Msg::new().packed_z(1, &[1, 1]).packed_z(8, &[1]).packed_z(9, &[1, 1])))), 5 => frame("OSMData", None, &Msg::new().v(2, 10).bytes(3, &[1, 2, 3])),
                6 => data(&g(Msg::new().msg(3, &Msg::new().v(1, id).packed(2, &[1, 1]).packed(3, &[1])))), 7 => data(&g(Msg::new().msg(1, &Msg::new().z(1, id).z(8, 1).z(9, 1).msg(4, &Msg::new().v(5, 77))))), _ => data(&g(Msg::new().msg(2, &Msg::new().packed_z(1, &[1]).packed_z(8, &[1]).packed_z(9, &[1]).packed(10, &[1])))),
            } });
        }
        let p = save("f.osm.pbf", &parts); let what = pick("operation", 3);
        let res = catch(|| -> Result<(), anyhow::Error> { match what { 0 => Reader::new(&p)?.parallel_for_each(1 + pick("tasks", 2), |_| Ok(())), 1 => Reader::new(&p)?.count_objects().map(|_| ()), _ => BoundingBoxCalculator::new(&p).calc().map(|_| ()) } });
        match res { None => fail("a panic instead of an error"), Some(r) => check(r.is_ok() == (bad == n), "result with an undecodable block") }
        reach(0); if bad < n { reach(1); }
    }
    // accumulators: any history of add and drain over two accumulators
    fn c18_history() {
        let acc = [ThreadLocalAccumulator::new(2), ThreadLocalAccumulator::new([0, 2][pick("capacity", 2)])]; let mut want: [Vec<i64>; 2] = [vec![], vec![]];
        for i in 0..bound(5, 7) {
            match pick("step", 5) { 4 => break, s => { let a = s % 2; if s < 2 { let id = any64(&format!("id{i}")); want[a].push(id); acc[a].add(plain(i % 3, id, 1)); } else { drained(&acc[a], &mut want[a]); } } }
        }
        for a in 0..2 { drained(&acc[a], &mut want[a]); drained(&acc[a], &mut want[a]); }
        reach(0);
    }
    // many accumulators, elements far beyond the stated capacity, accumulators that end with elements in them
    fn c18_many() {
        let n = bound(20, 300); let cap = [0usize, 1, 7, 8000][pick("capacity", 4)]; let base = int("base", -BIG, BIG / 2); let accs: Vec<ThreadLocalAccumulator> = (0..n).map(|_| ThreadLocalAccumulator::new(cap)).collect();
        for round in 0..2i64 { for i in 0..3 { for (k, a) in accs.iter().enumerate() { if (k + i) % 4 != 0 { a.add(plain(i, base + round * 1000 + k as i64 * 3 + i as i64, 1)) } } } for (k, a) in accs.iter().enumerate() { let mut w: Vec<i64> = (0..3).filter(|i| (k + i) % 4 != 0).map(|i| base + round * 1000 + k as i64 * 3 + i as i64).collect(); drained(a, &mut w) } }
        let long = pick("long", bound(3, 4)); let len = [9usize, 257, 8001, 70_000][long]; let mut want: Vec<i64> = (0..len as i64).collect(); for i in 0..len { accs[0].add(plain(i % 3, i as i64, 1)) } drained(&accs[0], &mut want);
        { let old = ThreadLocalAccumulator::new(cap); old.add(plain(0, base, 1)) } let new = ThreadLocalAccumulator::new(cap); drained(&new, &mut vec![]); drained(&accs[1], &mut vec![]); reach(0);
    }
    // the same over the threads of a parallel iteration
    fn c18_threads() {
        schedules(bound(2, 3) as u64);
        let l: Vec<Vec<(usize, i64)>> = (0..bound(3, 3)).map(|b| (0..1 + b % 2).map(|i| (0, int(&format!("id{b}.{i}"), b as i64 * 100 + i as i64 * 10, b as i64 * 100 + i as i64 * 10 + 9))).collect()).collect();
        let p = file(&l); let r = Reader::new(&p).expect("reader"); let acc = Arc::new(ThreadLocalAccumulator::new(4)); let out: Arc<Mutex<Vec<(ThreadId, Vec<i64>)>>> = Arc::new(Mutex::new(vec![])); let (a2, o2) = (acc.clone(), out.clone());
        acc.add(plain(0, 5000, 1));
        let res = r.parallel_for_each(2, move |e| { switch(); if e.is_sentinel() { let v: Vec<i64> = a2.elements().iter().map(id_of).collect(); switch(); o2.lock().unwrap().push((std::thread::current().id(), v)); } else { a2.add(e); } Ok(()) });
        check(res.is_ok(), "an intact file fails");
        let mut left: Vec<&Vec<(usize, i64)>> = l.iter().collect();
        for (_, v) in out.lock().unwrap().iter() { match left.iter().position(|b| b.len() == v.len() && b.iter().zip(v).all(|(x, y)| x.1 == *y)) { Some(x) => { left.remove(x); } None => fail("a batch that is not the elements of one block") } }
        check(left.is_empty(), "a batch is missing"); let mine = acc.elements(); check(mine.len() == 1 && id_of(&mine[0]) == 5000, "the main thread's elements"); check(acc.elements().is_empty(), "drained twice"); reach(0);
    }
    // edges anywhere, not only on the grid: any double in the legal range
    fn c17_bits() {
        let any = |t: &str, m: f64| -> f64 { let v = f64::from_bits(any64(t) as u64); assume(v >= -m && v <= m); v };
        let (la, lo) = (any("lat", 90.0), any("lon", 180.0)); let c = Coordinate::new(la, lo);
        let mut b = BoundingBox::from_point(&c); same(&b, lo, la, lo, la); let mut want = [lo, la, lo, la];
        for i in 0..bound(1, 2) {
            let v: Vec<f64> = (0..4).map(|k| any(&format!("e{i}.{k}"), if k % 2 == 0 { 180.0 } else { 90.0 })).collect();
            let (l, bo, r, t) = if pick("what", 2) == 0 { b.merge_point(&Coordinate::new(v[1], v[0])); (v[0], v[1], v[0], v[1]) } else { assume(v[0] <= v[2] && v[1] <= v[3]); b.merge_bounding_box(&BoundingBox::new(v[0], v[1], v[2], v[3])); (v[0], v[1], v[2], v[3]) };
            if l < want[0] { want[0] = l } if bo < want[1] { want[1] = bo } if r > want[2] { want[2] = r } if t > want[3] { want[3] = t }
        }
        same(&b, want[0], want[1], want[2], want[3]); reach(0);
    }
    // the text form: one of the four numbers has symbolic digits
    fn c17_text() {
        use std::str::FromStr;
        let focus = pick("focus", 4); let whole = pick("digits before the point", 4); let part = pick("digits behind the point", bound(3, 4)); assume(whole + part > 0);
        let neg = coin("sign"); let mut v = 0i64; let mut t = String::new(); if neg { t.push('-'); }
        for i in 0..whole + part { if i == whole { t.push('.'); } let d = int(&format!("d{i}"), 0, 9); v = v * 10 + d; t.push((b'0' + d as u8) as char); }
        let x = v as f64 / [1.0, 10.0, 100.0, 1000.0][part]; let x = if neg { -x } else { x };
        let other = ["-12.5", "-7.25", "101", "8"]; let space = [("", ""), (" ", ""), ("", " "), ("\t ", "  ")][pick("space", 4)];
        let s: Vec<String> = (0..4).map(|i| format!("{}{}{}", space.0, if i == focus { t.as_str() } else { other[i] }, space.1)).collect();
        let legal = { let m = if focus % 2 == 0 { 180.0 } else { 90.0 }; x >= -m && x <= m };
        let want = |i: usize| if i == focus { x } else { [-12.5, -7.25, 101.0, 8.0][i] };
        match BoundingBox::from_str(&s.join(",")) { Ok(b) => { check(legal, "an edge beyond the legal range"); same(&b, want(0), want(1), want(2), want(3)); reach(0) } Err(_) => { check(!legal, "four legal numbers are refused"); reach(1) } }
    }
    // anything else is refused: wrong number of parts, a part that is no number
    fn c17_refuse() {
        use std::str::FromStr;
        let n = pick("parts", 7); let mut parts: Vec<String> = (0..n).map(|i| ["-12.5", "-7.25", "101", "8", "9", "10"][i].to_string()).collect(); let mut wrong = n != 4;
        if n > 0 && coin("spoil") { let i = pick("part", n); let c = int("character", 32, 126) as u8; assume(c != b',');
            match pick("how", 4) { 0 => { parts[i] = String::new(); wrong = true } 1 => { parts[i] = (c as char).to_string(); wrong |= !c.is_ascii_digit(); } 2 => { assume(!c.is_ascii_digit() && c != b' ' && c != b'.' && c != b'e' && c != b'E'); parts[i].push(c as char); wrong = true } _ => { parts[i] = ["NaN", "inf", "-inf", "infinity", "1e400", "180;5", "0x5", "1_0", "5 5", "--5"][pick("text", 10)].to_string(); wrong = true } } }
        match BoundingBox::from_str(&parts.join(",")) { Ok(_) => { check(!wrong, "text that is not four numbers is accepted"); reach(0) } Err(_) => { check(wrong, "four legal numbers are refused"); reach(1) } }
    }
    fn c17_merge() {
        let n = 1 + pick("steps", bound(3, 4)); let f = |v: i64| v as f64 / 1e7;
        let (la, lo, c) = coord("p"); let mut want = [lo, la, lo, la];
        let mut b = if pick("start", 2) == 0 { BoundingBox::from_point(&c) } else { let (la2, lo2) = (int("top", -LAT, LAT), int("right", -LON, LON)); assume(la2 >= la && lo2 >= lo); want = [lo, la, lo2, la2]; BoundingBox::new(f(lo), f(la), f(lo2), f(la2)) };
        same(&b, f(want[0]), f(want[1]), f(want[2]), f(want[3]));
        for i in 1..n {
            if pick("what", 2) == 0 { let (la, lo, c) = coord(&format!("p{i}")); b.merge_point(&c); want = [want[0].min(lo), want[1].min(la), want[2].max(lo), want[3].max(la)]; }
            else { let v: Vec<i64> = (0..4).map(|k| int(&format!("b{i}.{k}"), if k % 2 == 0 { -LON } else { -LAT }, if k % 2 == 0 { LON } else { LAT })).collect(); assume(v[0] <= v[2] && v[1] <= v[3]); b.merge_bounding_box(&BoundingBox::new(f(v[0]), f(v[1]), f(v[2]), f(v[3]))); want = [want[0].min(v[0]), want[1].min(v[1]), want[2].max(v[2]), want[3].max(v[3])]; }
        }
        same(&b, f(want[0]), f(want[1]), f(want[2]), f(want[3])); reach(0);
    }
}
fn drained(a: &ThreadLocalAccumulator, want: &mut Vec<i64>) { let got = a.elements(); check(got.len() == want.len(), "number of drained elements"); for (g, w) in got.iter().zip(want.iter()) { check(id_of(g) == *w, "drained elements"); } want.clear(); }
fn same(b: &BoundingBox, l: f64, bo: f64, r: f64, t: f64) { check(b.left() == l, "left"); check(b.bottom() == bo, "bottom"); check(b.right() == r, "right"); check(b.top() == t, "top"); }
/// sorted (kind, id, version) elements, one kind per block, at most `max` each
fn holds(p: &PathBuf, want: &[(usize, i64, i32)], max: usize) {
    use osm_io::osm::pbf::file_block::FileBlock;
    let r = Reader::new(p).expect("reader"); let mut at = 0; let mut headers = 0;
    for mut b in r.blocks().expect("blocks") { match &mut b { FileBlock::Header { .. } => { headers += 1; check(at == 0, "a header behind data") } FileBlock::Data { data, .. } => { let els = data.take_elements(); check(els.len() <= max, "a block holds too many elements"); for e in &els { check(kind(e) == kind(&els[0]), "a block mixes kinds"); check(at < want.len(), "more elements than written"); check(kind(e) == want[at].0 && id_of(e) == want[at].1 && version_of(e) == want[at].2, "not the sorted elements"); at += 1; } } } }
    check(headers == 1, "number of headers"); check(at == want.len(), "elements lost");
}
/// any order within the buffer's reach
fn par_write(mode: usize) {
    schedules_eager(0);
    let n = bound(if mode == 0 { 4 } else { 3 }, if mode == 0 { 5 } else { 4 }); let blk = 1 + pick("block", 3); let slack = pick("buffer", 2); let p = dir().join("o.osm.pbf");
    let mut els: Vec<(usize, i64, i32)> = (0..n).map(|i| (if mode == 2 { pick("kind", 3) } else { 0 }, int(&format!("id{i}"), 0, BIG), if mode == 2 { 1 } else { i32(&format!("v{i}"), 0, 1 << 20) })).collect();
    let mut w = ParallelWriter::from_file_info(n + slack, blk, p.clone(), FileInfo::default(), compression(false)).expect("writer"); w.write_header().expect("header");
    if mode == 1 { let k = pick("split", n + 1); w.write_elements(els[..k].iter().map(|e| plain(e.0, e.1, e.2)).collect()).expect("elements"); w.write_elements(els[k..].iter().map(|e| plain(e.0, e.1, e.2)).collect()).expect("elements"); } else { for e in &els { w.write_element(plain(e.0, e.1, e.2)).expect("element"); } }
    check(w.close().is_ok(), "close fails although everything fits the buffer"); drop(w);
    els.sort(); holds(&p, &els, blk); reach(0);
}
#[allow(dead_code)] fn unused(_: Coordinate) {}
