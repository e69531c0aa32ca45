//! Whole pipelines: copies and conversions of files.
use crate::{enc::*, gen::*, h_api::{self, same_but}, h_par::{Gate, schedules_eager, switch}, h_pbf::{compression, read_file, write_file}, h_spec::{any_info, dense, info_msg, with, TABLE_}, sym::*};
use osm_io::osm::{model::element::Element, pbf::{file_block::FileBlock, writer::Writer, file_info::FileInfo, parallel_writer::ParallelWriter, reader::Reader, thread_local_accumulator::ThreadLocalAccumulator}};
use std::path::PathBuf;
use std::sync::Arc;

fn same_info(a: &FileInfo, b: &FileInfo) {
    check(a.required_features() == b.required_features() && a.optional_features() == b.optional_features(), "features"); check(a.writingprogram() == b.writingprogram() && a.source() == b.source() && a.osmosis_replication_base_url() == b.osmosis_replication_base_url(), "texts of the header");
    check(a.osmosis_replication_timestamp() == b.osmosis_replication_timestamp() && a.osmosis_replication_sequence_number() == b.osmosis_replication_sequence_number(), "numbers of the header"); check(a.bounding_box().is_some() == b.bounding_box().is_some(), "bounding box");
}
/// a file of another producer: 1 or more groups with any metadata, positions on the 1e-7 degree grid and whole seconds
fn foreign(n: usize) -> PathBuf {
    let (g, dg) = [(None, None), (Some(100), Some(60_000)), (Some(1000), Some(1000))][pick("granularities", 3)]; let s = g.unwrap_or(100) / 100; let mode = pick("metadata", bound(6, 14));
    let has = |k: usize| match mode { 0 => false, 1 => true, 2 => k < 2, 3 => k != 4, 4 => k == 4 || k == 3, 5 => k == 5, m if m < 10 => k != m - 6, m => k == m - 10 };
    let mut least = 0; let groups: Vec<Msg> = (0..n).map(|i| {
        let t = format!("e{i}"); let info = any_info(&t, has); let id = int(&format!("{t}.id"), -BIG, BIG); let la = int(&format!("{t}.lat"), -LAT / s, LAT / s); let lo = int(&format!("{t}.lon"), -LON / s, LON / s); let a = int(&format!("{t}.a"), -BIG, BIG);
        let kv = [&[][..], &[2, 3][..], &[4, 5, 2, 0][..]][i % 3]; let k: Vec<i64> = kv.iter().step_by(2).copied().collect(); let v: Vec<i64> = kv.iter().skip(1).step_by(2).copied().collect(); let plain = |m: Msg| { let m = m.packed(2, &k).packed(3, &v); if mode == 0 { m } else { m.msg(4, &info_msg(&info)) } };
        let coding = least + pick("coding", 4 - least); if coding > 1 { least = coding }
        match coding {
            0 => dense(&[id], &[la], &[lo], if mode == 0 { None } else { Some(std::slice::from_ref(&info)) }, &if kv.is_empty() { vec![] } else { let mut x = kv.to_vec(); x.push(0); x }),
            1 => Msg::new().msg(1, &plain(Msg::new().z(1, id)).z(8, la).z(9, lo)),
            2 => Msg::new().msg(3, &plain(Msg::new().v(1, id)).packed_z(8, &delta(&[a, 5, a]))),
            _ => Msg::new().msg(4, &plain(Msg::new().v(1, id)).packed(8, &[2, 0]).packed_z(9, &delta(&[a, 7])).packed(10, &[i as i64 % 3, 1])),
        }
    }).collect();
    let mut parts = vec![frame("OSMHeader", None, &blob(Store::Raw, &header_msg(&["OsmSchema-V0.6", "DenseNodes"], &["Has_Metadata"]).bytes(16, b"other").bytes(17, b"somewhere").v(32, 77).v(33, 88).bytes(34, b"http://x").0))];
    if coin("one block") { parts.push(data(&with(block(&TABLE_, &groups), g, dg, None, None))) } else { for x in &groups { parts.push(data(&with(block(&TABLE_, std::slice::from_ref(x)), g, dg, None, None))) } }
    save("source.osm.pbf", &parts)
}
fn all_same(a: &[Element], b: &[Element]) { check(a.len() == b.len(), "number of elements"); for (x, y) in a.iter().zip(b) { same_but(x, y, true); seen(y) } }
harnesses! {
    // a copy, a copy of the copy
    fn c32_copy() {
        let src = foreign(1 + pick("groups", bound(2, 3))); let r = Reader::new(&src).expect("reader"); let a: Vec<Element> = r.elements().expect("elements").collect();
        let p = match pick("copied by", 3) {
            0 => write_file("copy.osm.pbf", r.info().clone(), coin("zlib"), a.clone()),
            by => { // by blocks
                let p = dir().join("copy.osm.pbf"); let mut w = Writer::from_file_info(p.clone(), r.info().clone(), compression(true)).expect("writer"); w.write_header().expect("header");
                for b in r.blocks().expect("blocks") { if let FileBlock::Data { .. } = &b { if by == 1 { w.write_file_block(b).expect("block") } else if let FileBlock::Data { mut data, .. } = b { w.write_elements(data.take_elements()).expect("elements") } } }
                w.close().expect("close"); p
            }
        }; let r2 = Reader::new(&p).expect("the copy is readable"); same_info(r.info(), r2.info());
        let b: Vec<Element> = r2.elements().expect("elements").collect(); all_same(&a, &b); reach(0);
    }
    // the way of the parallel example: workers hand their elements over at the sentinels
    fn c32_parallel() {
        schedules_eager(bound(1, 2) as u64); let workers = 1 + pick("workers", 2);
        let n = pick("blocks", bound(3, 4)); let mut want = vec![]; let mut parts = vec![header()];
        for b in 0..n { let k = pick("elements", bound(2, 3)) + (b == 0) as usize; let mut g = vec![]; for i in 0..k { let t = format!("id{b}.{i}"); let kd = (b + i) % 3; let id = int(&t, 0, BIG); g.push(plain_group(kd, id)); want.push((kd, id)) } parts.push(data(&block(&["", "r"], &g))) }
        let src = save("source.osm.pbf", &parts); let r = Reader::new(&src).expect("reader"); let p = dir().join("copy.osm.pbf");
        let w = Arc::new(Gate::new(ParallelWriter::from_file_info(20, 1 + pick("block", 2), p.clone(), r.info().clone(), compression(false)).expect("writer"))); w.with(|w| w.write_header()).expect("header");
        let w2 = w.clone(); let acc = ThreadLocalAccumulator::new(4); let one = coin("one by one");
        let res = r.parallel_for_each(workers, move |e| { switch(); if e.is_sentinel() { let l = acc.elements(); w.with(|w| -> Result<(), anyhow::Error> { if one { for e in l { w.write_element(e)? } } else { w.write_elements(l)? } Ok(()) })? } else { acc.add(e) } Ok(()) });
        check(res.is_ok(), "iteration"); check(w2.with(|w| w.close()).is_ok(), "close");
        let src_els = read_file(&src); let got = read_file(&p); check(got.len() == want.len() && src_els.len() == want.len(), "number of elements");
        let mut s: Vec<&Element> = src_els.iter().collect(); for i in 1..s.len() { let mut j = i; while j > 0 && (kind(s[j]), id_of(s[j])) < (kind(s[j - 1]), id_of(s[j - 1])) { s.swap(j, j - 1); j -= 1 } }
        for (x, y) in s.iter().zip(&got) { same_but(x, y, true) } reach(0);
    }
    // a file becomes a dump, the dump a file
    fn c32_dump() {
        let n = 1 + pick("elements", bound(2, 3)); let mut els: Vec<Element> = vec![]; let mut k = 0; for i in 0..n { k += pick("kind", 3 - k); els.push(h_api::plain_make(&format!("e{i}"), k, i)) }
        let p = write_file("a.osm.pbf", FileInfo::default(), coin("zlib"), els.clone()); let a = read_file(&p); let d = h_api::dump_at("dump", &a); let b = h_api::read(&d).into_iter().filter(|e| kind(e) < 3).collect::<Vec<_>>(); let q = write_file("b.osm.pbf", FileInfo::default(), true, b); let c = read_file(&q);
        h_api::compare(&els, &c);
    }
}
