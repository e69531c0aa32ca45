mod exec; mod expr; mod ext; mod fp; mod ir; mod mem; mod solver; mod sys;
use exec::*;
use std::sync::atomic::Ordering::SeqCst;
use std::collections::{HashMap, HashSet};

/// deep expressions are walked recursively: continue with a large stack
fn large_stack(args: &[String]) {
    #[repr(C)] struct Limit { cur: u64, max: u64 }
    extern "C" { fn getrlimit(r: i32, l: *mut Limit) -> i32; fn setrlimit(r: i32, l: *const Limit) -> i32; }
    const STACK: i32 = 3; const SIZE: u64 = 1 << 30;
    let mut l = Limit { cur: 0, max: 0 };
    unsafe { if std::env::var_os("SYMEX_STACK").is_some() || getrlimit(STACK, &mut l) != 0 || l.cur >= SIZE { return } l.cur = SIZE.min(l.max); if setrlimit(STACK, &l) != 0 { return } }
    let _ = std::os::unix::process::CommandExt::exec(std::process::Command::new("/proc/self/exe").args(&args[1..]).env("SYMEX_STACK", "1"));
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    large_stack(&args);
    let ll = &args[1]; let entry = &args[2];
    let mut o = Opts { max_instr: 4_000_000_000, deadline: std::time::Instant::now(), out: "out".into(), sample: 0, stop_on: 24, max_conc: 3000, verbose: false, replay: None, maxdepth: 4000, param: 0 };
    let mut jobs = 8; let mut secs = 600u64;
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--out" => { i += 1; o.out = args[i].clone() }
            "--jobs" => { i += 1; jobs = args[i].parse().unwrap() }
            "--deadline" => { i += 1; secs = args[i].parse().unwrap() }
            "--max-instr" => { i += 1; o.max_instr = args[i].parse().unwrap() }
            "--sample" => { i += 1; o.sample = args[i].parse().unwrap() }
            "--stop-on" => { i += 1; o.stop_on = args[i].parse().unwrap() }
            "--max-conc" => { i += 1; o.max_conc = args[i].parse().unwrap() }
            "--replay" => { i += 1; o.replay = Some(args[i].split(',').filter(|s| !s.is_empty()).map(|s| s.parse::<u64>().unwrap()).collect()) }
            "--param" => { i += 1; o.param = args[i].parse().unwrap() }
            "-v" => o.verbose = true,
            a => panic!("unknown option {}", a),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    o.deadline = t0 + std::time::Duration::from_secs(secs);
    unsafe { sys::prctl(36, 1, 0, 0, 0); } // PR_SET_CHILD_SUBREAPER
    let src: &'static str = Box::leak(std::fs::read_to_string(ll).expect("read ll").into_boxed_str());
    let shared: &'static Shared = unsafe { &*(sys::map(0, std::mem::size_of::<Shared>(), true) as *const Shared) };
    let mem = mem::Mem::new();
    let m = ir::Module::load(src, mem::GB + 4096);
    let mut vm = Vm {
        p: expr::Pool::new(), s: solver::Solver::new(), mem, th: vec![], cur: 0, path: vec![], known: HashMap::new(), model: vec![], byvar: HashMap::new(), inputs: vec![], observed: vec![], kc: vec![], exts: vec![], shared, own_token: false, icount: 0, kcount: 0, depth: 0, seenf: HashSet::new(),
        vfs: Default::default(), tlsimg: vec![], lbuf: vec![], errno: 0, fault: [0; 4], clock: 0, keys: 0, tkeys: HashMap::new(), fp: Default::default(), spawned: 0, flat: false, notes: vec![], next_yield: false, iflushed: 0, cover_loc: HashSet::new(), retv: vec![], dtors: vec![], nrand: 0x9E3779B97F4A7C15, sched: false,
        m, o,
    };
    vm.vfs.next = 10;
    let end = vm.m.globals.iter().filter(|g| !g.tls).map(|g| g.addr + g.size).max().unwrap();
    vm.mem.brk = end + 4096;
    let mut tls = vec![0u8; vm.m.tls_size as usize];
    { let mem = &mut vm.mem; vm.m.images(|g, b| { if g.tls { tls[g.addr as usize..g.addr as usize + b.len()].copy_from_slice(&b); } else { for (k, x) in b.iter().enumerate() { if *x != 0 { mem.raw_put(g.addr + k as u64, 1, *x as u64); } } } }); }
    vm.tlsimg = tls;
    vm.errno = vm.mem.grab(1024, 64);
    vm.exts = vm.m.funcs.iter().map(|f| ext::resolve(&f.name)).collect();
    vm.exts.resize(vm.m.funcs.len(), None);
    let fid = *vm.m.fmap.get(entry.as_str()).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(3) });
    vm.fresh_thread(fid, &[], 256 << 20);
    shared.tokens.store(jobs - 1, SeqCst); shared.live.store(1, SeqCst);
    let _ = std::fs::remove_file(format!("{}.jsonl", vm.o.out));
    let load_ms = t0.elapsed().as_millis();
    let pid = unsafe { sys::fork() };
    if pid == 0 { vm.own_token = true; vm.run() }
    let mut st = 0; let mut crashed = 0u64;
    loop {
        let r = unsafe { sys::waitpid(-1, &mut st, 0) };
        if r < 0 { break; }
        if st != 0 { crashed += 1; shared.live.fetch_sub(1, SeqCst); shared.tokens.fetch_add(1, SeqCst); }
    }
    let g = |x: &std::sync::atomic::AtomicU64| x.load(SeqCst);
    let funcs: Vec<String> = vm.m.funcs.iter().enumerate().filter(|(i, f)| !f.decl && *i < shared.seen.len() && shared.seen[*i].load(SeqCst) == 1).map(|(_, f)| format!("{:?}", f.name)).collect();
    let reach: Vec<u64> = shared.reach.iter().map(|r| g(r)).collect();
    let s = format!("{{\"entry\":{:?},\"paths\":{},\"ok\":{},\"dead\":{},\"fails\":{},\"unsupported\":{},\"unknown\":{},\"crashed\":{},\"cut\":{},\"forks\":{},\"branches\":{},\"implied\":{},\"concretised\":{},\"queries\":{},\"solver_ms\":{},\"max_query_ms\":{},\"instrs\":{},\"maxdepth\":{},\"wall_ms\":{},\"load_ms\":{},\"stop\":{},\"reach\":{:?},\"functions\":[{}]}}",
        entry, g(&shared.paths), g(&shared.ok), g(&shared.dead), g(&shared.fails), g(&shared.unsup), g(&shared.unknown), crashed, g(&shared.clamped), g(&shared.forks), g(&shared.branches), g(&shared.implied), g(&shared.concretised), g(&shared.queries), g(&shared.solver_ns) / 1_000_000, g(&shared.max_ns) / 1_000_000, g(&shared.instrs), g(&shared.maxdepth), t0.elapsed().as_millis(), load_ms, shared.stop.load(SeqCst), reach, funcs.join(","));
    std::fs::write(format!("{}.summary.json", vm.o.out), s).unwrap();
}
