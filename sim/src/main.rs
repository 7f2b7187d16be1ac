mod alloc;
mod gen;
mod oracle;
mod props;
mod p_read;
mod p_huge;
mod p_mem;
mod p_multi;
mod p_rec;
mod p_hw;
mod p_tools;
mod refmodel;
mod rng;
mod runner;
mod minimise;
mod coord;
mod tools;

#[global_allocator]
static ALLOC: alloc::Arena = alloc::Arena;

fn main() {
    // The simulated command lines are written over our own, so there has to be enough of it.
    let all: Vec<std::ffi::OsString> = std::env::args_os().collect();
    if all.len() < 300 {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(std::env::current_exe().unwrap()).args(&all[1..]).arg("--").args(vec!["x"; 8200]).exec();
        panic!("exec: {e}");
    }
    let a: Vec<String> = std::env::args().take_while(|x| x != "--").collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or_else(|_| { eprintln!("bad argument {i}"); std::process::exit(2) });
    let code = match s(1) {
        "check" => coord::check(s(2), s(3)),
        "worker" => { coord::worker(s(2), s(3), n(4), n(5), n(6), n(7), n(8)); 0 }
        "replay" => coord::replay(s(2)),
        "selftest" => coord::selftest(n(2)),
        "one" => coord::one(s(2), n(3), n(4)),
        _ => { eprintln!("usage: dst check <property> <tier> | replay <file> | selftest <n> | one <property> <from> <to>"); 2 }
    };
    std::process::exit(code);
}
