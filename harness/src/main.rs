mod exec;
mod gen;
mod minimise;
mod oracle;
mod prng;
mod refmodel;
mod rt;
mod runner;
mod spec;

#[global_allocator]
static ALLOC: rt::SimAlloc = rt::SimAlloc;

/// The same addresses in every process: start again without address space randomisation.
fn fixed_addresses() {
    unsafe {
        const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur as libc::c_ulong & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("APSIM_REEXEC").is_none()
            && libc::personality(cur as libc::c_ulong | ADDR_NO_RANDOMIZE) >= 0
        {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("APSIM_REEXEC", "1").exec();
            eprintln!("re-exec failed: {e}");
        }
    }
}

fn main() {
    fixed_addresses();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => runner::check(arg(2)),
        "replay" => runner::replay(arg(2)),
        "run" => runner::debug(arg(2), arg(3).parse().unwrap_or(0)),
        "selftest" => runner::selftest(arg(2).parse().unwrap_or(40), arg(3).parse().unwrap_or(8)),
        _ => {
            eprintln!("usage: apsim check <property> | replay <file> | run <property> <index> | selftest <runs> <workers>");
            2
        }
    };
    std::process::exit(code);
}
