//! Runs entries natively, on concrete models.
//!
//! Each line of the input is `<entry> <a> <b> <c> <d> <model in hex>`; the answer is
//! one line each: how it ended (`done`, `assumed`, `fail <id>`, `signal <n>`,
//! `exit <n>`) and the points it reached.
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

static mut MODEL: Vec<u8> = Vec::new();
static mut TRACE: Vec<u32> = Vec::new();
static CHOICES: AtomicUsize = AtomicUsize::new(0);

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(seconds: u32) -> u32;
}

fn at(i: usize) -> u8 {
    #[allow(static_mut_refs)]
    unsafe {
        MODEL.get(i).copied().unwrap_or(0)
    }
}

fn say(how: &str) {
    #[allow(static_mut_refs)]
    let t: Vec<String> = unsafe { TRACE.iter().map(|x| x.to_string()).collect() };
    let mut o = std::io::stdout();
    let _ = writeln!(o, "{how} [{}]", t.join(","));
    let _ = o.flush();
}

#[unsafe(no_mangle)]
extern "C" fn sym_bytes(p: *mut u8, n: usize, start: usize, stride: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = at(16 + start + i * stride) }
    }
}
#[unsafe(no_mangle)]
extern "C" fn sym_choice(n: usize) -> usize {
    let k = CHOICES.fetch_add(1, Ordering::Relaxed);
    let c = at(k) as usize;
    if c >= n {
        sym_assume(false)
    }
    c
}
#[unsafe(no_mangle)]
extern "C" fn sym_assume(c: bool) {
    if !c {
        say("assumed");
        unsafe { _exit(0) }
    }
}
#[unsafe(no_mangle)]
extern "C" fn sym_fail(id: u32) -> ! {
    say(&format!("fail {id}"));
    unsafe { _exit(0) }
}
#[unsafe(no_mangle)]
extern "C" fn sym_reach(id: u32) {
    #[allow(static_mut_refs)]
    unsafe {
        TRACE.push(id)
    }
}

fn num(x: &str) -> usize {
    match x.strip_prefix("0x") {
        Some(h) => usize::from_str_radix(h, 16).unwrap(),
        None => x.parse().unwrap(),
    }
}

fn main() {
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.len() < 5 || line.starts_with('#') {
            continue;
        }
        let f = harness::TABLE.iter().find(|x| x.0 == w[0]).expect("no such entry").1;
        let a: Vec<usize> = w[1..5].iter().map(|x| num(x)).collect();
        let h = w.get(5).copied().unwrap_or("");
        let m: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        unsafe {
            let pid = fork();
            if pid == 0 {
                // what does not end is ended by a signal
                alarm(5);
                MODEL = m;
                f(a[0], a[1], a[2], a[3]);
                say("done");
                _exit(0)
            }
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            let sig = st & 0x7f;
            if sig != 0 {
                println!("signal {sig} []");
            } else if st >> 8 != 0 {
                println!("exit {} []", st >> 8);
            }
        }
    }
}
