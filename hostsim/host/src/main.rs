//! The expansion host: plays the compiler for the real macro library inside one simulated process.
//!
//! Scenarios arrive as JSON lines.  For each one a child is forked from a state in which the macro library is
//! loaded but has never run, so the child is a fresh host process; the child executes the scenario under the
//! seeded scheduler and prints its history as one JSON line.
#![feature(proc_macro_internals)]
#![allow(internal_features, invalid_runtime_symbol_definitions)]
extern crate proc_macro;

mod server;
mod shim;
mod sim;

use std::io::{BufRead, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let lib = std::ffi::CString::new(args[1].as_str()).unwrap();
    let sym = std::ffi::CString::new(args[2].as_str()).unwrap();
    let clients: &'static [proc_macro::bridge::client::Client] = unsafe {
        let h = libc::dlopen(lib.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            let e = std::ffi::CStr::from_ptr(libc::dlerror());
            eprintln!("dlopen: {e:?}");
            std::process::exit(2);
        }
        let s = libc::dlsym(h, sym.as_ptr());
        if s.is_null() {
            eprintln!("no {}", args[2]);
            std::process::exit(2);
        }
        *(s as *const &'static [proc_macro::bridge::client::Client])
    };
    // which macro is the attribute is found out in a child of its own: it runs the library
    let attr = unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::_exit(sim::find_attr(clients) as i32 & 0xff);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) as usize >= clients.len() {
            eprintln!("no attribute macro found");
            std::process::exit(2);
        }
        libc::WEXITSTATUS(st) as usize
    };
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines();
    while let Some(Ok(line)) = lines.next() {
        if line.is_empty() {
            continue;
        }
        std::io::stdout().flush().unwrap();
        unsafe {
            let pid = libc::fork();
            if pid == 0 {
                libc::alarm(60);
                let v: serde_json::Value = serde_json::from_str(&line).unwrap();
                let out = sim::run(clients, attr, &v);
                let mut o = std::io::stdout();
                o.write_all(out.as_bytes()).unwrap();
                o.write_all(b"\n").unwrap();
                o.flush().unwrap();
                libc::_exit(0);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if st != 0 {
                let id = serde_json::from_str::<serde_json::Value>(&line).ok().and_then(|v| v["id"].as_u64()).unwrap_or(0);
                println!("{{\"id\":{id},\"crash\":{st}}}");
            }
        }
    }
}
