//! The sweep of `global`, chunk by chunk, as a module for a 32-bit machine:
//! the host writes "property configuration from to seed" into the buffer and
//! reads the digest line (or, after a trap, where the code gave up) from it.
use crate::*;
use std::collections::BTreeMap;

static mut BUF: [u8; 1024] = [0; 1024];

fn put(s: &str) -> u32 {
    let n = s.len().min(1024);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), &raw mut BUF as *mut u8, n) }
    n as u32
}

fn clear() { unsafe { std::ptr::write_bytes(&raw mut BUF as *mut u8, 0, 1024) } }

#[no_mangle]
pub extern "C" fn vp_buf() -> *mut u8 { &raw mut BUF as *mut u8 }

#[no_mangle]
pub extern "C" fn vp_run(len: u32) -> u32 {
    thread_local! { static ENVS: std::cell::RefCell<BTreeMap<String, &'static Env<'static>>> = Default::default(); }
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        clear();
        put(&format!("{} {}", at, i));
    }));
    let line = unsafe { String::from_utf8(std::slice::from_raw_parts(vp_buf(), len as usize).to_vec()).unwrap() };
    clear();
    let a: Vec<&str> = line.split(' ').collect();
    let (prop, cfg) = (a[0], a[1]);
    let (lo, hi, seed): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let e = if prop.starts_with('F') { None } else {
        Some(ENVS.with(|m| *m.borrow_mut().entry(cfg.to_string()).or_insert_with(|| Box::leak(Box::new(env_for(cfg))))))
    };
    put(&global::sweep_chunk(prop, cfg, e, seed, lo, hi))
}
