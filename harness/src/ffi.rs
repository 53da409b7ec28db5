//! Small safe-ish helpers around the QIR runtime's C interface.
use qir_backend::*;
use std::ffi::{CString, c_char, c_void};

pub fn q(id: usize) -> *mut c_void {
    id as *mut c_void
}

/// A 1d QIR array of pointer-sized elements.
pub fn qarr(ids: &[usize]) -> *const QirArray {
    let a = __quantum__rt__array_create_1d(8, ids.len() as u64);
    for (n, id) in ids.iter().enumerate() {
        unsafe {
            let p = __quantum__rt__array_get_element_ptr_1d(a, n as u64);
            p.cast::<usize>().write_unaligned(*id);
        }
    }
    a
}

/// The numbers that programs use for the Paulis.
pub fn pauli_code(p: &str) -> u8 {
    match p {
        "I" => 0,
        "X" => 1,
        "Y" => 3,
        _ => 2,
    }
}

pub fn pauli_of(code: u8) -> Option<Pauli> {
    [Pauli::I, Pauli::X, Pauli::Y, Pauli::Z].into_iter().find(|p| *p as u8 == code)
}

pub fn pauli(p: &str) -> Pauli {
    pauli_of(pauli_code(p)).unwrap_or_else(|| panic!("no Pauli has the number {}", pauli_code(p)))
}

pub fn parr(ps: &[String]) -> *const QirArray {
    let a = __quantum__rt__array_create_1d(1, ps.len() as u64);
    for (n, p) in ps.iter().enumerate() {
        unsafe {
            let e = __quantum__rt__array_get_element_ptr_1d(a, n as u64);
            e.cast::<u8>().write(pauli_code(p));
        }
    }
    a
}

pub fn free_arr(a: *const QirArray) {
    unsafe { __quantum__rt__array_update_reference_count(a, -1) }
}

pub fn mkstr(s: &[u8]) -> *const CString {
    let c = CString::new(s).expect("text without NUL");
    unsafe { __quantum__rt__string_create(c.as_ptr().cast::<c_char>().cast_mut()) }
}

pub fn free_str(s: *const CString) {
    unsafe { __quantum__rt__string_update_reference_count(s, -1) }
}

pub fn str_bytes(s: *const CString) -> Vec<u8> {
    unsafe {
        std::ffi::CStr::from_ptr(__quantum__rt__string_get_data(s))
            .to_bytes()
            .to_vec()
    }
}

pub fn take_str(s: *const CString) -> Vec<u8> {
    let b = str_bytes(s);
    free_str(s);
    b
}

/// Everything recorded so far in this thread's output buffer.
pub fn drain_output() -> Vec<u8> {
    OUTPUT.with(|o| o.borrow_mut().drain().collect())
}

pub fn buffered() {
    OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
}

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const c_char, flags: i32, ...) -> i32;
    fn alarm(s: u32) -> u32;
    fn memfd_create(name: *const c_char, flags: u32) -> i32;
    fn close(fd: i32) -> i32;
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Ending {
    Ok,
    Died,
    Code(i32),
}

/// Runs `f` in a forked copy of this (single-threaded) process.  A panic or
/// abort in it is the program ending abnormally.
pub fn forked(f: impl FnOnce() -> i32) -> Ending {
    use std::io::Write;
    std::io::stdout().flush().ok();
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            let null = open(c"/dev/null".as_ptr(), 1);
            dup2(null, 2);
            alarm(30);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            std::io::stdout().flush().ok();
            match r {
                Ok(c) => _exit(c),
                Err(_) => _exit(101),
            }
        }
        let mut st = 0;
        waitpid(pid, &raw mut st, 0);
        if st & 0x7f != 0 {
            Ending::Died
        } else {
            match (st >> 8) & 0xff {
                0 => Ending::Ok,
                101 => Ending::Died,
                c => Ending::Code(c),
            }
        }
    }
}

fn contents(fd: i32) -> Vec<u8> {
    use std::io::{Read, Seek};
    use std::os::fd::FromRawFd;
    let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
    let mut out = vec![];
    f.rewind().expect("rewound");
    f.read_to_end(&mut out).expect("read");
    out
}

/// Runs `f` in a forked copy of this process with its standard output going
/// to memory: how it ended, all it wrote, and what it reported itself.
pub fn captured(f: impl FnOnce() -> Result<(), String>) -> (Ending, Vec<u8>, String) {
    use std::io::Write;
    use std::os::fd::FromRawFd;
    unsafe {
        let out = memfd_create(c"out".as_ptr(), 0);
        let rep = memfd_create(c"report".as_ptr(), 0);
        assert!(out >= 0 && rep >= 0, "memory file");
        let e = forked(|| {
            dup2(out, 1);
            close(out);
            match f() {
                Ok(()) => 0,
                Err(t) => {
                    std::fs::File::from_raw_fd(rep).write_all(t.as_bytes()).ok();
                    3
                }
            }
        });
        (e, contents(out), String::from_utf8_lossy(&contents(rep)).into_owned())
    }
}

/// A range as a program passes it: start, step and end.
pub fn range(start: i64, step: i64, end: i64) -> qir_stdlib::range_support::Range {
    unsafe { std::mem::transmute([start, step, end]) }
}
