//! The system calls of a piece of code, seen through a seccomp filter with a listener (Linux, x86-64).
//!
//! The code runs in a thread of its own; calls that neither name a file nor reach beyond the process pass unseen, all
//! others stop until the listener has recorded them. Calls that could do harm outside a test folder are refused.
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI32, Ordering};

#[derive(Debug, Clone)]
pub struct Call {
    pub nr: i64,
    pub name: &'static str,
    /// First path argument, absolute.
    pub path: Option<PathBuf>,
    /// Flags of an open.
    pub flags: i32,
    pub refused: bool,
}

/// Calls that stay within the process, or only look.
const QUIET: &[i64] = &[
    libc::SYS_read, libc::SYS_write, libc::SYS_readv, libc::SYS_writev, libc::SYS_pread64, libc::SYS_pwrite64, libc::SYS_preadv,
    libc::SYS_pwritev, libc::SYS_preadv2, libc::SYS_pwritev2, libc::SYS_lseek, libc::SYS_close, libc::SYS_fstat, libc::SYS_stat,
    libc::SYS_lstat, libc::SYS_newfstatat, libc::SYS_statx, libc::SYS_access, libc::SYS_faccessat, libc::SYS_faccessat2,
    libc::SYS_readlink, libc::SYS_readlinkat, libc::SYS_getcwd, libc::SYS_getdents64, libc::SYS_fadvise64, libc::SYS_fallocate,
    libc::SYS_ftruncate, libc::SYS_fsync, libc::SYS_fdatasync, libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap,
    libc::SYS_mprotect, libc::SYS_madvise, libc::SYS_mincore, libc::SYS_brk, libc::SYS_futex, libc::SYS_sched_yield,
    libc::SYS_sched_getaffinity, libc::SYS_nanosleep, libc::SYS_clock_nanosleep, libc::SYS_clock_gettime, libc::SYS_clock_getres,
    libc::SYS_gettimeofday, libc::SYS_getrandom, libc::SYS_getpid, libc::SYS_gettid, libc::SYS_getuid, libc::SYS_geteuid,
    libc::SYS_getgid, libc::SYS_getegid, libc::SYS_getrusage, libc::SYS_sysinfo, libc::SYS_uname, libc::SYS_rt_sigprocmask,
    libc::SYS_rt_sigreturn, libc::SYS_sigaltstack, libc::SYS_set_robust_list, libc::SYS_rseq, libc::SYS_exit,
    libc::SYS_exit_group, libc::SYS_poll, libc::SYS_ppoll, libc::SYS_fcntl, libc::SYS_dup, libc::SYS_dup2, libc::SYS_dup3,
    libc::SYS_copy_file_range, libc::SYS_sendfile, libc::SYS_splice, libc::SYS_restart_syscall, libc::SYS_membarrier,
    libc::SYS_getcpu, libc::SYS_statfs, libc::SYS_fstatfs, libc::SYS_flock,
];

/// What a call is called, how it names a file (first path argument, with a folder descriptor before it), and whether it
/// may be let through at all.
fn about(nr: i64) -> (&'static str, Option<(usize, bool)>, bool) {
    match nr {
        libc::SYS_open => ("open", Some((0, false)), true),
        libc::SYS_openat => ("open", Some((1, true)), true),
        libc::SYS_openat2 => ("open", Some((1, true)), true),
        libc::SYS_creat => ("open", Some((0, false)), true),
        libc::SYS_mkdir => ("mkdir", Some((0, false)), true),
        libc::SYS_mkdirat => ("mkdir", Some((1, true)), true),
        libc::SYS_unlink => ("unlink", Some((0, false)), true),
        libc::SYS_unlinkat => ("unlink", Some((1, true)), true),
        libc::SYS_rmdir => ("rmdir", Some((0, false)), true),
        libc::SYS_rename => ("rename", Some((0, false)), true),
        libc::SYS_renameat | libc::SYS_renameat2 => ("rename", Some((1, true)), true),
        libc::SYS_link => ("link", Some((0, false)), true),
        libc::SYS_linkat => ("link", Some((1, true)), true),
        libc::SYS_symlink => ("symlink", Some((1, false)), true),
        libc::SYS_symlinkat => ("symlink", Some((2, true)), true),
        libc::SYS_mknod => ("mknod", Some((0, false)), true),
        libc::SYS_mknodat => ("mknod", Some((1, true)), true),
        libc::SYS_truncate => ("truncate", Some((0, false)), true),
        libc::SYS_chmod => ("chmod", Some((0, false)), true),
        libc::SYS_fchmodat => ("chmod", Some((1, true)), true),
        libc::SYS_fchmod => ("fchmod", None, true),
        libc::SYS_chown | libc::SYS_lchown => ("chown", Some((0, false)), true),
        libc::SYS_fchownat => ("chown", Some((1, true)), true),
        libc::SYS_fchown => ("fchown", None, true),
        libc::SYS_utimensat => ("utimensat", None, true),
        libc::SYS_utime | libc::SYS_utimes => ("utimes", Some((0, false)), true),
        libc::SYS_setxattr | libc::SYS_lsetxattr => ("setxattr", Some((0, false)), true),
        libc::SYS_fsetxattr => ("fsetxattr", None, true),
        libc::SYS_clone => ("clone", None, true),
        libc::SYS_clone3 => ("clone", None, true),
        libc::SYS_fork => ("fork", None, false),
        libc::SYS_vfork => ("vfork", None, false),
        libc::SYS_execve => ("execve", Some((0, false)), false),
        libc::SYS_execveat => ("execve", Some((1, true)), false),
        libc::SYS_socket => ("socket", None, false),
        libc::SYS_socketpair => ("socketpair", None, false),
        libc::SYS_connect => ("connect", None, false),
        libc::SYS_bind => ("bind", None, false),
        libc::SYS_sendto => ("sendto", None, false),
        libc::SYS_sendmsg => ("sendmsg", None, false),
        libc::SYS_kill => ("kill", None, false),
        libc::SYS_ptrace => ("ptrace", None, false),
        libc::SYS_chdir => ("chdir", Some((0, false)), false),
        libc::SYS_fchdir => ("fchdir", None, false),
        libc::SYS_chroot => ("chroot", Some((0, false)), false),
        libc::SYS_umask => ("umask", None, false),
        libc::SYS_setrlimit => ("setrlimit", None, false),
        libc::SYS_prlimit64 => ("prlimit", None, true),
        libc::SYS_setpriority => ("setpriority", None, false),
        libc::SYS_sched_setaffinity => ("sched_setaffinity", None, false),
        libc::SYS_sched_setscheduler | libc::SYS_sched_setparam => ("sched_setscheduler", None, false),
        libc::SYS_setuid | libc::SYS_setresuid | libc::SYS_setreuid => ("setuid", None, false),
        libc::SYS_setgid | libc::SYS_setresgid | libc::SYS_setregid => ("setgid", None, false),
        libc::SYS_setsid | libc::SYS_setpgid => ("setpgid", None, false),
        libc::SYS_mount => ("mount", None, false),
        libc::SYS_umount2 => ("umount", None, false),
        libc::SYS_reboot => ("reboot", None, false),
        libc::SYS_alarm | libc::SYS_setitimer => ("alarm", None, false),
        libc::SYS_rt_sigaction => ("sigaction", None, true),
        libc::SYS_settimeofday | libc::SYS_clock_settime | libc::SYS_adjtimex | libc::SYS_clock_adjtime => ("clock_settime", None, false),
        libc::SYS_sync => ("sync", None, true),
        libc::SYS_shmget | libc::SYS_msgget | libc::SYS_semget => ("shmget", None, false),
        _ => ("other", None, true),
    }
}
/// Calls that reach beyond the files of the caller, or change the process.
pub const BEYOND: &[&str] = &[
    "fork", "vfork", "execve", "socket", "socketpair", "connect", "bind", "sendto", "sendmsg", "kill", "ptrace", "chdir", "fchdir",
    "chroot", "umask", "setrlimit", "setpriority", "sched_setaffinity", "sched_setscheduler", "setuid", "setgid", "setpgid", "mount",
    "umount", "reboot", "alarm", "sigaction", "clock_settime", "shmget", "process",
];

const NEW_LISTENER: libc::c_ulong = 1 << 3;
const MODE_FILTER: libc::c_uint = 1;
const RET_ALLOW: u32 = 0x7fff_0000;
const RET_NOTIFY: u32 = 0x7fc0_0000;
const CONTINUE: u32 = 1;
#[repr(C)]
struct Filter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Program {
    len: u16,
    filter: *const Filter,
}
#[repr(C)]
#[derive(Default)]
struct Notif {
    id: u64,
    pid: u32,
    flags: u32,
    nr: i32,
    arch: u32,
    ip: u64,
    args: [u64; 6],
}
#[repr(C)]
struct Answer {
    id: u64,
    val: i64,
    error: i32,
    flags: u32,
}
// _IOWR('!', 0, Notif), _IOWR('!', 1, Answer)
const RECV: libc::c_ulong = 0xc050_2100;
const SEND: libc::c_ulong = 0xc018_2101;

/// Puts the calling thread (and its future threads) under the filter; the listener's descriptor.
fn install() -> i32 {
    let mut f = vec![Filter { code: 0x20, jt: 0, jf: 0, k: 0 }];
    // jumps reach 255 instructions
    assert!(QUIET.len() < 250);
    for (i, nr) in QUIET.iter().enumerate() {
        f.push(Filter { code: 0x15, jt: (QUIET.len() - i) as u8, jf: 0, k: *nr as u32 });
    }
    f.push(Filter { code: 0x06, jt: 0, jf: 0, k: RET_NOTIFY });
    f.push(Filter { code: 0x06, jt: 0, jf: 0, k: RET_ALLOW });
    let p = Program { len: f.len() as u16, filter: f.as_ptr() };
    unsafe {
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
            return -1;
        }
        libc::syscall(libc::SYS_seccomp, MODE_FILTER, NEW_LISTENER, &p as *const Program) as i32
    }
}

fn string_at(p: u64) -> Option<PathBuf> {
    if p < 4096 {
        return None;
    }
    // (memory of this very process; the thread that made the call waits)
    let s = unsafe { std::ffi::CStr::from_ptr(p as *const libc::c_char) };
    Some(PathBuf::from(OsString::from_vec(s.to_bytes().to_vec())))
}
fn absolute(p: PathBuf, folder: Option<i32>) -> PathBuf {
    if p.is_absolute() {
        return p;
    }
    let base = match folder {
        Some(fd) if fd != libc::AT_FDCWD => std::fs::read_link(format!("/proc/self/fd/{fd}")).unwrap_or_default(),
        _ => std::env::current_dir().unwrap_or_default(),
    };
    base.join(p)
}
fn describe(n: &Notif, safe: &Path) -> Option<Call> {
    let nr = i64::from(n.nr);
    let (mut name, arg, mut pass) = about(nr);
    let path = arg.and_then(|(k, at)| Some(absolute(string_at(n.args[k])?, at.then_some(n.args[0] as i32))));
    let mut flags = 0;
    match nr {
        libc::SYS_open => flags = n.args[1] as i32,
        libc::SYS_openat => flags = n.args[2] as i32,
        libc::SYS_openat2 => flags = unsafe { *(n.args[2] as *const u64) } as i32,
        libc::SYS_creat => flags = libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC,
        libc::SYS_clone | libc::SYS_clone3 => {
            let f = if nr == libc::SYS_clone { n.args[0] } else { unsafe { *(n.args[0] as *const u64) } };
            name = if f & libc::CLONE_THREAD as u64 != 0 { "thread" } else { "process" };
            pass = name == "thread";
        }
        // only asking
        libc::SYS_prlimit64 if n.args[2] == 0 => return None,
        libc::SYS_prlimit64 => {
            name = "setrlimit";
            pass = false;
        }
        libc::SYS_rt_sigaction if n.args[1] == 0 => return None,
        _ => {}
    }
    let writes = name != "open" || flags & (libc::O_ACCMODE | libc::O_CREAT | libc::O_TRUNC) != 0;
    if let (Some(p), true) = (&path, writes) {
        // never outside the test folder, whatever the code under test does
        if !p.starts_with(safe) || p.components().any(|c| c.as_os_str() == "..") {
            pass = false;
        }
    }
    Some(Call { nr, name, path, flags, refused: !pass })
}

/// Runs `f` in a thread of its own and records its calls; changes of files outside `safe` are refused.
pub fn traced<T: Send>(safe: &Path, f: impl FnOnce() -> T + Send) -> (T, Vec<Call>) {
    let listener = AtomicI32::new(-2);
    std::thread::scope(|s| {
        let l = &listener;
        let h = s.spawn(move || {
            l.store(install(), Ordering::SeqCst);
            f()
        });
        let fd = loop {
            match listener.load(Ordering::SeqCst) {
                -2 => std::thread::yield_now(),
                -1 => panic!("harness: no system call filter: {}", std::io::Error::last_os_error()),
                x => break x,
            }
        };
        let mut calls = vec![];
        loop {
            let mut p = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            let k = unsafe { libc::poll(&mut p, 1, 200) };
            if k < 0 || (k > 0 && p.revents & libc::POLLIN == 0) {
                break; // no thread is under the filter any more
            }
            if k == 0 {
                // (a thread left behind keeps the filter)
                if h.is_finished() {
                    break;
                }
                continue;
            }
            let mut n = Notif::default();
            if unsafe { libc::ioctl(fd, RECV, &mut n as *mut Notif) } != 0 {
                continue;
            }
            let c = describe(&n, safe);
            let refuse = c.as_ref().is_some_and(|c| c.refused);
            calls.extend(c);
            let a = if refuse {
                Answer { id: n.id, val: 0, error: -libc::EPERM, flags: 0 }
            } else {
                Answer { id: n.id, val: 0, error: 0, flags: CONTINUE }
            };
            unsafe { libc::ioctl(fd, SEND, &a as *const Answer) };
        }
        unsafe { libc::close(fd) };
        match h.join() {
            Ok(x) => (x, calls),
            Err(p) => std::panic::resume_unwind(p),
        }
    })
}

/// What belongs to the whole process.
#[derive(PartialEq, Eq, Debug, Clone)]
pub struct State {
    pub descriptors: BTreeMap<i32, PathBuf>,
    pub cwd: PathBuf,
    pub env: BTreeMap<OsString, OsString>,
    pub status: Vec<String>,
}
impl State {
    pub fn now() -> Self {
        let mut descriptors = BTreeMap::new();
        for e in std::fs::read_dir("/proc/self/fd").expect("harness: /proc").flatten() {
            let Ok(n) = e.file_name().to_string_lossy().parse() else { continue };
            // (the descriptor of this very listing is gone afterwards)
            if let Ok(l) = std::fs::read_link(e.path()) {
                if !l.ends_with("fd") || !l.starts_with("/proc") {
                    descriptors.insert(n, l);
                }
            }
        }
        let s = std::fs::read_to_string("/proc/self/status").expect("harness: /proc");
        let keep = ["Umask:", "Threads:", "SigBlk:", "SigIgn:", "SigCgt:"];
        State {
            descriptors,
            cwd: std::env::current_dir().expect("harness: folder"),
            env: std::env::vars_os().collect(),
            status: s.lines().filter(|l| keep.iter().any(|k| l.starts_with(k))).map(str::to_string).collect(),
        }
    }
    /// The state once threads that just ended are gone; the first difference to `self`.
    pub fn changed(&self) -> Option<String> {
        let mut now = Self::now();
        for _ in 0..500 {
            if now.status == self.status {
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
            now = Self::now();
        }
        if now == *self {
            return None;
        }
        for (n, p) in &now.descriptors {
            if self.descriptors.get(n) != Some(p) {
                return Some(format!("descriptor {n} is open afterwards: {p:?}"));
            }
        }
        for (n, p) in &self.descriptors {
            if !now.descriptors.contains_key(n) {
                return Some(format!("descriptor {n} is closed afterwards: {p:?}"));
            }
        }
        if now.cwd != self.cwd {
            return Some(format!("the working directory is {:?} afterwards", now.cwd));
        }
        if now.env != self.env {
            let d: Vec<_> = now.env.iter().filter(|(k, v)| self.env.get(*k) != Some(v)).collect();
            return Some(format!("the environment differs afterwards: {d:?}"));
        }
        Some(format!("{:?} before, {:?} afterwards", self.status, now.status))
    }
}
