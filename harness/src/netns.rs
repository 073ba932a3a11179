//! A loopback network of one's own: the port of the development server is fixed.

use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;

extern "C" {
    fn unshare(flags: i32) -> i32;
    fn socket(domain: i32, kind: i32, protocol: i32) -> i32;
    fn ioctl(fd: i32, request: u64, arg: *mut u8) -> i32;
    fn close(fd: i32) -> i32;
    fn getuid() -> u32;
    fn getgid() -> u32;
    fn execv(path: *const i8, argv: *const *const i8) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
    fn flock(fd: i32, op: i32) -> i32;
}

const CLONE_NEWUSER: i32 = 0x10000000;
const CLONE_NEWNET: i32 = 0x40000000;
const SIOCSIFFLAGS: u64 = 0x8914;
const SIOCGIFFLAGS: u64 = 0x8913;

fn isolate() -> Result<(), String> {
    unsafe {
        let (uid, gid) = (getuid(), getgid());
        if unshare(CLONE_NEWUSER | CLONE_NEWNET) != 0 {
            return Err(format!("unshare: {}", std::io::Error::last_os_error()));
        }
        let write = |p: &str, t: String| std::fs::write(p, t).map_err(|e| format!("{}: {}", p, e));
        write("/proc/self/setgroups", "deny".into())?;
        write("/proc/self/uid_map", format!("{0} {0} 1", uid))?;
        write("/proc/self/gid_map", format!("{0} {0} 1", gid))?;
        let s = socket(2, 2, 0);
        if s < 0 {
            return Err("socket".into());
        }
        let mut req = [0u8; 40];
        req[..2].copy_from_slice(b"lo");
        if ioctl(s, SIOCGIFFLAGS, req.as_mut_ptr()) != 0 {
            return Err("SIOCGIFFLAGS".into());
        }
        req[16] |= 1 | 0x40;
        let r = ioctl(s, SIOCSIFFLAGS, req.as_mut_ptr());
        close(s);
        if r != 0 {
            return Err(format!("SIOCSIFFLAGS: {}", std::io::Error::last_os_error()));
        }
    }
    Ok(())
}

/// Runs the command in a network of its own, or tells it that there is none.
pub fn run(args: &[String]) -> ! {
    match isolate() {
        Ok(()) => {
            std::env::set_var("VH_NETNS", "1");
            // Only now may it listen there.
            if let Ok(l) = std::net::TcpListener::bind("127.0.0.1:80") {
                use std::os::fd::IntoRawFd;
                let fd = l.into_raw_fd();
                unsafe { fcntl(fd, 2, 0) };
                std::env::set_var("VH_HTTP_FD", fd.to_string());
            }
        }
        Err(e) => eprintln!("no network of its own: {}", e),
    }
    let c: Vec<CString> = args.iter().map(|a| CString::new(std::ffi::OsStr::new(a).as_bytes()).unwrap()).collect();
    let mut p: Vec<*const i8> = c.iter().map(|c| c.as_ptr() as *const i8).collect();
    p.push(std::ptr::null());
    unsafe {
        execv(p[0], p.as_ptr());
    }
    eprintln!("cannot execute {}", args[0]);
    std::process::exit(70);
}

fn http_fd() -> Option<i32> {
    std::env::var("VH_HTTP_FD").ok()?.parse().ok()
}

/// The web server's socket is not for the children.
pub fn keep() {
    if let Some(fd) = http_fd() {
        unsafe { fcntl(fd, 2, 1) };
    }
}

/// The web server's socket; to be taken once.
pub fn http() -> Option<std::net::TcpListener> {
    use std::os::fd::FromRawFd;
    http_fd().map(|fd| unsafe { std::net::TcpListener::from_raw_fd(fd) })
}

/// Held while the port is in use, if the network is shared with the other shards.
pub struct Turn(#[allow(dead_code)] Option<std::fs::File>);

pub fn turn() -> Turn {
    if std::env::var_os("VH_NETNS").is_some() {
        return Turn(None);
    }
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().create(true).write(true).truncate(false).open("/tmp/vh-port-6904");
    let f = f.expect("cannot lock the port");
    unsafe {
        flock(f.as_raw_fd(), 2);
    }
    Turn(Some(f))
}
