//! Running the development server, and talking to it.

use crate::cli::{self, Env};
use crate::engine::Ctx;
use crate::netns;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::path::Path;
use std::process::{Child, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn addr() -> SocketAddr {
    "127.0.0.1:6904".parse().unwrap()
}

/// Anything takes at most this long, unless the server is stuck.
pub const PATIENCE: Duration = Duration::from_secs(10);

pub struct Dev {
    child: Child,
    pub out: Arc<Mutex<Vec<u8>>>,
    _turn: netns::Turn,
}

fn pump(mut r: impl Read + Send + 'static, to: Arc<Mutex<Vec<u8>>>) {
    std::thread::spawn(move || {
        let mut b = [0u8; 4096];
        while let Ok(n) = r.read(&mut b) {
            if n == 0 {
                break;
            }
            to.lock().unwrap().extend_from_slice(&b[..n]);
        }
    });
}

impl Dev {
    /// Starts the server and waits for it to answer.
    pub fn start(ctx: &Ctx, cwd: &Path, args: &[&str], env: &Env) -> Result<Dev, String> {
        Dev::start_at(ctx, cwd, None, args, env)
    }

    /// With an option before the command.
    pub fn start_at(ctx: &Ctx, cwd: &Path, option: Option<&str>, args: &[&str], env: &Env) -> Result<Dev, String> {
        use std::os::unix::process::CommandExt;
        let turn = netns::turn();
        let mut a: Vec<&str> = option.into_iter().collect();
        a.push("dev");
        a.extend(args);
        let mut c = cli::command(ctx, cwd, &a, env);
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0);
        let mut child = c.spawn().expect("cannot start stuart");
        let out = Arc::new(Mutex::new(vec![]));
        pump(child.stdout.take().unwrap(), out.clone());
        pump(child.stderr.take().unwrap(), out.clone());
        let mut d = Dev { child, out, _turn: turn };
        let t0 = Instant::now();
        loop {
            if let Some(s) = d.ended() {
                return Err(format!("the server ended: {}\n{}", s, d.log()));
            }
            if TcpStream::connect_timeout(&addr(), Duration::from_secs(1)).is_ok() {
                // The listener may be that of a server before.
                if d.ended().is_none() {
                    return Ok(d);
                }
            }
            if t0.elapsed() > PATIENCE {
                return Err(format!("the server does not answer\n{}", d.log()));
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }

    pub fn pid(&self) -> u32 {
        self.child.id()
    }

    pub fn ended(&mut self) -> Option<String> {
        self.child.try_wait().unwrap().map(|s| s.to_string())
    }

    pub fn log(&self) -> String {
        crate::site::clip(&cli::plain(&String::from_utf8_lossy(&self.out.lock().unwrap())), 3000)
    }
}

impl Drop for Dev {
    fn drop(&mut self) {
        cli::kill_group(&mut self.child);
    }
}

#[derive(Debug, Clone)]
pub struct Reply {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Reply {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
}

fn connect() -> Result<TcpStream, String> {
    let t0 = Instant::now();
    let s = loop {
        match TcpStream::connect_timeout(&addr(), PATIENCE) {
            Ok(s) => break s,
            Err(e) if t0.elapsed() > Duration::from_secs(5) => return Err(format!("cannot connect: {}", e)),
            Err(_) => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    s.set_read_timeout(Some(PATIENCE)).unwrap();
    s.set_nodelay(true).ok();
    Ok(s)
}

/// Requests the targets one after another, as browsers do over a connection which they keep.
pub fn get_kept(targets: &[Vec<u8>]) -> Result<Vec<Reply>, String> {
    let mut s = connect()?;
    let mut v = vec![];
    let mut out = vec![];
    for t in targets {
        let mut req = b"GET ".to_vec();
        req.extend_from_slice(t);
        req.extend_from_slice(b" HTTP/1.1\r\nHost: localhost:6904\r\nConnection: keep-alive\r\n\r\n");
        s.write_all(&req).map_err(|e| format!("write: {}", e))?;
        let mut b = [0u8; 1 << 16];
        loop {
            // The library ends a response with an empty line of its own.
            while v.starts_with(b"\r\n") {
                v.drain(..2);
            }
            if let Some(end) = v.windows(4).position(|w: &[u8]| w == b"\r\n\r\n") {
                let mut r = head(&v[..end])?;
                let n = r.header("Content-Length").and_then(|l| l.parse::<usize>().ok()).unwrap_or(0);
                if v.len() >= end + 4 + n {
                    r.body = v[end + 4..end + 4 + n].to_vec();
                    v.drain(..end + 4 + n);
                    out.push(r);
                    break;
                }
            }
            match s.read(&mut b) {
                Ok(0) => return Err(format!("the connection ended with {:?}", String::from_utf8_lossy(&v[..v.len().min(200)]))),
                Ok(n) => v.extend_from_slice(&b[..n]),
                Err(e) => return Err(format!("read: {}", e)),
            }
        }
    }
    Ok(out)
}

/// Status and headers.
fn head(v: &[u8]) -> Result<Reply, String> {
    let head = String::from_utf8_lossy(v).into_owned();
    let mut lines = head.split("\r\n");
    let status = lines
        .next()
        .and_then(|l| l.split(' ').nth(1))
        .and_then(|c| c.parse().ok())
        .ok_or_else(|| format!("no status: {:?}", head))?;
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.split_once(':'))
        .map(|(a, b)| (a.trim().to_string(), b.trim().to_string()))
        .collect();
    Ok(Reply { status, headers, body: vec![] })
}

/// Requests the target as it is.
pub fn get(target: &[u8]) -> Result<Reply, String> {
    let mut s = connect()?;
    let mut req = b"GET ".to_vec();
    req.extend_from_slice(target);
    req.extend_from_slice(b" HTTP/1.1\r\nHost: localhost:6904\r\nConnection: close\r\n\r\n");
    s.write_all(&req).map_err(|e| format!("write: {}", e))?;
    let mut v = vec![];
    if let Err(e) = s.read_to_end(&mut v) {
        if v.is_empty() {
            return Err(format!("read: {}", e));
        }
    }
    let end = v.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| {
        format!("not a response: {:?}", String::from_utf8_lossy(&v[..v.len().min(200)]))
    })?;
    let mut r = head(&v[..end])?;
    r.body = v[end + 4..].to_vec();
    // What follows the announced length is no part of the response.
    if let Some(n) = r.header("Content-Length").and_then(|l| l.parse::<usize>().ok()) {
        r.body.truncate(n);
    }
    Ok(r)
}

/// A browser which waits for the message to reload.
pub struct Ws {
    s: TcpStream,
    buf: Vec<u8>,
}

impl Ws {
    pub fn open() -> Result<Ws, String> {
        let mut s = connect()?;
        s.write_all(
            b"GET /__ws HTTP/1.1\r\nHost: localhost:6904\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n",
        )
        .map_err(|e| e.to_string())?;
        let mut buf = vec![];
        let mut b = [0u8; 1024];
        loop {
            if let Some(i) = buf.windows(4).position(|w: &[u8]| w == b"\r\n\r\n") {
                if !buf.starts_with(b"HTTP/1.1 101") {
                    return Err(format!("no WebSocket: {}", String::from_utf8_lossy(&buf)));
                }
                let rest = buf[i + 4..].to_vec();
                return Ok(Ws { s, buf: rest });
            }
            match s.read(&mut b) {
                Ok(0) => return Err("closed during the handshake".into()),
                Ok(n) => buf.extend_from_slice(&b[..n]),
                Err(e) => return Err(format!("handshake: {}", e)),
            }
        }
    }

    fn frame(&mut self) -> Option<(u8, Vec<u8>)> {
        if self.buf.len() < 2 {
            return None;
        }
        let (op, len) = (self.buf[0] & 15, (self.buf[1] & 127) as usize);
        // Servers do not mask, and the messages are short.
        if len >= 126 || self.buf.len() < 2 + len {
            return None;
        }
        let t = self.buf[2..2 + len].to_vec();
        self.buf.drain(..2 + len);
        Some((op, t))
    }

    /// The next message, if it comes within the time.
    pub fn next(&mut self, limit: Duration) -> Result<Option<Vec<u8>>, String> {
        let t0 = Instant::now();
        loop {
            match self.frame() {
                Some((1 | 2, t)) => return Ok(Some(t)),
                Some((8, _)) => return Err("the server closed the connection".into()),
                Some(_) => continue,
                None => (),
            }
            let left = limit.saturating_sub(t0.elapsed());
            if left.is_zero() {
                return Ok(None);
            }
            self.s.set_read_timeout(Some(left.max(Duration::from_millis(1)))).unwrap();
            let mut b = [0u8; 1024];
            match self.s.read(&mut b) {
                Ok(0) => return Err("the server closed the connection".into()),
                Ok(n) => self.buf.extend_from_slice(&b[..n]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => (),
                Err(e) => return Err(e.to_string()),
            }
        }
    }
}

/// Runs the script which the server puts in pages, as a browser would.
const BROWSER: &str = r#"
const say = s => process.stdout.write(s + "\n");
const at = new URL("http://127.0.0.1:6904" + process.argv[2]);
const reload = () => say("reload");
// Going to where one is does nothing if only the fragment could differ.
const go = to => { const u = new URL(to, at); say(u.href == at.href && !u.hash ? "reload" : u.hash ? "scroll" : "leave " + u.href); };
const location = { host: at.host, hostname: at.hostname, port: at.port, protocol: at.protocol, origin: at.origin, get href() { return at.href; },
    set href(to) { go(to); }, pathname: at.pathname, search: at.search, hash: at.hash, toString: () => at.href, reload, assign: go, replace: go };
Object.defineProperty(globalThis, "location", { get: () => location, set: go });
globalThis.window = globalThis.self = globalThis;
globalThis.document = { location, URL: at.href, readyState: "complete", addEventListener() {}, body: null, documentElement: null };
const W = WebSocket;
globalThis.WebSocket = class extends W {
    constructor(...a) { super(...a); this.addEventListener("open", () => say("open")); }
};
setTimeout(() => process.exit(2), 60000);
(0, eval)(process.argv[1]);
"#;

/// A page which is open in a browser.
pub struct Browser {
    child: Child,
    out: Arc<Mutex<Vec<u8>>>,
}

impl Browser {
    /// Opens a page with this script, unless there is nothing to run it.
    pub fn open(script: &str, path: &str) -> Option<Browser> {
        let mut c = std::process::Command::new("node");
        c.args(["-e", BROWSER, script, path]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut child = c.spawn().ok()?;
        let out = Arc::new(Mutex::new(vec![]));
        pump(child.stdout.take().unwrap(), out.clone());
        pump(child.stderr.take().unwrap(), out.clone());
        Some(Browser { child, out })
    }

    pub fn log(&self) -> String {
        String::from_utf8_lossy(&self.out.lock().unwrap()).into_owned()
    }

    /// Waits until it has said this.
    pub fn says(&self, what: &str, limit: Duration) -> bool {
        let t0 = Instant::now();
        while t0.elapsed() < limit {
            if self.log().lines().any(|l| l == what) {
                return true;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        false
    }
}

impl Drop for Browser {
    fn drop(&mut self) {
        self.child.kill().ok();
        self.child.wait().ok();
    }
}
