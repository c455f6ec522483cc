//! A small HTTP/1.1 server on the loopback interface whose answer to each request is scripted by the request's path.
use bytes::Bytes;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::common::Sent;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Reply {
    Full { status: u16, headers: Vec<(&'static str, &'static str)>, body: Vec<u8>, chunked: bool },
    /// Close the connection after the request.
    Close,
    /// Close after part of the head.
    PartHead,
    /// Close after part of the body.
    PartBody,
    /// Wait for the client to close the connection, at most this many milliseconds, and answer 200 if it has not.
    Wait(u64, Stall),
}
/// What is sent before waiting.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Stall {
    Nothing,
    PartHead,
    Head,
    PartBody,
}
impl Reply {
    pub fn status(s: u16) -> Reply {
        Reply::Full { status: s, headers: vec![], body: vec![], chunked: false }
    }
}
type Shared = Arc<Mutex<(Vec<Sent>, Vec<(String, Reply)>, Reply)>>;
pub struct Server {
    pub port: u16,
    shared: Shared,
    stop: Arc<AtomicBool>,
    thread: Option<std::thread::JoinHandle<()>>,
}
impl Server {
    pub fn start() -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("a loopback port");
        let port = l.local_addr().unwrap().port();
        let shared: Shared = Arc::new(Mutex::new((vec![], vec![], Reply::status(200))));
        let stop = Arc::new(AtomicBool::new(false));
        let (s, st) = (shared.clone(), stop.clone());
        let thread = std::thread::spawn(move || {
            for c in l.incoming() {
                if st.load(Ordering::SeqCst) {
                    return;
                }
                let Ok(c) = c else { continue };
                let s = s.clone();
                std::thread::spawn(move || {
                    let _ = serve(c, s);
                });
            }
        });
        Server { port, shared, stop, thread: Some(thread) }
    }
    /// The reply to every request whose path has no reply of its own.
    pub fn reply(&self, r: Reply) {
        self.shared.lock().unwrap().2 = r;
    }
    pub fn reply_at(&self, path: &str, r: Reply) {
        self.shared.lock().unwrap().1.push((path.to_string(), r));
    }
    pub fn take(&self) -> Vec<Sent> {
        std::mem::take(&mut self.shared.lock().unwrap().0)
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}
/// A port of the loopback interface that nothing listens on.
pub fn closed_port() -> (TcpListener, u16) {
    // bound but not listening: keeps others away from the port while connections to it are refused
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0);
        let a = libc::sockaddr_in { sin_family: libc::AF_INET as u16, sin_port: 0, sin_addr: libc::in_addr { s_addr: u32::from_be_bytes([127, 0, 0, 1]).to_be() }, sin_zero: [0; 8] };
        assert_eq!(libc::bind(fd, &a as *const _ as *const libc::sockaddr, 16), 0);
        let l = TcpListener::from_raw_fd(fd);
        let p = l.local_addr().unwrap().port();
        (l, p)
    }
}
fn serve(mut c: TcpStream, shared: Shared) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut buf: Vec<u8> = vec![];
    let mut tmp = vec![0u8; 65536];
    loop {
        // head
        let end = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p + 4;
            }
            let n = c.read(&mut tmp)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&tmp[..n]);
        };
        let head = String::from_utf8_lossy(&buf[..end]).into_owned();
        let mut lines = head.split("\r\n");
        let mut first = lines.next().unwrap().split(' ');
        let (method, path) = (first.next().unwrap().to_string(), first.next().unwrap_or("").to_string());
        let headers: Vec<(String, String)> = lines.filter_map(|l| l.split_once(": ")).map(|(k, v)| (k.to_ascii_lowercase(), v.to_string())).collect();
        let get = |k: &str| headers.iter().find(|h| h.0 == k).map(|h| h.1.clone());
        let len: usize = get("content-length").and_then(|v| v.parse().ok()).unwrap_or(0);
        let mut body = vec![];
        if get("transfer-encoding").is_some_and(|v| v.contains("chunked")) {
            let mut pos = end;
            let mut more = |buf: &mut Vec<u8>| -> std::io::Result<()> {
                let n = c.read(&mut tmp)?;
                if n == 0 {
                    return Err(std::io::ErrorKind::UnexpectedEof.into());
                }
                buf.extend_from_slice(&tmp[..n]);
                Ok(())
            };
            loop {
                let nl = loop {
                    match buf[pos..].windows(2).position(|w| w == b"\r\n") {
                        Some(p) => break pos + p,
                        None => more(&mut buf)?,
                    }
                };
                let n = usize::from_str_radix(std::str::from_utf8(&buf[pos..nl]).unwrap_or("0"), 16).unwrap_or(0);
                while buf.len() < nl + 2 + n + 2 {
                    more(&mut buf)?;
                }
                body.extend_from_slice(&buf[nl + 2..nl + 2 + n]);
                pos = nl + 2 + n + 2;
                if n == 0 {
                    break;
                }
            }
            buf.drain(..pos);
        } else {
            while buf.len() < end + len {
                let n = c.read(&mut tmp)?;
                if n == 0 {
                    return Ok(());
                }
                buf.extend_from_slice(&tmp[..n]);
            }
            body.extend_from_slice(&buf[end..end + len]);
            buf.drain(..end + len);
        }
        let reply = {
            let mut g = shared.lock().unwrap();
            let r = g.1.iter().find(|x| x.0 == path).map(|x| x.1.clone()).unwrap_or_else(|| g.2.clone());
            g.0.push(Sent { method, uri: path, headers, body: Bytes::from(body) });
            r
        };
        match reply {
            Reply::Full { status, headers, body, chunked } => {
                let mut out = format!("HTTP/1.1 {status} Reason\r\n");
                for (k, v) in headers {
                    out += &format!("{k}: {v}\r\n");
                }
                let mut out = out.into_bytes();
                if chunked {
                    out.extend(b"transfer-encoding: chunked\r\n\r\n");
                    for part in body.chunks(7) {
                        out.extend(format!("{:x}\r\n", part.len()).as_bytes());
                        out.extend(part);
                        out.extend(b"\r\n");
                    }
                    out.extend(b"0\r\n\r\n");
                } else if status == 204 {
                    out.extend(b"\r\n");
                } else {
                    out.extend(format!("content-length: {}\r\n\r\n", body.len()).as_bytes());
                    out.extend(body);
                }
                c.write_all(&out)?;
            }
            Reply::Close => return Ok(()),
            Reply::PartHead => return c.write_all(b"HTTP/1.1 200 OK\r\ncontent-le"),
            Reply::PartBody => return c.write_all(b"HTTP/1.1 200 OK\r\ncontent-length: 10\r\n\r\n12345"),
            Reply::Wait(ms, stall) => {
                let all = b"HTTP/1.1 200 OK\r\ncontent-length: 4\r\n\r\n1234";
                let cut = match stall {
                    Stall::Nothing => 0,
                    Stall::PartHead => 20,
                    Stall::Head => all.len() - 4,
                    Stall::PartBody => all.len() - 2,
                };
                c.write_all(&all[..cut])?;
                let end = Instant::now() + Duration::from_millis(ms);
                while let Some(left) = end.checked_duration_since(Instant::now()) {
                    c.set_read_timeout(Some(left.max(Duration::from_millis(1))))?;
                    match c.read(&mut tmp) {
                        Ok(0) => return Ok(()),
                        Ok(n) => buf.extend_from_slice(&tmp[..n]),
                        Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {}
                        Err(e) => return Err(e),
                    }
                }
                c.set_read_timeout(None)?;
                c.write_all(&all[cut..])?;
            }
        }
    }
}
