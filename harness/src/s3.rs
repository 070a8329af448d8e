//! A small S3 server over a directory: every request is recorded, and may be
//! answered with a fault or held back until a schedule releases it.
use chrono::{DateTime, Utc};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::oneshot;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Forbidden,   // 403, not retried by the client
    NotFound,    // 404
    BadRequest,  // 400
    ErrorOnce,   // 500 for the first attempt, then served
    CloseOnce,   // connection closed without an answer, then served
    Cut,         // connection closed in the middle of the body
    CutOnce,     // the same for the first attempt only
    Garbage,     // listing: 200 with a broken document
    ForbiddenOnce,
}
pub const FAULTS: [Fault; 8] = [
    Fault::Forbidden, Fault::NotFound, Fault::BadRequest, Fault::ErrorOnce, Fault::CloseOnce, Fault::Cut, Fault::CutOnce, Fault::Garbage,
];

#[derive(Default)]
pub struct Plan {
    /// operation key -> fault
    pub faults: HashMap<String, Fault>,
    pub fired: usize,
}

pub struct Held {
    pub key: String,
    pub go: oneshot::Sender<()>,
}

pub struct Ctl {
    pub root: PathBuf,
    pub page: usize,
    pub log: Mutex<Vec<String>>,
    pub plan: Mutex<Plan>,
    /// requests wait here while Some
    pub gate: Mutex<Option<Vec<Held>>>,
    pub arrivals: std::sync::atomic::AtomicUsize,
}

pub struct S3 {
    pub port: u16,
    pub ctl: Arc<Ctl>,
    /// ends the server
    stop: Option<oneshot::Sender<()>>,
}
impl Drop for S3 {
    fn drop(&mut self) {
        drop(self.stop.take());
    }
}

impl S3 {
    pub async fn start(root: &Path, page: usize, apart: bool) -> S3 {
        let l = std::net::TcpListener::bind("127.0.0.1:0").expect("loopback");
        l.set_nonblocking(true).unwrap();
        let port = l.local_addr().unwrap().port();
        let ctl = Arc::new(Ctl {
            root: root.to_path_buf(),
            page,
            log: Mutex::default(),
            plan: Mutex::default(),
            gate: Mutex::new(None),
            arrivals: Default::default(),
        });
        let c = ctl.clone();
        let (stop, stopped) = oneshot::channel::<()>();
        let serving = async move {
            let l = TcpListener::from_std(l).expect("loopback");
            let accept = async {
                let mut set = tokio::task::JoinSet::new();
                loop {
                    let Ok((s, _)) = l.accept().await else { break };
                    let _ = s.set_nodelay(true);
                    let c = c.clone();
                    set.spawn(async move {
                        let _ = serve(c, s).await;
                    });
                }
            };
            tokio::select! { _ = accept => {}, _ = stopped => {} }
        };
        if apart {
            // for readers that block the runtime they are called on
            std::thread::spawn(move || tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(serving));
        } else {
            tokio::spawn(serving);
        }
        S3 { port, ctl, stop: Some(stop) }
    }
    pub fn options(&self) -> Vec<(String, String)> {
        [
            ("AWS_ENDPOINT", format!("http://127.0.0.1:{}", self.port)),
            ("AWS_ALLOW_HTTP", "true".into()),
            ("AWS_REGION", "us-east-1".into()),
            ("AWS_SKIP_SIGNATURE", "true".into()),
        ]
        .into_iter()
        .map(|(k, v)| (k.to_ascii_lowercase(), v))
        .collect()
    }
}

fn unescape(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                out.push(x);
                i += 3;
                continue;
            }
        }
        out.push(if b[i] == b'+' { b' ' } else { b[i] });
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn unescape_path(s: &str) -> String {
    unescape(&s.replace('+', "%2B"))
}

fn has_file(d: &Path) -> bool {
    std::fs::read_dir(d).map(|r| r.flatten().any(|e| { let p = e.path(); p.is_file() || has_file(&p) })).unwrap_or(false)
}

fn xml(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

fn list(c: &Ctl, q: &HashMap<String, String>) -> String {
    let prefix = q.get("prefix").cloned().unwrap_or_default();
    let (dir, rest) = match prefix.rfind('/') {
        Some(i) => (prefix[..=i].to_string(), prefix[i + 1..].to_string()),
        None => (String::new(), prefix.clone()),
    };
    let mut entries: Vec<(String, bool, PathBuf)> = Vec::new();
    if let Ok(rd) = std::fs::read_dir(c.root.join(&dir)) {
        for e in rd.flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if !name.starts_with(&rest) {
                continue;
            }
            let p = e.path();
            if p.is_file() {
                entries.push((format!("{dir}{name}"), false, p));
            } else if has_file(&p) {
                entries.push((format!("{dir}{name}/"), true, p));
            }
        }
    }
    entries.sort();
    // pages go on after the last key of the page before, whatever was added since
    let from: usize = q.get("continuation-token").map(|t| entries.iter().filter(|e| e.0 <= *t).count()).unwrap_or(0);
    let to = (from + c.page).min(entries.len());
    let mut s = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?><ListBucketResult xmlns=\"http://s3.amazonaws.com/doc/2006-03-01/\">");
    s.push_str(&format!("<Name>b</Name><Prefix>{}</Prefix><KeyCount>{}</KeyCount><MaxKeys>1000</MaxKeys><IsTruncated>{}</IsTruncated>", xml(&prefix), to - from.min(to), to < entries.len()));
    if to < entries.len() {
        s.push_str(&format!("<NextContinuationToken>{}</NextContinuationToken>", xml(&entries[to - 1].0)));
    }
    for (k, d, p) in &entries[from.min(to)..to] {
        if *d {
            s.push_str(&format!("<CommonPrefixes><Prefix>{}</Prefix></CommonPrefixes>", xml(k)));
        } else if let Ok(m) = std::fs::metadata(p) {
            s.push_str(&format!("<Contents><Key>{}</Key><LastModified>2024-01-01T00:00:00.000Z</LastModified><ETag>&quot;e&quot;</ETag><Size>{}</Size><StorageClass>STANDARD</StorageClass></Contents>", xml(k), m.len()));
        }
    }
    s.push_str("</ListBucketResult>");
    s
}

async fn serve(c: Arc<Ctl>, mut s: TcpStream) -> std::io::Result<()> {
    let mut buf: Vec<u8> = Vec::new();
    loop {
        let end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            let mut t = [0u8; 4096];
            let n = s.read(&mut t).await?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&t[..n]);
        };
        let head = String::from_utf8_lossy(&buf[..end]).into_owned();
        buf.drain(..end + 4);
        let mut lines = head.split("\r\n");
        let mut first = lines.next().unwrap_or("").split(' ');
        let (method, target) = (first.next().unwrap_or("").to_string(), first.next().unwrap_or("").to_string());
        let range = lines
            .filter_map(|l| l.split_once(':'))
            .find(|(k, _)| k.eq_ignore_ascii_case("range"))
            .map(|(_, v)| v.trim().to_string());
        let (path, query) = target.split_once('?').unwrap_or((&target, ""));
        let q: HashMap<String, String> = query.split('&').filter_map(|kv| kv.split_once('=')).map(|(k, v)| (k.to_string(), unescape(v))).collect();
        let key = path.trim_start_matches('/').split_once('/').map(|x| unescape_path(x.1)).unwrap_or_default();
        let is_list = q.contains_key("list-type");
        let op = if is_list {
            format!("LIST {} {}", q.get("prefix").cloned().unwrap_or_default(), q.get("continuation-token").cloned().unwrap_or_default())
        } else {
            format!("{method} {key} {}", range.clone().unwrap_or_default())
        };
        c.log.lock().unwrap().push(op.clone());
        c.arrivals.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let wait = {
            let mut g = c.gate.lock().unwrap();
            g.as_mut().map(|v| {
                let (tx, rx) = oneshot::channel();
                v.push(Held { key: op.clone(), go: tx });
                rx
            })
        };
        if let Some(rx) = wait {
            let _ = rx.await;
        }
        let fault = {
            let mut p = c.plan.lock().unwrap();
            let f = p.faults.get(&op).copied();
            if let Some(x) = f {
                p.fired += 1;
                if matches!(x, Fault::ErrorOnce | Fault::CloseOnce | Fault::CutOnce | Fault::ForbiddenOnce) {
                    p.faults.remove(&op);
                }
            }
            f
        };
        let now: DateTime<Utc> = DateTime::from_timestamp(1_704_067_200, 0).unwrap();
        let lm = now.format("%a, %d %b %Y %H:%M:%S GMT");
        let (mut status, mut body, mut extra) = if is_list {
            ("200 OK", list(&c, &q).into_bytes(), String::new())
        } else {
            match std::fs::read(c.root.join(&key)) {
                Err(_) => ("404 Not Found", b"<Error><Code>NoSuchKey</Code></Error>".to_vec(), String::new()),
                Ok(d) => {
                    let total = d.len();
                    let mut extra = format!("ETag: \"e\"\r\nLast-Modified: {lm}\r\n");
                    match range.as_deref().and_then(|r| r.strip_prefix("bytes=")) {
                        Some(r) => {
                            let (a, b) = r.split_once('-').unwrap_or(("", ""));
                            let (from, to) = if a.is_empty() {
                                (total.saturating_sub(b.parse().unwrap_or(0)), total)
                            } else {
                                (a.parse().unwrap_or(0), b.parse::<usize>().map(|x| x + 1).unwrap_or(total).min(total))
                            };
                            if from >= to {
                                ("416 Range Not Satisfiable", vec![], extra)
                            } else {
                                extra.push_str(&format!("Content-Range: bytes {}-{}/{}\r\n", from, to - 1, total));
                                ("206 Partial Content", d[from..to].to_vec(), extra)
                            }
                        }
                        None => ("200 OK", d, extra),
                    }
                }
            }
        };
        let mut cut = false;
        match fault {
            Some(Fault::Forbidden) | Some(Fault::ForbiddenOnce) => (status, body, extra) = ("403 Forbidden", b"<Error><Code>AccessDenied</Code></Error>".to_vec(), String::new()),
            Some(Fault::NotFound) => (status, body, extra) = ("404 Not Found", b"<Error><Code>NoSuchKey</Code></Error>".to_vec(), String::new()),
            Some(Fault::BadRequest) => (status, body, extra) = ("400 Bad Request", b"<Error/>".to_vec(), String::new()),
            Some(Fault::ErrorOnce) => (status, body, extra) = ("500 Internal Server Error", vec![], String::new()),
            Some(Fault::CloseOnce) => return Ok(()),
            Some(Fault::Cut) | Some(Fault::CutOnce) => cut = true,
            Some(Fault::Garbage) if is_list => {
                let n = body.len() / 2;
                body.truncate(n);
            }
            _ => {}
        }
        let h = format!("HTTP/1.1 {status}\r\nContent-Length: {}\r\n{extra}\r\n", body.len());
        s.write_all(h.as_bytes()).await?;
        if method != "HEAD" {
            if cut {
                s.write_all(&body[..body.len() / 2]).await?;
                s.flush().await?;
                return Ok(());
            }
            s.write_all(&body).await?;
        } else if cut {
            return Ok(());
        }
        s.flush().await?;
    }
}
