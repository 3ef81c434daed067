//! C24: the network is used only with --allow-http, and responses are taken whole or not at all.
use crate::cli;
use crate::engine::*;
use crate::html::{self, El, Node};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What the server does with a request for a path.
#[derive(Clone, Debug)]
struct Answer { path: String, bytes: Vec<u8>, slow: bool }
/// A server for one run: it answers requests by a table and remembers them.
struct Server { port: u16, seen: Arc<Mutex<Vec<String>>>, stop: Arc<std::sync::atomic::AtomicBool>, t: Option<std::thread::JoinHandle<()>> }
fn request(c: &mut TcpStream) -> Option<String> {
    let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
    let mut v = vec![];
    let mut b = [0u8; 1024];
    while !v.windows(4).any(|x| x == b"\r\n\r\n") {
        match c.read(&mut b) { Ok(0) | Err(_) => return if v.is_empty() { None } else { Some(String::from_utf8_lossy(&v).to_string()) }, Ok(n) => v.extend_from_slice(&b[..n]) }
    }
    Some(String::from_utf8_lossy(&v).to_string())
}
impl Server {
    fn new(answers: Vec<Answer>) -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("a loopback port");
        let port = l.local_addr().unwrap().port();
        let seen = Arc::new(Mutex::new(vec![]));
        let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (s, q) = (seen.clone(), stop.clone());
        let t = std::thread::spawn(move || {
            for c in l.incoming() {
                if q.load(std::sync::atomic::Ordering::SeqCst) { break; }
                let Ok(mut c) = c else { continue };
                s.lock().unwrap().push("(connection)".to_string());
                let Some(r) = request(&mut c) else { continue };
                let line = r.lines().next().unwrap_or("").to_string();
                let path = line.split(' ').nth(1).unwrap_or("").to_string();
                s.lock().unwrap().push(format!("{}{}", line.split(' ').take(2).collect::<Vec<_>>().join(" "), if r.to_ascii_lowercase().contains("\r\nhost: 127.0.0.1:") { "" } else { " (no host)" }));
                if let Some(a) = answers.iter().find(|a| a.path == path) {
                    if a.slow { for b in a.bytes.chunks(1) { if c.write_all(b).and_then(|()| c.flush()).is_err() { break; } std::thread::sleep(Duration::from_micros(200)); } }
                    else { let _ = c.write_all(&a.bytes); }
                }
                let _ = c.shutdown(std::net::Shutdown::Write);
                // until the other side is done, so that nothing which was sent is lost
                let _ = c.set_read_timeout(Some(Duration::from_millis(2000)));
                let mut b = [0u8; 256];
                while matches!(c.read(&mut b), Ok(n) if n > 0) {}
            }
        });
        Server {port, seen, stop, t: Some(t)}
    }
    fn done(mut self) -> Vec<String> {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
        if let Some(t) = self.t.take() { let _ = t.join(); }
        let v = self.seen.lock().unwrap().clone();
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Frame { Length, Chunked, Close }
const FRAMES: &[Frame] = &[Frame::Length, Frame::Chunked, Frame::Close];
fn response(status: &str, frame: Frame, headers: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("HTTP/1.1 {status}\r\nConnection: close\r\n{headers}").into_bytes();
    match frame {
        Frame::Length => { v.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes()); v.extend(body); },
        Frame::Chunked => {
            v.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in body.chunks(3) { v.extend(format!("{:x}\r\n", c.len()).bytes()); v.extend(c); v.extend(b"\r\n"); }
            v.extend(b"0\r\n\r\n");
        },
        Frame::Close => { v.extend(b"\r\n"); v.extend(body); },
    }
    v
}

struct Ran { ran: cli::Ran, html: Option<String>, seen: Vec<String>, others: Vec<String> }
/// Runs the command on a document, in which URL is the server.
fn run_doc(cfg: &Cfg, dir: &Path, doc: &str, files: &[(&str, &str)], allow: bool, how: usize, answers: Vec<Answer>) -> Ran {
    let top = cli::fresh(dir);
    let s = Server::new(answers);
    let url = format!("http://127.0.0.1:{}", s.port);
    let doc = doc.replace("URL", &url);
    for (n, t) in files { cli::write(&top, n, t.replace("URL", &url)); }
    let mut args = vec![];
    if allow { args.push("--allow-http"); }
    let (ran, html) = if how == 1 {
        args.push("-i");
        let r = cli::finish(cli::papyri(cfg, &top, &args), Some(doc.as_bytes()));
        let h = (r.code == Some(0)).then(|| r.stdout.clone());
        (r, h)
    } else {
        cli::write(&top, "main.papyri", &doc);
        if how == 2 { args.extend(["-o", "out"]); }
        args.push("main.papyri");
        let r = cli::run(cfg, &top, &args);
        (r, std::fs::read_to_string(top.join(if how == 2 { "out/main.html" } else { "main.html" })).ok())
    };
    let seen = s.done();
    let others = cli::tree(&top).into_keys().filter(|k| !k.ends_with('/') && !k.ends_with(".papyri") && k != "main.html" && k != "out/main.html").collect();
    Ran {ran, html, seen, others}
}
fn find<'a>(ns: &'a [Node], name: &str, out: &mut Vec<&'a El>) { for n in ns { if let Node::El(e) = n { if e.name == name { out.push(e); } else { find(&e.children, name, out); } } } }
/// The titles of the `<b>` elements.
fn titles(h: &str) -> Result<Vec<String>, String> {
    let ns = html::parse(h)?;
    let mut v = vec![];
    find(&ns, "b", &mut v);
    Ok(v.into_iter().map(|e| e.attrs.iter().find(|a| a.0 == "title").and_then(|a| a.1.clone()).unwrap_or_default()).collect())
}
/// What a run must give: the titles, or an error; `None` if either will do.
enum Want { Titles(Vec<String>), Error, Either(Vec<String>) }
fn check(w: &mut Worker, key: String, detail: &str, r: &Ran, want: &Want, requests: Option<&[&str]>) {
    w.stats.evaluations += 1;
    w.stats.transitions += 1;
    let got = r.html.as_deref().map(titles);
    w.stats.state(&got);
    let error = r.ran.code == Some(1) && r.html.is_none() && !r.ran.stderr.is_empty();
    let is = |t: &Vec<String>| r.ran.code == Some(0) && matches!(&got, Some(Ok(v)) if v == t);
    let fine = match want { Want::Titles(t) => is(t), Want::Error => error, Want::Either(t) => is(t) || error };
    if matches!(want, Want::Error) { w.stats.count("errors expected and reported"); } else { w.stats.nontrivial_count += 1; }
    let seen: Vec<&str> = r.seen.iter().map(|s| s.as_str()).filter(|s| *s != "(connection)").collect();
    let asked = match requests { None => true, Some([]) => r.seen.is_empty(), Some(q) => seen == q };
    w.sample(|| format!("{detail}=> {got:?}"));
    if !fine || !asked || !r.others.is_empty() {
        let want = match want { Want::Titles(t) => format!("{t:?}"), Want::Error => "an error and no output".into(), Want::Either(t) => format!("{t:?} or an error") };
        w.stats.violation(key, format!("{detail}\nexpected: {want}\ngot: {got:?}, other files {:?}\nrequests expected: {requests:?}\nrequests: {:?}\nexit: {:?}\nstdout: {}\nstderr: {}", r.others, r.seen, r.ran.code, r.ran.stdout, r.ran.stderr));
    }
}
const RAW: &str = "<b title=@net::fetch_raw `URL/a`>.</b>";
fn cells(s: &[u8]) -> String { format!("{:?}", String::from_utf8_lossy(s)) }

const PIECES: &[&[u8]] = &[b"a", b"\n", b"\r\n", b"\xc3\xa9", b"<b>", b"&amp;", b"\0", b" ", b"\xf0\x9f\x98\x80", b"\"", b"$x", b"0\r\n\r\n", b"\xff", b"\xef\xbb\xbf", b"\xc3"];

fn bodies(cfg: &Cfg, rep: &mut Report, root: &Path) {
    // every body up to a length, in each framing
    let k = PIECES.len() as u64;
    let max = cfg.q(2, 3);
    let n = num_seqs(k, 0, max);
    let types = ["", "Content-Type: text/plain; charset=utf-8\r\n", "Content-Type: text/html\r\n", "content-type: application/octet-stream\r\n"];
    rep.absorb(explore(cfg, n * 3 * cfg.q(1, 4), |w, i| {
        let d = digits(i, &[n, 3, cfg.q(1, 4)]);
        let body: Vec<u8> = nth_seq(d[0] as u64, k, 0, max).iter().flat_map(|j| PIECES[*j].to_vec()).collect();
        let ty = types[if cfg.quick() { d[0] % 4 } else { d[2] }];
        let r = run_doc(cfg, &root.join(format!("b{}", w.id)), RAW, &[], true, d[0] % 3, vec![Answer {path: "/a".into(), bytes: response("200 OK", FRAMES[d[1]], ty, &body), slow: false}]);
        let lossy = String::from_utf8_lossy(&body).to_string();
        // text which is not UTF-8, or which has a byte order mark, may be decoded or rejected
        let want = if std::str::from_utf8(&body).is_err() { let mut l = titles(r.html.as_deref().unwrap_or("")).unwrap_or_default(); if l.is_empty() { l.push(lossy.clone()); } Want::Either(l) }
            else if lossy.starts_with('\u{feff}') { Want::Either(vec![if r.html.as_deref().map(titles) == Some(Ok(vec![lossy.clone()])) { lossy.clone() } else { lossy[3..].to_string() }]) }
            else { Want::Titles(vec![lossy]) };
        check(w, format!("body {} as {:?} {ty:?}", cells(&body), FRAMES[d[1]]), &format!("{RAW}\nbody: {}\n{:?} {ty:?}\n", cells(&body), FRAMES[d[1]]), &r, &want, Some(&["GET /a"]));
    }));
    // the encodings which the header of a response can name (the decoded text of each byte)
    let encodings: &[(&str, &[u8], &str)] = &[
        ("iso-8859-1", b"\xe9", "é"), ("ISO-8859-1", b"a\xe9\xfcb", "aéüb"), ("windows-1252", b"\x80\xe9", "€é"), ("utf-8", b"\xc3\xa9", "é"), ("UTF-8", b"\xe2\x82\xac", "€"), ("us-ascii", b"ab", "ab"),
        ("utf-16le", b"a\0\xe9\0", "aé"), ("utf-16be", b"\0a\0\xe9", "aé"), ("shift_jis", b"\x93\xfa\x96\x7b", "日本"), ("euc-jp", b"\xc6\xfc\xcb\xdc", "日本"), ("gbk", b"\xc8\xd5", "日"), ("koi8-r", b"\xc1", "а"), ("windows-1251", b"\xe0", "а"), ("iso-8859-15", b"\xa4", "€"), ("big5", b"\xa4\xe9", "日"), ("no-such-encoding", b"\xc3\xa9", "é"), ("", b"\xc3\xa9", "é"),
    ];
    let spell = ["Content-Type: text/plain; charset=%\r\n", "content-type: text/html;charset=\"%\"\r\n", "Content-Type: application/json; a=b; charset=%\r\nX-Other: charset=utf-16le\r\n"];
    let (ne, nsp) = (encodings.len() as u64, spell.len() as u64);
    rep.absorb(explore(cfg, ne * nsp * 3, |w, i| {
        let d = digits(i, &[ne, nsp, 3]);
        let (name, body, text) = encodings[d[0]];
        if name.is_empty() && d[1] != 1 { return; }
        let ty = spell[d[1]].replace('%', name);
        let r = run_doc(cfg, &root.join(format!("b{}", w.id)), RAW, &[], true, d[2], vec![Answer {path: "/a".into(), bytes: response("200 OK", FRAMES[d[2]], &ty, body), slow: false}]);
        check(w, format!("encoding {ty:?} {}", cells(body)), &format!("{RAW}\nbody: {body:?}\n{ty:?}\n"), &r, &Want::Titles(vec![text.into()]), Some(&["GET /a"]));
    }));
    // long bodies
    let lens: Vec<usize> = (0..cfg.q(8, 11)).map(|p| 1usize << (2 * p)).flat_map(|n| [n - 1, n, n + 1]).collect();
    rep.absorb(explore(cfg, lens.len() as u64 * 3, |w, i| {
        let d = digits(i, &[lens.len() as u64, 3]);
        let body: Vec<u8> = "0123456789 line\n".bytes().cycle().take(lens[d[0]]).collect();
        let r = run_doc(cfg, &root.join(format!("b{}", w.id)), RAW, &[], true, 0, vec![Answer {path: "/a".into(), bytes: response("200 OK", FRAMES[d[1]], "", &body), slow: false}]);
        check(w, format!("body of {} bytes as {:?}", body.len(), FRAMES[d[1]]), RAW, &r, &Want::Titles(vec![String::from_utf8(body.clone()).unwrap()]), Some(&["GET /a"]));
    }));
}

fn cuts(cfg: &Cfg, rep: &mut Report, root: &Path) {
    // the connection ends after every prefix of the response
    let body = "<!DOCTYPE html><html><head></head><body><b title=\"t\">x</b></body></html>".as_bytes();
    let docs = [RAW, "@net::fetch_html `URL/a` <b title=`end`>.</b>", "<b title=`before`>.</b> @list::map(@fn $u -> <b title=@net::fetch_raw $u>.</b>) [`URL/ok`, `URL/a`]"];
    for (k, f) in FRAMES.iter().enumerate() {
        let full = response("200 OK", *f, "", body);
        let n = full.len() as u64 + 1;
        rep.absorb(explore(cfg, n * 3, |w, i| {
            let d = digits(i, &[n, 3]);
            if cfg.quick() && (d[0] + d[1]) % 3 != 0 { return; }
            let cut = d[0];
            let head = full.windows(4).position(|x| x == b"\r\n\r\n").unwrap() + 4;
            let ok = Answer {path: "/ok".into(), bytes: response("200 OK", Frame::Length, "", b"fine"), slow: false};
            let r = run_doc(cfg, &root.join(format!("c{}", w.id)), docs[d[1]], &[], true, 0, vec![ok, Answer {path: "/a".into(), bytes: full[..cut].to_vec(), slow: cut % 5 == 1}]);
            let got = String::from_utf8_lossy(&full[head.min(cut)..cut]).to_string();
            let whole = cut == full.len() || *f == Frame::Close && cut >= head;
            let want = match (whole, d[1]) {
                (true, 0) => Want::Titles(vec![if *f == Frame::Chunked { String::from_utf8_lossy(body).to_string() } else { got }]),
                // an incomplete document may not be accepted by the parser
                (true, 1) if cut == full.len() => Want::Titles(vec!["t".into(), "end".into()]),
                (true, 1) => { let l = r.html.as_deref().map(titles).and_then(|x| x.ok()).unwrap_or_default(); Want::Either(l) },
                (true, _) => Want::Titles(vec!["before".into(), "fine".into(), if *f == Frame::Chunked { String::from_utf8_lossy(body).to_string() } else { got }]),
                // the empty chunk at the end is the end of the text, even if its last line is missing
                _ if *f == Frame::Chunked && cut + 4 >= full.len() => Want::Either(match d[1] { 0 => vec![String::from_utf8_lossy(body).to_string()], 1 => vec!["t".into(), "end".into()], _ => vec!["before".into(), "fine".into(), String::from_utf8_lossy(body).to_string()] }),
                _ => Want::Error,
            };
            check(w, format!("response {k} cut after {cut} bytes, document {}", d[1]), &format!("{}\n{:?}: the response ends after {cut} of {} bytes\n", docs[d[1]], f, full.len()), &r, &want, None);
        }));
    }
    // answers which are not responses, and redirections
    let ok = |b: &str| response("200 OK", Frame::Length, "", b.as_bytes());
    let to = |s: &str, l: &str| response(s, Frame::Length, &format!("Location: {l}\r\n"), b"moved");
    let mut cases: Vec<(String, Vec<Answer>, Want, Option<Vec<&str>>)> = vec![];
    let an = |p: &str, b: Vec<u8>| Answer {path: p.into(), bytes: b, slow: false};
    for (n, b) in [("nothing", ""), ("garbage", "hello\r\n\r\n"), ("not HTTP", "SSH-2.0-x\r\n"), ("bad status", "HTTP/1.1 abc\r\n\r\n"), ("bad length", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nabc"), ("longer length", "HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\nabc"), ("bad chunk", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nxyz\r\nabc\r\n0\r\n\r\n"), ("no last chunk", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n")] {
        cases.push((n.into(), vec![an("/a", b.as_bytes().to_vec())], Want::Error, None));
    }
    cases.push(("shorter length".into(), vec![an("/a", b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nabc".to_vec())], Want::Either(vec!["ab".into()]), None));
    for s in ["301 Moved", "302 Found", "303 See Other", "307 Temporary", "308 Permanent"] {
        cases.push((format!("{s} to /b"), vec![an("/a", to(s, "/b")), an("/b", ok("there"))], Want::Titles(vec!["there".into()]), Some(vec!["GET /a", "GET /b"])));
        cases.push((format!("{s} to itself"), vec![an("/a", to(s, "/a"))], Want::Error, None));
        cases.push((format!("{s} to a place which does not answer"), vec![an("/a", to(s, "/gone"))], Want::Error, None));
        cases.push((format!("{s} twice"), vec![an("/a", to(s, "/b")), an("/b", to("302 Found", "/c?x=1")), an("/c?x=1", ok("there"))], Want::Titles(vec!["there".into()]), Some(vec!["GET /a", "GET /b", "GET /c?x=1"])));
    }
    for s in ["201 Created", "203 x"] { cases.push((s.into(), vec![an("/a", response(s, Frame::Length, "", b"text"))], Want::Titles(vec!["text".into()]), Some(vec!["GET /a"]))); }
    // what is to be done with these is not documented
    for s in ["404 Not Found", "500 Error", "403 Forbidden", "300 Multiple", "304 Not Modified", "204 No Content"] { cases.push((s.into(), vec![an("/a", response(s, Frame::Length, "", if s.starts_with("204") || s.starts_with("304") { b"" } else { b"text" }))], Want::Either(vec![if s.starts_with("204") || s.starts_with("304") { "".into() } else { "text".into() }]), None)); }
    let cases = &cases;
    rep.absorb(explore(cfg, cases.len() as u64 * 3, |w, i| {
        let d = digits(i, &[cases.len() as u64, 3]);
        let (n, a, want, req) = &cases[d[0]];
        let r = run_doc(cfg, &root.join(format!("c{}", w.id)), RAW, &[], true, d[1], a.clone());
        check(w, format!("{n} ({})", d[1]), &format!("{RAW}\nanswer: {n}\n"), &r, want, req.as_deref());
    }));
}

/// Ways to ask: (document, library `m`, requests which are made if they are allowed, the titles).
const WAYS: &[(&str, &str, &[&str], &[&str])] = &[
    ("<b title=@net::fetch_raw `URL/a`>.</b>", "", &["GET /a"], &["A"]),
    ("@let(f=$net::fetch_raw) {<b title=@f `URL/a`>.</b>}", "", &["GET /a"], &["A"]),
    ("@fn g($_u) . -> <b title=@net::fetch_raw $_u>.</b> @g(`URL/a`) . @g(`URL/x?q=1`) .", "", &["GET /a", "GET /x?q=1"], &["A", "X"]),
    ("@list::map(@fn $v -> <b title=$v>.</b>) @list::map($net::fetch_raw) [`URL/a`, `URL/x?q=1`, `URL/a`]", "", &["GET /a", "GET /x?q=1", "GET /a"], &["A", "X", "A"]),
    ("@let(m=@import `m`) {<b title=$m::v>.</b>}", "@export(v=@net::fetch_raw `URL/a`).", &["GET /a"], &["A"]),
    ("@include `m`", "<b title=@net::fetch_raw `URL/a`>.</b>", &["GET /a"], &["A"]),
    ("@include `m` @include `m`", "<b title=@net::fetch_raw `URL/a`>.</b>", &["GET /a"], &["A", "A"]),
    ("@let(m=@import `m`) {<b title=@m::f `URL/a`>.</b>}", "@export @fn f $u -> @net::fetch_raw $u", &["GET /a"], &["A"]),
    ("@net::fetch_html `URL/h`", "", &["GET /h"], &["H"]),
    ("@match @net::fetch_raw `URL/a` {`A` -> <b title=`yes`>.</b>, _ -> <b title=`no`>.</b>}", "", &["GET /a"], &["yes"]),
    ("@fn g($x=@net::fetch_raw `URL/a`) . -> <b title=$x>.</b> @g .", "", &["GET /a"], &["A"]),
    ("<b title=\"${}\">.</b>", "", &[], &[]),
    ("<b title=@str::trim @net::fetch_raw `URL/s`>.</b>", "", &["GET /s"], &["S S"]),
    ("<b title=@net::fetch_raw `URL/`>.</b>", "", &["GET /"], &["root"]),
    ("<b title=@net::fetch_raw `URL`>.</b>", "", &["GET /"], &["root"]),
    ("<b title=@net::fetch_raw `URL/a#frag`>.</b>", "", &["GET /a"], &["A"]),
];
/// Documents which do not ask.
const SILENT: &[&str] = &[
    "@fn g . -> @net::fetch_raw `URL/a` <b title=`n`>.</b>", "@match 1 {2 -> @net::fetch_raw `URL/a`, _ -> <b title=`n`>.</b>}", "@let(f=$net::fetch_raw) {<b title=`n`>.</b>}", "<b title=`n`>.</b> # @net::fetch_raw `URL/a`",
    "<b title=`n`>.</b> <!-- @net::fetch_raw `URL/a` -->", "<b title=`n`>.</b> <img src=`URL/a`>", "<b title=`n`>.</b> <link rel=`stylesheet` href=`URL/a`>", "<b title=`n`>.</b> @href(`URL/a`) x", "<b title=`n`>.</b> @image `URL/a`", "<b title=`n`>.</b> <script src=`URL/a`></>", "<b title=`n`>.</b> <a href=`URL/a`>x</a>", "<b title=`n`>.</b> @html::parse `<!DOCTYPE html><html><head></head><body><img src=\"URL/a\"></body></html>`",
];
fn answers() -> Vec<Answer> {
    [("/a", "A"), ("/x?q=1", "X"), ("/s", " S S\n"), ("/", "root"), ("/h", "<!DOCTYPE html><html><head></head><body><b title=\"H\">.</b></body></html>")].iter().map(|(p, b)| Answer {path: p.to_string(), bytes: response("200 OK", Frame::Length, "", b.as_bytes()), slow: false}).collect()
}
fn ways(cfg: &Cfg, rep: &mut Report, root: &Path) {
    let n = WAYS.len() as u64;
    // each way, and each pair of them, with and without the option, in three ways to run the command
    let pairs = n + n * n;
    rep.absorb(explore(cfg, pairs * 2 * 3, |w, i| {
        let d = digits(i, &[pairs, 2, 3]);
        let (a, b) = if (d[0] as u64) < n { (d[0], None) } else { let x = d[0] - n as usize; (x % n as usize, Some(x / n as usize)) };
        if WAYS[a].2.is_empty() || b.map_or(false, |b| WAYS[b].2.is_empty()) { return; }
        if b.is_some() && cfg.quick() && (d[0] + d[2]) % 3 != 0 { return; }
        // the second document has a library of its own
        let mut doc = WAYS[a].0.to_string();
        let (mut req, mut want): (Vec<&str>, Vec<String>) = (WAYS[a].2.to_vec(), WAYS[a].3.iter().map(|s| s.to_string()).collect());
        let mut files = vec![("m.papyri", WAYS[a].1)];
        if let Some(b) = b {
            doc += &format!("\n\n{{{}}}", WAYS[b].0.replace("`m`", "`n`").replace("@fn g", "@fn h").replace("@g", "@h").replace("@let(m=", "@let(n=").replace("$m::", "$n::").replace("@m::", "@n::"));
            files.push(("n.papyri", WAYS[b].1));
            req.extend(WAYS[b].2);
            want.extend(WAYS[b].3.iter().map(|s| s.to_string()));
        }
        let allow = d[1] == 1;
        let r = run_doc(cfg, &root.join(format!("w{}", w.id)), &doc, &files, allow, d[2], answers());
        let detail = format!("{}, {}\nmain.papyri: {doc}\n{files:?}\n", if allow { "--allow-http" } else { "without --allow-http" }, ["in place", "from stdin", "with --out"][d[2]]);
        if allow { check(w, detail.clone(), &detail, &r, &Want::Titles(want), Some(&req)) }
        else { check(w, detail.clone(), &detail, &r, &Want::Error, Some(&[])) }
    }));
    // many requests of one document
    let lens: &[usize] = if cfg.quick() { &[4, 9, 17, 33, 65] } else { &[3, 4, 5, 8, 9, 10, 16, 17, 20, 32, 33, 50, 64, 65, 100, 129, 257] };
    let many: &[(&str, &str, &str)] = &[
        // (a document, in which @@ is a list of addresses; a part for each; how that part begins)
        ("@list::map(@fn $v -> <b title=$v>.</b>) @list::map($net::fetch_raw) [@@]", "`URL/@`, ", ""),
        ("@@", "<b title=@net::fetch_raw `URL/@`>.</b> ", ""),
        ("@@", "@net::fetch_html `URL/h@` ", "h"),
        ("@fn g($_u) . -> <b title=@net::fetch_raw $_u>.</b> @@", "@g(`URL/@`) . ", ""),
        ("@@", "@include `m@` ", ""),
    ];
    rep.absorb(explore(cfg, (lens.len() * many.len() * 2 * 2) as u64, |w, i| {
        let d = digits(i, &[lens.len() as u64, many.len() as u64, 2, 2]);
        let n = lens[d[0]];
        if n > 20 && d[1] == 4 && d[2] == 1 { return; }
        let (frame, part, begin) = many[d[1]];
        // all different, or the same three
        let id = |k: usize| if d[2] == 1 { format!("a{}", k % 3) } else { format!("a{k}") };
        let doc = frame.replace("@@", &(0..n).map(|k| match part.rfind('@') { Some(j) => format!("{}{}{}", &part[..j], id(k), &part[j + 1..]), None => part.to_string() }).collect::<String>());
        let mods: Vec<(String, String)> = if d[1] == 4 { (0..n).map(|k| (format!("m{}.papyri", id(k)), format!("<b title=@net::fetch_raw `URL/{}`>.</b>", id(k)))).collect() } else { vec![] };
        let files: Vec<(&str, &str)> = mods.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let answers = (0..n).map(|k| { let body = if begin == "h" { format!("<!DOCTYPE html><html><head></head><body><b title=\"{}\">.</b></body></html>", id(k)) } else { id(k) }; Answer {path: format!("/{begin}{}", id(k)), bytes: response("200 OK", FRAMES[k % 3], "", body.as_bytes()), slow: false} }).collect();
        let allow = d[3] == 1;
        let r = run_doc(cfg, &root.join(format!("w{}", w.id)), &doc, &files, allow, d[0] % 3, answers);
        // a module is evaluated once
        let req: Vec<String> = (0..n).map(|k| format!("GET /{begin}{}", id(k))).take(if d[1] == 4 && d[2] == 1 { 3 } else { n }).collect();
        let req: Vec<&str> = req.iter().map(|s| s.as_str()).collect();
        let key = format!("{n} requests, kind {} {} {}", d[1], d[2], d[3]);
        if allow { check(w, key, &doc, &r, &Want::Titles((0..n).map(id).collect()), Some(&req)) } else { check(w, key, &doc, &r, &Want::Error, Some(&[])) }
    }));
    rep.absorb(explore(cfg, SILENT.len() as u64 * 2 * 3, |w, i| {
        let d = digits(i, &[SILENT.len() as u64, 2, 3]);
        let r = run_doc(cfg, &root.join(format!("w{}", w.id)), SILENT[d[0]], &[], d[1] == 1, d[2], answers());
        let detail = format!("allow {}: {}", d[1], SILENT[d[0]]);
        check(w, detail.clone(), &detail, &r, &Want::Titles(vec!["n".into()]), Some(&[]));
    }));
    // addresses which cannot be asked
    let bad = ["", "a", "/a", "./a", "http:", "http://", "http://127.0.0.1:1/a", "ftp://127.0.0.1/a", "file:///etc/passwd", "data:text/plain,x", "http://127.0.0.1:99999/", "http://[::1", "URL.invalid/a", "//127.0.0.1/a", "mailto:x", "about:blank", "URL /a", "http://none.invalid/"];
    rep.absorb(explore(cfg, bad.len() as u64 * 2 * 2, |w, i| {
        let d = digits(i, &[bad.len() as u64, 2, 2]);
        let f = ["fetch_raw", "fetch_html"][d[2]];
        let doc = format!("<b title=`x`>.</b> @net::{f} \"{}\"", bad[d[0]]);
        let r = run_doc(cfg, &root.join(format!("w{}", w.id)), &doc, &[], d[1] == 1, 0, vec![]);
        check(w, format!("allow {}: {doc}", d[1]), &doc, &r, &Want::Error, (d[1] == 0).then_some(&[]));
    }));
    // fetch_html gives what html::parse gives for the same text
    let frags = ["<p>x</p>", "text", "<ul><li>a<li>b</ul>", "<!-- c -->", "<b title=\"q\">&lt;&eacute;</b>", "<br>", "<table><tr><td>1</table>", " ", "<script>a</script>", "\u{e9}"];
    let k = frags.len() as u64;
    let max = cfg.q(1, 2);
    rep.absorb(explore(cfg, num_seqs(k, 0, max), |w, i| {
        let page = format!("<!DOCTYPE html><html><head><title>t</title></head><body>{}</body></html>", nth_seq(i, k, 0, max).iter().map(|j| frags[*j]).collect::<String>());
        let r = run_doc(cfg, &root.join(format!("w{}", w.id)), "@net::fetch_html `URL/a`", &[], true, 0, vec![Answer {path: "/a".into(), bytes: response("200 OK", Frame::Length, "Content-Type: text/html; charset=utf-8\r\n", page.as_bytes()), slow: false}]);
        let same = w.compile(&format!("@html::parse ```{page}```"));
        w.stats.evaluations += 1;
        w.stats.transitions += 1;
        let (a, b) = (if r.ran.code == Some(0) { r.html.as_deref() } else { None }, same.ok_html());
        w.stats.state(&b);
        if b.is_some() { w.stats.nontrivial_count += 1; }
        if a != b { w.stats.violation(page.clone(), format!("page: {page}\n@html::parse gives {b:?}\n@net::fetch_html gives {a:?}\n{}\n{}", r.ran.stderr, same.describe())); }
    }));
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("model_checking", "every body up to a length over an alphabet of pieces in every framing, every prefix of a response as the point where the connection ends, malformed responses and redirections, every way to ask and every pair of them with and without the option, run by the command against a server on the loopback network which records all connections; a state is an output");
    let root = scratch(cfg);
    bodies(cfg, &mut rep, &root);
    cuts(cfg, &mut rep, &root);
    ways(cfg, &mut rep, &root);
    remove_scratch(&root);
    rep
}
