//! Runs the command in a scratch directory.
use crate::engine::Cfg;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Ran { pub code: Option<i32>, pub stdout: String, pub stderr: String }
impl Ran { pub fn ok(&self) -> bool { self.code == Some(0) } }

/// The command, ready to be run in a directory.
pub fn papyri(cfg: &Cfg, cwd: &Path, args: &[&str]) -> Command {
    let mut c = Command::new(&cfg.papyri_bin);
    c.args(args).current_dir(cwd).env_clear().env("LC_ALL", "C.UTF-8").env("TZ", "UTC").stdin(Stdio::null());
    c
}
/// Runs it to its end (or kills it after 20 s, which is reported as no exit code).
pub fn finish(mut c: Command, stdin: Option<&[u8]>) -> Ran {
    use std::io::{Read, Write};
    if stdin.is_some() { c.stdin(Stdio::piped()); }
    c.stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = c.spawn().expect("run the command");
    // a command which uses up memory ends by itself
    extern "C" { fn prlimit(pid: i32, r: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32; }
    unsafe { prlimit(ch.id() as i32, 9, &[3 << 30, 3 << 30], std::ptr::null_mut()); }
    if let Some(b) = stdin { let mut i = ch.stdin.take().unwrap(); let _ = i.write_all(b); }
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let (to, te) = (std::thread::spawn(move || { let mut v = vec![]; let _ = o.read_to_end(&mut v); v }), std::thread::spawn(move || { let mut v = vec![]; let _ = e.read_to_end(&mut v); v }));
    let start = Instant::now();
    let code = loop {
        if let Some(s) = ch.try_wait().expect("wait") { break s.code(); }
        if start.elapsed() > Duration::from_secs(20) { let _ = ch.kill(); let _ = ch.wait(); break None; }
        std::thread::sleep(Duration::from_micros(300));
    };
    let s = |t: std::thread::JoinHandle<Vec<u8>>| String::from_utf8_lossy(&t.join().unwrap()).to_string();
    Ran {code, stdout: s(to), stderr: s(te)}
}
pub fn run(cfg: &Cfg, cwd: &Path, args: &[&str]) -> Ran { finish(papyri(cfg, cwd, args), None) }

/// All files below a directory, with their contents; directories end with a slash.
pub fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    fn walk(base: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            if m.is_dir() { out.insert(rel + "/", vec![]); walk(base, &p, out); }
            else if m.file_type().is_symlink() { out.insert(rel, std::fs::read_link(&p).unwrap().to_string_lossy().as_bytes().to_vec()); }
            else { out.insert(rel, std::fs::read(&p).unwrap_or_default()); }
        }
    }
    walk(dir, dir, &mut out);
    out
}
pub fn write(base: &Path, rel: &str, data: impl AsRef<[u8]>) {
    let p = base.join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
    std::fs::write(p, data).expect("write");
}
pub fn fresh(dir: &Path) -> PathBuf {
    if dir.exists() { std::fs::remove_dir_all(dir).expect("clean a scratch directory"); }
    std::fs::create_dir_all(dir).expect("mkdir");
    dir.to_path_buf()
}
pub fn show_tree(t: &BTreeMap<String, Vec<u8>>) -> String {
    t.iter().map(|(k, v)| if k.ends_with('/') { format!("{k}\n") } else { format!("{k}: {:?}\n", String::from_utf8_lossy(v)) }).collect()
}
