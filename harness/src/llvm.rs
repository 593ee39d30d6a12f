//! Running LLVM's own tools, and reading what its bitstream analyzer prints.

use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(case: u64) -> Scratch {
        let d = std::env::temp_dir().join(format!("molluscmon-{}-{}", std::process::id(), case));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn file(&self, name: &str, data: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, data).expect("scratch file");
        p
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var("MON_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

/// Limits that keep a runaway child from outliving or starving the check.
pub fn contain(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: 40, rlim_max: 40 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let m = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &m);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
}

pub fn tool(name: &str) -> PathBuf {
    for p in [format!("/usr/bin/{name}-18"), format!("/usr/lib/llvm-18/bin/{name}")] {
        if Path::new(&p).exists() {
            return p.into();
        }
    }
    name.into()
}

/// Runs one of LLVM's tools in a scratch directory; its standard output, or what it complained of.
pub fn run(s: &Scratch, name: &str, args: &[&str]) -> Result<Vec<u8>, String> {
    let mut c = Command::new(tool(name));
    c.args(args).current_dir(&s.0).stdin(Stdio::null()).env("TMPDIR", &s.0);
    contain(&mut c);
    let o = c.output().unwrap_or_else(|e| panic!("{name}: {e}"));
    if o.status.success() {
        Ok(o.stdout)
    } else {
        Err(format!("{name} {args:?}: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)))
    }
}

// ---- the analyzer's dump -----------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum Tail {
    None,
    Blob(Vec<u8>),
    /// The strings of a metadata string table, which the analyzer decodes.
    Strings(Vec<Vec<u8>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Wrapper([u32; 5]),
    Enter { id: u64, words: u64 },
    Exit,
    Rec { abbrev: Option<u64>, code: u64, ops: Vec<u64>, tail: Tail },
}

fn unescape(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        let e = *b.get(i + 1)?;
        i += 2;
        match e {
            b'\\' | b'"' | b'\'' => out.push(e),
            b'n' => out.push(b'\n'),
            b't' => out.push(b'\t'),
            b'x' => {
                out.push(u8::from_str_radix(std::str::from_utf8(b.get(i..i + 2)?).ok()?, 16).ok()?);
                i += 2;
            }
            b'0'..=b'7' => {
                out.push(u8::from_str_radix(std::str::from_utf8(b.get(i - 1..i + 2)?).ok()?, 8).ok()?);
                i += 2;
            }
            _ => return None,
        }
    }
    Some(out)
}

fn quoted(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix('\'')?;
    unescape(&s[..s.rfind('\'')?])
}

/// Reads the output of `llvm-bcanalyzer -dump -non-symbolic -show-binary-blobs -disable-histogram`.
pub fn read_dump(text: &[u8]) -> Result<Vec<Line>, String> {
    let mut out = vec![];
    let mut depth = 0;
    let text = String::from_utf8_lossy(text);
    let mut it = text.lines();
    while let Some(line) = it.next() {
        let l = line.trim_start();
        let bad = || format!("the analyzer's line {line:?}");
        let Some(l) = l.strip_prefix('<') else {
            if depth == 0 && (l.is_empty() || l.starts_with("Summary of")) {
                break;
            }
            return Err(bad());
        };
        if l.starts_with("BLOCKINFO_BLOCK/>") {
            continue;
        }
        if l.starts_with('/') {
            depth -= 1;
            out.push(Line::Exit);
            continue;
        }
        let (tags, rest) = match l.find("/>") {
            Some(e) => (&l[..e], l[e + 2..].trim_start()),
            None => (l.strip_suffix('>').ok_or_else(bad)?, ""),
        };
        // What the analyzer has to say about the index of metadata isn't part of the record.
        let tags = tags.split(" (").next().unwrap_or(tags);
        let mut words = tags.split(' ');
        let name = words.next().ok_or_else(bad)?;
        let mut kv = vec![];
        for w in words {
            let (k, v) = w.split_once('=').ok_or_else(bad)?;
            let v = match v.strip_prefix("0x") {
                Some(h) => u64::from_str_radix(h, 16),
                // Operands are printed as signed numbers.
                None => v.parse::<u64>().or_else(|_| v.parse::<i64>().map(|v| v as u64)),
            };
            kv.push((k, v.map_err(|_| bad())?));
        }
        let get = |k: &str| kv.iter().find(|x| x.0 == k).map(|x| x.1);
        if name == "BITCODE_WRAPPER_HEADER" {
            let f = |k| get(k).map(|v| v as u32).ok_or_else(bad);
            out.push(Line::Wrapper([f("Magic")?, f("Version")?, f("Offset")?, f("Size")?, f("CPUType")?]));
            continue;
        }
        if let Some(w) = get("NumWords") {
            let id = match get("BlockID") {
                Some(i) => i,
                None => name.strip_prefix("UnknownBlock").and_then(|n| n.parse().ok()).ok_or_else(bad)?,
            };
            depth += 1;
            out.push(Line::Enter { id, words: w });
            continue;
        }
        let code = match get("codeid") {
            Some(c) => c,
            None => name.strip_prefix("UnknownCode").and_then(|n| n.parse().ok()).ok_or_else(bad)?,
        };
        let ops: Vec<u64> = kv.iter().filter(|x| x.0.starts_with("op")).map(|x| x.1).collect();
        for (i, x) in kv.iter().filter(|x| x.0.starts_with("op")).enumerate() {
            if x.0 != format!("op{i}") {
                return Err(bad());
            }
        }
        let tail = if let Some(b) = rest.strip_prefix("blob data = ") {
            Tail::Blob(quoted(b).ok_or_else(bad)?)
        } else if let Some(n) = rest.strip_prefix("num-strings = ") {
            let n: usize = n.strip_suffix(" {").and_then(|n| n.parse().ok()).ok_or_else(bad)?;
            let mut v = vec![];
            for _ in 0..n {
                let l = it.next().ok_or_else(bad)?;
                v.push(quoted(l.trim_start()).ok_or_else(|| format!("the analyzer's string {l:?}"))?);
            }
            if it.next().map(|l| l.trim()) != Some("}") {
                return Err(bad());
            }
            Tail::Strings(v)
        } else {
            Tail::None
        };
        out.push(Line::Rec { abbrev: get("abbrevid"), code, ops, tail });
    }
    if depth != 0 {
        return Err("the analyzer's output ends inside a block".into());
    }
    Ok(out)
}

pub fn analyze(s: &Scratch, file: &str) -> Result<Vec<Line>, String> {
    let o = run(s, "llvm-bcanalyzer", &["-dump", "-non-symbolic", "-show-binary-blobs", "-disable-histogram", file])?;
    read_dump(&o)
}
