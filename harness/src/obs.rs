//! Observing what the mapper holds internally.
//!
//! The mapper logs, at debug level, the context it has built for each module and the functions and
//! aliases it has mapped. A logger captures those messages while a monitor asks for it; their text
//! is the Debug output of the mapped values, which is parsed back into a tree and matched against
//! the pattern that the property prescribes. Fields that aren't there (renamed, removed, or not
//! logged) are unobserved rather than wrong.

use std::cell::{Cell, RefCell};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(i128),
    Str(String),
    /// `Name`, `Name(..)` or `(..)`.
    Tup(String, Vec<Val>),
    Rec(String, Vec<(String, Val)>),
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

struct P<'a> {
    s: &'a str,
    i: usize,
    depth: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.s[self.i..].starts_with([' ', '\n', ',']) {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.s[self.i..].chars().next()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += c.len_utf8();
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> String {
        let from = self.i;
        while let Some(c) = self.peek() {
            if c.is_alphanumeric() || c == '_' {
                self.i += c.len_utf8();
            } else {
                break;
            }
        }
        self.s[from..self.i].to_string()
    }
    fn quoted(&mut self, q: char) -> Option<String> {
        if !self.eat(q) {
            return None;
        }
        let mut out = String::new();
        loop {
            let c = self.peek()?;
            self.i += c.len_utf8();
            if c == q {
                return Some(out);
            }
            if c != '\\' {
                out.push(c);
                continue;
            }
            let e = self.peek()?;
            self.i += e.len_utf8();
            out.push(match e {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '0' => '\0',
                '\\' | '"' | '\'' => e,
                'u' => {
                    let end = self.s[self.i..].find('}')? + self.i;
                    let v = u32::from_str_radix(&self.s[self.i + 1..end], 16).ok()?;
                    self.i = end + 1;
                    char::from_u32(v)?
                }
                _ => return None,
            });
        }
    }
    fn list(&mut self, close: char) -> Option<Vec<Val>> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.eat(close) {
                return Some(v);
            }
            v.push(self.val()?);
        }
    }
    fn val(&mut self) -> Option<Val> {
        self.depth += 1;
        if self.depth > 2000 {
            return None;
        }
        let r = self.val_inner();
        self.depth -= 1;
        r
    }
    fn val_inner(&mut self) -> Option<Val> {
        self.ws();
        let c = self.peek()?;
        if c == '"' {
            return self.quoted('"').map(Val::Str);
        }
        if c == '\'' {
            return self.quoted('\'').map(Val::Str);
        }
        if c == '[' {
            self.i += 1;
            return self.list(']').map(Val::List);
        }
        if c == '(' {
            self.i += 1;
            return self.list(')').map(|v| Val::Tup(String::new(), v));
        }
        if c == '{' {
            self.i += 1;
            let mut m = vec![];
            loop {
                self.ws();
                if self.eat('}') {
                    return Some(Val::Map(m));
                }
                let k = self.val()?;
                self.ws();
                let v = if self.eat(':') { self.val()? } else { Val::Tup("()".into(), vec![]) };
                m.push((k, v));
            }
        }
        if c == '-' || c.is_ascii_digit() {
            let from = self.i;
            self.i += 1;
            while self.peek().map(|c| c.is_ascii_alphanumeric()).unwrap_or(false) {
                self.i += 1;
            }
            return self.s[from..self.i].parse().ok().map(Val::Num);
        }
        let name = self.ident();
        if name.is_empty() {
            return None;
        }
        if self.eat('(') {
            return self.list(')').map(|v| Val::Tup(name, v));
        }
        let save = self.i;
        while self.peek() == Some(' ') {
            self.i += 1;
        }
        if self.eat('{') {
            let mut f = vec![];
            loop {
                self.ws();
                if self.eat('}') {
                    return Some(Val::Rec(name, f));
                }
                if self.s[self.i..].starts_with("..") {
                    self.i += 2;
                    continue;
                }
                let k = self.ident();
                self.ws();
                if k.is_empty() || !self.eat(':') {
                    return None;
                }
                f.push((k, self.val()?));
            }
        }
        self.i = save;
        Some(Val::Tup(name, vec![]))
    }
}

/// Parses Debug output.
pub fn parse_debug(s: &str) -> Option<Val> {
    let mut p = P { s, i: 0, depth: 0 };
    p.val()
}

/// What a value has to look like.
#[derive(Clone, Debug, PartialEq)]
pub enum Pat {
    Any,
    Num(u64),
    Str(String),
    /// An enum variant; names compare without regard to case and underscores.
    Var(String, Vec<Pat>),
    /// Fields of a struct with any name.
    Rec(Vec<(&'static str, Pat)>),
    List(Vec<Pat>),
    /// In any order.
    Map(Vec<(u64, Pat)>),
    OneOf(Vec<Pat>),
    /// A list in any order.
    Bag(Vec<Pat>),
}

pub fn var(n: &str, a: Vec<Pat>) -> Pat {
    Pat::Var(n.to_string(), a)
}
pub fn none() -> Pat {
    var("None", vec![])
}
pub fn some(p: Pat) -> Pat {
    var("Some", vec![p])
}
pub fn opt(p: Option<Pat>) -> Pat {
    p.map(some).unwrap_or_else(none)
}

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Same,
    Diff(String),
    Unobserved(String),
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}

/// Variants of enums that patterns name; anything else in their place is another type's name.
fn is_option(v: &Val) -> bool {
    matches!(v, Val::Tup(n, _) if n == "Some" || n == "None")
}

/// A transparent wrapper: a tuple struct with one field.
fn peel(v: &Val) -> Option<&Val> {
    match v {
        Val::Tup(n, a) if a.len() == 1 && n != "Some" => Some(&a[0]),
        _ => None,
    }
}

pub fn matches(v: &Val, p: &Pat, at: &str) -> M {
    let diff = || M::Diff(format!("{at} is {}, expected {}", show(v), showp(p)));
    match p {
        Pat::Any => M::Same,
        Pat::OneOf(ps) => {
            let mut un = None;
            for q in ps {
                match matches(v, q, at) {
                    M::Same => return M::Same,
                    M::Unobserved(u) => un = Some(u),
                    M::Diff(_) => {}
                }
            }
            un.map(M::Unobserved).unwrap_or_else(diff)
        }
        Pat::Num(n) => match v {
            Val::Num(m) if *m == *n as i128 => M::Same,
            Val::Num(_) => diff(),
            _ => match peel(v) {
                Some(w) => matches(w, p, at),
                None => M::Unobserved(format!("{at} isn't a number: {}", show(v))),
            },
        },
        Pat::Str(s) => match v {
            Val::Str(t) if t == s => M::Same,
            Val::Str(_) => diff(),
            _ if is_option(v) => diff(),
            _ => match peel(v) {
                Some(w) => matches(w, p, at),
                None => M::Unobserved(format!("{at} isn't text: {}", show(v))),
            },
        },
        Pat::Var(n, a) => match v {
            Val::Tup(m, b) if norm(m) == norm(n) => {
                if a.len() != b.len() {
                    return if a.is_empty() || b.is_empty() { M::Unobserved(format!("{at}: shape {}", show(v))) } else { diff() };
                }
                for (i, (x, y)) in b.iter().zip(a).enumerate() {
                    let here = format!("{at}.{n}{}", if a.len() > 1 { format!("[{i}]") } else { String::new() });
                    match matches(x, y, &here) {
                        M::Same => {}
                        r => return r,
                    }
                }
                M::Same
            }
            Val::Rec(m, _) if norm(m) == norm(n) && a.len() == 1 => matches(v, &a[0], at),
            // `Option`s and newtypes around an enum (`MaybeAlign(Some(..))`).
            Val::Tup(m, b) if b.len() == 1 && m != "Some" && (n == "Some" || n == "None") && !is_option(v) => {
                matches(&b[0], p, at)
            }
            Val::Tup(..) | Val::Rec(..) => diff(),
            _ => M::Unobserved(format!("{at}: {} where {} was expected", show(v), showp(p))),
        },
        Pat::Rec(fs) => match v {
            Val::Rec(_, got) => {
                let mut un = None;
                for (k, q) in fs {
                    match got.iter().find(|(g, _)| g == k) {
                        None => un = Some(M::Unobserved(format!("{at} has no field {k}"))),
                        Some((_, w)) => match matches(w, q, &format!("{at}.{k}")) {
                            M::Same => {}
                            d @ M::Diff(_) => return d,
                            u => un = Some(u),
                        },
                    }
                }
                un.unwrap_or(M::Same)
            }
            _ if is_option(v) => diff(),
            _ => match peel(v) {
                Some(w) => matches(w, p, at),
                None => M::Unobserved(format!("{at}: {}", show(v))),
            },
        },
        Pat::List(ps) => match v {
            Val::List(vs) => {
                let mut un = None;
                for (i, (w, q)) in vs.iter().zip(ps).enumerate() {
                    match matches(w, q, &format!("{at}[{i}]")) {
                        M::Same => {}
                        d @ M::Diff(_) => return d,
                        u => un = Some(u),
                    }
                }
                if vs.len() != ps.len() {
                    return M::Diff(format!("{at} has {} entries, expected {}", vs.len(), ps.len()));
                }
                un.unwrap_or(M::Same)
            }
            _ if is_option(v) => diff(),
            _ => match peel(v) {
                Some(w) => matches(w, p, at),
                None => M::Unobserved(format!("{at}: {}", show(v))),
            },
        },
        Pat::Bag(ps) => match v {
            Val::List(vs) => {
                if vs.len() != ps.len() {
                    return M::Diff(format!("{at} has {} entries, expected {}: {} instead of {}", vs.len(), ps.len(), show(v), showp(p)));
                }
                let mut left: Vec<&Val> = vs.iter().collect();
                for q in ps {
                    let mut un = None;
                    let hit = left.iter().position(|w| match matches(w, q, at) {
                        M::Same => true,
                        M::Unobserved(u) => {
                            un = Some(u);
                            false
                        }
                        M::Diff(_) => false,
                    });
                    match (hit, un) {
                        (Some(i), _) => {
                            left.remove(i);
                        }
                        (None, Some(u)) => return M::Unobserved(u),
                        (None, None) => return M::Diff(format!("{at} has no {}: {}", showp(q), show(v))),
                    }
                }
                M::Same
            }
            _ if is_option(v) => diff(),
            _ => match peel(v) {
                Some(w) => matches(w, p, at),
                None => M::Unobserved(format!("{at}: {}", show(v))),
            },
        },
        Pat::Map(ps) => match v {
            Val::Map(vs) => {
                let mut un = None;
                for (k, q) in ps {
                    match vs.iter().find(|(w, _)| *w == Val::Num(*k as i128)) {
                        None => return M::Diff(format!("{at} has no entry {k}")),
                        Some((_, w)) => match matches(w, q, &format!("{at}[{k}]")) {
                            M::Same => {}
                            d @ M::Diff(_) => return d,
                            u => un = Some(u),
                        },
                    }
                }
                if vs.len() != ps.len() {
                    return M::Diff(format!("{at} has {} entries, expected {}", vs.len(), ps.len()));
                }
                un.unwrap_or(M::Same)
            }
            _ => match peel(v) {
                Some(w) => matches(w, p, at),
                None => M::Unobserved(format!("{at}: {}", show(v))),
            },
        },
    }
}

fn show(v: &Val) -> String {
    crate::util::clip(&format!("{v:?}"), 300)
}
fn showp(p: &Pat) -> String {
    crate::util::clip(&format!("{p:?}"), 300)
}

impl Val {
    pub fn field(&self, k: &str) -> Option<&Val> {
        match self {
            Val::Rec(_, f) => f.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
}

/// Messages captured while a module was mapped, in order.
#[derive(Clone, Debug, Default)]
pub struct Captured {
    pub contexts: Vec<String>,
    pub functions: Vec<String>,
    pub aliases: Vec<String>,
}

thread_local! {
    static CAPTURE: RefCell<Option<Captured>> = const { RefCell::new(None) };
    /// Messages are formatted in full up to this level, and counted.
    static VERBOSE: Cell<(Option<log::Level>, u64)> = const { Cell::new((None, 0)) };
    /// Called with the target of every message that's enabled on this thread.
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

type Hook = std::rc::Rc<dyn Fn(&str)>;

/// Runs `f` with a hook in the messages of this thread (which have to be captured or verbose).
pub fn hooked<R>(hook: Hook, f: impl FnOnce() -> R) -> R {
    HOOK.with(|h| *h.borrow_mut() = Some(hook));
    let r = f();
    HOOK.with(|h| h.borrow_mut().take());
    r
}

struct Counter(u64);

impl Write for Counter {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}

/// Runs `f` with logging turned on on this thread, formatting every message of up to the given
/// level; also returns the number of messages.
pub fn verbose<R>(level: log::Level, f: impl FnOnce() -> R) -> (R, u64) {
    let _ = log::set_logger(&LOGGER);
    VERBOSE.with(|v| v.set((Some(level), 0)));
    log::set_max_level(level.to_level_filter());
    let r = f();
    log::set_max_level(log::LevelFilter::Off);
    (r, VERBOSE.with(|v| v.replace((None, 0))).1)
}

/// Turns logging on for the process; each thread decides with `verbose_here` whether it logs.
pub fn global_level(l: log::LevelFilter) {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(l);
}

pub fn verbose_here(level: Option<log::Level>) {
    VERBOSE.with(|v| v.set((level, 0)));
}

/// Sorts the entries of every map, which have no order.
pub fn canonical(v: &mut Val) {
    match v {
        Val::Num(_) | Val::Str(_) => {}
        Val::Tup(_, a) | Val::List(a) => a.iter_mut().for_each(canonical),
        Val::Rec(_, f) => f.iter_mut().for_each(|(_, v)| canonical(v)),
        Val::Map(m) => {
            for (k, v) in m.iter_mut() {
                canonical(k);
                canonical(v);
            }
            m.sort_by_cached_key(|e| format!("{e:?}"));
        }
    }
}

/// Debug output in a form that doesn't depend on the order of maps.
pub fn canonical_debug(s: &str) -> Option<String> {
    let mut v = parse_debug(s)?;
    canonical(&mut v);
    Some(format!("{v:?}"))
}

const PREFIXES: [&str; 3] = ["reifying ", "functions: ", "aliases: "];

struct Sink {
    buf: String,
}

impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.buf.push_str(s);
        let n = self.buf.len();
        if n < 64 && !PREFIXES.iter().any(|p| p.starts_with(&self.buf) || self.buf.starts_with(p)) {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

struct Logger;

impl log::Log for Logger {
    fn enabled(&self, m: &log::Metadata) -> bool {
        if !m.target().starts_with("llvm_") {
            return false;
        }
        if let Ok((Some(l), _)) = VERBOSE.try_with(|v| v.get()) {
            return m.level() <= l;
        }
        CAPTURE.with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(false))
    }
    fn log(&self, r: &log::Record) {
        if !self.enabled(r.metadata()) {
            return;
        }
        if let Some(h) = HOOK.with(|h| h.borrow_mut().take()) {
            h(r.target());
            HOOK.with(|k| *k.borrow_mut() = Some(h));
        }
        let (level, n) = VERBOSE.with(|v| v.get());
        if level.is_some() {
            let mut c = Counter(0);
            let _ = std::fmt::write(&mut c, *r.args());
            VERBOSE.with(|v| v.set((level, n + 1)));
            return;
        }
        let mut s = Sink { buf: String::new() };
        if std::fmt::write(&mut s, *r.args()).is_err() {
            return;
        }
        CAPTURE.with(|c| {
            if let Some(c) = c.borrow_mut().as_mut() {
                for (i, p) in PREFIXES.iter().enumerate() {
                    if let Some(rest) = s.buf.strip_prefix(p) {
                        [&mut c.contexts, &mut c.functions, &mut c.aliases][i].push(rest.to_string());
                    }
                }
            }
        });
    }
    fn flush(&self) {}
}

static LOGGER: Logger = Logger;

/// Runs `f`, capturing what the mapper logs on this thread.
pub fn capture<R>(f: impl FnOnce() -> R) -> (R, Captured) {
    let _ = log::set_logger(&LOGGER);
    let before = CAPTURE.with(|c| c.borrow_mut().replace(Captured::default()));
    let level = log::max_level();
    log::set_max_level(log::LevelFilter::Debug);
    let r = f();
    log::set_max_level(level);
    let c = CAPTURE.with(|c| std::mem::replace(&mut *c.borrow_mut(), before)).unwrap_or_default();
    (r, c)
}
