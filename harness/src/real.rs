//! Bitcode written by LLVM's own tools.

use crate::irgen;
use crate::llvm::*;
use crate::mapgen::{many, words};
use crate::util::*;

/// A file in the scratch directory, and how it came about.
pub struct Real {
    pub file: String,
    pub how: String,
}

fn write(s: &Scratch, name: &str, text: &str) {
    s.file(name, text.as_bytes());
}

const FEATURES: &[&str] = &["-module-hash", "-preserve-bc-uselistorder", ""];

fn assemble(rng: &mut Rng, s: &Scratch, input: &str, out: &str) -> Result<String, String> {
    let mut a = vec!["-disable-verify", input, "-o", out];
    let f = *rng.pick(FEATURES);
    if !f.is_empty() {
        a.push(f);
    }
    run(s, "llvm-as", &a).map(|_| f.to_string())
}

/// A module with function bodies, from LLVM's own generator.
fn stress(rng: &mut Rng, s: &Scratch, n: usize) -> Result<Real, String> {
    let (ll, out) = (format!("s{n}.ll"), format!("s{n}.bc"));
    let size = if rng.chance(1, 10) { rng.range(500, 3000) } else { rng.range(5, 400) };
    run(s, "llvm-stress", &[&format!("-seed={}", rng.next() as u32 >> 1), &format!("-size={size}"), "-o", &ll])?;
    optimise(rng, s, &ll, &out, format!("llvm-stress -size={size}"))
}

/// Through the optimizer, with one of its passes that change what a module contains.
fn optimise(rng: &mut Rng, s: &Scratch, ll: &str, out: &str, how: String) -> Result<Real, String> {
    let mode: &[&str] = match rng.below(9) {
        0 => &["-O1"],
        1 => &["-O2"],
        2 => &["-passes=debugify"],
        3 => &["-passes=debugify", "-module-hash"],
        4 => &["-passes=mem2reg", "-module-summary"],
        5 => &["-thinlto-bc", "-thinlto-split-lto-unit"],
        6 => &["-passes=debugify", "-preserve-bc-uselistorder"],
        _ => {
            let f = assemble(rng, s, ll, out)?;
            return Ok(Real { file: out.into(), how: format!("{how} | llvm-as {f}") });
        }
    };
    let mut a = mode.to_vec();
    a.extend([ll, "-o", out]);
    run(s, "opt", &a)?;
    Ok(Real { file: out.into(), how: format!("{how} | opt {}", mode.join(" ")) })
}

/// Constants and metadata of every encoding.
fn constants(rng: &mut Rng) -> String {
    let mut t = String::new();
    let esc = |b: &[u8]| b.iter().map(|b| format!("\\{b:02X}")).collect::<String>();
    // Now and then much of it.
    let large = rng.chance(1, 10);
    for i in 0..rng.range(1, 12) {
        let n = if large && rng.bool() { many(rng, 70_000) } else { rng.us(40) };
        match rng.below(8) {
            0 => {
                let b = match rng.below(3) {
                    0 => rng.bytes(n),
                    1 => b"abcXYZ09._".repeat(n / 10 + 1),
                    _ => b"plain text, seven bits".repeat(n / 20 + 1),
                };
                t += &format!("@k{i} = constant [{} x i8] c\"{}\"\n", b.len(), esc(&b));
                let mut z = b.clone();
                z.push(0);
                t += &format!("@kz{i} = constant [{} x i8] c\"{}\"\n", z.len(), esc(&z));
            }
            1 => {
                let w = rng.range(65, 5000);
                let mut h = String::from("u0x1");
                for _ in 0..(w - 2) / 4 {
                    h.push(*rng.pick(b"0123456789ABCDEF") as char);
                }
                t += &format!("@k{i} = global i{w} {h}\n");
            }
            2 => {
                let w = *rng.pick(&[16u64, 32, 64]);
                let v: Vec<String> = (0..n.max(1)).map(|_| format!("i{w} {}", (rng.wild() as i64) >> (64 - w))).collect();
                t += &format!("@k{i} = global [{} x i{w}] [{}]\n", v.len(), v.join(", "));
            }
            3 => t += &format!("@k{i} = global i64 {}\n", rng.wild() as i64),
            4 => {
                let v: Vec<String> = (0..n.max(1)).map(|_| format!("double 0x{:016X}", rng.wild())).collect();
                t += &format!("@k{i} = global <{} x double> <{}>\n", v.len(), v.join(", "));
            }
            5 => t += &format!("@k{i} = global {{ ptr, i64 }} {{ ptr getelementptr (i8, ptr @e, i64 {}), i64 ptrtoint (ptr @e to i64) }}\n", rng.wild() as i64),
            6 => t += &format!("@k{i} = global x86_fp80 0xK{:04X}{:016X}\n", rng.below(0x8000), rng.next() | 1 << 63),
            _ => t += &format!("@k{i} = global fp128 0xL{:016X}{:016X}\n", rng.next(), rng.next()),
        }
    }
    t += "@e = external global i8\n";
    let m = if large { many(rng, 3000) } else { rng.us(30) };
    for i in 0..m {
        let n = if large && rng.chance(1, 50) { many(rng, 20_000) } else { rng.us(200) };
        let b = rng.bytes(n);
        t += &match rng.below(4) {
            0 => format!("!{i} = !{{!\"{}\"}}\n", esc(&b)),
            1 => format!("!{i} = distinct !{{!{}, null, i64 {}}}\n", rng.us(m), rng.wild() as i64),
            2 => format!("!{i} = !{{!{}, !\"{}\", !{}}}\n", rng.us(m), esc(words(rng, 0).as_bytes()), rng.us(m)),
            _ => format!("!{i} = !{{i32 {}, !\"x{i}\", ptr @e}}\n", rng.next() as i32),
        };
    }
    if m > 0 {
        t += &format!("!named = !{{!0, !{}}}\n", m - 1);
        if rng.bool() {
            // (Nodes that nothing refers to aren't written.)
            t += &format!("!all = !{{{}}}\n", (0..m).map(|i| format!("!{i}")).collect::<Vec<_>>().join(", "));
        }
    }
    t
}

fn handmade(rng: &mut Rng, s: &Scratch, n: usize) -> Result<Real, String> {
    let (ll, out) = (format!("h{n}.ll"), format!("h{n}.bc"));
    let size = if rng.chance(1, 30) { many(rng, 400) } else { rng.ur(1, 12) };
    let text = if rng.bool() { irgen::module(rng, size, true).text } else { constants(rng) };
    write(s, &ll, &text);
    let f = assemble(rng, s, &ll, &out)?;
    Ok(Real { file: out, how: format!("generated IR | llvm-as {f}") })
}

/// A program of snippets with random parts.
fn program(rng: &mut Rng, cxx: bool) -> String {
    let mut t = String::from("typedef __SIZE_TYPE__ sz; extern int printf_(const char *, ...); void *memcpy(void *, const void *, sz);\n");
    if cxx {
        t = t.replace("extern", "extern \"C\"").replace("void *memcpy", "extern \"C\" void *memcpy");
    }
    for i in 0..rng.range(1, 7) {
        let k = rng.wild() as u32 >> 1;
        let n = rng.range(2, 40);
        let s: String = words(rng, 1).bytes().map(|b| format!("\\x{b:02x}\"\"")).collect();
        t += &match rng.below(if cxx { 16 } else { 11 }) {
            0 => format!("int add{i}(int a, int b) {{ return a * {k} + b / ({n}) - (a % {n}) ^ (b << 3) | a >> 2; }}\n"),
            1 => format!("struct S{i} {{ int a; char b[{n}]; double d; struct S{i} *next; unsigned f : 5, g : 11; }}; int w{i}(struct S{i} *s) {{ int r = 0; for (; s; s = s->next) {{ r += s->b[r % {n}] * s->f; s->g = r; }} return r; }}\n"),
            2 => {
                let mut c = String::new();
                for j in 0..n {
                    c += &format!("case {}: return {};", j * 3 + (k as u64 % 7), rng.next() as i32);
                }
                format!("int sw{i}(int x) {{ switch (x) {{ {c} default: return x; }} }}\n")
            }
            3 => format!("double fl{i}(double x, float y) {{ return x * {}e{} + y / {n}.5f; }}\n", n, rng.below(40)),
            4 => format!("const char *st{i} = \"{s}\"; static const unsigned tab{i}[] = {{ {} }}; unsigned lk{i}(int x) {{ return tab{i}[x & 3] + st{i}[0]; }}\n", (0..n).map(|_| format!("{}u", rng.next() as u32)).collect::<Vec<_>>().join(",")),
            5 => format!("int va{i}(int n, ...) {{ __builtin_va_list v; __builtin_va_start(v, n); int r = __builtin_va_arg(v, int); __builtin_va_end(v); return printf_(\"{s}\", r, n); }}\n"),
            6 => format!("__attribute__((noinline, section(\"sec{i}\"), aligned({}))) void at{i}(int *p) {{ __atomic_fetch_add(p, {n}, __ATOMIC_SEQ_CST); __atomic_compare_exchange_n(p, p + 1, {n}, 0, 5, 0); __atomic_thread_fence(5); }}\n", 1 << rng.below(6)),
            7 => format!("void as{i}(void) {{ __asm__ volatile(\"nop # {i}\" ::: \"memory\"); }} __asm__(\".globl x{i}\");\n"),
            8 => format!("typedef float v{i} __attribute__((vector_size(16))); v{i} ve{i}(v{i} a, v{i} b) {{ v{i} r = a * b + {n}.0f; r[{}] = a[0]; return r; }}\n", rng.below(4)),
            9 => format!("static int (*fp{i})(int); int go{i}(int *a, int n) {{ void *l[] = {{ &&x, &&y }}; goto *l[n & 1]; x: return fp{i} ? fp{i}(*a) : 0; y: for (int j = 0; j < n; j++) a[j] = a[n - j] + j; return a[{n}]; }}\n"),
            10 => format!("__attribute__((weak, visibility(\"hidden\"))) long long wk{i}(__int128_t_ x) {{ return x * {k}; }}\n").replace("__int128_t_", if rng.bool() { "long long" } else { "unsigned" }),
            11 => format!("template <class T, int N> struct T{i} {{ T a[N]; T sum() const {{ T r{{}}; for (auto x : a) r += x; return r; }} }}; int ti{i}() {{ T{i}<int, {n}> t{{}}; T{i}<double, 3> u{{}}; return t.sum() + (int)u.sum(); }}\n"),
            12 => format!("struct B{i} {{ virtual int f(int) {{ return {n}; }} virtual ~B{i}() {{}} }}; struct D{i} : B{i} {{ int f(int x) override {{ return x * {k}; }} }}; int vi{i}(B{i} *b) {{ return b->f({n}) + (dynamic_cast<D{i} *>(b) ? 1 : 0); }}\n"),
            13 => format!("int ex{i}(int x) {{ try {{ if (x > {n}) throw x; if (x < 0) throw \"{s}\"; return ti(x); }} catch (int e) {{ return e; }} catch (...) {{ return {k}; }} }}\n").replace("ti(x)", "x"),
            14 => format!("auto la{i} = [](int x) {{ return [=](int y) {{ return x * y + {n}; }}; }}; int cl{i}(int a) {{ return la{i}(a)({n}); }}\n"),
            _ => format!("namespace n{i} {{ inline int in = {n}; thread_local int tl = {k}; struct G {{ G(); ~G(); int v; }} g; int use() {{ return in + tl + g.v; }} }}\n"),
        };
    }
    t
}

const TARGETS: &[&str] = &[
    "x86_64-pc-linux-gnu", "i686-pc-windows-gnu", "x86_64-pc-windows-msvc", "aarch64-linux-gnu", "arm64-apple-macosx13.0.0", "armv7-linux-gnueabihf",
    "thumbv7m-none-eabi", "riscv64-linux-gnu", "riscv32", "powerpc64le-linux-gnu", "powerpc-linux-gnu", "mips64-linux-gnu", "mipsel-linux-gnu", "s390x-linux-gnu",
    "sparcv9-linux-gnu", "wasm32-unknown-unknown", "wasm64-unknown-unknown", "hexagon", "avr", "msp430", "bpf", "loongarch64-linux-gnu", "x86_64-apple-macosx10.15", "lanai", "xcore", "ve-linux", "m68k-linux-gnu",
];

fn compiled(rng: &mut Rng, s: &Scratch, n: usize) -> Result<Real, String> {
    let cxx = rng.chance(2, 5);
    let (src, out) = (format!("c{n}.{}", if cxx { "cc" } else { "c" }), format!("c{n}.bc"));
    write(s, &src, &program(rng, cxx));
    let mut a: Vec<String> = vec!["-w".into(), "-c".into(), "-emit-llvm".into(), format!("-O{}", rng.pick(&["0", "1", "2", "3", "s", "z"]))];
    let target = if rng.chance(1, 3) { "x86_64-pc-linux-gnu" } else { rng.pick(TARGETS) };
    a.push(format!("--target={target}"));
    a.extend(["-ffreestanding".into(), "-nostdinc".into()]);
    if cxx {
        a.push("-std=c++20".into());
    }
    for (p, f) in [
        (2, &["-g", "-gline-tables-only", "-gdwarf-4", "-g3", "-gcodeview"][..]),
        (5, &["-flto", "-flto=thin", "-flto=thin -fsplit-lto-unit", "-flto -fvisibility=hidden -fwhole-program-vtables"]),
        (6, &["-fprofile-instr-generate", "-fprofile-instr-generate -fcoverage-mapping", "-fsanitize-coverage=trace-pc-guard", "-finstrument-functions"]),
        (6, &["-fstack-protector-all", "-ffunction-sections -fdata-sections", "-fPIC", "-fno-exceptions", "-fembed-bitcode", "-ffast-math", "-fno-discard-value-names"]),
    ] {
        if rng.chance(1, p) {
            a.extend(rng.pick(f).split(' ').map(String::from));
        }
    }
    if target == "x86_64-pc-linux-gnu" && rng.chance(1, 4) {
        a.push(rng.pick(&["-fsanitize=address", "-fsanitize=undefined", "-fsanitize=thread", "-fsanitize=memory", "-fsanitize=hwaddress", "-fsanitize=safe-stack"]).to_string());
    }
    a.extend([src.clone(), "-o".into(), out.clone()]);
    let v: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    run(s, "clang", &v)?;
    Ok(Real { file: out, how: format!("clang {}", a.join(" ")) })
}

/// One module's worth of a file.
pub fn one(rng: &mut Rng, s: &Scratch, n: usize) -> Result<Real, String> {
    match rng.below(10) {
        0..=2 => stress(rng, s, n),
        3..=5 => handmade(rng, s, n),
        6 => {
            let (ll, out) = (format!("k{n}.ll"), format!("k{n}.bc"));
            write(s, &ll, &constants(rng));
            optimise(rng, s, &ll, &out, "constants and metadata".into())
        }
        _ => compiled(rng, s, n),
    }
}

/// Serialized diagnostics, which are a bitstream but not bitcode. (So are precompiled headers,
/// but clang's define abbreviations in which an array isn't next to last, which no record can
/// use and which readers are right to refuse.)
fn other(rng: &mut Rng, s: &Scratch) -> Result<Real, String> {
    let cxx = rng.bool();
    let src = if cxx { "bad.cc" } else { "bad.c" };
    let name = if cxx { "naïve" } else { "plain" };
    write(
        s,
        src,
        &format!("{}\nint f(int x) {{ int y; return y + {}; char *p = x; return undeclared_{name}; }} int {};", program(rng, cxx), rng.small(), rng.below(9)),
    );
    let _ = run(s, "clang", &["-Wall", "-c", "-ffreestanding", "-nostdinc", src, "-o", "bad.o", "--serialize-diagnostics", "bad.dia"]);
    if s.path("bad.dia").exists() {
        Ok(Real { file: "bad.dia".into(), how: "serialized diagnostics".into() })
    } else {
        Err("no serialized diagnostics".into())
    }
}

/// A file of any kind.
pub fn any(rng: &mut Rng, s: &Scratch) -> Result<Real, String> {
    match rng.below(16) {
        0 => other(rng, s),
        1..=3 => {
            let mut parts = vec![];
            let mut how = vec![];
            for i in 0..rng.us(5) + 1 {
                let r = one(rng, s, i)?;
                // Some files hold several modules already, or something around them; all may be joined.
                parts.push(r.file);
                how.push(r.how);
            }
            let mut a = vec![];
            if rng.bool() {
                a.push("-b");
            }
            a.extend(parts.iter().map(|p| p.as_str()));
            a.extend(["-o", "cat.bc"]);
            run(s, "llvm-cat", &a)?;
            Ok(Real { file: "cat.bc".into(), how: format!("llvm-cat {} of {}", a[0], how.join("; ")) })
        }
        _ => one(rng, s, 0),
    }
}
