//! Scenarios and checks for the generator of the spec tests (C23): the repository's build script,
//! run as a program on the simulated machine.

use crate::choice::{Choices, Kind};
use crate::fs::*;
use crate::runner::Outcome;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::OnceLock;

pub fn binary() -> String {
    std::env::var("MDSIM_GEN").unwrap_or_else(|_| format!("{}/.build/gen/debug/gen-tests", crate::docs::home()))
}

/// The specification files of the repository: where they are, and their examples.
fn specs() -> &'static Vec<(String, Vec<Value>)> {
    static S: OnceLock<Vec<(String, Vec<Value>)>> = OnceLock::new();
    S.get_or_init(|| {
        let root = format!("{}/../repo/tests/spec", crate::docs::home());
        let mut out = vec![];
        let mut dirs: Vec<_> = std::fs::read_dir(&root).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        dirs.sort();
        for d in dirs {
            let mut files: Vec<_> = std::fs::read_dir(&d).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            files.sort();
            for f in files {
                if f.extension().is_none_or(|e| e != "json") {
                    continue;
                }
                let v: Vec<Value> = std::fs::read_to_string(&f).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
                let name = format!("{}/{}", d.file_name().unwrap_or_default().to_string_lossy(), f.file_name().unwrap_or_default().to_string_lossy());
                out.push((name, v));
            }
        }
        if out.is_empty() || out.iter().any(|x| x.1.is_empty()) {
            crate::harness_error("the specification files cannot be read");
        }
        out
    })
}

#[derive(PartialEq, Debug, Clone)]
enum Token {
    Word(String),
    Text(String),
    Sign(char),
}

/// Enough of Rust to read what the generator writes.
fn tokens(src: &str) -> Option<Vec<Token>> {
    let c: Vec<char> = src.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == 'r' && matches!(c.get(i + 1), Some('#' | '"')) {
            let mut n = 0;
            i += 1;
            while c.get(i) == Some(&'#') {
                n += 1;
                i += 1;
            }
            if c.get(i) != Some(&'"') {
                return None;
            }
            i += 1;
            let start = i;
            loop {
                if i >= c.len() {
                    return None;
                }
                if c[i] == '"' && c.len() > i + n && c[i + 1..=i + n].iter().all(|h| *h == '#') {
                    break;
                }
                i += 1;
            }
            out.push(Token::Text(c[start..i].iter().collect()));
            i += 1 + n;
        } else if x == '"' {
            let mut s = String::new();
            i += 1;
            loop {
                match *c.get(i)? {
                    '"' => break,
                    '\\' => {
                        i += 1;
                        match *c.get(i)? {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            '0' => s.push('\0'),
                            'u' => {
                                let end = i + c[i..].iter().position(|x| *x == '}')?;
                                let hex: String = c[i + 2..end].iter().collect();
                                s.push(char::from_u32(u32::from_str_radix(&hex, 16).ok()?)?);
                                i = end;
                            }
                            q @ ('"' | '\'' | '\\') => s.push(q),
                            _ => return None,
                        }
                    }
                    q => s.push(q),
                }
                i += 1;
            }
            out.push(Token::Text(s));
            i += 1;
        } else if x.is_alphanumeric() || x == '_' {
            let start = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            out.push(Token::Word(c[start..i].iter().collect()));
        } else {
            out.push(Token::Sign(x));
            i += 1;
        }
    }
    Some(out)
}

/// What one generated test says.
#[derive(PartialEq, Debug, Clone)]
struct Test {
    id: u64,
    ignored: bool,
    uses: String,
    texts: Vec<String>,
}

/// The tests of a generated file, in order, or what is wrong with it.
fn parse(src: &str) -> Result<Vec<Test>, String> {
    let t = tokens(src).ok_or("a string is not closed")?;
    let mut out: Vec<Test> = vec![];
    let mut names: Vec<String> = vec![];
    let mut i = 0;
    let mut attrs: Vec<String> = vec![];
    while i < t.len() {
        match &t[i] {
            Token::Sign('#') if t.get(i + 1) == Some(&Token::Sign('[')) => {
                if let Some(Token::Word(w)) = t.get(i + 2) {
                    attrs.push(w.clone());
                }
                i += 3;
            }
            Token::Word(w) if w == "fn" => {
                let Some(Token::Word(name)) = t.get(i + 1) else { return Err("a function without a name".into()) };
                let open = i + t[i..].iter().position(|x| *x == Token::Sign('{')).ok_or("a function without a body")?;
                let mut depth = 0;
                let mut end = open;
                loop {
                    match t.get(end) {
                        Some(Token::Sign('{')) => depth += 1,
                        Some(Token::Sign('}')) => depth -= 1,
                        Some(_) => {}
                        None => return Err(format!("{name} is not closed")),
                    }
                    if depth == 0 {
                        break;
                    }
                    end += 1;
                }
                if attrs.iter().any(|a| a == "test") {
                    if names.contains(name) {
                        return Err(format!("{name} is there twice"));
                    }
                    names.push(name.clone());
                    let body = &t[open + 1..end];
                    let uses = body.iter().find_map(|x| if let Token::Word(w) = x { Some(w.clone()) } else { None }).unwrap_or_default();
                    let id = name.rsplit('_').next().and_then(|x| x.parse().ok()).ok_or(format!("{name} has no number"))?;
                    let texts = body.iter().filter_map(|x| if let Token::Text(s) = x { Some(s.clone()) } else { None }).collect();
                    out.push(Test { id, ignored: attrs.iter().any(|a| a == "ignore"), uses, texts });
                }
                attrs.clear();
                i = end + 1;
            }
            _ => i += 1,
        }
    }
    if !attrs.is_empty() && attrs.iter().any(|a| a == "test") {
        return Err("the last test has no body".into());
    }
    Ok(out)
}

fn expected(examples: &[Value]) -> Vec<Test> {
    examples
        .iter()
        .map(|e| {
            let s = |k: &str| e[k].as_str().map(str::to_string);
            let input = s("markdown").unwrap_or_default().replace('\u{2192}', "\t");
            let mut texts = vec![input.trim_end_matches('\n').to_string()];
            texts.extend(s("formattedMarkdown"));
            Test {
                id: e["example"].as_u64().unwrap_or(0),
                ignored: e["skip"].as_bool().unwrap_or(false),
                uses: s("testMacro").unwrap_or_else(|| "test_identical_markdown_events".into()),
                texts,
            }
        })
        .collect()
}

const DIR: &str = "/sim/work";

/// The file made from a specification file, and whether it says what it should.
fn judge(w: &World, spec: &str, examples: &[Value]) -> Result<(), String> {
    let path = generated(spec);
    let Some(b) = w.fs.now.read(&path) else { return Err(format!("{path} does not exist")) };
    let Ok(text) = std::str::from_utf8(&b) else { return Err(format!("{path} is not text")) };
    let got = parse(text).map_err(|e| format!("{path} ({} bytes): {e}", b.len()))?;
    let want = expected(examples);
    if got.len() != want.len() {
        return Err(format!("{path} ({} bytes) has {} tests, the specification {} examples", b.len(), got.len(), want.len()));
    }
    for (g, x) in got.iter().zip(&want) {
        if g != x {
            return Err(format!("{path}: {g:?} instead of {x:?}"));
        }
    }
    Ok(())
}
fn generated(spec: &str) -> String {
    let file = spec.rsplit('/').next().unwrap_or(spec);
    format!("{DIR}/tests/{}.rs", file.strip_suffix(".json").unwrap_or(file))
}

fn process(ch: &mut Choices, k: i64) -> Spec {
    Spec {
        exe: binary(),
        args: vec![],
        cwd: DIR.into(),
        vpid: 4242 + k,
        random_seed: u64::from(ch.s(1 << 20)),
        realtime_ns: WALL_NS + i64::from(ch.s(1 << 20)) * 1_000_000_000,
        ..Spec::default()
    }
}

const KINDS: &[Fault] = &[
    Fault::OpenErr,
    Fault::ReadErr,
    Fault::WriteErr,
    Fault::TornWrite,
    Fault::CloseErr,
    Fault::StatErr,
    Fault::ShortRead,
    Fault::ShortWrite,
    Fault::Eintr,
    Fault::DiskDead,
    Fault::DiskFull,
    Fault::StdoutErr,
    Fault::Kill,
];

// ---------------------------------------------------------------- C23
pub fn run(ch: &mut Choices) -> Outcome {
    if !std::path::Path::new(&binary()).exists() {
        crate::harness_error("the generator of the spec tests could not be built");
    }
    let mut w = World::new();
    w.max_ops = 400_000;
    w.fs.add_dir("/sim", 0o755, 0, 1);
    w.fs.add_dir(DIR, 0o755, 1000, 1);
    for d in ["tests", "tests/spec", "tests/common"] {
        w.fs.add_dir(&format!("{DIR}/{d}"), 0o755, 1000, 1);
    }
    let mut sets: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for (name, all) in specs() {
        let dir = format!("{DIR}/tests/spec/{}", name.split('/').next().unwrap_or(""));
        if w.fs.now.resolve(&dir, true).is_none() {
            w.fs.add_dir(&dir, 0o755, 1000, 1);
            w.fs.add_file(&format!("{dir}/README"), b"where this comes from\n", 0o644, 1000);
        }
        let n = if ch.sc(1, 12) { 10 + ch.s(40) } else { ch.s(5) };
        let start = ch.s(all.len() as u32) as usize;
        let mut some: Vec<Value> = (0..n as usize).map(|k| all[(start + k) % all.len()].clone()).collect();
        // fewer than there are: otherwise a number would come twice
        some.truncate(all.len());
        for e in &mut some {
            if ch.sc(1, 8) {
                e["skip"] = json!(true);
            }
            if ch.sc(1, 8) {
                e["comment"] = json!("a comment, \"quoted\"");
            }
            if ch.sc(1, 8) {
                let t = e["markdown"].as_str().unwrap_or("").to_string();
                e["formattedMarkdown"] = json!(format!("{}{}", t.trim_end(), ["", " ", "\n", "  \nx"][ch.s(4) as usize]));
            }
        }
        let text = match ch.s(3) {
            0 => serde_json::to_string_pretty(&some),
            _ => serde_json::to_string(&some),
        }
        .unwrap_or_default();
        w.fs.add_file(&format!("{DIR}/tests/spec/{name}"), text.as_bytes(), 0o644, 1000);
        // left by an earlier version
        match ch.s(4) {
            0 => {
                let len = ch.s(4000) as usize;
                let old = "// @generated\n#[test]\nfn markdown_old_1() { old!(\"x\"); }\n".repeat(1 + len / 60);
                w.fs.add_file(&generated(name), old.as_bytes(), 0o644, 1000);
            }
            1 => {
                w.fs.add_file(&generated(name), b"", 0o644, 1000);
            }
            _ => {}
        }
        sets.insert(name.clone(), some);
    }
    w.fs.add_file(&format!("{DIR}/tests/common/mod.rs"), b"// macros\n", 0o644, 1000);
    w.fs.add_file(&format!("{DIR}/tests/source.rs"), b"#[test]\nfn source() {}\n", 0o644, 1000);
    let made: Vec<String> = sets.keys().map(|k| generated(k)).collect();
    let others = |w: &World| -> Vec<(String, Option<Rc<Vec<u8>>>)> {
        w.fs.now.listing().into_iter().filter(|x| !made.contains(&x.0)).map(|x| (x.0.clone(), w.fs.now.file(x.1).cloned())).collect()
    };
    let before = others(&w);
    let rounds = 1 + ch.s(2);
    let mut v = None;
    for k in 0..rounds {
        let mut s = process(ch, i64::from(k));
        if ch.sc(1, 12) {
            s.alloc_fail_at = i64::from(1 + ch.s(400));
        }
        if ch.sc(1, 8) {
            s.stdout.limit = Some(ch.s(300) as usize);
            s.stdout.err = *ch.pick(&[libc::EPIPE, libc::ENOSPC]);
        }
        let i = w.add(s);
        w.fs.settle();
        let mut kinds = vec![];
        for f in KINDS {
            if ch.draw(Kind::Fault, 3) == 1 {
                kinds.push(*f);
            }
        }
        let rate = *[2u32, 24, 90, 1].get(ch.draw(Kind::Fault, 4) as usize).unwrap_or(&2);
        w.plan = FaultPlan { enabled: kinds, rate, budget: 1 + ch.draw(Kind::Fault, 3), ..FaultPlan::default() };
        v = w.run(ch, &mut |w: &mut World| {
            if w.fs.touched || !w.fs.log.is_empty() {
                // the log only grows when something changes
                if w.fs.log.len() > 4000 {
                    return violation("no-progress", "more than 4000 changes to the file system");
                }
            }
            None
        });
        v = v.or_else(|| {
            let p = &w.procs[i];
            let hurt = p.faults.iter().any(|f| !matches!(f.1, Fault::ShortRead | Fault::ShortWrite | Fault::Eintr)) || p.alloc_failed || p.out.failed || w.fs.capacity.is_some();
            match p.end {
                Some(End::Exit(0)) => sets.iter().find_map(|(n, e)| judge(&w, n, e).err()).and_then(|e| violation("incomplete", format!("the generator succeeded, but {e}"))),
                _ if !hurt => violation("fails-without-fault", format!("{:?}: {}", p.end, String::from_utf8_lossy(&p.err.accepted))),
                _ => None,
            }
        });
        if v.is_some() {
            break;
        }
        w.dead = false;
        w.fs.capacity = None;
    }
    let mut nt = !w.fired.is_empty();
    if v.is_none() {
        w.plan = FaultPlan::default();
        w.trace.push("   -- from here on nothing fails --".into());
        let s = process(ch, 9);
        let i = w.add(s);
        v = w.run(ch, &mut |_| None);
        v = v.or_else(|| {
            if w.procs[i].end != Some(End::Exit(0)) {
                return violation("not-recovered", format!("{:?}: {}", w.procs[i].end, String::from_utf8_lossy(&w.procs[i].err.accepted)));
            }
            sets.iter().find_map(|(n, e)| judge(&w, n, e).err()).and_then(|e| violation("not-recovered", e))
        });
        let first: Vec<_> = made.iter().map(|m| w.fs.now.read(m)).collect();
        if v.is_none() && ch.sc(1, 2) {
            let mut s = process(ch, 17);
            s.umask = 0o077;
            let i = w.add(s);
            v = w.run(ch, &mut |_| None);
            v = v.or_else(|| {
                if w.procs[i].end != Some(End::Exit(0)) {
                    return violation("not-the-same-again", format!("{:?}", w.procs[i].end));
                }
                let again: Vec<_> = made.iter().map(|m| w.fs.now.read(m)).collect();
                if first != again {
                    return violation("not-the-same-again", "a second run made other files of the same specification");
                }
                None
            });
        }
    }
    v = v.or_else(|| {
        if others(&w) != before {
            return violation("changed-other-files", "something else than the generated files has changed");
        }
        None
    });
    nt |= sets.values().any(|s| s.len() > 4);
    crate::cli::outcome(&mut w, v, nt)
}
