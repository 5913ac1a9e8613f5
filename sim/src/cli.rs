//! Scenarios and checks for the command-line program (C01 to C10, C19 to C21, C24).

use crate::choice::{Choices, Kind};
use crate::docs;
use crate::fs::*;
use crate::oracle::{Opts, Oracle};
use crate::rng::mix;
use crate::runner::Outcome;
use crate::world::*;
use std::collections::BTreeMap;
use std::rc::Rc;

type Bytes = Rc<Vec<u8>>;

/// Where the document lives and how it is named on the command line.
#[derive(Clone, Debug)]
pub struct Place {
    /// the regular file itself
    pub real: String,
    pub arg: String,
    pub cwd: String,
    pub uid: u32,
    pub umask: u32,
    pub mode: u32,
}

fn opts(ch: &mut Choices) -> Opts {
    let max_width = *ch.pick(&[None, Some(80), Some(40), Some(20), Some(100), Some(1), Some(60), Some(0), Some(120)]);
    Opts { max_width, reflow: ch.sc(1, 2) }
}

/// Spell the options in one of the ways the command line accepts.
fn args(ch: &mut Choices, input: &str, o: &Opts, stdout: bool) -> Vec<String> {
    let mut groups: Vec<Vec<String>> = vec![];
    let mut combined = false;
    if let Some(w) = o.max_width {
        let g = match ch.s(6) {
            0 => vec![format!("--max-width={w}")],
            1 => vec!["--max-width".into(), w.to_string()],
            2 => vec![format!("-m{w}")],
            3 => vec!["-m".into(), w.to_string()],
            4 => vec![format!("-m={w}")],
            _ if o.reflow => {
                combined = true;
                vec![format!("-rm{w}")]
            }
            _ => vec![format!("-m{w}")],
        };
        groups.push(g);
    }
    if o.reflow && !combined {
        groups.push(vec![if ch.sc(1, 2) { "-r".into() } else { "--reflow-text".into() }]);
    }
    if stdout {
        groups.push(vec!["--stdout".into()]);
    }
    // any order
    for i in (1..groups.len()).rev() {
        let j = i - ch.s(i as u32 + 1) as usize;
        groups.swap(i, j);
    }
    let dash = input.starts_with('-');
    if dash || ch.sc(1, 8) {
        groups.push(vec!["--".into(), input.into()]);
    } else {
        let at = groups.len() - ch.s(groups.len() as u32 + 1) as usize;
        groups.insert(at, vec![input.into()]);
    }
    groups.concat()
}

/// What other programs put into text files.
fn odd_text(ch: &mut Choices, s: String) -> String {
    match ch.s(10) {
        0 => format!("\u{feff}{s}"),
        1 => format!("#!/usr/bin/env x\n{s}"),
        2 => s.replace("\r\n", "\n").replace('\n', "\r\n"),
        3 => s.replace("\r\n", "\n").replace('\n', "\r"),
        4 => format!("{s}\u{1a}"),
        5 => format!("\0{s}\0"),
        6 => String::new(),
        7 => (*ch.pick(&["\n", " ", "\t\n\n", "\u{feff}", "\r\n", "\0"])).to_string(),
        8 => format!("\u{feff}#   a\n\n\n\n{s}"),
        _ => s.trim_end().to_string(),
    }
}

/// A document's bytes; sometimes larger than any buffer on the way.
fn text(ch: &mut Choices, big: bool) -> String {
    let mut s = docs::any(ch, &docs::Cfg::default(), true);
    if ch.sc(1, 10) {
        s = odd_text(ch, s);
    }
    if big && ch.sc(1, 12) && !s.is_empty() {
        let n = 1 + 20_000 / s.len();
        s = vec![s; n.min(200)].join("\n");
        while s.len() > 60_000 {
            s.pop();
        }
    } else if big && ch.sc(1, 48) && !s.is_empty() {
        let size = *ch.pick(&[70_000usize, 130_000, 270_000, 1_100_000]);
        s = vec![s; size / 40_000 + 1].join("\n");
        let line = "Some words in a line that is repeated, with *emphasis* and a [link](target).\n";
        // paragraphs of no more than seven lines, because the time for one grows with its square
        for k in 1.. {
            if s.len() >= size {
                break;
            }
            s.push_str(line);
            if k % 7 == 0 {
                s.push('\n');
            }
        }
    }
    s
}

/// What an editor makes of a text.
fn edited(ch: &mut Choices, t: &str) -> String {
    if ch.sc(1, 4) {
        return text(ch, false);
    }
    let mut c: Vec<char> = t.chars().collect();
    let letters: Vec<usize> = (0..c.len()).filter(|i| c[*i].is_alphanumeric()).collect();
    for _ in 0..1 + ch.s(4) {
        if letters.is_empty() {
            break;
        }
        let at = letters[ch.s(letters.len() as u32) as usize];
        c[at] = *ch.pick(&['q', 'Z', '0', 'é']);
    }
    let mut s: String = c.into_iter().collect();
    match ch.s(6) {
        0 => s.push_str("\n\none more paragraph\n"),
        1 => s = format!("# first\n\n{s}"),
        2 => {
            let k = s.len() / 2;
            let k = (k..=s.len()).find(|k| s.is_char_boundary(*k)).unwrap_or(0);
            s.truncate(k);
        }
        _ => {}
    }
    s
}

const NAMES: &[&str] = &[
    "README.md", "a.md", "notes", "-x.md", "with space.md", "été.md", ".hidden.md", "x.tar.md", "DOC.MD", "CHANGELOG.md", "SUMMARY.md",
    "LICENSE", "index.mdx", "x.markdown", "x.txt", "x.html", "x.rs", "2024-01-02-post.md", "x.md.tmp", "a.qmd", "tab\t.md", "x.Rmd",
    "~notes.md", "~", "-", "@a.md", "a%20b.md", "*.md", "$HOME.md", "a\\b.md", "new\nline.md", "a:b.md", ".md", "e\u{301}.md", "#a.md#",
    // not UTF-8, see world::raw
    "caf\u{f7e9}.md", "\u{f7ff}\u{f7fe}", "\u{f783}e.md", "a\u{f7c3}",
];

/// Names that a name turns into when it is expanded, decoded, trimmed and the like.
fn other_names(name: &str) -> Vec<String> {
    let odd = |c: char| ('\u{f780}'..='\u{f7ff}').contains(&c);
    let each = |f: &dyn Fn(char) -> String| name.chars().map(f).collect::<String>();
    let latin = |c: char| char::from_u32(u32::from(c) & 0xff).unwrap_or(c).to_string();
    let mut v = vec![
        each(&|c| if odd(c) { "\u{fffd}".into() } else { c.into() }),
        each(&|c| if odd(c) { "?".into() } else { c.into() }),
        each(&|c| if odd(c) { "_".into() } else { c.into() }),
        each(&|c| if odd(c) { String::new() } else { c.into() }),
        each(&|c| if odd(c) { latin(c) } else { c.into() }),
        each(&|c| if c.is_ascii() { c.into() } else { "?".into() }),
        each(&|c| if c.is_ascii() { c.into() } else { String::new() }),
        each(&|c| if c.is_control() { String::new() } else { c.into() }),
        each(&|c| if c.is_whitespace() { " ".into() } else { c.into() }),
        each(&|c| if c.is_whitespace() { "-".into() } else { c.into() }),
        name.to_lowercase(),
        name.to_uppercase(),
        name.replace("%20", " "),
        name.replace('\\', ""),
        name.replace('\\', "-"),
        name.replace("e\u{301}", "é"),
        name.replace('é', "e\u{301}"),
        name.trim_start_matches(['~', '@', '-', '#', '.']).to_string(),
        name.trim_end_matches(['~', '#', '.']).to_string(),
        name.split([':', '#', ' ', '\n']).next().unwrap_or("").to_string(),
        name.rsplit([':', '/']).next().unwrap_or("").to_string(),
        name.rsplit_once('.').map_or(name, |x| x.0).to_string(),
        format!("{name}.md"),
        name.replace("$HOME", "/home/user"),
    ];
    if let Some(rest) = name.strip_prefix('~') {
        v.push(format!("/home/user{rest}"));
        v.push(format!("/home/{}", rest.trim_end_matches(".md")));
    }
    v.retain(|n| !n.is_empty() && n != name && n != "." && n != "..");
    v
}

/// Build directories, the document and its neighbours.
fn place(ch: &mut Choices, w: &mut World, data: Option<&[u8]>, modes: &[u32]) -> Place {
    let uid = *ch.pick(&[1000u32, 1000, 1000, 0]);
    let owner = if uid == 0 { *ch.pick(&[1000, 0]) } else { uid };
    let umask = *ch.pick(&[0o022u32, 0o077, 0o002, 0o000]);
    let mode = *ch.pick(modes);
    let fs = &mut w.fs;
    if ch.sc(1, 4) {
        const YEAR: i64 = 31_557_600_000_000_000;
        fs.born = *ch.pick(&[WALL_NS, WALL_NS + 75 * YEAR, 0, WALL_NS - 30 * YEAR, -YEAR, WALL_NS - 1_000_000, WALL_NS + 2_000_000_000, WALL_NS / 1_000_000_000 * 1_000_000_000]);
    }
    fs.add_dir("/sim", 0o755, 0, 1);
    fs.add_dir("/sim/work", 0o755, owner, 1);
    fs.add_dir("/sim/work/docs", 0o755, owner, 1);
    fs.add_dir("/sim/work/empty", 0o755, owner, 1);
    fs.add_dir("/tmp", 0o1777, 0, 2);
    fs.add_dir("/home", 0o755, 0, 1);
    fs.add_dir("/home/user", 0o755, owner, 1);
    fs.add_dir("/mnt", 0o755, 0, 3);
    fs.add_dir("/mnt/other", 0o755, owner, 3);
    let mut name = (*ch.pick(NAMES)).to_string();
    if ch.sc(1, 16) {
        name = format!("{}.md", "n".repeat(252));
    }
    let mut dir = *ch.pick(&["/sim/work", "/sim/work/docs", "/mnt/other", "/tmp"]);
    if ch.sc(1, 8) {
        dir = *ch.pick(&["/sim/work/~", "/sim/work/.github", "/sim/work/a b", "/sim/work/caf\u{f7e9}", "/sim/work/x.md", "/sim/work/-"]);
        fs.add_dir(dir, 0o755, owner, 1);
    }
    let real = format!("{dir}/{name}");
    if let Some(d) = data {
        // somebody else's document that everybody may write (not where only owners may rename)
        let foreign = mode & 0o006 == 0o006 && dir != "/tmp" && ch.sc(1, 2);
        fs.add_file(&real, d, mode, if foreign { 2000 } else { owner });
    }
    let cwd = (*ch.pick(&["/sim/work", "/sim/work/docs", "/", "/sim/work/empty"])).to_string();
    let base = dir.rsplit('/').next().unwrap_or("");
    let mut pointed = vec![];
    let arg = match ch.s(12) {
        0..=2 => relative(&cwd, &real),
        3 => real.clone(),
        4 => format!("{dir}/./../{base}/{name}"),
        5 => {
            fs.add_symlink("/sim/work/link.md", &real);
            relative(&cwd, "/sim/work/link.md")
        }
        6 => {
            let target = relative("/sim/work/docs", &real);
            fs.add_symlink("/sim/work/docs/rel.md", &target);
            fs.add_symlink("/sim/work/chain.md", "docs/rel.md");
            pointed = vec!["docs/rel.md".to_string(), target];
            relative(&cwd, "/sim/work/chain.md")
        }
        7 => {
            fs.add_symlink("/sim/dirlink", dir);
            format!("/sim/dirlink/{name}")
        }
        8 => {
            // the parent of a directory behind a link is not where the link is
            fs.add_symlink("/sim/work/sub", dir);
            if fs.now.resolve(&format!("/sim/work/{base}"), false).is_none() {
                fs.add_dir(&format!("/sim/work/{base}"), 0o755, owner, 1);
            }
            let decoy = format!("/sim/work/{base}/{name}");
            if fs.now.resolve(&decoy, false).is_none() {
                fs.add_file(&decoy, b"#  a   decoy\n", mode, owner);
            }
            let path = format!("/sim/work/sub/../{base}/{name}");
            if ch.sc(1, 2) {
                relative(&cwd, "/sim/work") + if cwd == "/sim/work" { "" } else { "/" } + path.trim_start_matches("/sim/work/")
            } else {
                path
            }
        }
        9 => {
            fs.add_symlink(&format!("{dir}/beside.md"), &name);
            pointed = vec![name.clone()];
            relative(&cwd, &format!("{dir}/beside.md"))
        }
        _ => format!("./{}", relative(&cwd, &real)),
    };
    // what a relative link points to is something else seen from the working directory
    if !pointed.is_empty() && ch.sc(1, 2) {
        for t in pointed {
            let parts: Vec<&str> = t.split('/').collect();
            let mut at: Vec<&str> = cwd.split('/').filter(|x| !x.is_empty()).collect();
            for (k, x) in parts.iter().enumerate() {
                if *x == ".." {
                    at.pop();
                    continue;
                }
                at.push(x);
                let path = format!("/{}", at.join("/"));
                if fs.now.resolve(&path, false).is_some() {
                    continue;
                }
                if k + 1 < parts.len() {
                    fs.add_dir(&path, 0o755, owner, 1);
                } else {
                    fs.add_file(&path, b"#  a   decoy\n", mode, owner);
                }
            }
        }
    }
    if ch.sc(1, 4) {
        // what the name becomes if somebody converts it
        for n in other_names(&name) {
            let f = if n.starts_with('/') { n } else { format!("{dir}/{n}") };
            if f.len() < 255 && fs.now.resolve(&f, false).is_none() && fs.now.resolve(f.rsplit_once('/').map_or("", |x| x.0), true).is_some() {
                fs.add_file(&f, b"#  a   decoy\n", mode, owner);
            }
        }
    }
    if ch.sc(1, 6) {
        // files of the same name elsewhere
        for d in ["/sim/work", "/sim/work/docs", "/sim/work/empty", "/home/user", "/tmp", "/sim", "/mnt", ""] {
            let f = format!("{d}/{name}");
            if fs.now.resolve(&f, false).is_none() {
                fs.add_file(&f, b"#  a   decoy\n", mode, owner);
            }
        }
    }
    Place { real, arg, cwd, uid, umask, mode }
}

/// Change the mode of the document's directory.
fn directory_mode(w: &mut World, p: &Place, mode: u32) {
    let d = p.real.rsplit_once('/').map_or("", |x| x.0);
    if let Some(ino) = w.fs.now.resolve(d, true) {
        w.fs.now.apply(&Op::Chmod { ino, mode });
        w.fs.disk.apply(&Op::Chmod { ino, mode });
    }
}

fn document_mode(w: &mut World, p: &Place, mode: u32) {
    if let Some(ino) = w.fs.now.resolve(&p.real, true) {
        w.fs.now.apply(&Op::Chmod { ino, mode });
        w.fs.disk.apply(&Op::Chmod { ino, mode });
    }
}

fn relative(cwd: &str, path: &str) -> String {
    let c: Vec<&str> = cwd.split('/').filter(|s| !s.is_empty()).collect();
    let p: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
    let k = c.iter().zip(&p).take_while(|(a, b)| a == b).count();
    let mut v: Vec<&str> = vec![".."; c.len() - k];
    v.extend(&p[k..]);
    v.join("/")
}

/// Files somebody else keeps next to the document.
fn neighbours(ch: &mut Choices, w: &mut World, p: &Place, vpid: i64) {
    let (dir, name) = p.real.rsplit_once('/').unwrap_or(("", &p.real));
    let stem = name.rsplit_once('.').map_or(name, |x| x.0);
    let cands = [
        format!("{name}.tmp"),
        format!("{name}.bak"),
        format!("{name}~"),
        format!(".{name}.tmp"),
        format!(".{name}.swp"),
        format!("{stem}.tmp"),
        format!("{stem}.bak"),
        format!("{name}.new"),
        format!("{name}.orig"),
        format!("#{name}#"),
        "tmp".to_string(),
        "other.md".to_string(),
        format!(".markdown-fmt-{vpid}-0.tmp"),
        format!(".markdown-fmt-{vpid}-1.tmp"),
        ".markdown-fmt.tmp".to_string(),
        format!("{name}.{vpid}"),
        format!("{name}.{vpid}.tmp"),
        format!(".{name}.{vpid}.tmp"),
    ];
    for c in cands {
        let n = if c.len() > 255 { continue } else { format!("{dir}/{c}") };
        if w.fs.now.resolve(&n, false).is_some() || !ch.sc(1, 2) {
            continue;
        }
        let mode = *ch.pick(&[0o644u32, 0o600, 0o666]);
        match ch.s(6) {
            0 => {
                w.fs.add_dir(&n, 0o755, p.uid, 1);
            }
            1 => {
                w.fs.add_symlink(&n, "/sim/work/precious.txt");
            }
            _ => {
                w.fs.add_file(&n, format!("precious {c}, longer than nothing\n").repeat(3).as_bytes(), mode, p.uid);
            }
        }
    }
    if w.fs.now.resolve("/sim/work/precious.txt", false).is_none() {
        w.fs.add_file("/sim/work/precious.txt", b"precious\n", 0o666, p.uid);
    }
    for f in ["/tmp/markdown-fmt.tmp", "/tmp/out.md", "/home/user/x.md"] {
        if ch.sc(1, 3) && w.fs.now.resolve(f, false).is_none() {
            w.fs.add_file(f, b"precious too\n", 0o666, p.uid);
        }
    }
}

/// A second name for the document.
fn hard_link(w: &mut World, p: &Place) {
    let (dir, _) = p.real.rsplit_once('/').unwrap_or(("", ""));
    let name = "second-name.md".to_string();
    if let (Some(ino), Some(d)) = (w.fs.now.resolve(&p.real, true), w.fs.now.resolve(dir, true)) {
        if w.fs.now.lookup(d, &name).is_none() {
            let op = Op::Link { dir: d, name, ino };
            w.fs.now.apply(&op);
            w.fs.disk.apply(&op);
        }
    }
}

fn spec(ch: &mut Choices, p: &Place, o: &Opts, stdout: bool) -> Spec {
    let tty = if ch.sc(1, 4) { i64::from(1 + ch.s(7)) } else { 0 };
    Spec { tty, columns: i64::from(*ch.pick(&[80u32, 20, 200, 0])), args: args(ch, &p.arg, o, stdout), cwd: p.cwd.clone(), uid: p.uid, umask: p.umask, ..Spec::default() }
}

fn show(b: &Option<Bytes>) -> String {
    match b {
        None => "missing".into(),
        Some(b) => show_bytes(b),
    }
}
fn show_bytes(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let short: String = s.chars().take(400).collect();
    format!("{} bytes {short:?}{}", b.len(), if short.len() < s.len() { "..." } else { "" })
}

fn same(a: &Option<Bytes>, b: &[u8]) -> bool {
    a.as_ref().is_some_and(|a| a.as_slice() == b)
}

/// A random subset of fault kinds and a rate, different for every run.
fn swarm(ch: &mut Choices, kinds: &[Fault], rates: &[u32], budget: u32) -> FaultPlan {
    let mut enabled: Vec<Fault> = vec![];
    for k in kinds {
        if ch.draw(Kind::Fault, 2) == 1 {
            enabled.push(*k);
        }
    }
    let rate = rates[ch.draw(Kind::Fault, rates.len() as u32) as usize];
    FaultPlan { enabled, rate, budget, ..FaultPlan::default() }
}

const ERRORS: &[Fault] = &[
    Fault::OpenErr,
    Fault::ReadErr,
    Fault::WriteErr,
    Fault::TornWrite,
    Fault::SyncErr,
    Fault::MetaErr,
    Fault::StatErr,
    Fault::UnlinkErr,
    Fault::CloseErr,
    Fault::ShortRead,
    Fault::ShortWrite,
    Fault::Eintr,
    Fault::DiskDead,
    Fault::DiskFull,
    Fault::StderrErr,
];

pub struct Cli {
    pub oracle: Oracle,
}

pub fn outcome(w: &mut World, v: Option<Violation>, nontrivial: bool) -> Outcome {
    w.kill_all();
    let mut o = Outcome {
        violation: v,
        signature: w.signature(),
        nontrivial,
        sim_ns: w.now_ns.max(0) as u64,
        switches: w.switches,
        fired: std::mem::take(&mut w.fired),
        probes: std::mem::take(&mut w.probes),
        trace: std::mem::take(&mut w.trace),
        ..Outcome::default()
    };
    o.probes.insert("simulated processes".into(), w.procs.len() as u64);
    o.probes.insert("requests answered".into(), w.step);
    o
}

/// Paths that exist now and did not before.
fn strays(w: &World, before: &[(String, Ino)]) -> Vec<String> {
    w.fs.now.listing().into_iter().map(|x| x.0).filter(|p| !before.iter().any(|(b, _)| b == p)).collect()
}

fn faulted(w: &World, p: usize, f: Fault) -> bool {
    w.procs[p].faults.iter().any(|x| x.1 == f)
}
fn any_fault(w: &World) -> bool {
    !w.fired.is_empty()
}

/// Is a left-over file excused?
fn stray_excused(w: &World, p: usize) -> bool {
    !matches!(w.procs[p].end, Some(End::Exit(_))) || faulted(w, p, Fault::UnlinkErr) || w.dead
}

impl Cli {
    pub fn run(&mut self, id: &str, ch: &mut Choices) -> Outcome {
        match id {
            "C01" => self.c01(ch),
            "C02" => self.c02(ch),
            "C03" => self.c03(ch),
            "C04" => self.c04(ch),
            "C05" => self.c05(ch),
            "C06" => self.c06(ch),
            "C07" => self.c07(ch),
            "C08" => self.c08(ch),
            "C09" => self.c09(ch),
            "C10" => self.c10(ch),
            "C19" => self.c19(ch),
            "C20" => self.c20(ch),
            "C21" => self.c21(ch),
            "C23" => crate::gensim::run(ch),
            "C24" => self.c24(ch),
            _ => crate::harness_error("unknown property"),
        }
    }

    /// A text the library can format, and what it becomes.
    fn formattable(&mut self, ch: &mut Choices, o: &Opts, big: bool) -> (String, Vec<u8>) {
        let t = text(ch, big);
        match self.oracle.bytes(t.as_bytes(), o) {
            Some(f) => (t, f),
            None => {
                let t = "  #  A   title\nand text\n".to_string();
                let f = self.oracle.bytes(t.as_bytes(), o).unwrap_or_else(|| t.clone().into_bytes());
                (t, f)
            }
        }
    }

    // ---------------------------------------------------------------- C01
    fn c01(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        let t = text(ch, true);
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o600, 0o664, 0o666]);
        if ch.sc(1, 4) {
            neighbours(ch, &mut w, &p, 4242);
        }
        if ch.sc(1, 8) {
            hard_link(&mut w, &p);
        }
        let mut versions: Vec<Bytes> = vec![Rc::new(t.into_bytes())];
        let rounds = 1 + ch.s(3);
        let mut v = None;
        let mut crashes = 0u64;
        let mut hit = 0u64;
        for round in 0..rounds {
            let o = opts(ch);
            let Some(cur) = w.fs.now.read(&p.real) else { break };
            if let Some(f) = self.oracle.bytes(&cur, &o) {
                versions.push(Rc::new(f));
            }
            let mut s = spec(ch, &p, &o, false);
            if ch.sc(1, 3) {
                s.vpid += i64::from(round);
            }
            if ch.sc(1, 10) {
                s.alloc_fail_at = i64::from(1 + ch.s(1500));
            }
            w.add(s);
            let fatal = match ch.draw(Kind::Fault, 4) {
                0 | 1 => vec![Fault::Kill],
                2 => vec![Fault::PowerLoss],
                _ => vec![Fault::Kill, Fault::PowerLoss],
            };
            let mut plan = if ch.draw(Kind::Fault, 2) == 1 { swarm(ch, ERRORS, &[16, 32, 8], 3) } else { swarm(ch, &[], &[16, 8, 32], 1) };
            plan.enabled.extend(fatal);
            w.plan = plan;
            let real = p.real.clone();
            let allowed = versions.clone();
            let mut seen = (usize::MAX, 0, 0);
            let salt = u64::from(ch.s(1 << 16));
            v = w.run(ch, &mut |w: &mut World| {
                let c = w.fs.now.read(&real);
                if !allowed.iter().any(|a| same(&c, a)) {
                    return violation("torn-document", format!("after step {} the document is {}", w.step, show(&c)));
                }
                let key = (w.fs.log.len(), w.fs.min_prefix, w.fs.log.iter().filter(|l| l.synced).count());
                if key == seen {
                    return None;
                }
                seen = key;
                for k in w.fs.prefixes() {
                    for loss in [DataLoss::None, DataLoss::Zeros, DataLoss::All, DataLoss::Some(mix(salt, w.step))] {
                        crashes += 1;
                        let c = w.fs.image(k, loss).read(&real);
                        if !allowed.iter().any(|a| same(&c, a)) {
                            return violation(
                                "torn-after-power-loss",
                                format!(
                                    "losing power after step {} with {k} of {} journal entries on disk and unsynced data {loss:?} leaves the document {}",
                                    w.step,
                                    w.fs.log.len(),
                                    show(&c)
                                ),
                            );
                        }
                    }
                }
                None
            });
            if v.is_some() {
                break;
            }
            if matches!(w.procs.last().and_then(|p| p.end.clone()), Some(End::Killed)) {
                hit += 1;
            }
            w.dead = false;
            w.fs.capacity = None;
            if round + 1 < rounds && ch.sc(1, 3) {
                // somebody edits the document between two runs
                let n = text(ch, false);
                let Some(ino) = w.fs.now.resolve(&p.real, true) else { break };
                let b: Bytes = Rc::new(n.into_bytes());
                w.fs.now.apply(&Op::Truncate { ino, len: 0 });
                w.fs.now.apply(&Op::Write { ino, off: 0, bytes: b.clone() });
                w.fs.settle();
                versions = vec![b];
                w.trace.push("   the document is edited and saved".into());
            }
        }
        w.probes.insert("power-loss images examined".into(), crashes);
        w.probes.insert("runs cut short".into(), hit);
        outcome(&mut w, v, hit > 0)
    }

    // ---------------------------------------------------------------- C02
    fn c02(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        let o = opts(ch);
        let mut data: Option<Vec<u8>> = Some(text(ch, true).into_bytes());
        let kind = ch.s(16);
        let mut modes: &[u32] = &[0o644, 0o600, 0o664, 0o755];
        match kind {
            9 => {
                // not UTF-8
                let d = data.get_or_insert_with(Vec::new);
                let at = d.len() - ch.s(d.len() as u32 + 1) as usize;
                let bad: &[u8] = ch.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\x80"]);
                let tail = d.split_off(at);
                d.extend_from_slice(bad);
                d.extend_from_slice(&tail);
            }
            10 => data = None,
            11 => modes = &[0o444, 0o000, 0o200, 0o400],
            _ => {}
        }
        let p = place(ch, &mut w, data.as_deref(), modes);
        let mut p = p;
        match kind {
            12 => p.arg = p.cwd.clone(),
            13 => directory_mode(&mut w, &p, 0o555),
            14 => {
                let used = w.fs.used();
                w.fs.capacity = Some(used + ch.s(200) as usize);
            }
            _ => {}
        }
        if data.is_some() && ch.sc(1, 8) {
            hard_link(&mut w, &p);
        }
        let orig = w.fs.now.read(&p.real);
        if kind == 15 {
            // somebody else's document
            if let Some(ino) = w.fs.now.resolve(&p.real, true) {
                let mode = w.fs.now.nodes[&ino].mode;
                w.fs.now.apply(&Op::Chown { ino, uid: 2000, gid: 2000, mode });
                w.fs.disk.apply(&Op::Chown { ino, uid: 2000, gid: 2000, mode });
            }
        }
        // whoever may not write the document may not replace it either
        let locked = p.uid != 0 && (kind == 15 || kind == 11 && p.mode & 0o200 == 0);
        let want = match (&orig, kind) {
            (_, 12) | (None, _) => None,
            _ if locked => None,
            (Some(b), _) => self.oracle.bytes(b, &o),
        };
        let mut s = spec(ch, &p, &o, false);
        if ch.sc(1, 5) {
            s.alloc_fail_at = i64::from(1 + ch.s(2500));
            s.alloc_fail_forever = ch.sc(1, 3);
        }
        if ch.sc(1, 8) {
            s.stderr.limit = Some(ch.s(60) as usize);
            s.stderr.err = *ch.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO]);
        }
        let i = w.add(s);
        let budget = 1 + ch.draw(Kind::Fault, 3);
        w.plan = swarm(ch, ERRORS, &[24, 40, 12, 90], budget);
        w.fs.settle();
        let before = w.fs.now.listing();
        let real = p.real.clone();
        let mut visible: Option<u64> = None;
        let wanted = want.clone();
        let v = w.run(ch, &mut |w: &mut World| {
            let c = w.fs.now.read(&real);
            match &wanted {
                Some(f) if same(&c, f) => {
                    visible.get_or_insert(w.step);
                }
                _ => visible = None,
            }
            None
        });
        let v = v.or_else(|| {
            let end = w.procs[i].end.clone().unwrap_or(End::Killed);
            let c = w.fs.now.read(&p.real);
            if end == End::Exit(0) {
                let Some(f) = &want else {
                    return violation("success-without-result", format!("exit 0, but the document {} cannot be formatted", show(&orig)));
                };
                if !same(&c, f) {
                    return violation("success-without-result", format!("exit 0, but the document is {} instead of {}", show(&c), show_bytes(f)));
                }
            } else {
                if c != orig {
                    let late = visible.is_some_and(|s| w.procs[i].faults.iter().any(|x| x.0 > s));
                    let formatted = want.as_ref().is_some_and(|f| same(&c, f));
                    if !(late && formatted) {
                        return violation(
                            "failed-run-changed-document",
                            format!("the run ended with {end:?} and the document is {} instead of {}", show(&c), show(&orig)),
                        );
                    }
                }
                let pr = &w.procs[i];
                if pr.err.accepted.is_empty() && !pr.err.failed && !faulted(&w, i, Fault::StderrErr) && !pr.alloc_failed {
                    return violation("silent-failure", format!("the run ended with {end:?} and said nothing on standard error"));
                }
            }
            let left = strays(&w, &before);
            if !left.is_empty() && !stray_excused(&w, i) {
                return violation("left-over-file", format!("the run ended with {end:?} and left {left:?}"));
            }
            None
        });
        let nt = any_fault(&w) || want.is_none();
        if w.procs[i].end == Some(End::Exit(0)) {
            w.probe("exit 0");
        } else {
            w.probe("failed runs");
        }
        outcome(&mut w, v, nt)
    }

    // ---------------------------------------------------------------- C03
    fn c03(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        w.max_ops = 400_000;
        let o = opts(ch);
        let (t, want) = self.formattable(ch, &o, true);
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o600, 0o664, 0o666]);
        let stdout = ch.sc(1, 2);
        let mut s = spec(ch, &p, &o, stdout);
        if ch.sc(1, 8) {
            s.env.push(("MARKDOWN_FMT_LOG".into(), b"markdown_fmt=debug".to_vec()));
        }
        let i = w.add(s);
        w.fs.settle();
        let before = w.fs.now.clone();
        let mut plan = swarm(ch, &[Fault::ShortRead, Fault::ShortWrite, Fault::Eintr], &[128, 40, 230, 250], 3000);
        if plan.enabled.is_empty() {
            plan.enabled = vec![Fault::ShortRead, Fault::ShortWrite, Fault::Eintr];
        }
        w.plan = plan;
        let v = w.run(ch, &mut |_| None);
        let v = v.or_else(|| {
            let pr = &w.procs[i];
            let end = pr.end.clone().unwrap_or(End::Killed);
            if end != End::Exit(0) {
                return violation(
                    "transient-fault-fails-run",
                    format!("ended with {end:?}: {}", String::from_utf8_lossy(&pr.err.accepted)),
                );
            }
            if stdout {
                if pr.out.accepted != want {
                    return violation("wrong-output", format!("standard output got {} instead of {}", show_bytes(&pr.out.accepted), show_bytes(&want)));
                }
                if w.fs.now.nodes != before.nodes {
                    return violation("changed-files", "a --stdout run changed the file system");
                }
            } else {
                let c = w.fs.now.read(&p.real);
                if !same(&c, &want) {
                    return violation("wrong-output", format!("the document is {} instead of {}", show(&c), show_bytes(&want)));
                }
                if !pr.out.accepted.is_empty() {
                    return violation("wrong-output", format!("standard output got {}", show_bytes(&pr.out.accepted)));
                }
                let left = strays(&w, &before.listing());
                if !left.is_empty() {
                    return violation("left-over-file", format!("{left:?}"));
                }
            }
            None
        });
        let nt = any_fault(&w);
        outcome(&mut w, v, nt)
    }

    // ---------------------------------------------------------------- C04
    fn c04(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        w.max_ops = 400_000;
        let o = opts(ch);
        let mut data = Some(text(ch, true).into_bytes());
        let mut modes: &[u32] = &[0o644, 0o600, 0o664, 0o666];
        let kind = ch.s(16);
        match kind {
            8 => data = Some(b"# not utf-8 \xff\n".to_vec()),
            9 => modes = &[0o444, 0o000, 0o200],
            10 => data = None,
            _ => {}
        }
        let mut p = place(ch, &mut w, data.as_deref(), modes);
        match kind {
            11 => p.arg = p.cwd.clone(),
            12 => directory_mode(&mut w, &p, 0o555),
            13 => {
                let used = w.fs.used();
                w.fs.capacity = Some(used + ch.s(200) as usize);
            }
            14 if data.is_some() => hard_link(&mut w, &p),
            _ => {}
        }
        neighbours(ch, &mut w, &p, 4242);
        let mut s = spec(ch, &p, &o, true);
        if ch.sc(1, 6) {
            s.dream = Dream::Variables;
        }
        if ch.sc(1, 6) {
            s.alloc_fail_at = i64::from(1 + ch.s(2500));
        }
        if ch.sc(1, 4) {
            s.stdout.limit = Some(ch.s(300) as usize);
            s.stdout.err = *ch.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN]);
        }
        if data.as_ref().is_none_or(|d| d.len() < 64 << 10) && ch.sc(1, 6) {
            s.env.push(("MARKDOWN_FMT_LOG".into(), b"trace".to_vec()));
        }
        let i = w.add(s);
        w.fs.settle();
        let kinds = [ERRORS, &[Fault::Kill, Fault::StdoutErr]].concat();
        let budget = 1 + ch.draw(Kind::Fault, 4);
        w.plan = swarm(ch, &kinds, &[16, 40, 8, 90], budget);
        let before = w.fs.now.clone();
        let v = w.run(ch, &mut |w: &mut World| {
            if (w.fs.log.is_empty() && !w.fs.touched) || w.fs.now.nodes == before.nodes {
                return None;
            }
            let l = w.fs.log.last().map(|l| match &l.op {
                Op::Write { ino, off, bytes } => format!("write of {} bytes at {off} to inode {ino}", bytes.len()),
                o => format!("{o:?}").chars().take(200).collect(),
            });
            violation("changed-files", format!("a --stdout run changed the file system at step {}: {l:?}", w.step))
        });
        let nt = any_fault(&w);
        if w.procs[i].end == Some(End::Exit(0)) {
            w.probe("exit 0");
        }
        outcome(&mut w, v, nt)
    }

    // ---------------------------------------------------------------- C05
    fn c05(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        w.max_ops = 400_000;
        let o = opts(ch);
        let mut data = text(ch, true).into_bytes();
        if ch.sc(1, 10) {
            // without a newline at the end, or without any
            let mut s = String::from_utf8_lossy(&data).trim_end().to_string();
            if ch.sc(1, 2) {
                s = s.lines().next().unwrap_or("x").to_string();
            }
            data = s.into_bytes();
        }
        if ch.sc(1, 30) {
            data.push(0xff);
        }
        let want = self.oracle.bytes(&data, &o);
        let p = place(ch, &mut w, Some(&data), &[0o644, 0o600]);
        let mut s = spec(ch, &p, &o, true);
        let len = want.as_ref().map_or(0, |f| f.len()) as u32;
        s.stdout.chardev = ch.sc(1, 4);
        match ch.s(4) {
            0 | 1 => {}
            2 => {
                s.stdout.limit = Some(ch.s(len + 2) as usize);
            }
            _ => {
                // right at the end, where buffers are flushed
                s.stdout.limit = Some(len.saturating_sub(ch.s(40)) as usize);
            }
        }
        s.stdout.err = *ch.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EAGAIN, libc::EFBIG]);
        if ch.sc(1, 8) {
            s.alloc_fail_at = i64::from(1 + ch.s(2500));
        }
        let i = w.add(s);
        w.fs.settle();
        let budget = 1 + ch.draw(Kind::Fault, 6);
        w.plan = swarm(
            ch,
            &[Fault::StdoutErr, Fault::ShortWrite, Fault::Eintr, Fault::ReadErr, Fault::ShortRead, Fault::OpenErr, Fault::StderrErr, Fault::Kill],
            &[24, 64, 12, 128],
            budget,
        );
        let f = want.clone().unwrap_or_default();
        let mut checked = 0;
        let v = w.run(ch, &mut |w: &mut World| {
            let a = &w.procs[i].out.accepted;
            if a.len() != checked {
                if !f.starts_with(a) {
                    let k = a.iter().zip(&f).take_while(|(x, y)| x == y).count();
                    return violation("not-a-prefix", format!("standard output got {}, which differs from {} at byte {k}", show_bytes(a), show_bytes(&f)));
                }
                checked = a.len();
            }
            None
        });
        let v = v.or_else(|| {
            let pr = &w.procs[i];
            if pr.end == Some(End::Exit(0)) {
                match &want {
                    None => return violation("success-without-output", "exit 0 for a document that cannot be formatted"),
                    Some(f) if *f != pr.out.accepted => {
                        return violation(
                            "success-without-output",
                            format!("exit 0, but standard output accepted only {} of {} bytes", pr.out.accepted.len(), f.len()),
                        )
                    }
                    _ => {}
                }
            } else if w.fired.is_empty() && !pr.out.failed && want.is_some() {
                return violation("fails-without-fault", format!("{:?}: {}", pr.end, String::from_utf8_lossy(&pr.err.accepted)));
            }
            None
        });
        if w.procs[i].out.failed {
            *w.fired.entry("stdout full, closed or failing".into()).or_default() += 1;
        }
        let nt = any_fault(&w);
        outcome(&mut w, v, nt)
    }

    // ---------------------------------------------------------------- C06
    fn c06(&mut self, ch: &mut Choices) -> Outcome {
        const FILTERS: &[&[u8]] = &[
            b"trace",
            b"debug",
            b"",
            b"off",
            b"error",
            b"warn",
            b"info",
            b"markdown_fmt=trace",
            b"markdown_fmt::formatter=debug",
            b"markdown_fmt::links=trace,off",
            b"foo=bar=baz",
            b"trace,[{",
            b"[{event=.*}]=trace",
            b"[span]=trace",
            b"markdown_fmt[{last_position=3}]=debug",
            b"TRACE",
            b"5",
            b"=",
            b",,,",
            b"\xff\xfe",
            b"trac\xc3\xa9",
            b"regex_automata=trace,markdown_fmt=debug",
            b"info,markdown_fmt=nonsense",
            b"1",
            b"trace ",
            b"/tmp/log.txt",
        ];
        let mut w = World::new();
        w.max_ops = 400_000;
        let o = opts(ch);
        let (t, want) = self.formattable(ch, &o, false);
        let (t, want) = if t.len() > 6000 {
            let t = "# Title\n\nsome [link](x) and *text*\n\n[ref]: <u> 't'\n".to_string();
            let f = self.oracle.bytes(t.as_bytes(), &o).unwrap_or_default();
            (t, f)
        } else {
            (t, want)
        };
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o600]);
        let stdout = ch.sc(1, 2);
        let mut s = spec(ch, &p, &o, stdout);
        let f = match ch.s(6) {
            0 => b"trace".to_vec(),
            5 => {
                let n = ch.s(5000) as usize;
                b"a=trace,".repeat(n / 8)
            }
            _ => ch.pick(FILTERS).to_vec(),
        };
        s.env.push(("MARKDOWN_FMT_LOG".into(), f.clone()));
        if ch.sc(1, 4) {
            s.env.push(("RUST_LOG".into(), b"trace".to_vec()));
        }
        if ch.sc(1, 6) {
            s.env.push(("NO_COLOR".into(), b"1".to_vec()));
        }
        if ch.sc(1, 3) {
            s.realtime_ns = *ch.pick(&[0i64, -1_000_000_000, 4_102_444_800_000_000_000, 951_782_400_000_000_000]);
            s.jump_every = i64::from(ch.s(20));
            s.jump_ns = *ch.pick(&[-3_600_000_000_000i64, 3_600_000_000_000, -10_000_000_000_000_000]);
        }
        if ch.sc(1, 3) {
            s.stderr.limit = Some(ch.s(4000) as usize);
            s.stderr.err = *ch.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN]);
        }
        let i = w.add(s);
        w.fs.settle();
        let budget = 1 + ch.draw(Kind::Fault, 20);
        w.plan = swarm(ch, &[Fault::StderrErr, Fault::ShortWrite, Fault::Eintr, Fault::ShortRead], &[8, 2, 40, 128], budget);
        let before = w.fs.now.listing();
        let orig = w.fs.now.read(&p.real);
        let mut checked = 0;
        let v = w.run(ch, &mut |w: &mut World| {
            let a = &w.procs[i].out.accepted;
            if a.len() != checked {
                let target: &[u8] = if stdout { &want } else { &[] };
                if !target.starts_with(a) {
                    return violation("log-on-stdout", format!("standard output got {}", show_bytes(a)));
                }
                checked = a.len();
            }
            None
        });
        let v = v.or_else(|| {
            let pr = &w.procs[i];
            let c = w.fs.now.read(&p.real);
            let disturbed = pr.err.failed || faulted(&w, i, Fault::StderrErr);
            let good = if stdout { pr.out.accepted == want && c == orig } else { same(&c, &want) };
            let log = String::from_utf8_lossy(&f).into_owned();
            match &pr.end {
                Some(End::Exit(0)) if !good => {
                    return violation(
                        "logging-changed-result",
                        format!("MARKDOWN_FMT_LOG={log:?}: exit 0, output {}, document {}", show_bytes(&pr.out.accepted), show(&c)),
                    )
                }
                Some(End::Exit(0)) => {}
                e if !disturbed => {
                    return violation(
                        "logging-changed-result",
                        format!("MARKDOWN_FMT_LOG={log:?}: ended with {e:?}: {}", String::from_utf8_lossy(&pr.err.accepted)),
                    )
                }
                _ => {
                    if c != orig && (stdout || !same(&c, &want)) {
                        return violation("logging-changed-result", format!("MARKDOWN_FMT_LOG={log:?}: the document is {}", show(&c)));
                    }
                }
            }
            let left = strays(&w, &before);
            if !left.is_empty() && !stray_excused(&w, i) {
                return violation("left-over-file", format!("{left:?}"));
            }
            None
        });
        if w.procs[i].err.failed {
            *w.fired.entry("stderr full, closed or failing".into()).or_default() += 1;
        }
        let lines = w.procs[i].err.writes;
        w.probes.insert("log writes".into(), u64::from(lines));
        outcome(&mut w, v, lines > 0)
    }

    // ---------------------------------------------------------------- C07
    fn c07(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        let t = text(ch, false);
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o664, 0o600]);
        let (dir, _) = p.real.rsplit_once('/').unwrap_or(("", ""));
        let second = format!("{dir}/second.md");
        let t2 = text(ch, false);
        w.fs.add_file(&second, t2.as_bytes(), p.mode, if p.uid == 0 { 0 } else { p.uid });
        if ch.sc(1, 3) {
            neighbours(ch, &mut w, &p, 4242);
        }
        let files = [p.real.clone(), second.clone()];
        let pool = [opts(ch), opts(ch)];
        let n = 2 + ch.s(2) as usize;
        struct Job {
            file: usize,
            o: Opts,
            stdout: bool,
        }
        let mut jobs = vec![];
        let same_pid = ch.sc(1, 3);
        for k in 0..n {
            let file = if ch.sc(1, 4) { 1 } else { 0 };
            let o = pool[ch.s(2) as usize].clone();
            let stdout = ch.sc(1, 5);
            let mut pl = p.clone();
            if file == 1 {
                pl.arg = relative(&p.cwd, &second);
            } else if ch.sc(1, 3) {
                pl.arg = p.real.clone();
            }
            let mut s = spec(ch, &pl, &o, stdout);
            s.vpid = if same_pid { 4242 } else { 4242 + k as i64 };
            s.random_seed = 1 + u64::from(ch.s(3)) * 77 + if same_pid { 0 } else { k as u64 };
            w.add(s);
            jobs.push(Job { file, o, stdout });
        }
        // somebody saves the first document, replacing it in one step as careful editors do
        let mut saves: Vec<(u64, Bytes)> = vec![];
        if ch.sc(1, 2) {
            let mut at = 0;
            for _ in 0..1 + ch.s(3) {
                let span = *ch.pick(&[8u32, 60]);
                at += u64::from(1 + ch.s(span));
                saves.push((at, Rc::new(edited(ch, &t).into_bytes())));
            }
        }
        // every text each document may hold
        let mut orbit: Vec<Vec<Bytes>> = vec![];
        for (k, f) in files.iter().enumerate() {
            let mut set: Vec<Bytes> = w.fs.now.read(f).into_iter().collect();
            if k == 0 {
                set.extend(saves.iter().map(|s| s.1.clone()));
            }
            for _ in 0..n {
                let mut more: Vec<Bytes> = vec![];
                for c in &set {
                    for j in jobs.iter().filter(|j| j.file == k && !j.stdout) {
                        if let Some(x) = self.oracle.bytes(c, &j.o) {
                            if !set.iter().chain(&more).any(|y| **y == x) {
                                more.push(Rc::new(x));
                            }
                        }
                    }
                }
                if more.is_empty() {
                    break;
                }
                set.extend(more);
            }
            orbit.push(set);
        }
        w.fs.settle();
        let before = w.fs.now.listing();
        let mode = ch.draw(Kind::Fault, 4);
        w.plan = match mode {
            0 | 1 => FaultPlan::default(),
            2 => swarm(ch, &[Fault::Kill, Fault::Stop, Fault::ShortRead, Fault::ShortWrite, Fault::Eintr], &[12, 24], 3),
            _ => swarm(ch, &[ERRORS, &[Fault::Kill]].concat(), &[8, 16], 2),
        };
        let mut timeline: Vec<Vec<(u64, Bytes)>> =
            files.iter().map(|f| w.fs.now.read(f).into_iter().map(|c| (0u64, c)).collect()).collect();
        saves.reverse();
        let owner = if p.uid == 0 { 0 } else { p.uid };
        let mode = p.mode;
        let mut v = w.run(ch, &mut |w: &mut World| {
            let mut look = |w: &World| {
                for (k, f) in files.iter().enumerate() {
                    let c = w.fs.now.read(f);
                    let Some(c2) = orbit[k].iter().find(|a| same(&c, a)) else {
                        return violation("mixed-document", format!("after step {} {f} is {}", w.step, show(&c)));
                    };
                    if timeline[k].last().map(|l| &*l.1) != Some(&**c2) {
                        timeline[k].push((w.step, c2.clone()));
                    }
                }
                None
            };
            let mut v = look(w);
            while v.is_none() && saves.last().is_some_and(|s| s.0 <= w.step) {
                if let Some((_, b)) = saves.pop() {
                    w.replace(&files[0], b, mode, owner);
                }
                v = look(w);
            }
            v
        });
        let mut overlapped = false;
        if v.is_none() {
            for (i, j) in jobs.iter().enumerate() {
                let pr = &w.procs[i];
                overlapped |= w.procs.iter().enumerate().any(|(k, q)| k != i && q.started < pr.ended && pr.started < q.ended);
                if pr.end != Some(End::Exit(0)) {
                    continue;
                }
                let tl = &timeline[j.file];
                let visible: Vec<Bytes> = tl
                    .iter()
                    .enumerate()
                    .filter(|(x, (from, _))| *from <= pr.ended && tl.get(x + 1).is_none_or(|n| n.0 >= pr.started))
                    .map(|(_, c)| c.1.clone())
                    .collect();
                let results: Vec<Vec<u8>> = visible.iter().filter_map(|c| self.oracle.bytes(c, &j.o)).collect();
                if j.stdout {
                    if !results.contains(&pr.out.accepted) {
                        v = violation("mixed-output", format!("P{i} printed {}", show_bytes(&pr.out.accepted)));
                    }
                } else if !results.iter().any(|r| visible.iter().any(|c| **c == *r)) {
                    v = violation("lost-result", format!("P{i} exited 0 but its result never was the document"));
                }
                if v.is_some() {
                    break;
                }
            }
        }
        if v.is_none() && !w.procs.iter().any(|p| p.end == Some(End::Killed)) && w.fired.is_empty() {
            let left = strays(&w, &before);
            if !left.is_empty() {
                v = violation("left-over-file", format!("{left:?}"));
            }
        }
        let moves: usize = timeline.iter().map(|t| t.len() - 1).sum();
        w.probes.insert("document replacements".into(), moves as u64);
        let nt = overlapped && w.switches > 0;
        outcome(&mut w, v, nt)
    }

    // ---------------------------------------------------------------- C08
    fn c08(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        let t = text(ch, true);
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o600, 0o664, 0o666]);
        if ch.sc(1, 5) {
            neighbours(ch, &mut w, &p, 4242);
        }
        if ch.sc(1, 8) {
            hard_link(&mut w, &p);
        }
        let rounds = 1 + ch.s(4);
        let mut v = None;
        let mut hit = 0;
        for round in 0..rounds {
            let o = opts(ch);
            let mut s = spec(ch, &p, &o, false);
            if ch.sc(1, 3) {
                s.vpid += i64::from(round);
            }
            if ch.sc(1, 10) {
                s.alloc_fail_at = i64::from(1 + ch.s(1500));
            }
            w.add(s);
            let mut plan = swarm(ch, ERRORS, &[12, 24, 8], 3);
            match ch.draw(Kind::Fault, 3) {
                0 => plan.enabled.push(Fault::Kill),
                1 => plan.enabled.push(Fault::PowerLoss),
                _ => plan.enabled.extend([Fault::Kill, Fault::PowerLoss]),
            }
            w.plan = plan;
            v = w.run(ch, &mut |_| None);
            if v.is_some() {
                break;
            }
            if w.procs.last().and_then(|p| p.end.clone()) != Some(End::Exit(0)) {
                hit += 1;
            }
            w.dead = false;
            w.fs.capacity = None;
            if ch.sc(1, 3) {
                if let Some(ino) = w.fs.now.resolve(&p.real, true) {
                    let b: Bytes = Rc::new(text(ch, false).into_bytes());
                    w.fs.now.apply(&Op::Truncate { ino, len: 0 });
                    w.fs.now.apply(&Op::Write { ino, off: 0, bytes: b });
                    w.fs.settle();
                    w.trace.push("   the document is edited and saved".into());
                }
            }
        }
        if v.is_none() {
            v = self.clean_run(ch, &mut w, &p);
        }
        outcome(&mut w, v, hit > 0)
    }

    fn clean_run(&mut self, ch: &mut Choices, w: &mut World, p: &Place) -> Option<Violation> {
        let o = opts(ch);
        let cur = w.fs.now.read(&p.real);
        let Some(cur) = cur else { return violation("not-recovered", "the document is missing after the disturbed runs") };
        let want = self.oracle.bytes(&cur, &o)?;
        let names = w.fs.now.listing().len() as u64;
        let s = spec(ch, p, &o, false);
        let i = w.add(s);
        w.plan = FaultPlan::default();
        w.trace.push("   -- from here on nothing fails --".into());
        // reading and writing may take a few requests, every left-over name a few more
        let bound = 150 + 4 * names + 2 * (cur.len() + want.len()) as u64;
        if let Some(v) = w.run(ch, &mut |w: &mut World| {
            if w.procs[i].ops > bound {
                return violation("not-recovered", format!("the run made {} requests and is not done", w.procs[i].ops));
            }
            None
        }) {
            return Some(v);
        }
        let pr = &w.procs[i];
        if pr.end != Some(End::Exit(0)) {
            return violation(
                "not-recovered",
                format!("a run without faults ended with {:?}: {}", pr.end, String::from_utf8_lossy(&pr.err.accepted)),
            );
        }
        let c = w.fs.now.read(&p.real);
        if !same(&c, &want) {
            return violation("not-recovered", format!("the document is {} instead of {}", show(&c), show_bytes(&want)));
        }
        None
    }

    // ---------------------------------------------------------------- C09
    fn c09(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        let o = opts(ch);
        let t = text(ch, true);
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o600, 0o640, 0o664, 0o666, 0o755, 0o400, 0o700, 0o444]);
        neighbours(ch, &mut w, &p, 4242);
        if ch.sc(1, 10) {
            // the document may be written, its directory perhaps not
            let mode = *ch.pick(&[0o555, 0o500, 0o2775, 0o1755]);
            directory_mode(&mut w, &p, mode);
        }
        if ch.sc(1, 6) {
            // more than nine bits (what others than root write to loses two of them)
            let mode = if p.uid == 0 { *ch.pick(&[0o4755, 0o2755, 0o2644, 0o6711, 0o1666]) } else { 0o1644 };
            document_mode(&mut w, &p, mode);
        }
        let want = self.oracle.bytes(t.as_bytes(), &o);
        let mut s = spec(ch, &p, &o, false);
        if ch.sc(1, 12) {
            s.alloc_fail_at = i64::from(1 + ch.s(2500));
        }
        if ch.sc(1, 6) {
            s.env.push(("TMPDIR".into(), b"/tmp".to_vec()));
        }
        if ch.sc(1, 8) {
            s.dream = Dream::Variables;
        }
        let i = w.add(s);
        w.fs.settle();
        let budget = 1 + ch.draw(Kind::Fault, 3);
        w.plan = match ch.draw(Kind::Fault, 3) {
            0 => FaultPlan::default(),
            1 => swarm(ch, &[ERRORS, &[Fault::Kill]].concat(), &[16, 40, 90], budget),
            _ => swarm(ch, &[Fault::MetaErr, Fault::StatErr, Fault::OpenErr, Fault::Kill], &[40, 90], budget),
        };
        let before = w.fs.now.clone();
        let names: BTreeMap<String, Ino> = before.listing().into_iter().collect();
        let doc_ino = names.get(&p.real).copied().unwrap_or(0);
        let real = p.real.clone();
        let mode = before.nodes[&doc_ino].mode;
        let owner = (before.nodes[&doc_ino].uid, before.nodes[&doc_ino].gid);
        let mut seen = 0usize;
        let v = w.run(ch, &mut |w: &mut World| {
            if w.fs.log.len() == seen {
                return None;
            }
            seen = w.fs.log.len();
            let now = w.fs.now.listing();
            for (path, ino) in &names {
                let found = now.iter().find(|x| x.0 == *path);
                if *path == real {
                    let Some((_, n)) = found else { continue };
                    let node = &w.fs.now.nodes[n];
                    if node.mode != mode {
                        return violation("document-mode", format!("the document's mode is {:o} instead of {mode:o}", node.mode));
                    }
                    continue;
                }
                let old = &before.nodes[ino];
                let Some((_, n)) = found else {
                    return violation("touched-other-file", format!("{path} is gone"));
                };
                let new = &w.fs.now.nodes[n];
                let same_kind = match (&old.node, &new.node) {
                    (Node::Dir(_), Node::Dir(_)) => true,
                    (a, b) => a == b,
                };
                if !same_kind {
                    return violation("touched-other-file", format!("{path} changed to {:?}", String::from_utf8_lossy(w.fs.now.file(*n).map_or(&[][..], |d| d))));
                }
                if old.mode != new.mode || old.uid != new.uid {
                    return violation("touched-other-file", format!("{path} changed mode or owner"));
                }
            }
            for n in w.fs.now.nodes.iter().filter(|(k, _)| !before.nodes.contains_key(k)) {
                if let Node::File(d) = &n.1.node {
                    if !d.is_empty() && (n.1.mode & 0o777) & !(mode & 0o777) & 0o077 != 0 {
                        let name = now.iter().find(|x| x.1 == *n.0).map(|x| x.0.clone());
                        // in a directory that the run made and nobody else may enter
                        let mut open = n.1.mode & 0o077;
                        let mut up = name.as_deref().unwrap_or("");
                        while let Some((d, _)) = up.rsplit_once('/') {
                            if let Some((_, ino)) = now.iter().find(|x| x.0 == d).filter(|x| !before.nodes.contains_key(&x.1)) {
                                let m = w.fs.now.nodes[ino].mode;
                                open &= if m & 0o010 != 0 { 0o077 } else { 0o007 } & if m & 0o001 != 0 { 0o077 } else { 0o070 };
                            }
                            up = d;
                        }
                        if name.is_none() || open & !(mode & 0o777) == 0 {
                            continue;
                        }
                        return violation(
                            "exposed-content",
                            format!("{name:?} holds {} bytes with mode {:o}, the document has {mode:o}", d.len(), n.1.mode),
                        );
                    }
                }
            }
            None
        });
        let v = v.or_else(|| {
            let left: Vec<String> = strays(&w, &before.listing());
            if !left.is_empty() && !stray_excused(&w, i) {
                return violation("left-over-file", format!("{left:?}"));
            }
            if w.procs[i].end == Some(End::Exit(0)) {
                let c = w.fs.now.read(&p.real);
                if !want.as_ref().is_some_and(|f| same(&c, f)) {
                    return violation("document-not-written", format!("exit 0 and {} is {}", p.real, show(&c)));
                }
                // the administrator may keep the owner
                let n = w.fs.now.resolve(&p.real, true).map(|k| (w.fs.now.nodes[&k].uid, w.fs.now.nodes[&k].gid));
                if p.uid == 0 && !faulted(&w, i, Fault::MetaErr) && n != Some(owner) {
                    return violation("document-owner", format!("{} belonged to {owner:?} and belongs to {n:?}", p.real));
                }
            }
            None
        });
        let nt = w.fs.log.len() > 1;
        if w.procs[i].end == Some(End::Exit(0)) {
            w.probe("exit 0");
        }
        outcome(&mut w, v, nt)
    }

    // ---------------------------------------------------------------- C10
    fn c10(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        w.max_ops = 400_000;
        let o = opts(ch);
        let (t, want) = self.formattable(ch, &o, false);
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o600, 0o664, 0o666]);
        if ch.sc(1, 4) {
            neighbours(ch, &mut w, &p, 4242);
        }
        let stdout = ch.sc(1, 2);
        let mut s = spec(ch, &p, &o, stdout);
        s.random_seed = u64::from(ch.s(u32::MAX)) << 16 | 1;
        s.vpid = i64::from(*ch.pick(&[1u32, 2, 4242, 32768, 4_194_303]));
        s.realtime_ns = *ch.pick(&[0i64, 1_700_000_000_000_000_000, 1, -1_000_000_000, 4_102_444_800_000_000_000, 951_782_400_000_000_000])
            + i64::from(ch.s(1 << 30));
        s.clock_step_ns = *ch.pick(&[1_000_000i64, 0, 1, 3_600_000_000_000]);
        s.jump_every = i64::from(ch.s(5));
        s.jump_ns = *ch.pick(&[0i64, -86_400_000_000_000, 86_400_000_000_000]);
        s.alloc_pad = i64::from(ch.s(1 << 18));
        s.dream = if ch.sc(1, 2) { Dream::Files } else { Dream::Nothing };
        if ch.sc(1, 2) {
            s.umask = *ch.pick(&[0o022u32, 0o077, 0, 0o777]);
        }
        if ch.sc(1, 3) {
            s.name = (*ch.pick(&["/usr/bin/markdown-fmt", "./mdfmt", "", "markdown-fmt-0.1", "../bin/a b", "-sh", "MARKDOWN-FMT.EXE", "cat"])).to_string();
        }
        s.cpus = *ch.pick(&[4i64, 1, 2, 64, 256]);
        const VARS: &[(&str, &[&str])] = &[
            ("LANG", &["C", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "ja_JP.UTF-8", ""]),
            ("LC_ALL", &["C", "tr_TR.UTF-8", "POSIX"]),
            ("COLUMNS", &["20", "40", "200", "0", "x"]),
            ("LINES", &["1"]),
            ("TERM", &["dumb", "xterm-256color", ""]),
            ("NO_COLOR", &["1"]),
            ("CLICOLOR_FORCE", &["1"]),
            ("TZ", &["UTC", "Asia/Tokyo", ":bad"]),
            ("HOME", &["/", "/nonexistent", ""]),
            ("PWD", &["/", "/sim/other"]),
            ("TMPDIR", &["/nonexistent", "/tmp"]),
            ("RUST_LOG", &["trace", "off"]),
            ("MARKDOWN_FMT_MAX_WIDTH", &["10", "0"]),
            ("MAX_WIDTH", &["10"]),
            ("MARKDOWN_FMT_REFLOW", &["1"]),
            ("EDITOR", &["ed"]),
            ("USER", &["root", "someone"]),
            ("CI", &["true"]),
            ("EDITORCONFIG", &["x"]),
            ("XDG_CONFIG_HOME", &["/home/user/.config"]),
            ("RUST_MIN_STACK", &["1048576"]),
            ("MALLOC_ARENA_MAX", &["1"]),
        ];
        for (k, vals) in VARS {
            if ch.sc(1, 4) {
                let v = *ch.pick(vals);
                s.env.retain(|e| e.0 != *k);
                s.env.push(((*k).to_string(), v.as_bytes().to_vec()));
            }
        }
        if ch.sc(1, 8) {
            let n = ch.s(60_000) as usize;
            s.env.push(("PADDING".into(), b"x".repeat(n)));
        }
        if ch.sc(1, 8) {
            s.env.clear();
        }
        // configuration files of other tools, and of none
        for f in [".editorconfig", "rustfmt.toml", ".markdown-fmt.toml", "markdown-fmt.toml", ".markdownlint.json"] {
            let path = format!("{}/{f}", if p.cwd == "/" { "" } else { &p.cwd });
            if ch.sc(1, 8) && w.fs.now.resolve(&path, false).is_none() {
                w.fs.add_file(&path, b"max_width = 10\n[*.md]\nmax_line_length = 10\nreflow_text = true\n", 0o644, p.uid);
            }
        }
        if ch.sc(1, 4) {
            s.stdin.data = b"# text on standard input\n".to_vec();
        }
        s.stdout.chardev = ch.sc(1, 2);
        let i = w.add(s);
        w.fs.settle();
        let v = w.run(ch, &mut |_| None);
        let v = v.or_else(|| {
            let pr = &w.procs[i];
            if pr.end != Some(End::Exit(0)) {
                return violation("environment-changes-result", format!("ended with {:?}: {}", pr.end, String::from_utf8_lossy(&pr.err.accepted)));
            }
            let got = if stdout { pr.out.accepted.clone() } else { w.fs.now.read(&p.real).map(|b| b.to_vec()).unwrap_or_default() };
            if got != want {
                return violation("environment-changes-result", format!("got {} instead of {}", show_bytes(&got), show_bytes(&want)));
            }
            None
        });
        *w.fired.entry("environment variation".into()).or_default() += 1;
        // here the signature has to include what was varied, not only what was asked for
        let sp = &w.procs[i].spec;
        let mut o = mix(sp.random_seed, sp.realtime_ns as u64);
        for (k, v) in &sp.env {
            o = mix(o, crate::rng::hash(k.as_bytes()) ^ crate::rng::hash(v));
        }
        let mut r = outcome(&mut w, v, true);
        r.signature = mix(r.signature, o);
        r
    }

    // ---------------------------------------------------------------- C24
    fn c24(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        w.max_ops = 400_000;
        let o = opts(ch);
        let (t, want) = self.formattable(ch, &o, true);
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o600, 0o664, 0o666]);
        let stdout = ch.sc(1, 3);
        let mut s = spec(ch, &p, &o, stdout);
        s.tty = i64::from(ch.s(8));
        if ch.sc(1, 4) {
            s.env.push(("MARKDOWN_FMT_LOG".into(), ch.pick(&[&b"off"[..], b""]).to_vec()));
        }
        let errors = [libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN, libc::EDQUOT];
        let mut odd = false;
        if !stdout && ch.draw(Kind::Fault, 3) > 0 {
            s.stdout.limit = Some(0);
            s.stdout.err = *ch.pick(&errors);
            odd = true;
        }
        if ch.draw(Kind::Fault, 3) > 0 {
            s.stderr.limit = Some(*ch.pick(&[0usize, 0, 1, 20]));
            s.stderr.err = *ch.pick(&errors);
            odd = true;
        }
        match ch.draw(Kind::Fault, 5) {
            0 => {}
            1 => s.stdin.data = b"n\nn\nn\n".to_vec(),
            2 => s.stdin.data = b"y\n".to_vec(),
            3 => s.stdin.data = text(ch, false).into_bytes(),
            _ => s.stdin.err = Some(*ch.pick(&[libc::EIO, libc::EAGAIN, libc::EISDIR, libc::ESTALE])),
        }
        odd |= !s.stdin.data.is_empty() || s.stdin.err.is_some();
        s.stdout.chardev = ch.sc(1, 4);
        let i = w.add(s);
        w.fs.settle();
        if ch.draw(Kind::Fault, 4) == 3 {
            w.plan = swarm(ch, &[Fault::ShortRead, Fault::ShortWrite, Fault::Eintr], &[128, 40, 230], 200);
        }
        let v = w.run(ch, &mut |w: &mut World| {
            let pr = &w.procs[i];
            if pr.stdin.reads > 0 {
                return violation("reads-standard-input", "the document is a file, yet the run reads standard input");
            }
            if !stdout && pr.out.writes > 0 {
                return violation("prints-something", "an in-place run writes to standard output");
            }
            None
        });
        let v = v.or_else(|| {
            let pr = &w.procs[i];
            if pr.end != Some(End::Exit(0)) {
                return violation("needs-a-stream", format!("ended with {:?}: {}", pr.end, String::from_utf8_lossy(&pr.err.accepted)));
            }
            let got = if stdout { pr.out.accepted.clone() } else { w.fs.now.read(&p.real).map(|b| b.to_vec()).unwrap_or_default() };
            if got != want {
                return violation("streams-change-result", format!("got {} instead of {}", show_bytes(&got), show_bytes(&want)));
            }
            None
        });
        if odd {
            *w.fired.entry("standard stream that refuses, fails or holds something".into()).or_default() += 1;
        }
        outcome(&mut w, v, odd)
    }

    // ---------------------------------------------------------------- C19
    fn c19(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        w.max_ops = u64::MAX;
        let mut t = text(ch, false);
        let mut k = t.len().min(3000);
        while !t.is_char_boundary(k) {
            k -= 1;
        }
        t.truncate(k);
        let mut data = t.into_bytes();
        if ch.sc(1, 16) {
            data.push(0xff);
        }
        let p = place(ch, &mut w, Some(&data), &[0o644, 0o600, 0o664, 0o444]);
        if ch.sc(1, 2) {
            neighbours(ch, &mut w, &p, 4242);
        }
        let n = 1 + ch.s(3) as usize;
        let same_pid = ch.sc(1, 3);
        let mut work = 0;
        for k in 0..n {
            let o = opts(ch);
            let stdout = ch.sc(1, 3);
            let mut s = spec(ch, &p, &o, stdout);
            s.vpid = if same_pid { 4242 } else { 4242 + k as i64 };
            s.random_seed = if same_pid { 7 } else { 7 + k as u64 };
            s.clock_step_ns = *ch.pick(&[1_000_000i64, 0, 1]);
            s.jump_every = i64::from(ch.s(4));
            s.jump_ns = *ch.pick(&[0i64, -86_400_000_000_000, 86_400_000_000_000, -1_000_000]);
            if ch.sc(1, 4) {
                s.env.push(("MARKDOWN_FMT_LOG".into(), b"trace".to_vec()));
            }
            if ch.sc(1, 3) {
                s.stdout.limit = Some(ch.s(300) as usize);
                s.stdout.err = *ch.pick(&[libc::EAGAIN, libc::EPIPE, libc::ENOSPC, libc::EIO]);
            }
            if ch.sc(1, 6) {
                s.stderr.limit = Some(ch.s(100) as usize);
                s.stderr.err = *ch.pick(&[libc::EAGAIN, libc::EPIPE, libc::ENOSPC]);
            }
            if ch.sc(1, 10) {
                s.alloc_fail_at = i64::from(1 + ch.s(2500));
                s.alloc_fail_forever = true;
            }
            work = work.max(self.oracle.bytes(&data, &o).map_or(0, |f| f.len()));
            w.add(s);
        }
        w.fs.settle();
        if ch.sc(1, 6) {
            let used = w.fs.used();
            w.fs.capacity = Some(used + ch.s(200) as usize);
        }
        if ch.sc(1, 8) {
            w.dead = true;
        }
        let budget = 1 + ch.draw(Kind::Fault, 4);
        let kinds = [ERRORS, &[Fault::Kill, Fault::Stop, Fault::StdoutErr]].concat();
        w.plan = swarm(ch, &kinds, &[24, 48, 12, 90], budget);
        if n > 1 && ch.draw(Kind::Fault, 2) == 1 && !w.plan.enabled.contains(&Fault::Stop) {
            w.plan.enabled.push(Fault::Stop);
        }
        w.plan.sticky = ch.draw(Kind::Fault, 4) > 0;
        // runs read and format what others wrote, which the options may make longer
        let bytes = (data.len() + 8 * work) as u64;
        let names = w.fs.now.listing().len() as u64;
        let v = w.run(ch, &mut |w: &mut World| {
            for (i, pr) in w.procs.iter().enumerate() {
                let bound = 400 + 8 * (names + n as u64) + bytes + u64::from(pr.err.writes) + 2 * u64::from(pr.out.accepted.len() as u32);
                if pr.end.is_none() && pr.ops > bound {
                    return violation("no-progress", format!("P{i} made {} requests and is not done", pr.ops));
                }
            }
            if w.now_ns > 3_600_000_000_000 {
                return violation("no-progress", "an hour went by and not all runs are done");
            }
            None
        });
        let nt = any_fault(&w) || w.dead || w.fs.capacity.is_some() || w.procs.iter().any(|p| p.out.failed || p.err.failed);
        for k in 0..w.procs.len() {
            if matches!(w.procs[k].end, Some(End::Exit(_))) {
                w.probe("runs that ended by themselves");
            }
        }
        outcome(&mut w, v, nt)
    }

    // ---------------------------------------------------------------- C20
    fn c20(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        w.max_ops = 400_000;
        let o = opts(ch);
        let t = text(ch, false);
        let p = place(ch, &mut w, Some(t.as_bytes()), &[0o644, 0o600, 0o664]);
        neighbours(ch, &mut w, &p, 4242);
        w.fs.add_file("/sim/work/docs/spare.md", b"#  another\n", 0o644, p.uid);
        let dash = p.arg.starts_with('-');
        let stdout = ch.sc(1, 2);
        let mut s = spec(ch, &p, &o, stdout);
        let a = &mut s.args;
        // where something may be put in so that it is an option
        let end = a.iter().position(|x| x == "--").unwrap_or(a.len());
        let mut cuts: Vec<usize> = (0..=end).collect();
        cuts.retain(|k| *k == 0 || !matches!(a[*k - 1].as_str(), "-m" | "--max-width"));
        let at = cuts[ch.s(cuts.len() as u32) as usize];
        let mut asks = false;
        let what = match ch.s(8) {
            0 => {
                let bad = *ch.pick(&[
                    "--frobnicate", "-x", "--std-out", "--stdou", "--reflow", "--width=80", "--max_width=80", "-w", "--check", "--no-stdout",
                    "--stdin", "-o", "--output=x.md", "--in-place", "-i", "--max-width80", "--Stdout", "-é", "--config=x",
                ]);
                a.insert(at, bad.into());
                "an unknown option"
            }
            1 => {
                a.retain(|x| *x != p.arg && x != "--");
                "no document"
            }
            2 => {
                let other = (*ch.pick(&["/sim/work/docs/spare.md", "/sim/work/none.md"])).to_string();
                a.push(other);
                "two documents"
            }
            3 => {
                let bad = *ch.pick(&["abc", "", "-5", "1.5", "99999999999999999999", "0x10", " 80", "80 ", "８０", "8e1", "80,", "none", "∞", "-1", "NaN"]);
                let g = *ch.pick(&["--max-width=", "-m"]);
                let mut i = 0;
                while i < a.len() && a[i] != "--" {
                    if a[i].starts_with("--max-width=") || a[i].starts_with("-m") || a[i].starts_with("-rm") {
                        a.remove(i);
                    } else if a[i] == "--max-width" {
                        a.drain(i..i + 2);
                    } else {
                        i += 1;
                    }
                }
                // "-m 80" has left its number behind, if it had one
                a.retain(|x| x.parse::<usize>().is_err() || *x == p.arg);
                if bad.is_empty() {
                    a.insert(0, "--max-width=".into());
                } else {
                    a.insert(0, format!("{g}{bad}"));
                }
                "a width that is not a number"
            }
            4 => {
                let twice: &[&str] = ch.pick(&[&["--stdout", "--stdout"][..], &["-r", "--reflow-text"], &["-m3", "-m4"], &["--max-width=3", "-m", "3"], &["-rr"]]);
                for (k, x) in twice.iter().enumerate() {
                    a.insert(at + k, (*x).to_string());
                }
                "an option given twice"
            }
            5 => {
                let bad = *ch.pick(&["--stdout=true", "--stdout=", "--reflow-text=no", "--reflow-text=1", "--stdout=x.md"]);
                a.insert(at, bad.into());
                "a value for an option that has none"
            }
            6 => {
                a.retain(|x| *x != p.arg && x != "--");
                let lone = ch.sc(1, 2);
                if lone {
                    a.clear();
                }
                a.push((*ch.pick(&["-m", "--max-width"])).to_string());
                "a width that is missing"
            }
            _ => {
                asks = true;
                a.insert(at, (*ch.pick(&["--help", "-h", "--version", "-V"])).to_string());
                "a request for help"
            }
        };
        let _ = dash;
        if ch.sc(1, 4) {
            s.env.push(("MARKDOWN_FMT_LOG".into(), ch.pick(&[&b"trace"[..], b"x=y=z", b"\xff", b"[{"]).to_vec()));
        }
        if ch.sc(1, 10) {
            s.alloc_fail_at = i64::from(1 + ch.s(1500));
        }
        if ch.sc(1, 6) {
            s.stderr.limit = Some(ch.s(200) as usize);
            s.stderr.err = *ch.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN]);
        }
        if ch.sc(1, 6) {
            s.stdout.limit = Some(ch.s(200) as usize);
            s.stdout.err = *ch.pick(&[libc::EPIPE, libc::ENOSPC, libc::EIO, libc::EAGAIN]);
        }
        if ch.sc(1, 3) {
            s.dream = Dream::Variables;
        }
        let shown = format!("{what}: {:?}", s.args);
        let i = w.add(s);
        w.fs.settle();
        let budget = 1 + ch.draw(Kind::Fault, 3);
        let kinds = [ERRORS, &[Fault::Kill, Fault::StdoutErr]].concat();
        w.plan = swarm(ch, &kinds, &[16, 60, 8], budget);
        let before = w.fs.now.clone();
        let v = w.run(ch, &mut |w: &mut World| {
            if !asks && !w.procs[i].out.accepted.is_empty() {
                return violation("output-of-refused-run", format!("{shown}: standard output got {}", show_bytes(&w.procs[i].out.accepted)));
            }
            if (w.fs.log.is_empty() && !w.fs.touched) || w.fs.now.nodes == before.nodes {
                return None;
            }
            violation("refused-run-changed-files", format!("{shown}: the file system changed at step {}", w.step))
        });
        let v = v.or_else(|| {
            let pr = &w.procs[i];
            if asks {
                return None;
            }
            if pr.end == Some(End::Exit(0)) {
                return violation("refused-run-succeeds", format!("{shown}: exit 0"));
            }
            let quiet = pr.err.accepted.is_empty() && !pr.err.failed && !faulted(&w, i, Fault::StderrErr) && !pr.alloc_failed;
            if quiet && pr.end != Some(End::Killed) {
                return violation("silent-refusal", format!("{shown}: ended with {:?} and said nothing on standard error", pr.end));
            }
            None
        });
        w.probe(what);
        outcome(&mut w, v, true)
    }

    // ---------------------------------------------------------------- C21
    fn c21(&mut self, ch: &mut Choices) -> Outcome {
        let mut w = World::new();
        w.max_ops = 400_000;
        let o = opts(ch);
        let mut data = text(ch, true).into_bytes();
        let kind = ch.s(8);
        if ch.sc(1, 12) {
            let at = data.len() - ch.s(data.len() as u32 + 1) as usize;
            data.insert(at, *ch.pick(&[0xffu8, 0xc3, 0x80]));
        }
        if ch.sc(1, 24) {
            data.clear();
        }
        let growing = kind >= 6;
        let start = if growing { ch.s(data.len() as u32 + 1) as usize } else { 0 };
        let mut p = place(ch, &mut w, growing.then(|| &data[..start]), &[0o644]);
        let mut s = spec(ch, &p, &o, true);
        let pipe = Pipe { data: data.clone(), pos: 0, err: if ch.draw(Kind::Fault, 6) == 5 { Some(*ch.pick(&[libc::EIO, libc::ESTALE, libc::EISDIR])) } else { None }, reads: 0, writer: false };
        let mut broken = pipe.err.is_some() && !growing;
        match kind {
            0..=2 => {
                let by = *ch.pick(&["/dev/stdin", "/dev/fd/0", "/proc/self/fd/0"]);
                p.arg = by.to_string();
                s.args = args(ch, by, &o, true);
                s.stdin = pipe;
                if s.tty & 1 != 0 {
                    w.probe("typed on a terminal");
                }
            }
            3..=5 => {
                let ino = w.fs.add_special(&p.real, S_IFIFO | 0o666);
                w.pipes.insert(ino, pipe);
            }
            _ => {}
        }
        if ch.sc(1, 10) {
            s.env.push(("MARKDOWN_FMT_LOG".into(), b"markdown_fmt=debug".to_vec()));
        }
        s.stdout.chardev = ch.sc(1, 4);
        let i = w.add(s);
        w.fs.settle();
        let mut plan = swarm(ch, &[Fault::ShortRead, Fault::Eintr, Fault::ShortWrite], &[64, 128, 20], 2000);
        plan.arrivals = ch.draw(Kind::Fault, 8) > 0;
        if !growing && ch.draw(Kind::Fault, 10) == 9 {
            plan.enabled = vec![Fault::ReadErr];
            plan.rate = 90;
            plan.budget = 1;
        }
        w.plan = plan;
        // what the document may hold when its end is read
        let mut versions: Vec<Vec<u8>> = vec![if growing { data[..start].to_vec() } else { data.clone() }];
        let mut appends: Vec<(u64, usize)> = vec![];
        let mut have = start;
        if growing {
            let mut at = 1;
            while have < data.len() && appends.len() < 12 {
                let n = 1 + ch.s((data.len() - have) as u32) as usize;
                have += n;
                let spans = *ch.pick(&[1u32, 6, 40]);
                at += u64::from(1 + ch.s(spans));
                appends.push((at, have));
            }
        }
        appends.reverse();
        let before = w.fs.now.clone();
        let real = p.real.clone();
        let mut have = start;
        let mut grew = 0u64;
        let v = w.run(ch, &mut |w: &mut World| {
            while appends.last().is_some_and(|a| a.0 <= w.step) && w.procs[i].end.is_none() {
                let Some((_, to)) = appends.pop() else { break };
                if let Some(ino) = w.fs.now.resolve(&real, true) {
                    w.fs.run(Op::Write { ino, off: have, bytes: Rc::new(data[have..to].to_vec()) });
                    have = to;
                    versions.push(data[..to].to_vec());
                    grew += 1;
                }
            }
            None
        });
        broken |= faulted(&w, i, Fault::ReadErr);
        let results: Vec<Option<Vec<u8>>> = versions.iter().map(|d| if broken { None } else { self.oracle.bytes(d, &o) }).collect();
        let v = v.or_else(|| {
            let pr = &w.procs[i];
            if pr.end == Some(End::Exit(0)) {
                if !results.iter().flatten().any(|r| *r == pr.out.accepted) {
                    let want = results.iter().flatten().next_back();
                    return violation(
                        "wrong-output",
                        format!("exit 0 and standard output got {} instead of {:?}", show_bytes(&pr.out.accepted), want.map(|b| show_bytes(b))),
                    );
                }
            } else {
                if results.iter().all(|r| r.is_some()) {
                    return violation("fails-without-fault", format!("{:?}: {}", pr.end, String::from_utf8_lossy(&pr.err.accepted)));
                }
                if !pr.out.accepted.is_empty() {
                    return violation("output-of-failed-run", format!("{:?}, but standard output got {}", pr.end, show_bytes(&pr.out.accepted)));
                }
            }
            if !growing && w.fs.now.nodes != before.nodes {
                return violation("changed-files", "a --stdout run changed the file system");
            }
            None
        });
        if grew > 0 {
            *w.fired.entry("document grows while it is read".into()).or_default() += grew;
        }
        if broken {
            w.probe("streams that break");
        }
        let nt = any_fault(&w);
        outcome(&mut w, v, nt)
    }
}
