//! Documents: a structured generator, the repository's own examples, and mutations of both.

use crate::choice::Choices;
use std::sync::OnceLock;

pub struct Corpus {
    pub files: Vec<(String, String)>,
    pub spec: Vec<String>,
}

pub fn home() -> String {
    std::env::var("MDSIM_HOME").unwrap_or_else(|_| "/verif".to_string())
}

pub fn corpus() -> &'static Corpus {
    static C: OnceLock<Corpus> = OnceLock::new();
    C.get_or_init(|| {
        let dir = format!("{}/corpus", home());
        let mut files = vec![];
        let mut spec = vec![];
        let mut names: Vec<_> = std::fs::read_dir(&dir)
            .unwrap_or_else(|e| crate::harness_error(&format!("cannot read {dir}: {e}")))
            .filter_map(|e| e.ok())
            .map(|e| e.file_name().to_string_lossy().into_owned())
            .collect();
        names.sort();
        for n in names {
            let Ok(text) = std::fs::read_to_string(format!("{dir}/{n}")) else { continue };
            if n.ends_with(".md") {
                files.push((n, text));
            } else if n.ends_with(".json") {
                let v: Vec<String> = serde_json::from_str(&text).unwrap_or_default();
                spec.extend(v);
            }
        }
        if files.is_empty() || spec.is_empty() {
            crate::harness_error("the corpus is empty");
        }
        Corpus { files, spec }
    })
}

const WORDS: &[&str] = &[
    "lorem", "ipsum", "dolor", "a", "formatter", "markdown", "text", "is", "the", "naïve", "日本語",
    "wrapping", "of", "paragraphs", "x", "emoji 🎉", "and", "some", "more", "words", "to", "fill",
    "internationalization", "lines", "with", "1986", "e.g.", "foo_bar", "C++", "I/O",
];

const INFOS: &[&str] = &[
    "rust", "python", "text", "console,ignore", "rust should_panic", "js", "c++", "toml {.x}", "no-run", "R",
    "rust,editable", "c\\+\\+", "&copy;", "Markdown", "MARKDOWN", "md", "mark down", "日本", "rust  two", "sh #1",
];

const CODE_LINES: &[&str] = &[
    "fn main() {}", "    let x = 1;", "", "  # not a heading", "* not a list", "> not a quote", "print(1)",
    "a | b", "trailing  ", "<b>", "[x]: y", "1. one", "+++", "let s = \"é\";", "-----", "    deep",
    "\tindented with a tab", "&amp; \\*",
];

pub struct Cfg {
    /// how many fenced code blocks to aim for matters to the library properties
    pub code_bias: u32,
    pub max_depth: u32,
    pub max_blocks: u32,
    pub tabs: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg { code_bias: 1, max_depth: 3, max_blocks: 5, tabs: true }
    }
}

fn words(ch: &mut Choices, max: u32) -> String {
    let n = 1 + ch.s(max);
    (0..n).map(|_| *ch.pick(WORDS)).collect::<Vec<_>>().join(" ")
}

/// The label of a footnote.
fn label(ch: &mut Choices) -> &'static str {
    ch.pick(&["0", "1", "2", "0", "1", "2", "note", "Note", "NOTE", "a b", "日本", "x*y"])
}

fn inline(ch: &mut Choices) -> String {
    let mut out = String::new();
    let n = 1 + ch.s(4);
    for i in 0..n {
        if i > 0 {
            out.push(' ');
        }
        let w = words(ch, 6);
        match ch.s(20) {
            0..=4 => out.push_str(&w),
            14 => out.push_str(*ch.pick(&["<b class='x'>&amp;</b>", "[ref1][]", "[ref0]", "![a][ref2]", "<a@b.cd>", "&nbsp;", "[![i](j)](k \"t\")", "www.example.com", "<!-- c -->", ":)", "__x__", "_y_"])),
            15 => out.push_str(*ch.pick(&["\\*", "\\[x]", "1\\.", "\\#", "a_b_c", "$x$", "{#id}", "#", "+", "1."])),
            16 => out.push_str(*ch.pick(&["  \n", "\\\n"])),
            17 => out.push_str(&format!("***{w}** x*")),
            18 => out.push_str(&format!("``{w} ` {w}``")),
            19 => out.push_str(&format!("[{w} `x`](<a b> 'it\"s') ![][ref1]")),
            5 => out.push_str(&format!("*{w}*")),
            6 => out.push_str(&format!("**{w}**")),
            7 => out.push_str(&format!("`{w}`")),
            8 => out.push_str(&format!("[{w}](https://example.com/{})", ch.s(100))),
            9 => {
                let r = *ch.pick(&["ref", "ref", "ref", "REF", "Ref"]);
                out.push_str(&format!("[{w}][{r}{}]", ch.s(3)));
            }
            10 => out.push_str(&format!("![{w}](<img {}.png> \"title\")", ch.s(9))),
            11 => out.push_str(&format!("~~{w}~~")),
            12 => out.push_str("<https://example.org>"),
            _ => out.push_str(&format!("{w}[^{}]", label(ch))),
        }
    }
    out
}

fn prefix(lines: Vec<String>, first: &str, rest: &str) -> Vec<String> {
    lines
        .into_iter()
        .enumerate()
        .map(|(i, l)| {
            let p = if i == 0 { first } else { rest };
            if l.is_empty() { p.trim_end().to_string() } else { format!("{p}{l}") }
        })
        .collect()
}

fn fence(ch: &mut Choices, inner: &[String]) -> String {
    // long enough not to be closed by the content
    let c = if ch.sc(1, 3) { '~' } else { '`' };
    let longest = inner
        .iter()
        .map(|l| {
            let t = l.trim_start_matches([' ', '>', '*', '-', '+']);
            t.chars().take_while(|x| *x == c).count()
        })
        .max()
        .unwrap_or(0);
    let n = (longest + 1).max(3) + ch.s(2) as usize;
    c.to_string().repeat(n)
}

fn code_block(ch: &mut Choices, cfg: &Cfg) -> Vec<String> {
    let mut n = ch.s(5);
    if ch.sc(1, 60) {
        n = 200;
    }
    let mut body: Vec<String> = vec![];
    for _ in 0..n {
        let l = *ch.pick(CODE_LINES);
        if l.contains('\t') && !cfg.tabs {
            continue;
        }
        body.push(l.to_string());
    }
    let f = fence(ch, &body);
    let info = match ch.s(6) {
        0 => String::new(),
        _ => (*ch.pick(INFOS)).to_string(),
    };
    let sp = if !info.is_empty() && ch.sc(1, 4) { " " } else { "" };
    // a fence may be indented by up to three columns; the code loses as much
    let pad = if ch.sc(1, 10) { " ".repeat(1 + ch.s(3) as usize) } else { String::new() };
    let mut out = vec![format!("{pad}{f}{sp}{info}")];
    out.extend(body);
    // only the end of the container closes it
    if !ch.sc(1, 30) {
        out.push(format!("{pad}{f}"));
    }
    out
}

fn markdown_block(ch: &mut Choices, cfg: &Cfg, depth: u32) -> Vec<String> {
    let body = blocks(ch, cfg, depth + 1, 3);
    let f = fence(ch, &body);
    let mut info = *ch.pick(&["markdown", "markdown", "markdown,x", "rmarkdown"]);
    if ch.sc(1, 4) {
        info = *ch.pick(&[
            "markdown2", "xmarkdownx", "markdown_lint", "no-markdown", "x markdown", "rust,markdown", "{.markdown}", "markdown {#a}",
            "tomarkdown()", "text/markdown", "markdownlint off", "rmarkdown2 echo=1", "日markdown本", "markdown markdown",
        ]);
    }
    let mut out = vec![format!("{f}{info}")];
    out.extend(body);
    out.push(f);
    out
}

fn table(ch: &mut Choices) -> Vec<String> {
    let most = if ch.sc(1, 8) { 9 } else { 3 };
    let cols = 1 + ch.s(most);
    let row = |ch: &mut Choices| {
        let n = if ch.sc(1, 10) { 1 + ch.s(cols) } else { cols };
        let cells: Vec<String> = (0..n)
            .map(|_| match ch.s(8) {
                6 => format!("`{}` \\| x", words(ch, 1)),
                7 => format!("**{}** [x](y)", words(ch, 1)),
                _ => words(ch, 2),
            })
            .collect();
        if ch.sc(1, 8) {
            return cells.join(" | ");
        }
        format!("| {} |", cells.join(" | "))
    };
    let mut out = vec![format!("| {} |", (0..cols).map(|_| words(ch, 2)).collect::<Vec<_>>().join(" | "))];
    let seps: Vec<&str> = (0..cols).map(|_| *ch.pick(&["---", ":--", "--:", ":-:"])).collect();
    out.push(format!("| {} |", seps.join(" | ")));
    for _ in 0..ch.s(3) {
        let r = row(ch);
        out.push(r);
    }
    out
}

/// Attributes of a heading: an identifier, classes, keys with and without a value.
fn attributes(ch: &mut Choices) -> String {
    let mut v = vec![];
    if ch.sc(1, 2) {
        v.push(format!("#id-{}", ch.s(9)));
    }
    for _ in 0..ch.s(4) {
        v.push(format!(".class{}", ch.s(9)));
    }
    let most = if ch.sc(1, 4) { 12 } else { 4 };
    for _ in 0..ch.s(most) {
        let k = *ch.pick(&["key", "lang", "width", "data-x", "a", "b", "c", "\u{e9}"]);
        v.push(match ch.s(4) {
            0 => format!("{k}{}", ch.s(9)),
            _ => format!("{k}{}={}", ch.s(9), ch.pick(WORDS).replace(' ', "-")),
        });
    }
    format!(" {{{}}}", v.join(" "))
}

fn definition(ch: &mut Choices) -> Vec<String> {
    let n = ch.s(3);
    let label = *ch.pick(&["ref", "ref", "Ref", "a b", "日本", "x\\]y", "foo*bar"]);
    let dest = format!("https://example.com/{}", ch.s(50));
    match ch.s(6) {
        0 => vec![format!("[{label}{n}]: <{dest} x>")],
        1 => vec![format!("[{label}{n}]:"), format!("   {dest}"), "   'a title'".to_string()],
        2 => vec![format!("[{label}{n}]: {dest} (a"), "title)".to_string()],
        3 => vec![format!("[{label}{n}]: {dest} \"title\""), format!("[{label}9]: <>")],
        _ => vec![format!("[{label}{n}]: {dest} 'a title'")],
    }
}

/// Blocks that are longer, wider or deeper than anybody writes.
fn extreme(ch: &mut Choices) -> Vec<String> {
    let n = *ch.pick(&[9usize, 17, 33, 65, 76, 90, 130, 260]);
    let w = |k: usize| WORDS[k % WORDS.len()];
    match ch.s(18) {
        0 => vec![format!("a {} b", "word-".repeat(n)), words(ch, 3)],
        1 => vec![(0..n).map(w).collect::<Vec<_>>().join(" ")],
        2 => vec![format!("a `b{}", " ".repeat(n)), format!("c{}` d", " ".repeat(n)), "e".into()],
        3 => vec![format!("a <b{}", " ".repeat(n)), format!("c='{}'> d", " ".repeat(n))],
        4 => vec![format!("{} {}", ">".repeat(n.min(40)), words(ch, 3))],
        5 => {
            let k = n.min(24);
            let mut v: Vec<String> = (0..k).map(|i| format!("{}* {}", "  ".repeat(i), w(i))).collect();
            if ch.sc(1, 2) {
                v.extend([String::new(), format!("{}```rust", "  ".repeat(k)), format!("{}x", "  ".repeat(k)), format!("{}```", "  ".repeat(k))]);
            }
            v
        }
        6 => {
            let f = "`".repeat(n);
            vec![format!("{f}text"), "``` not the end".into(), f]
        }
        7 => vec![format!("```rust {}", "x".repeat(n)), "a".into(), "```".into()],
        8 => {
            let mut v = vec!["| a | b |".to_string(), "|---|---|".into()];
            v.extend((0..n).map(|i| format!("| {} | {i} |", w(i))));
            v
        }
        9 => {
            let k = n.min(40);
            let row = |c: &str| format!("|{}", format!(" {c} |").repeat(k));
            vec![row("\u{65e5}"), row("-"), row("x")]
        }
        10 => (0..n).map(|i| format!("- {}", w(i))).collect(),
        11 => (0..n)
            .flat_map(|i| {
                let word = w(i).split(' ').next().unwrap_or("a");
                // some documents have more of them than fit otherwise
                let (info, code) = if n > 70 { (&word[..word.chars().next().map_or(0, char::len_utf8)], "x") } else { (word, w(i)) };
                [format!("```{info}"), code.to_string(), "```".into(), String::new()]
            })
            .collect(),
        12 => {
            let k = n.min(if n % 5 == 0 { 40 } else { 12 });
            let mut v = vec![];
            for i in 0..k {
                v.push(format!("{}markdown", "`".repeat(3 + k - i)));
            }
            v.extend(["~~~rust".to_string(), "x".into(), "~~~".into(), words(ch, 30)]);
            for i in (0..k).rev() {
                v.push("`".repeat(3 + k - i));
            }
            v
        }
        13 => (0..n).map(|i| format!("[ref{i}]: /{i} 'title {i}'")).collect(),
        14 => vec![format!("# {}", "heading ".repeat(n)), String::new(), "=".repeat(n)],
        15 => vec![
            "a\u{feff}b \u{200d}\u{301} \u{0}c\u{c} \u{b}d \u{85}e \u{2028}f \u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467} \u{202e}g".to_string(),
            format!("| \u{1f468}\u{200d}\u{1f469} | \u{e0}\u{300} |"),
            "|-|-|".into(),
            "| \u{200b} | \u{ff21} |".into(),
        ],
        16 => vec![format!("**{}**", "*a* ".repeat(n)), format!("{}x{}", "[".repeat(n.min(70)), "](y)".repeat(n.min(70)))],
        _ => {
            let pad = " ".repeat(n);
            vec![format!("{pad}deep code"), format!("{pad}  deeper{pad}")]
        }
    }
}

fn block(ch: &mut Choices, cfg: &Cfg, depth: u32) -> Vec<String> {
    if ch.sc(1, 40) {
        return extreme(ch);
    }
    let leaf_only = depth >= cfg.max_depth;
    if ch.sc(cfg.code_bias, cfg.code_bias + 5) {
        return code_block(ch, cfg);
    }
    match ch.s(if leaf_only { 8 } else { 14 }) {
        0 | 1 => {
            let n = 1 + ch.s(3);
            let v: Vec<String> = (0..n).map(|_| inline(ch)).collect();
            // an inline break makes two lines of one
            v.join("\n").split('\n').map(str::to_string).collect()
        }
        2 => {
            let end = match ch.s(8) {
                5 => attributes(ch),
                6 => " ##".to_string(),
                7 => " #".into(),
                _ => String::new(),
            };
            if ch.sc(1, 6) {
                return vec![format!("{}{end}", words(ch, 5)), (*ch.pick(&["===", "---", "=", "----------"])).to_string()];
            }
            vec![format!("{} {}{end}", "#".repeat(1 + ch.s(6) as usize), words(ch, 5))]
        }
        3 => code_block(ch, cfg),
        4 => table(ch),
        5 => match ch.s(3) {
            0 => vec!["---".to_string()],
            1 => vec!["* * *".to_string()],
            _ => vec![words(ch, 3), "===".to_string()],
        },
        6 => match ch.s(3) {
            0 => vec!["<!-- comment -->".to_string()],
            1 => vec!["<div>".to_string(), words(ch, 3), "</div>".to_string()],
            _ => definition(ch),
        },
        7 => {
            let body: Vec<String> = vec![format!("    {}", words(ch, 3)), format!("    {}", words(ch, 2))];
            body
        }
        8 | 9 => {
            let m = *ch.pick(&["* ", "- ", "+ "]);
            let loose = ch.sc(1, 3);
            let mut out = vec![];
            for i in 0..1 + ch.s(3) {
                if i > 0 && loose {
                    out.push(String::new());
                }
                if ch.sc(1, 16) {
                    out.push(m.trim_end().to_string());
                    continue;
                }
                let inner = blocks_starting_with_text(ch, cfg, depth + 1);
                out.extend(prefix(inner, m, "  "));
            }
            out
        }
        10 => {
            let start = *ch.pick(&[1u32, 1, 1, 7, 10, 100, 0, 9, 999_999_990]);
            let sep = *ch.pick(&[". ", ") "]);
            let pad = *ch.pick(&[1usize, 1, 1, 2, 4]);
            let step = *ch.pick(&[1u32, 1, 0]);
            let mut out = vec![];
            for i in 0..1 + ch.s(3) {
                let marker = format!("{:0pad$}{sep}", start + i * step);
                let pad = " ".repeat(marker.len());
                let inner = blocks_starting_with_text(ch, cfg, depth + 1);
                out.extend(prefix(inner, &marker, &pad));
            }
            out
        }
        11 => {
            let mut inner = blocks(ch, cfg, depth + 1, 3);
            if ch.sc(1, 8) {
                inner.insert(0, (*ch.pick(&["[!NOTE]", "[!warning]"])).to_string());
            }
            let p = *ch.pick(&["> ", "> ", "> ", ">"]);
            prefix(inner, p, p)
        }
        12 => markdown_block(ch, cfg, depth),
        _ if depth == 0 || ch.sc(1, 6) => {
            let inner = blocks_starting_with_text(ch, cfg, depth + 1);
            let label = format!("[^{}]: ", label(ch));
            prefix(inner, &label, "    ")
        }
        _ => code_block(ch, cfg),
    }
}

fn blocks_starting_with_text(ch: &mut Choices, cfg: &Cfg, depth: u32) -> Vec<String> {
    let task = *ch.pick(&["", "", "", "", "", "[ ] ", "[x] "]);
    let mut out = vec![format!("{task}{}", words(ch, 6))];
    if ch.sc(1, 8) && depth <= cfg.max_depth {
        return code_block(ch, cfg);
    }
    if depth <= cfg.max_depth && ch.sc(1, 2) {
        let more = blocks(ch, cfg, depth, 2);
        out.push(String::new());
        out.extend(more);
    }
    out
}

fn blocks(ch: &mut Choices, cfg: &Cfg, depth: u32, max: u32) -> Vec<String> {
    let n = 1 + ch.s(max);
    let mut out: Vec<String> = vec![];
    for i in 0..n {
        let b = block(ch, cfg, depth);
        if i > 0 {
            out.push(String::new());
            if ch.sc(1, 8) {
                out.push(String::new());
            }
        }
        out.extend(b);
    }
    out
}

/// A document of the structured generator.
pub fn generated(ch: &mut Choices, cfg: &Cfg) -> String {
    let mut lines = vec![];
    if ch.sc(1, 20) {
        let d = if ch.sc(1, 3) { "+++" } else { "---" };
        lines.push(d.to_string());
        for _ in 0..1 + ch.s(3) {
            lines.push(format!("{}: {}", ch.pick(&["title", "tags", "date"]), ch.pick(WORDS)));
        }
        lines.extend([d.to_string(), String::new()]);
    }
    let max = if ch.sc(1, 80) { 60 } else { cfg.max_blocks };
    lines.extend(blocks(ch, cfg, 0, max));
    let mut s = lines.join("\n");
    match ch.s(8) {
        0 => {}
        1 => s.push_str("\n\n"),
        _ => s.push('\n'),
    }
    if ch.sc(1, 25) {
        s = s.replace('\n', "\r\n");
    }
    s
}

fn floor_boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A text that is close to another one: what tells them apart may be missed by whoever compares them.
pub fn cousin(ch: &mut Choices, s: &str) -> String {
    let mut out = s.to_string();
    if s.is_empty() {
        return "x\n".into();
    }
    for _ in 0..1 + ch.s(2) {
        match ch.s(6) {
            0 => out = out.to_ascii_uppercase(),
            1 => out = out.to_ascii_lowercase(),
            // one character gives way to another one of the same size
            2 | 3 => {
                let at: Vec<usize> = out.char_indices().filter(|(_, c)| c.is_ascii_alphanumeric()).map(|x| x.0).collect();
                for _ in 0..1 + ch.s(3) {
                    if let Some(&i) = at.get(ch.s(at.len().max(1) as u32) as usize) {
                        let c = out.as_bytes()[i];
                        let new = if c.is_ascii_digit() {
                            b'0' + (c - b'0' + 1) % 10
                        } else if ch.sc(1, 2) {
                            c ^ 0x20
                        } else {
                            b'a' + (c.to_ascii_lowercase() - b'a' + 1) % 26
                        };
                        out.replace_range(i..=i, &char::from(new).to_string());
                    }
                }
            }
            4 => {
                let more = ch.pick(&["and more\n", "\n\nlast words\n", "\n", " "]);
                out.push_str(more);
            }
            _ => {
                let k = floor_boundary(&out, ch.s(out.len().max(1) as u32) as usize);
                out.truncate(k);
            }
        }
    }
    out
}

/// Small edits that take a text off the beaten path.
pub fn mutate(ch: &mut Choices, s: &mut String) {
    for _ in 0..1 + ch.s(3) {
        if s.is_empty() {
            return;
        }
        let a = floor_boundary(s, ch.s(s.len() as u32) as usize);
        match ch.s(7) {
            0 => {
                let b = floor_boundary(s, a + ch.s(12) as usize);
                s.replace_range(a..b.max(a), "");
            }
            1 => {
                let t = *ch.pick(&[
                    "`", "```", "~~~", "\n", "\n\n", "* ", "> ", "    ", "\t", "|", "[", "](", "\\", "<", "&", "1. ",
                    "\r\n", "[^1]", "[^1]: ", "#", "---\n", "```markdown\n", "\u{a0}", "*", "_", "é", "  \n",
                ]);
                s.insert_str(a, t);
            }
            2 => {
                let b = floor_boundary(s, a + ch.s(40) as usize);
                let t = s[a..b.max(a)].to_string();
                let c = floor_boundary(s, ch.s(s.len() as u32) as usize);
                s.insert_str(c, &t);
            }
            3 => s.truncate(a),
            4 => *s = s.replace('\n', "\r\n"),
            5 => {
                let lines: Vec<String> = s.lines().map(|l| format!("> {l}")).collect();
                *s = lines.join("\n");
            }
            _ => {
                let mut lines: Vec<&str> = s.lines().collect();
                let i = ch.s(lines.len() as u32) as usize;
                let j = ch.s(lines.len() as u32) as usize;
                lines.swap(i, j);
                *s = lines.join("\n");
            }
        }
    }
}

/// Only letters, blanks and newlines, irregularly.
pub fn plain(ch: &mut Choices) -> String {
    let mut out = String::new();
    for _ in 0..1 + ch.s(6) {
        out += *ch.pick(&["one", "Two", "three4", "a b", "a  b", "x"]);
        out += *ch.pick(&["\n", " ", "\n\n", "\n\n\n\n", "\n   ", "  \n", " \n\n  "]);
    }
    out
}

/// Any document: generated, taken from the examples, or a mutation of one; the simplest is a line.
pub fn any(ch: &mut Choices, cfg: &Cfg, mutations: bool) -> String {
    let c = corpus();
    let mut s = match ch.s(10) {
        0 => "  #  A   title\nand text\n".to_string(),
        1..=5 => generated(ch, cfg),
        6..=8 => {
            let n = 1 + ch.s(3);
            let v: Vec<&str> = (0..n).map(|_| ch.pick(&c.spec).as_str()).collect();
            v.join("\n\n")
        }
        _ => {
            let (_, t) = ch.pick(&c.files);
            t.clone()
        }
    };
    if mutations && ch.sc(1, 3) {
        mutate(ch, &mut s);
    }
    s
}
