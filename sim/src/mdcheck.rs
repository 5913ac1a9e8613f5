//! What a document says about its fenced code blocks, according to the markdown parser alone.

use pulldown_cmark::{CodeBlockKind, Event, Options, Parser, Tag, TagEnd};
use std::ops::Range;

pub fn options() -> Options {
    Options::ENABLE_TABLES
        | Options::ENABLE_FOOTNOTES
        | Options::ENABLE_STRIKETHROUGH
        | Options::ENABLE_TASKLISTS
        | Options::ENABLE_HEADING_ATTRIBUTES
        | Options::ENABLE_PLUSES_DELIMITED_METADATA_BLOCKS
        | Options::ENABLE_YAML_STYLE_METADATA_BLOCKS
}

#[derive(Clone, Debug)]
pub struct Block {
    pub info: String,
    pub code: String,
    /// columns before the opening fence
    pub column: usize,
    pub fence: (char, usize),
    /// the lines between the fences, with the prefixes of containers
    pub content: Range<usize>,
}

pub fn is_markdown(info: &str) -> bool {
    info.contains("markdown")
}

pub fn blocks(doc: &str) -> Vec<Block> {
    let mut out = vec![];
    let mut cur: Option<Block> = None;
    for (e, r) in Parser::new_ext(doc, options()).into_offset_iter() {
        match e {
            Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(info))) => {
                let line = doc[..r.start].rfind('\n').map_or(0, |i| i + 1);
                let src = &doc[r.clone()];
                let c = src.chars().next().unwrap_or('`');
                let n = src.chars().take_while(|x| *x == c).count();
                let start = src.find('\n').map_or(r.end, |i| r.start + i + 1);
                let end = doc[..r.end].trim_end_matches(['\n', '\r']).rfind('\n').map_or(start, |i| i + 1).max(start);
                cur = Some(Block {
                    info: info.to_string(),
                    code: String::new(),
                    column: r.start - line,
                    fence: (c, n),
                    content: start..end,
                });
            }
            Event::Text(t) => {
                if let Some(b) = &mut cur {
                    b.code.push_str(&t);
                }
            }
            Event::End(TagEnd::CodeBlock) => out.extend(cur.take()),
            _ => {}
        }
    }
    out
}

/// The nesting of blocks, paragraphs left out because lists get loose.
fn nesting(doc: &str) -> Vec<&'static str> {
    let mut v = vec![];
    for e in Parser::new_ext(doc, options()) {
        v.push(match e {
            Event::Start(t) => match t {
                Tag::Heading { .. } => "h",
                Tag::BlockQuote(_) => ">",
                Tag::CodeBlock(_) => "c",
                Tag::List(Some(_)) => "1",
                Tag::List(None) => "*",
                Tag::Item => "i",
                Tag::FootnoteDefinition(_) => "f",
                Tag::Table(_) => "t",
                Tag::HtmlBlock => "<",
                Tag::MetadataBlock(_) => "m",
                _ => continue,
            },
            Event::End(t) => match t {
                TagEnd::BlockQuote(_) => "/>",
                TagEnd::List(_) => "/l",
                TagEnd::Item => "/i",
                TagEnd::FootnoteDefinition => "/f",
                _ => continue,
            },
            Event::Rule => "-",
            _ => continue,
        });
    }
    v
}

/// Would one of the lines of `text` end a code block opened with `fence`?
pub fn closes(text: &str, fence: (char, usize)) -> bool {
    text.split('\n').any(|l| {
        let t = l.trim_start();
        let n = t.chars().take_while(|x| *x == fence.0).count();
        n >= fence.1 && t[n..].trim().is_empty()
    })
}

/// One expected call of the code-block callback; what is not known is not compared.
#[derive(Clone, Debug)]
pub struct Expected {
    pub info: String,
    pub code: String,
    pub column: Option<usize>,
    pub width: Option<Option<usize>>,
}

/// The calls that formatting `doc` has to make, and, from the formatted text, their columns.
pub fn expected(doc: &str, formatted: Option<&str>, width: Option<Option<usize>>, depth: u32, out: &mut Vec<Expected>) {
    let ins = blocks(doc);
    // a formatted text that reads as another structure than the original does not show where a block went
    let outs = formatted
        .filter(|f| nesting(f) == nesting(doc))
        .map(blocks)
        .filter(|o| o.len() == ins.len() && o.iter().zip(&ins).all(|(a, b)| a.info == b.info));
    for (i, b) in ins.iter().enumerate() {
        let column = outs.as_ref().map(|o| o[i].column);
        if is_markdown(&b.info) {
            if depth > 120 {
                continue;
            }
            let w = match (width, column) {
                (Some(None), _) => Some(None),
                (Some(Some(w)), Some(c)) => Some(Some(w.saturating_sub(c))),
                _ => None,
            };
            expected(&b.code, outs.as_ref().map(|o| o[i].code.as_str()), w, depth + 1, out);
        } else {
            out.push(Expected { info: b.info.clone(), code: b.code.clone(), column, width });
        }
    }
}

/// A block outside of any markdown block, or inside of some, with the fences that must stay open.
#[derive(Clone, Debug)]
pub struct Leaf {
    pub code: String,
    pub fences: Vec<(char, usize)>,
}

/// The document with the content of every block the callback may change taken out.
pub fn skeleton(doc: &str, fences: &[(char, usize)], leaves: &mut Vec<Leaf>, depth: u32) -> String {
    let mut s = String::new();
    let mut at = 0;
    for b in blocks(doc) {
        s.push_str(&doc[at..b.content.start]);
        let mut f = fences.to_vec();
        f.push(b.fence);
        if is_markdown(&b.info) && depth < 120 {
            s.push('\u{1}');
            s.push_str(&skeleton(&b.code, &f, leaves, depth + 1));
            s.push('\u{2}');
        } else {
            s.push('\u{3}');
            leaves.push(Leaf { code: b.code.clone(), fences: f });
        }
        at = b.content.end;
    }
    s.push_str(&doc[at..]);
    s
}

/// The structure of the document with the text of code blocks left out.
pub fn structure(doc: &str) -> Vec<String> {
    let mut v = vec![];
    let mut in_code = false;
    for e in Parser::new_ext(doc, options()) {
        match &e {
            Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(_))) => {
                v.push(format!("{e:?}"));
                in_code = true;
            }
            Event::End(TagEnd::CodeBlock) => {
                in_code = false;
                v.push(format!("{e:?}"));
            }
            Event::Text(_) if in_code => {}
            _ => v.push(format!("{e:?}")),
        }
    }
    v
}

/// Text up to blank lines around it, blanks at its end and blanks on otherwise empty lines.
pub fn normal(s: &str) -> String {
    let lines: Vec<&str> = s.split('\n').map(|l| if l.trim().is_empty() { "" } else { l }).collect();
    lines.join("\n").trim_matches('\n').trim_end().to_string()
}
