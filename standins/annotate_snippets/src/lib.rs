//! Offline stand-in for `annotate-snippets` 0.11: same API shape and the same
//! layout for one snippet with one annotation plus footers.
use std::fmt;
use std::ops::Range;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level {
    Error,
    Warning,
    Info,
    Note,
    Help,
}
impl Level {
    pub fn title(self, title: &str) -> Message<'_> {
        Message { level: self, id: None, title, snippets: vec![], footer: vec![] }
    }
    pub fn span<'a>(self, range: Range<usize>) -> Annotation<'a> {
        Annotation { range, label: None, level: self }
    }
    fn name(self) -> &'static str {
        match self {
            Level::Error => "error",
            Level::Warning => "warning",
            Level::Info => "info",
            Level::Note => "note",
            Level::Help => "help",
        }
    }
}
#[derive(Debug)]
pub struct Annotation<'a> {
    range: Range<usize>,
    label: Option<&'a str>,
    level: Level,
}
impl<'a> Annotation<'a> {
    pub fn label(mut self, l: &'a str) -> Self {
        self.label = Some(l);
        self
    }
}
#[derive(Debug)]
pub struct Snippet<'a> {
    origin: Option<&'a str>,
    line_start: usize,
    source: &'a str,
    annotations: Vec<Annotation<'a>>,
    fold: bool,
}
impl<'a> Snippet<'a> {
    pub fn source(source: &'a str) -> Self {
        Snippet { origin: None, line_start: 1, source, annotations: vec![], fold: false }
    }
    pub fn origin(mut self, o: &'a str) -> Self {
        self.origin = Some(o);
        self
    }
    pub fn line_start(mut self, n: usize) -> Self {
        self.line_start = n;
        self
    }
    pub fn fold(mut self, f: bool) -> Self {
        self.fold = f;
        self
    }
    pub fn annotation(mut self, a: Annotation<'a>) -> Self {
        self.annotations.push(a);
        self
    }
    pub fn annotations(mut self, a: impl IntoIterator<Item = Annotation<'a>>) -> Self {
        self.annotations.extend(a);
        self
    }
}
#[derive(Debug)]
pub struct Message<'a> {
    level: Level,
    id: Option<&'a str>,
    title: &'a str,
    snippets: Vec<Snippet<'a>>,
    footer: Vec<Message<'a>>,
}
impl<'a> Message<'a> {
    pub fn id(mut self, id: &'a str) -> Self {
        self.id = Some(id);
        self
    }
    pub fn snippet(mut self, s: Snippet<'a>) -> Self {
        self.snippets.push(s);
        self
    }
    pub fn footer(mut self, m: Message<'a>) -> Self {
        self.footer.push(m);
        self
    }
}
#[derive(Debug, Clone, Copy)]
pub struct Renderer {
    styled: bool,
    width: usize,
}
impl Default for Renderer {
    fn default() -> Self {
        Self::plain()
    }
}
impl Renderer {
    pub const fn plain() -> Self {
        Self { styled: false, width: 140 }
    }
    pub const fn styled() -> Self {
        Self { styled: true, width: 140 }
    }
    pub const fn term_width(mut self, w: usize) -> Self {
        self.width = w;
        self
    }
    pub fn render<'a>(&'a self, m: Message<'a>) -> impl fmt::Display + 'a {
        Rendered(*self, m)
    }
}
struct Rendered<'a>(Renderer, Message<'a>);

fn lines_of(s: &str) -> Vec<(usize, &str)> {
    // (start offset, line without terminator)
    let mut v = vec![];
    let mut at = 0;
    for l in s.split_inclusive('\n') {
        let t = l.strip_suffix('\n').unwrap_or(l);
        let t = t.strip_suffix('\r').unwrap_or(t);
        v.push((at, t));
        at += l.len();
    }
    if v.is_empty() {
        v.push((0, ""));
    }
    v
}

impl fmt::Display for Rendered<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (r, m) = (&self.0, &self.1);
        let mut out: Vec<String> = vec![];
        let paint = |s: &str, code: &str| if r.styled { format!("\x1b[{code}m{s}\x1b[0m") } else { s.to_string() };
        let head = m.level.name();
        out.push(format!("{}{}", paint(head, "1m\x1b[33"), paint(&format!(": {}", m.title), "1")));
        for s in &m.snippets {
            let lines = lines_of(s.source);
            let line_at = |o: usize| lines.iter().rposition(|(st, _)| *st <= o).unwrap_or(0);
            let Some(a) = s.annotations.first() else { continue };
            if a.range.start > s.source.len() || a.range.end > s.source.len() + 1 {
                panic!("SourceAnnotation range `{:?}` is beyond the end of buffer `{}`", a.range, s.source.len());
            }
            let (l0, mut l1) = (line_at(a.range.start), line_at(a.range.end));
            if l1 > l0 && lines[l1].0 == a.range.end {
                l1 -= 1;
            }
            let w = (l1 + s.line_start).to_string().len();
            let pad = " ".repeat(w);
            let col = |l: usize, o: usize| {
                let (st, t) = lines[l];
                let e = (o - st).min(t.len());
                t.get(..e).map_or(e, |x| x.chars().count())
            };
            let c0 = col(l0, a.range.start);
            if let Some(o) = s.origin {
                out.push(format!("{pad}--> {}:{}:{}", o, l0 + s.line_start, c0 + 1));
            }
            out.push(format!("{pad} |"));
            let mark = if a.level == Level::Error { "^" } else { "-" };
            let label = a.label.map(|l| format!(" {l}")).unwrap_or_default();
            let expand = |t: &str| t.replace('\t', "    ");
            if l0 == l1 {
                let t = lines[l0].1;
                out.push(format!("{:>w$} | {}", l0 + s.line_start, expand(t)).trim_end().to_string());
                let c1 = col(l0, a.range.end);
                let lead: usize = t.chars().take(c0).map(|c| if c == '\t' { 4 } else { 1 }).sum();
                let width: usize = t.chars().skip(c0).take(c1.saturating_sub(c0)).map(|c| if c == '\t' { 4 } else { 1 }).sum();
                let mut first = true;
                for (i, ll) in label.split('\n').enumerate() {
                    if first {
                        out.push(format!("{pad} | {}{}{}", " ".repeat(lead), mark.repeat(width.max(1)), ll).trim_end().to_string());
                    } else {
                        out.push(format!("{pad} | {}{}", " ".repeat(lead + width.max(1) + 1), ll).trim_end().to_string());
                    }
                    first = false;
                    let _ = i;
                }
            } else {
                let starts_line = lines[l0].1.chars().take(c0).all(|c| c.is_whitespace());
                let n = l1 - l0 + 1;
                for l in l0..=l1 {
                    let t = expand(lines[l].1);
                    if s.fold && n > 5 && l > l0 + 1 && l < l1 - 1 {
                        if l == l0 + 2 {
                            out.push(format!("{:<w$}|", "...", w = w + 3));
                        }
                        continue;
                    }
                    let bar = if l == l0 { if starts_line { "/" } else { " " } } else { "|" };
                    out.push(format!("{:>w$} | {} {}", l + s.line_start, bar, t).trim_end().to_string());
                    if l == l0 && !starts_line {
                        out.push(format!("{pad} |  {}{}", "_".repeat(c0 + 1), mark));
                    }
                }
                let c1 = col(l1, a.range.end);
                out.push(format!("{pad} | |{}{}{}", "_".repeat(c1), mark, label).trim_end().to_string());
            }
            out.push(format!("{pad} |"));
            for ft in &m.footer {
                for (i, l) in ft.title.split('\n').enumerate() {
                    if i == 0 {
                        out.push(format!("{pad} = {}: {}", ft.level.name(), l));
                    } else {
                        out.push(format!("{pad}   {}{}", " ".repeat(ft.level.name().len() + 2), l));
                    }
                }
            }
            if m.footer.is_empty() {
                // 0.11 keeps the closing gutter line
            }
        }
        f.write_str(&out.join("\n"))
    }
}
