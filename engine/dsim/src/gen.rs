//! Generated inputs: R code whose findings are known in advance, documents
//! built from it, projects.
use crate::spec::*;
use serde::{Deserialize, Serialize};

/// One top-level expression. `@` stands for a variable name or string body.
pub struct Snip {
    pub src: &'static str,
    pub rule: &'static str,
    /// The part of `src` the finding marks ("" = all of it).
    pub mark: &'static str,
    /// What a fix turns `src` into; None: the finding has no fix.
    pub fix: Option<&'static str>,
    pub safe: bool,
    /// Minimum R version the rule needs.
    pub min_r: Option<(u32, u32)>,
    pub on: bool,
}
const fn s(src: &'static str, rule: &'static str, mark: &'static str, fix: &'static str) -> Snip {
    Snip {
        src,
        rule,
        mark,
        fix: Some(fix),
        safe: true,
        min_r: None,
        on: true,
    }
}
const fn n(src: &'static str, rule: &'static str, mark: &'static str) -> Snip {
    Snip {
        src,
        rule,
        mark,
        fix: None,
        safe: true,
        min_r: None,
        on: true,
    }
}

pub const SNIPS: &[Snip] = &[
    s("any(is.na(@))", "any_is_na", "", "anyNA(@)"),
    s(
        "any(duplicated(@))",
        "any_duplicated",
        "",
        "anyDuplicated(@) > 0",
    ),
    s("@ == NA", "equals_na", "", "is.na(@)"),
    s("@ != NA", "equals_na", "", "!is.na(@)"),
    s("@ == NaN", "equals_nan", "", "is.nan(@)"),
    s("@ == NULL", "equals_null", "", "is.null(@)"),
    s(
        "identical(class(@), \"foo\")",
        "class_equals",
        "",
        "inherits(@, \"foo\")",
    ),
    s("!(@ == 1)", "comparison_negation", "", "@ != 1"),
    s("length(levels(@))", "length_levels", "", "nlevels(@)"),
    s("length(@ == 1)", "length_test", "", "length(@) == 1"),
    s("sapply(@, length)", "lengths", "", "lengths(@)"),
    s("all(!@)", "outer_negation", "", "!any(@)"),
    s("any(!@)", "outer_negation", "", "!all(@)"),
    s("@ == TRUE", "redundant_equals", "", "@"),
    s("ifelse(@, TRUE, FALSE)", "redundant_ifelse", "", "@"),
    s("1:length(@)", "seq", "", "seq_along(@)"),
    s("seq(length(@))", "seq2", "", "seq_along(@)"),
    s("@[order(@)]", "sort", "", "sort(@)"),
    s(
        "which(grepl(\"^a\", @))",
        "which_grepl",
        "",
        "grep(\"^a\", @)",
    ),
    s("apply(@, 1, sum)", "matrix_apply", "", "rowSums(@)"),
    s("sprintf(\"abc @\")", "sprintf", "", "\"abc @\""),
    s(
        "is.numeric(@) || is.integer(@)",
        "is_numeric",
        "",
        "is.numeric(@)",
    ),
    s(
        "system.file(file.path(\"a\", \"@\"), package = \"foo\")",
        "system_file",
        "",
        "system.file(\"a\", \"@\", package = \"foo\")",
    ),
    s(
        "substr(@, 1L, 3L) == \"abc\"",
        "string_boundary",
        "",
        "startsWith(@, \"abc\")",
    ),
    Snip {
        min_r: Some((4, 0)),
        ..s("do.call(cbind.data.frame, @)", "list2df", "", "list2DF(@)")
    },
    Snip {
        min_r: Some((4, 4)),
        ..s("if (is.null(@)) 1 else @", "coalesce", "", "@ %||% 1")
    },
    Snip {
        safe: false,
        ..s(
            "!all.equal(@, y)",
            "all_equal",
            "",
            "!isTRUE(all.equal(@, y))",
        )
    },
    n("download.file(\"@\")", "download_file", ""),
    n("f(a = 1, a = @)", "duplicated_arguments", ""),
    n("g(T, @)", "true_false_symbol", "T"),
    n("foo:::bar(@)", "internal_function", "foo:::bar"),
    n("sprintf(\"%s %s\", @)", "sprintf", ""),
    n("for (@ in @) 1", "for_loop_index", "@ in @"),
    Snip {
        on: false,
        ..s("@ = 1", "assignment", "@ =", "@ <- 1")
    },
    Snip {
        on: false,
        ..s("sample(1:10, @)", "sample_int", "", "sample.int(10, @)")
    },
    Snip {
        on: false,
        ..s(
            "grepl(\"hello\", @)",
            "fixed_regex",
            "",
            "grepl(\"hello\", @, fixed = TRUE)",
        )
    },
    Snip {
        on: false,
        ..s(
            "expect_equal(length(@), 2)",
            "expect_length",
            "",
            "expect_length(@, 2)",
        )
    },
    Snip {
        on: false,
        ..s("expect_equal(@, NULL)", "expect_null", "", "expect_null(@)")
    },
];

pub const CLEAN: &[&str] = &[
    "@ <- 1",
    "print(@)",
    "# a comment about @",
    "",
    "  ",
    "\t\u{c}",
    "#' @param x about @",
    "@ <- function(a, b = 2) {\n  a + b\n}",
    "\"text @\"",
    "mean(@, na.rm = TRUE)",
    "@ |>\n  foo() |>\n  bar()",
    "if (@ > 1) {\n  print(1)\n} else {\n  print(2)\n}",
    "library(@)",
];

pub const NAMES: &[&str] = &[
    "x",
    "y2",
    "my_var",
    "a.b",
    "zz",
    "long_variable_name",
    "v1",
    "Q",
];
pub const UNI: &[&str] = &["é", "č", "不", "ß", "日本", "😀", "a\u{301}", "Ω", "ﬀ", "𝒳"];

/// A line (or several) of a generated document with its known findings.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Piece {
    /// Index into SNIPS, or None for text without findings.
    pub snip: Option<usize>,
    pub var: String,
    pub text: String,
    /// Text before the snippet on its line (inside it nothing is flagged).
    pub pre: String,
    pub post: String,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Finding {
    pub rule: String,
    pub start: usize,
    pub end: usize,
    pub fix: Option<String>,
    pub safe: bool,
}

pub fn subst(t: &str, v: &str) -> String {
    t.replace('@', v)
}

pub fn var(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        // Non-syntactic names may contain anything.
        format!("`{}{}`", r.pick(NAMES), r.pick(UNI))
    } else {
        format!("{}{}", r.pick(NAMES), r.below(20))
    }
}

pub fn piece(r: &mut Rng, on_only: bool, pure: bool) -> Piece {
    let v = var(r);
    if r.chance(1, 3) {
        let t = if r.chance(1, 4) {
            format!("# {} {}", r.pick(UNI), v.replace('`', ""))
        } else {
            subst(*r.pick(CLEAN), &v)
        };
        return Piece {
            snip: None,
            var: v,
            text: t,
            pre: String::new(),
            post: String::new(),
        };
    }
    let i = loop {
        let i = r.us(SNIPS.len());
        if (!on_only || SNIPS[i].on && SNIPS[i].min_r.is_none())
            && (!pure || !SNIPS[i].src.contains('"') || !v.contains('`'))
        {
            break i;
        }
    };
    let v = if SNIPS[i].src.contains("\"@")
        || SNIPS[i].src.contains("@\"")
        || SNIPS[i].src.contains(" @\"")
    {
        v.replace('`', "")
    } else {
        v
    };
    let (pre, post) = match r.below(8) {
        0 => ("  ".to_string(), String::new()),
        1 => (String::new(), " # note é".to_string()),
        2 => (
            format!("\"{}{}\"; ", r.pick(&["", "", "#", "a # b "]), r.pick(UNI)),
            String::new(),
        ),
        3 => (format!("print({}); ", r.pick(NAMES)), String::new()),
        4 if [
            "any_is_na",
            "equals_na",
            "lengths",
            "seq2",
            "any_duplicated",
        ]
        .contains(&SNIPS[i].rule) =>
        {
            (format!("`v{}` <- if (", r.pick(UNI)), ") 1".to_string())
        }
        _ => (String::new(), String::new()),
    };
    Piece {
        snip: Some(i),
        var: v,
        text: String::new(),
        pre,
        post,
    }
}

impl Piece {
    pub fn render(&self) -> String {
        match self.snip {
            None => self.text.clone(),
            Some(i) => format!(
                "{}{}{}",
                self.pre,
                subst(SNIPS[i].src, &self.var),
                self.post
            ),
        }
    }
    pub fn fixed(&self, unsafe_too: bool) -> String {
        match self.snip {
            Some(i) if SNIPS[i].fix.is_some() && (SNIPS[i].safe || unsafe_too) => {
                format!(
                    "{}{}{}",
                    self.pre,
                    subst(SNIPS[i].fix.unwrap(), &self.var),
                    self.post
                )
            }
            _ => self.render(),
        }
    }
    pub fn finding(&self, base: usize) -> Option<Finding> {
        let i = self.snip?;
        let sn = &SNIPS[i];
        let src = subst(sn.src, &self.var);
        let mark = subst(sn.mark, &self.var);
        let off = if mark.is_empty() { 0 } else { src.find(&mark)? };
        let len = if mark.is_empty() {
            src.len()
        } else {
            mark.len()
        };
        let st = base + self.pre.len() + off;
        Some(Finding {
            rule: sn.rule.into(),
            start: st,
            end: st + len,
            fix: sn.fix.map(|f| subst(f, &self.var)),
            safe: sn.safe,
        })
    }
}

/// Join the pieces, one per line.
pub fn render(ps: &[Piece], eol: &str, last_eol: bool) -> (String, Vec<Finding>) {
    let mut t = String::new();
    let mut f = vec![];
    for (i, p) in ps.iter().enumerate() {
        let s = p.render().replace('\n', eol);
        if let Some(x) = p.finding(t.len()) {
            f.push(x);
        }
        t.push_str(&s);
        if i + 1 < ps.len() || last_eol {
            t.push_str(eol);
        }
    }
    (t, f)
}
pub fn render_fixed(ps: &[Piece], eol: &str, last_eol: bool, unsafe_too: bool) -> String {
    let mut t = String::new();
    for (i, p) in ps.iter().enumerate() {
        t.push_str(&p.fixed(unsafe_too).replace('\n', eol));
        if i + 1 < ps.len() || last_eol {
            t.push_str(eol);
        }
    }
    t
}

// ------------------------------------------------------------ whole documents

/// Part of a document: for R Markdown one chunk with the text before it.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Blk {
    pub prose: String,
    pub head: String,
    pub fence: String,
    pub pieces: Vec<Piece>,
    /// A suppression of the first piece's rule.
    #[serde(default)]
    pub supp: Option<String>,
    /// Its form, see `form`.
    #[serde(default)]
    pub how: u8,
}
/// Forms of suppressions.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    /// Of the first piece.
    Node,
    /// The same, without the space.
    Tight,
    /// Of all of the block, from a start to an end.
    Region,
    /// Of a chunk of R Markdown.
    Chunk,
    /// Of the whole file.
    File,
}
/// The form of the suppression that block `i` has, if it has one.
pub fn form(rmd: bool, bs: &[Blk], i: usize) -> Option<Form> {
    bs[i].supp.as_ref()?;
    Some(match bs[i].how {
        1 => Form::Tight,
        2 => Form::Region,
        3 if rmd => Form::Chunk,
        4 if i == 0 => Form::File,
        _ => Form::Node,
    })
}
fn by_file(rmd: bool, bs: &[Blk], i: usize, rule: &str) -> bool {
    i > 0 && form(rmd, bs, 0) == Some(Form::File) && bs[0].supp.as_deref() == Some(rule)
}
/// Is what piece `k` of block `i` has suppressed?
pub fn quiet(rmd: bool, bs: &[Blk], i: usize, k: usize) -> bool {
    let Some(j) = bs[i].pieces[k].snip else {
        return false;
    };
    let rule = SNIPS[j].rule;
    match form(rmd, bs, i) {
        Some(Form::Node | Form::Tight) if k == 0 => return true,
        Some(Form::Region | Form::Chunk | Form::File) if bs[i].supp.as_deref() == Some(rule) => {
            return true;
        }
        _ => {}
    }
    by_file(rmd, bs, i, rule)
}
/// The patterns behind the findings of a document, in order.
pub fn live(rmd: bool, bs: &[Blk]) -> Vec<usize> {
    let mut v = vec![];
    for i in 0..bs.len() {
        for k in 0..bs[i].pieces.len() {
            if !quiet(rmd, bs, i, k) {
                v.extend(bs[i].pieces[k].snip);
            }
        }
    }
    v
}
/// The blocks after replacing what isn't suppressed and to be fixed.
pub fn fix_blks(rmd: bool, bs: &[Blk], fixes: impl Fn(&Snip) -> bool) -> Vec<Blk> {
    let mut out = bs.to_vec();
    for i in 0..bs.len() {
        for (k, p) in bs[i].pieces.iter().enumerate() {
            let Some(j) = p.snip else {
                continue;
            };
            if !quiet(rmd, bs, i, k) && fixes(&SNIPS[j]) {
                let q = &mut out[i].pieces[k];
                q.text = format!(
                    "{}{}{}",
                    p.pre,
                    subst(SNIPS[j].fix.unwrap(), &p.var),
                    p.post
                );
                q.snip = None;
            }
        }
    }
    out
}
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct GDoc {
    pub path: String,
    pub eol: String,
    pub last_eol: bool,
    pub rmd: bool,
}
pub fn is_rmd(path: &str) -> bool {
    !(path.ends_with(".R") || path.ends_with(".r"))
}
pub fn blk(r: &mut Rng, rmd: bool, on_only: bool) -> Blk {
    let mut b = Blk {
        prose: String::new(),
        head: String::new(),
        fence: String::new(),
        pieces: vec![],
        supp: None,
        how: 0,
    };
    if rmd {
        let k = r.below(3);
        for _ in 0..k {
            b.prose.push_str(*r.pick(&[
                "Some *text* é 😀\n",
                "# Title\n",
                "\n",
                "`r x` and `any(is.na(x))`\n",
                "- item\n",
                "- any_is_na: see above\n",
                "```python\nany(is.na(x))\n```\n",
                "```\nany(is.na(x))\n```\n",
            ]));
        }
        b.head = r
            .pick(&[
                "{r}",
                "{r, echo=FALSE}",
                "{r name}",
                "{r my-chunk, eval = TRUE}",
            ])
            .to_string();
        b.fence = r.pick(&["```", "```", "````"]).to_string();
        for _ in 0..r.range(1, 3) {
            b.pieces.push(piece(r, on_only, false));
        }
    } else {
        b.pieces.push(piece(r, on_only, false));
    }
    if r.chance(1, 6) {
        let p = &b.pieces[0];
        if let Some(i) = p.snip {
            if p.pre.trim().is_empty() {
                b.supp = Some(SNIPS[i].rule.to_string());
                b.how = r.below(5) as u8;
            }
        }
    }
    b
}
pub fn render_doc(d: &GDoc, bs: &[Blk]) -> (String, Vec<Finding>) {
    let mut t = String::new();
    let mut f = vec![];
    let e = d.eol.as_str();
    for (i, b) in bs.iter().enumerate() {
        if d.rmd {
            t.push_str(&b.prose.replace('\n', e));
            t.push_str(&format!("{}{}{e}", b.fence, b.head));
        }
        let supp = b.supp.as_deref().filter(|r| !by_file(d.rmd, bs, i, r));
        let form = form(d.rmd, bs, i).filter(|_| supp.is_some());
        let rule = supp.unwrap_or_default();
        let why = "because é";
        t.push_str(&match form {
            None => String::new(),
            Some(Form::Node) => format!("# jarl-ignore {rule}: {why}{e}"),
            Some(Form::Tight) => format!("#jarl-ignore {rule}: {why}{e}"),
            Some(Form::Region) => format!("# jarl-ignore-start {rule}: {why}{e}"),
            Some(Form::Chunk) => format!("#| jarl-ignore-chunk:{e}#|   - {rule}: {why}{e}"),
            Some(Form::File) => format!("# jarl-ignore-file {rule}: {why}{e}"),
        });
        for (k, p) in b.pieces.iter().enumerate() {
            let s = p.render().replace('\n', e);
            if let Some(mut x) = p.finding(t.len()) {
                if d.rmd {
                    x.fix = None;
                }
                if !quiet(d.rmd, bs, i, k) {
                    f.push(x);
                }
            }
            t.push_str(&s);
            let last = k + 1 == b.pieces.len();
            if last && form == Some(Form::Region) {
                t.push_str(&format!("{e}# jarl-ignore-end {rule}"));
            }
            if d.rmd || i + 1 < bs.len() || d.last_eol {
                t.push_str(e);
            }
        }
        if d.rmd {
            t.push_str(&b.fence);
            if i + 1 < bs.len() || d.last_eol {
                t.push_str(e);
            }
        }
    }
    (t, f)
}

/// Contents of a project configuration.
/// A piece of code that some rule looks at, from a collection covering them.
pub fn corpus(r: &mut Rng) -> &'static str {
    static C: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let c = C.get_or_init(|| serde_json::from_str(include_str!("corpus.json")).unwrap());
    let i = if r.chance(1, 20) {
        c.len() - 1 - r.us(3)
    } else {
        r.us(c.len())
    };
    &c[i]
}
pub fn toml(r: &mut Rng) -> String {
    let rules = |r: &mut Rng| -> String {
        let k = r.range(1, 4);
        let v: Vec<String> = (0..k)
            .map(|_| {
                if r.chance(1, 6) {
                    format!(
                        "\"{}\"",
                        r.pick(&["PERF", "READ", "SUSP", "TESTTHAT", "ALL", "CORR"])
                    )
                } else {
                    let i = r.us(SNIPS.len());
                    format!("\"{}\"", SNIPS[i].rule)
                }
            })
            .collect();
        format!("[{}]", v.join(", "))
    };
    let mut s = String::from("[lint]\n");
    for _ in 0..r.below(3) {
        match r.below(8) {
            0 if !s.contains("\nselect") => s.push_str(&format!("select = {}\n", rules(r))),
            1 if !s.contains("extend-select") => {
                s.push_str(&format!("extend-select = {}\n", rules(r)))
            }
            2 | 3 if !s.contains("ignore =") => s.push_str(&format!("ignore = {}\n", rules(r))),
            4 if !s.contains("unfixable") => s.push_str(&format!("unfixable = {}\n", rules(r))),
            5 if !s.contains("exclude =") => s.push_str(&format!(
                "exclude = {}\n",
                r.pick(&[
                    "[\"b.R\"]",
                    "[\"sub/\"]",
                    "[\"a*.R\"]",
                    "[]",
                    "[\"zzz/\", \"c.R\"]"
                ])
            )),
            6 if !s.contains("fixable") => s.push_str(&format!("fixable = {}\n", rules(r))),
            _ if !s.contains("exclude") => {
                s.push_str(&format!("default-exclude = {}\n", r.chance(1, 2)))
            }
            _ => {}
        }
    }
    if r.chance(1, 12) {
        s.push_str(&format!(
            "include = {}\n",
            r.pick(&["[\"*.R\"]", "[\"R/\", \"sub/\"]", "[\"a*\", \"**/*.Rmd\"]", "[]"])
        ));
    }
    let tables: &[(&str, &[&str])] = &[
        (
            "duplicated_arguments",
            &[
                "skipped-functions = [\"f\", \"list\"]",
                "extend-skipped-functions = [\"g\"]",
                "skipped-functions = []",
            ],
        ),
        (
            "implicit_assignment",
            &[
                "skipped-functions = [\"f\"]",
                "extend-skipped-functions = [\"any\"]",
                "skipped-functions = []",
            ],
        ),
        (
            "undesirable_function",
            &[
                "functions = [\"browser\", \"any\", \"f\"]",
                "extend-functions = [\"g\", \"is.na\"]",
                "functions = []",
            ],
        ),
        (
            "unreachable_code",
            &[
                "stopping-functions = [\"f\"]",
                "extend-stopping-functions = [\"g\", \"print\"]",
                "stopping-functions = []",
            ],
        ),
    ];
    for (k, vs) in tables {
        if r.chance(1, 12) {
            s.push_str(&format!("[lint.{k}]\n{}\n", r.pick(vs)));
        }
    }
    if r.chance(1, 4) {
        s.push_str(&format!(
            "[lint.assignment]\noperator = \"{}\"\n",
            r.pick(&["<-", "="])
        ));
    }
    if r.chance(1, 6) {
        s.push_str(&format!(
            "[lint.unused_function]\nthreshold-ignore = {}\n",
            r.below(4)
        ));
    }
    s
}
pub const BAD_TOML: &[&str] = &[
    "[lint\n",
    "[lint]\nselect = [\"no_such_rule\"]\n",
    "[lint]\nignore = \"any_is_na\"\n",
    "[lint]\nunknown-field = 1\n",
    "[lint]\nunknown-b = 1\nselekt = []\nexclud = 3\n",
    "[lint]\nselect = [\"no_such_rule\", \"nor_this\"]\nignore = [\"\", \"x\"]\n",
    "[lint.assignment]\nopperator = 1\nfoo = 2\n[foo]\n[bar]\n",
    "[other]\n",
    "[lint.assignment]\noperator = \"->>\"\n",
    "[lint.duplicated_arguments]\nskipped-functions = [\"a\"]\nextend-skipped-functions = [\"b\"]\n",
];
