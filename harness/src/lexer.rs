//! The DOT lexer.
use crate::core::*;
use dot_parser::lexer::{Lexer, Token};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Tok(Token),
    /// an error that starts at this character
    Bad(usize),
}

fn ws(c: char) -> bool {
    c.is_whitespace()
}

/// The reference: scans the text by position.
fn model(t: &[char]) -> Vec<Step> {
    let mut out = Vec::new();
    let mut i = 0;
    let digits = |mut k: usize| {
        while k < t.len() && t[k].is_ascii_digit() {
            k += 1;
        }
        k
    };
    while i < t.len() {
        let c = t[i];
        let start = i;
        if ws(c) {
            i += 1;
            continue;
        }
        let single = match c {
            '{' => Some(Token::LCurly),
            '}' => Some(Token::RCurly),
            '[' => Some(Token::LSquare),
            ']' => Some(Token::RSquare),
            '=' => Some(Token::Equals),
            ',' => Some(Token::Comma),
            ';' => Some(Token::Semicolon),
            _ => None,
        };
        if let Some(tok) = single {
            out.push(Step::Tok(tok));
            i += 1;
        } else if c == '-' && t.get(i + 1) == Some(&'>') {
            out.push(Step::Tok(Token::Arrow));
            i += 2;
        } else if c == '_' || c.is_ascii_alphabetic() {
            while i < t.len() && (t[i] == '_' || t[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            out.push(Step::Tok(Token::Ident(t[start..i].iter().collect())));
        } else if c.is_ascii_digit() {
            i = digits(i);
            let mut dots = 0;
            while i + 1 < t.len() && t[i] == '.' && t[i + 1].is_ascii_digit() {
                dots += 1;
                i = digits(i + 1);
            }
            let s: String = t[start..i].iter().collect();
            out.push(match dots {
                0 => {
                    let mut v: i128 = 0;
                    for d in s.bytes() {
                        v = (v * 10 + (d - b'0') as i128).min(1 << 80);
                    }
                    if v <= i64::MAX as i128 {
                        Step::Tok(Token::Integer(v as i64))
                    } else {
                        Step::Bad(start)
                    }
                }
                1 => Step::Tok(Token::Float(s.parse().unwrap())),
                _ => Step::Bad(start),
            });
        } else if c == '"' {
            let mut s = String::new();
            let mut closed = false;
            i += 1;
            while i < t.len() {
                match (t[i], t.get(i + 1)) {
                    ('"', _) => {
                        i += 1;
                        closed = true;
                        break;
                    }
                    ('\\', None) => i += 1,
                    ('\\', Some(e)) => {
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            e => s.extend(['\\', *e]),
                        }
                        i += 2;
                    }
                    (x, _) => {
                        s.push(x);
                        i += 1;
                    }
                }
            }
            out.push(if closed { Step::Tok(Token::String(s)) } else { Step::Bad(start) });
        } else {
            out.push(Step::Bad(start));
            i += 1;
        }
    }
    out
}

fn line_col(t: &[char], at: usize) -> (usize, usize) {
    let before = &t[..at];
    let line = 1 + before.iter().filter(|c| **c == '\n').count();
    let col = 1 + before.iter().rev().take_while(|c| **c != '\n').count();
    (line, col)
}

/// Runs the lexer over the whole text, going on after each error.
fn run(text: &str, steps: &[Step], by_iter: bool) -> Result<Vec<(usize, usize)>, String> {
    let t: Vec<char> = text.chars().collect();
    let mut lx = Lexer::new(text);
    ensure!(!lx.has_errors() && lx.errors().is_empty(), "errors before the first token");
    let mut bad = Vec::new();
    let mut get = |lx: &mut Lexer, k: usize| if by_iter && k % 2 == 0 { Iterator::next(lx) } else { lx.next() };
    for (k, s) in steps.iter().enumerate() {
        let tok = get(&mut lx, k);
        match s {
            Step::Tok(e) => {
                ensure!(tok.as_ref() == Some(e), "{:?}, step {}: got {:?}, expected {:?}", text, k, tok, e);
            }
            Step::Bad(at) => {
                ensure!(tok.is_none(), "{:?}, step {}: got {:?}, expected an error at character {}", text, k, tok, at);
                bad.push(line_col(&t, *at));
            }
        }
        ensure_eq!(lx.errors().len(), bad.len(), "{:?}: number of errors after step {}", text, k);
        ensure_eq!(lx.has_errors(), !bad.is_empty(), "{:?}: has_errors after step {}", text, k);
    }
    for k in 0..3 {
        let tok = get(&mut lx, k);
        ensure!(tok.is_none(), "{:?}: {:?} after the end", text, tok);
    }
    ensure_eq!(lx.errors().len(), bad.len(), "{:?}: number of errors at the end", text);
    let mut s = String::new();
    ensure!(lx.write_errors(&mut s).is_ok(), "{:?}: write_errors fails", text);
    // One line for each error.
    let mut got = Vec::new();
    for l in s.lines() {
        let p = l.strip_prefix('(').and_then(|l| l.split_once("): ")).and_then(|(p, m)| p.split_once(", ").map(|p| (p, m)));
        match p {
            Some(((a, b), m)) if !m.is_empty() => got.push((a.parse().unwrap_or(0), b.parse().unwrap_or(0))),
            _ => return Err(format!("{:?}: the error {:?} has no position or no message", text, l)),
        }
    }
    ensure_eq!(got, bad, "{:?}: positions of the errors (lines, columns)", text);
    Ok(bad)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCase {
    parts: Vec<String>,
}
impl TextCase {
    fn text(&self) -> String {
        self.parts.concat().replace('\u{feff}', "")
    }
}

fn s(x: &'static str) -> BoxedStrategy<String> {
    Just(x.to_string()).boxed()
}
fn any_of(list: &'static [&'static str]) -> BoxedStrategy<String> {
    proptest::sample::select(list).prop_map(|x| x.to_string()).boxed()
}
const SPACES: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\r", "\n\n", " \n ", "\u{a0}", "\u{2003}", "\u{3000}", "\u{85}", "\u{2028}", "\u{b}", "\u{c}"];
const PUNCT: &[&str] = &["{", "}", "[", "]", "=", ",", ";", "->", "->", "-> ", "=="];

fn ident() -> BoxedStrategy<String> {
    prop_oneof![1000 => "[A-Za-z_][A-Za-z0-9_]{0,7}", 3 => "[A-Za-z_][A-Za-z0-9_]{20,300}", 1 => "[A-Za-z_][A-Za-z0-9_]{300,5000}"].boxed()
}
fn number() -> BoxedStrategy<String> {
    prop_oneof![
        400 => "[0-9]{1,4}",
        1 => "0{0,300}[0-9]{1,400}",
        1 => "[0-9]{20,400}\\.[0-9]{1,400}",
        1 => "0{1,3}\\.0{280,330}[0-9]{1,20}",
        1 => "[0-9]{1,5}(\\.[0-9]{1,3}){2,200}",
        100 => "0{0,3}[0-9]{15,22}",
        200 => (any::<u64>(), 0u64..5).prop_map(|(a, b)| if b == 0 { a.to_string() } else { ((i64::MAX as u64 - 2) + b).to_string() }),
        400 => "[0-9]{1,5}\\.[0-9]{1,6}",
        100 => "[0-9]{1,25}\\.[0-9]{1,25}",
        100 => "[0-9]{1,2}(\\.[0-9]{1,2}){2,4}",
        100 => "[0-9]{1,3}\\.",
        100 => "\\.[0-9]{1,3}",
    ]
    .boxed()
}
/// What stands between quotes.
fn quoted() -> BoxedStrategy<String> {
    prop_oneof![500 => quoted_of(0..6), 1 => quoted_of(50..800)].boxed()
}
fn quoted_of(pieces: std::ops::Range<usize>) -> BoxedStrategy<String> {
    vec(
        prop_oneof![
            6 => "[a-zA-Z0-9 ,;={}\\->]{1,5}",
            2 => any_of(&["\\n", "\\t", "\\r"]),
            2 => any_of(&["\\\\", "\\\"", "\\l", "\\N", "\\0", "\\ ", "\\é", "\\\n"]),
            1 => any_of(SPACES),
            1 => any::<char>().prop_map(|c| if c == '"' || c == '\\' || c == '\u{feff}' { "x".into() } else { c.to_string() }),
            1 => any_of(&["é", "日本", "😀", "'", "#", "//"]),
        ],
        pieces,
    )
    .prop_map(|v| v.concat())
    .boxed()
}
fn text(max: usize, errors: bool) -> BoxedStrategy<TextCase> {
    let good = prop_oneof![
        6 => any_of(SPACES),
        5 => any_of(PUNCT),
        5 => ident(),
        3 => number(),
        3 => quoted().prop_map(|q| format!("\"{}\"", q)),
    ];
    let bad = prop_oneof![
        4 => any_of(&["-", "--", "- >", "->-", "#", "/", "//", "/*", ".", "..", "+", "'", "\\", "<", ">", "|", "&", "\u{0}", "é", "日", "😀", "\u{200b}", "٣", "ª"]),
        1 => any_of(&["\"", "\"abc", "\"a\\", "\"\\\"", "\"\n"]),
        2 => any::<char>().prop_map(|c| c.to_string()),
        1 => "[ -~]{1,6}",
        1 => s("-"),
    ];
    let frag = if errors { prop_oneof![4 => good, 1 => bad].boxed() } else { prop_oneof![25 => good, 1 => bad].boxed() };
    vec(frag, 0..max).prop_map(|parts| TextCase { parts }).boxed()
}

/// The text begins with more than 65536 times the same.
fn behind_many(c: BoxedStrategy<TextCase>) -> BoxedStrategy<TextCase> {
    (any_of(&["\n", " ", "\t", "a ", "{", "\"\" ", "b\n", "9 \n", "日b=", "a", "0", "\"\n\" "]), 65_530usize..70_000, any::<bool>(), c)
        .prop_map(|(x, n, quoted, mut c)| {
            let many = x.replace('日', "\"日\"").repeat(n);
            c.parts.insert(0, if quoted && !x.contains(['"', '\n', '日']) { format!("\"{}\"", many) } else { many });
            c
        })
        .boxed()
}

fn kinds(steps: &[Step]) -> usize {
    let mut k = std::collections::BTreeSet::new();
    for st in steps {
        k.insert(match st {
            Step::Bad(_) => 0,
            Step::Tok(Token::Ident(_)) => 1,
            Step::Tok(Token::String(_)) => 2,
            Step::Tok(Token::Integer(_)) => 3,
            Step::Tok(Token::Float(_)) => 4,
            Step::Tok(Token::Arrow) => 5,
            _ => 6,
        });
    }
    k.len()
}

struct Model;
impl Part for Model {
    type Case = TextCase;
    const NAME: &'static str = "tokens";
    fn cases(t: Tier) -> u64 {
        t.pick(1_000_000, 20_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<TextCase> {
        let big = t.pick(60, 120);
        prop_oneof![4000 => text(12, true), 3000 => text(big, false), 1000 => text(4, true), 1 => text(6000, true), 1 => text(6000, false), 1 => behind_many(text(12, true))].boxed()
    }
    fn check(c: &TextCase, cx: &mut Ctx) -> Check {
        let text = c.text();
        let t: Vec<char> = text.chars().collect();
        let steps = model(&t);
        let bad = run(&text, &steps, c.parts.len() % 2 == 0)?;
        cx.label_if(!bad.is_empty(), "with-errors");
        cx.nt_if(steps.len() >= 5 && kinds(&steps) >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- round trip

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Item {
    Punct(usize),
    Ident(String),
    Int(i64),
    /// digits before and after the point
    Float(String, String),
    /// pieces: (as written, as meant)
    Str(Vec<(String, String)>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RenderCase {
    items: Vec<(Item, Vec<usize>)>,
    lead: Vec<usize>,
}
fn item() -> BoxedStrategy<Item> {
    let piece = prop_oneof![
        5 => "[a-zA-Z0-9 ,;={}\\->éß日😀\n]{1,6}".prop_map(|x| (x.clone(), x)),
        1 => Just(("\\n".to_string(), "\n".to_string())),
        1 => Just(("\\t".to_string(), "\t".to_string())),
        1 => Just(("\\r".to_string(), "\r".to_string())),
        1 => any_of(&["\\\\", "\\\"", "\\l", "\\N", "\\G", "\\é", "\\\n"]).prop_map(|x| (x.clone(), x)),
        1 => any_of(SPACES).prop_map(|x| (x.clone(), x)),
        1 => any::<char>().prop_map(|c| if c == '"' || c == '\\' || c == '\u{feff}' { 'x' } else { c }).prop_map(|c| (c.to_string(), c.to_string())),
    ]
    .boxed();
    prop_oneof![
        4 => (0usize..8).prop_map(Item::Punct),
        4 => ident().prop_map(Item::Ident),
        2 => prop_oneof![0i64..100, 0i64..=i64::MAX, Just(i64::MAX)].prop_map(Item::Int),
        2 => ("[0-9]{1,6}", "[0-9]{1,9}").prop_map(|(a, b)| Item::Float(a, b)),
        3 => prop_oneof![200 => vec(piece.clone(), 0..5), 1 => vec(piece, 40..300)].prop_map(Item::Str),
    ]
    .boxed()
}
struct Render;
impl Part for Render {
    type Case = RenderCase;
    const NAME: &'static str = "round-trip";
    fn cases(t: Tier) -> u64 {
        t.pick(500_000, 10_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<RenderCase> {
        let sp = || vec(0usize..SPACES.len(), 0..3);
        (prop_oneof![4000 => vec((item(), sp()), 0..t.pick(20, 60)), 1 => vec((item(), sp()), 500..4000)], sp()).prop_map(|(items, lead)| RenderCase { items, lead }).boxed()
    }
    fn check(c: &RenderCase, cx: &mut Ctx) -> Check {
        // Two renderings of the same tokens: with the given spaces, and with as few as possible.
        let mut wide: String = c.lead.iter().map(|k| SPACES[*k]).collect();
        let mut narrow = String::new();
        let mut toks = Vec::new();
        for (i, (it, sp)) in c.items.iter().enumerate() {
            let (written, tok) = match it {
                Item::Punct(k) => [("{", Token::LCurly), ("}", Token::RCurly), ("[", Token::LSquare), ("]", Token::RSquare), ("=", Token::Equals), (",", Token::Comma), (";", Token::Semicolon), ("->", Token::Arrow)]
                    .into_iter()
                    .nth(*k % 8)
                    .map(|(a, b)| (a.to_string(), b))
                    .unwrap(),
                Item::Ident(x) => (x.clone(), Token::Ident(x.clone())),
                Item::Int(x) => (x.to_string(), Token::Integer(*x)),
                Item::Float(a, b) => (format!("{}.{}", a, b), Token::Float(format!("{}.{}", a, b).parse().unwrap())),
                Item::Str(p) => (format!("\"{}\"", p.iter().map(|x| x.0.as_str()).collect::<String>()), Token::String(p.iter().map(|x| x.1.as_str()).collect())),
            };
            toks.push(tok);
            wide.push_str(&written);
            narrow.push_str(&written);
            let wordy = |it: &Item| matches!(it, Item::Ident(_) | Item::Int(_) | Item::Float(..));
            let needs = match c.items.get(i + 1) {
                Some((Item::Ident(_), _)) => matches!(it, Item::Ident(_)),
                Some((next, _)) => wordy(it) && wordy(next),
                None => false,
            };
            let spaces: String = sp.iter().map(|k| SPACES[*k]).collect();
            wide.push_str(&spaces);
            if needs {
                narrow.push(' ');
                if spaces.is_empty() {
                    wide.push('\n');
                }
            }
        }
        for text in [&wide, &narrow] {
            let mut lx = Lexer::new(text);
            let got: Vec<Token> = lx.by_ref().collect();
            ensure!(!lx.has_errors(), "{:?}: {} errors", text, lx.errors().len());
            ensure_eq!(got, toks, "tokens of {:?}", text);
            let probe = mix(text.len() as u64, toks.len() as u64);
            drive_all("the lexer as an iterator", Lexer::new(text), |t| t, &toks, probe)?;
        }
        cx.nt_if(toks.len() >= 5 && wide != narrow);
        Ok(())
    }
}

// ---------------------------------------------------------------- positions

struct Positions;
impl Part for Positions {
    type Case = TextCase;
    const NAME: &'static str = "positions";
    fn cases(t: Tier) -> u64 {
        t.pick(500_000, 10_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<TextCase> {
        let line = || {
            let frag = prop_oneof![
                4 => ident(),
                3 => any_of(&[" ", "  ", "\t", "\u{3000}", "\u{a0}"]),
                2 => any_of(&["\"é日😀\"", "\"two\nlines\"", "\"a\r\nb\"", "\"\\n\""]),
                2 => number(),
                3 => any_of(&["é", "日", "😀", "#", "-", "+", "1.2.3", "99999999999999999999", "."]),
                1 => any_of(PUNCT),
            ];
            vec(frag, 0..6).prop_map(|v| v.concat())
        };
        let end = || prop_oneof![6 => s("\n"), 2 => s("\r\n"), 1 => s("\r"), 1 => s("\u{2028}"), 2 => s("\n\n")];
        let tail = prop_oneof![4 => s(""), 1 => quoted().prop_map(|q| format!("\"{}", q))];
        (prop_oneof![4000 => vec((line(), end()), 0..t.pick(8, 30)), 1 => vec((line(), end()), 200..3000)], line(), tail)
            .prop_map(|(l, last, tail)| {
                let mut parts: Vec<String> = l.into_iter().flat_map(|(a, b)| [a, b]).collect();
                parts.extend([last, tail]);
                TextCase { parts }
            })
            .prop_flat_map(|c| prop_oneof![2000 => Just(c.clone()), 1 => behind_many(Just(c).boxed())])
            .boxed()
    }
    fn check(c: &TextCase, cx: &mut Ctx) -> Check {
        let text = c.text();
        let t: Vec<char> = text.chars().collect();
        let bad = run(&text, &model(&t), false)?;
        cx.nt_if(bad.len() >= 2 && bad.iter().any(|p| p.0 >= 2 && p.1 >= 2));
        Ok(())
    }
}

pub fn props() -> Vec<PropDef> {
    const DOM: &[&str] = &["texts without U+FEFF"];
    vec![
        PropDef {
            id: "L01",
            rule: "texts of random fragments (words, numbers of all lengths and with several points, quoted strings with escapes, all kinds of spaces, stray characters, unterminated strings) against a scanner by position; each result is compared, and scanning goes on after errors; non-trivial: five or more tokens of three or more kinds",
            assumptions: DOM,
            parts: vec![part::<Model>()],
        },
        PropDef {
            id: "L02",
            rule: "random token lists, written with random spaces and with as few as possible, and read back; non-trivial: five or more tokens and two different texts",
            assumptions: DOM,
            parts: vec![part::<Render>()],
        },
        PropDef {
            id: "L03",
            rule: "texts of several lines with stray characters, bad numbers, strings over several lines and characters of one to four bytes; the reported positions against counting; non-trivial: two or more errors, one of them neither in the first line nor in the first column",
            assumptions: DOM,
            parts: vec![part::<Positions>()],
        },
    ]
}
