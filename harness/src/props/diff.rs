//! C30 the token diff.
use crate::geom;
use crate::mapdoc::LENGTHS;
use crate::runner::{Check, Obs, Prop};
use crate::scene::scene;
use crate::sut;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// What the tokenizer makes of a line.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    Comment(String),
    Open,
    Close,
    Prop(String, String),
    Plane(String),
    Other(String),
}
pub fn tokens(text: &str) -> Vec<Tok> {
    text.lines()
        .map(|l| match l.as_bytes().first() {
            Some(b'/') => Tok::Comment(l.into()),
            Some(b'{') => Tok::Open,
            Some(b'}') => Tok::Close,
            Some(b'(') => Tok::Plane(l.into()),
            Some(b'"') => {
                let q: Vec<&str> = l.split('"').collect();
                if q.len() >= 4 {
                    Tok::Prop(q[1].into(), q[3].into())
                } else {
                    Tok::Other(l.into())
                }
            }
            _ => Tok::Other(l.into()),
        })
        .collect()
}

// ---------------------------------------------------------------- debug output

#[derive(Debug, PartialEq)]
enum Val {
    Str(String),
    List(Vec<Val>),
    /// name, fields (named or not)
    Node(String, Vec<(Option<String>, Val)>),
}
struct Reader<'a> {
    s: std::iter::Peekable<std::str::Chars<'a>>,
}
impl Reader<'_> {
    fn ws(&mut self) {
        while self.s.peek().map_or(false, |c| c.is_whitespace()) {
            self.s.next();
        }
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.s.peek() == Some(&c) {
            self.s.next();
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?}, found {:?}", self.s.peek()))
        }
    }
    fn ident(&mut self) -> String {
        self.ws();
        let mut o = String::new();
        while let Some(c) = self.s.peek() {
            if c.is_alphanumeric() || *c == '_' {
                o.push(*c);
                self.s.next();
            } else {
                break;
            }
        }
        o
    }
    fn string(&mut self) -> Result<String, String> {
        let mut o = String::new();
        loop {
            match self.s.next().ok_or("unterminated string")? {
                '"' => return Ok(o),
                '\\' => match self.s.next().ok_or("unterminated escape")? {
                    'n' => o.push('\n'),
                    'r' => o.push('\r'),
                    't' => o.push('\t'),
                    '0' => o.push('\0'),
                    'u' => {
                        self.need('{')?;
                        let h = self.ident();
                        self.need('}')?;
                        let n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                        o.push(char::from_u32(n).ok_or("bad escape")?);
                    }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
    }
    fn val(&mut self) -> Result<Val, String> {
        if self.eat('"') {
            return Ok(Val::Str(self.string()?));
        }
        if self.eat('[') {
            let mut v = vec![];
            while !self.eat(']') {
                v.push(self.val()?);
                self.eat(',');
            }
            return Ok(Val::List(v));
        }
        let name = self.ident();
        if name.is_empty() {
            return Err(format!("unexpected {:?}", self.s.peek()));
        }
        let mut f = vec![];
        if self.eat('(') {
            while !self.eat(')') {
                f.push((None, self.val()?));
                self.eat(',');
            }
        } else if self.eat('{') {
            while !self.eat('}') {
                let k = self.ident();
                self.need(':')?;
                f.push((Some(k), self.val()?));
                self.eat(',');
            }
        }
        Ok(Val::Node(name, f))
    }
}
fn tok(v: &Val) -> Result<Tok, String> {
    let one = |f: &Vec<(Option<String>, Val)>| match f.as_slice() {
        [(None, Val::Str(s))] => Ok(s.clone()),
        _ => Err(format!("unexpected token {v:?}")),
    };
    match v {
        Val::Node(n, f) => match n.as_str() {
            "Comment" => Ok(Tok::Comment(one(f)?)),
            "OpenBrace" => Ok(Tok::Open),
            "CloseBrace" => Ok(Tok::Close),
            "BrushPlane" => Ok(Tok::Plane(one(f)?)),
            "Unrecognized" => Ok(Tok::Other(one(f)?)),
            "Property" => match f.as_slice() {
                [(None, Val::Node(_, p))] => match p.as_slice() {
                    [(Some(a), Val::Str(k)), (Some(b), Val::Str(w))] if a == "key" && b == "value" => {
                        Ok(Tok::Prop(k.clone(), w.clone()))
                    }
                    _ => Err(format!("unexpected property {v:?}")),
                },
                _ => Err(format!("unexpected property {v:?}")),
            },
            _ => Err(format!("unknown token {n}")),
        },
        _ => Err(format!("not a token: {v:?}")),
    }
}
/// (removed, added)
pub fn parse(out: &str) -> Result<(Vec<Tok>, Vec<Tok>), String> {
    let at = if out.starts_with("Diff") { 0 } else { out.find("\nDiff").ok_or("no diff in the output")? + 1 };
    let mut r = Reader { s: out[at..].chars().peekable() };
    let v = r.val()?;
    r.ws();
    if r.s.next().is_some() {
        return Err("output after the diff".into());
    }
    let (mut rem, mut add) = (None, None);
    if let Val::Node(_, f) = &v {
        for (k, w) in f {
            let l = match w {
                Val::List(l) => l.iter().map(tok).collect::<Result<Vec<_>, _>>()?,
                _ => return Err("diff field is not a list".into()),
            };
            match k.as_deref() {
                Some("added") => add = Some(l),
                Some("removed") => rem = Some(l),
                _ => return Err(format!("unknown diff field {k:?}")),
            }
        }
    }
    Ok((rem.ok_or("no removed list")?, add.ok_or("no added list")?))
}

/// Length of the longest common subsequence.
pub fn lcs(a: &[Tok], b: &[Tok]) -> usize {
    let mut row = vec![0usize; b.len() + 1];
    for x in a {
        let mut diag = 0;
        for (j, y) in b.iter().enumerate() {
            let up = row[j + 1];
            row[j + 1] = if x == y { diag + 1 } else { up.max(row[j]) };
            diag = up;
        }
    }
    row[b.len()]
}
/// Whether deleting `rem` from a and `add` from b (each in order) can leave the
/// same sequence.
pub fn explains(a: &[Tok], b: &[Tok], rem: &[Tok], add: &[Tok]) -> bool {
    if a.len() + add.len() != b.len() + rem.len() || rem.len() > a.len() {
        return false;
    }
    // states (i, r, s) before a[i], with r removed and s added so far; j = i - r + s
    let (rn, sn) = (rem.len() + 1, add.len() + 1);
    let mut seen = vec![false; (a.len() + 1) * rn * sn];
    let mut todo = vec![(0usize, 0usize, 0usize)];
    while let Some((i, r, s)) = todo.pop() {
        let k = (i * rn + r) * sn + s;
        if seen[k] {
            continue;
        }
        seen[k] = true;
        let j = i - r + s;
        if i == a.len() && j == b.len() {
            if r == rem.len() && s == add.len() {
                return true;
            }
            continue;
        }
        if i < a.len() && j < b.len() && a[i] == b[j] {
            todo.push((i + 1, r, s));
        }
        if i < a.len() && r < rem.len() && a[i] == rem[r] {
            todo.push((i + 1, r + 1, s));
        }
        if j < b.len() && s < add.len() && b[j] == add[s] {
            todo.push((i, r, s + 1));
        }
    }
    false
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    pub a: Vec<String>,
    pub b: Vec<String>,
    /// 0 LF, 1 CRLF, 2 LF without one at the end; per file
    pub ends: (u8, u8),
}
fn join(l: &[String], e: u8) -> String {
    match e {
        1 => l.iter().map(|s| format!("{s}\r\n")).collect(),
        2 => l.join("\n"),
        _ => l.iter().map(|s| format!("{s}\n")).collect(),
    }
}
const LINES: [&str; 22] = [
    "{", "}", "", "// entity 0", "// brush 1", "\"classname\" \"worldspawn\"", "\"classname\" \"light\"",
    "\"classname\" \"\"", "\"origin\" \"1 2 3\"", "\"origin\" \"1 2 4\"", "\"key\"", "junk", "  {", "/",
    "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex 0 0 0 1 1", "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex 0 0 0 1 2",
    "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex [ 1 0 0 0 ] [ 0 1 0 0 ] 0 1 1", "} ", "{ // open",
    "\"mess age\" \"with \\n [brackets] (and) {braces}, Diff {\"", "\tüber \u{1}", "\"\" \"\"",
];
fn line() -> BoxedStrategy<String> {
    prop_oneof![
        12 => prop::sample::select(LINES.to_vec()).prop_map(|s| s.to_string()),
        2 => "[ -~]{0,12}",
        1 => "\"[a-z]{1,3}\" \"[ !#-~]{0,5}\"",
    ]
    .boxed()
}
/// Few kinds of lines, so that there are many ways to match them up.
fn few() -> BoxedStrategy<String> {
    prop::sample::select(vec!["{", "}", "// a", "\"a\" \"1\"", "( x"]).prop_map(|s| s.to_string()).boxed()
}
#[derive(Clone, Debug)]
enum Edit {
    Insert(u16, String),
    Delete(u16, u8),
    Change(u16, String),
    Dup(u16, u16, u8),
    Move(u16, u16, u8),
    Swap(u16),
    Prepend(String),
    Append(String),
    Chop,
}
fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        3 => (any::<u16>(), line()).prop_map(|(a, l)| Edit::Insert(a, l)),
        3 => (any::<u16>(), 1u8..6).prop_map(|(a, n)| Edit::Delete(a, n)),
        2 => (any::<u16>(), line()).prop_map(|(a, l)| Edit::Change(a, l)),
        2 => (any::<u16>(), any::<u16>(), 1u8..6).prop_map(|(a, b, n)| Edit::Dup(a, b, n)),
        2 => (any::<u16>(), any::<u16>(), 1u8..6).prop_map(|(a, b, n)| Edit::Move(a, b, n)),
        1 => any::<u16>().prop_map(Edit::Swap),
        1 => line().prop_map(Edit::Prepend),
        1 => line().prop_map(Edit::Append),
        1 => Just(Edit::Chop),
    ]
    .boxed()
}
fn apply(v: &mut Vec<String>, e: &Edit) {
    let n = v.len();
    let at = |k: u16| if n == 0 { 0 } else { k as usize % n };
    match e {
        Edit::Insert(k, l) => v.insert(k.clone() as usize % (n + 1), l.clone()),
        Edit::Delete(k, c) => {
            let i = at(*k);
            v.drain(i..(i + *c as usize).min(n));
        }
        Edit::Change(k, l) if n > 0 => v[at(*k)] = l.clone(),
        Edit::Dup(k, t, c) => {
            let i = at(*k);
            let block: Vec<String> = v[i..(i + *c as usize).min(n)].to_vec();
            let t = *t as usize % (n + 1);
            v.splice(t..t, block);
        }
        Edit::Move(k, t, c) => {
            let i = at(*k);
            let block: Vec<String> = v.drain(i..(i + *c as usize).min(n)).collect();
            let t = *t as usize % (v.len() + 1);
            v.splice(t..t, block);
        }
        Edit::Swap(k) if n > 1 => {
            let i = *k as usize % (n - 1);
            v.swap(i, i + 1)
        }
        Edit::Prepend(l) => v.insert(0, l.clone()),
        Edit::Append(l) => v.push(l.clone()),
        Edit::Chop => {
            v.pop();
        }
        _ => {}
    }
}

fn diff(a: &str, b: &str) -> Result<(Vec<Tok>, Vec<Tok>), String> {
    let (pa, pb) = (sut::scratch_file("a.map", a.as_bytes()), sut::scratch_file("b.map", b.as_bytes()));
    let (r, out) = sut::capture_stdout(|| sut::guard("run_diff", || quarchitect::run_diff(&pa, &pb).map_err(|e| e.to_string())));
    r?.map_err(|e| format!("readable files refused: {e}"))?;
    parse(&String::from_utf8(out).map_err(|_| "output is not UTF-8")?)
}

pub struct C30;
impl Prop for C30 {
    type Case = Pair;
    const ID: &'static str = "C30";
    const CASES: (u64, u64) = (360_000, 5_400_000);
    const RULE: &'static str = "pairs of files of 0-40 lines (all token kinds, blank, malformed and repeated lines; alphabets of five lines with many equally good matchings; texts of whole maps) where the second is independent, equal, or made from the first by up to 8 inserts, deletions, changes, moves and duplications, in all three line-ending styles; plus pairs of up to 1300 lines and of lines of up to 70 000 characters; the printed lists are parsed and checked for explaining the difference (exact reachability over all embeddings) and for minimality (longest common subsequence), in both directions and of each file with itself; non-trivial: both lists non-empty";
    fn strategy(_: bool) -> BoxedStrategy<Pair> {
        let ends = || prop_oneof![6 => Just((0u8, 0u8)), 1 => (0u8..3, 0u8..3)];
        let files = prop_oneof![
            3 => prop::collection::vec(line(), 0..20),
            3 => prop::collection::vec(few(), 0..16),
            1 => scene(geom::boxes, 3, 1).prop_map(|s| s.text().lines().map(|l| l.to_string()).collect::<Vec<_>>()),
        ];
        prop_oneof![
            5 => (files, prop::collection::vec(edit(), 0..8), ends()).prop_map(|(a, ed, ends)| {
                let mut a = a;
                a.truncate(40);
                let mut b = a.clone();
                for e in &ed {
                    apply(&mut b, e);
                }
                Pair { a, b, ends }
            }),
            2 => (prop::collection::vec(few(), 0..14), prop::collection::vec(few(), 0..14), ends())
                .prop_map(|(a, b, ends)| Pair { a, b, ends }),
            1 => (prop::collection::vec(line(), 0..14), prop::collection::vec(line(), 0..14), ends())
                .prop_map(|(a, b, ends)| Pair { a, b, ends }),
        ]
        .boxed()
    }
    fn fixed(_: bool) -> Vec<Pair> {
        let n = |k: usize, m: usize| (0..k).map(|i| format!("\"k{}\" \"v\"", i % m)).collect::<Vec<_>>();
        let mut v = vec![];
        for (k, m) in [(400, 400), (400, 7), (300, 2), (70, 1), (257, 300)] {
            let a = n(k, m);
            for e in [
                Edit::Delete(3, 5),
                Edit::Chop,
                Edit::Append("}".into()),
                Edit::Prepend("{".into()),
                Edit::Move(5, 50, 4),
                Edit::Change(k as u16 - 1, "x".into()),
            ] {
                let mut b = a.clone();
                apply(&mut b, &e);
                v.push(Pair { a: a.clone(), b, ends: (0, 0) });
            }
        }
        for (k, m) in [(1100, 1100), (1300, 11)] {
            let a = n(k, m);
            let mut b = a.clone();
            apply(&mut b, &Edit::Append("}".into()));
            apply(&mut b, &Edit::Delete(3, 1));
            v.push(Pair { a, b, ends: (0, 0) });
        }
        for len in LENGTHS {
            let l = "n".repeat(len);
            let a = vec![format!("\"{l}\" \"v\""), format!("\"k\" \"{l}\""), format!("// {l}"), l.clone(), format!("( {l} 0 0 0"), "}".into()];
            let b = a.iter().map(|t| t.replace("nn", "na")).collect();
            let c = a.iter().map(|t| { let at = t.rfind('n').map_or(0, |i| i); if at > 0 { format!("{}m{}", &t[..at], &t[at + 1..]) } else { t.clone() } }).collect();
            v.push(Pair { a: a.clone(), b, ends: (0, 0) });
            v.push(Pair { a, b: c, ends: (0, 0) });
        }
        v.push(Pair { a: vec![], b: n(300, 300), ends: (0, 0) });
        v.push(Pair { a: n(300, 3), b: vec![], ends: (0, 0) });
        v.push(Pair { a: n(300, 300), b: n(300, 300).into_iter().rev().collect(), ends: (0, 0) });
        v.push(Pair { a: vec![], b: vec![], ends: (0, 0) });
        v
    }
    fn check(c: &Pair, obs: &mut Obs) -> Check {
        let (ta, tb) = (join(&c.a, c.ends.0), join(&c.b, c.ends.1));
        let (a, b) = (tokens(&ta), tokens(&tb));
        let (rem, add) = diff(&ta, &tb)?;
        let common = lcs(&a, &b);
        obs.nontrivial(common < a.len() && common < b.len());
        obs.label(match (common == a.len(), common == b.len()) {
            (true, true) => "equal",
            (true, false) => "only additions",
            (false, true) => "only removals",
            _ => "both",
        });
        obs.label_if(a.is_empty() || b.is_empty(), "an empty file");
        obs.label_if((1..a.len()).any(|i| a[..i].contains(&a[i])), "repeated lines");
        if !explains(&a, &b, &rem, &add) {
            return Err(format!("removed {rem:?}, added {add:?} do not turn {a:?} into {b:?}"));
        }
        if rem.len() != a.len() - common || add.len() != b.len() - common {
            return Err(format!(
                "{} removed and {} added where {} and {} are enough: {rem:?}, {add:?}",
                rem.len(), add.len(), a.len() - common, b.len() - common
            ));
        }
        let (r2, a2) = diff(&tb, &ta)?;
        if !explains(&b, &a, &r2, &a2) {
            return Err(format!("swapped files: removed {r2:?}, added {a2:?} do not turn {b:?} into {a:?}"));
        }
        if r2.len() != add.len() || a2.len() != rem.len() {
            return Err(format!("swapped files: {} removed, {} added instead of {} and {}", r2.len(), a2.len(), add.len(), rem.len()));
        }
        for t in [&ta, &tb] {
            let (r, d) = diff(t, t)?;
            if !r.is_empty() || !d.is_empty() {
                return Err(format!("a file differs from itself: {r:?}, {d:?}"));
            }
        }
        Ok(())
    }
}
