//! A reader for FGD text, written from the format and independent of the crate.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Num(String),
    Str(String),
}
impl Val {
    pub fn text(&self) -> &str {
        match self {
            Val::Num(s) | Val::Str(s) => s,
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Meta {
    Base(Vec<String>),
    Color(Vec<String>),
    Size(Vec<String>),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Prop {
    pub name: String,
    pub kind: String,
    pub short: Option<String>,
    pub default: Option<Val>,
    pub long: Option<String>,
    pub choices: Option<Vec<(Val, String)>>,
    pub flags: Option<Vec<(String, String, String)>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Class {
    pub kind: String,
    pub meta: Vec<Meta>,
    pub name: String,
    pub desc: Option<String>,
    pub props: Vec<Prop>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Doc {
    pub comments: Vec<String>,
    pub includes: Vec<String>,
    pub classes: Vec<Class>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Str(String),
    P(char),
}

fn lex(s: &str, comments: &mut Vec<String>) -> Result<Vec<Tok>, String> {
    let mut out = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            ' ' | '\t' | '\n' | '\r' => {}
            '/' if it.peek() == Some(&'/') => {
                it.next();
                let mut t = String::new();
                while let Some(c) = it.next() {
                    if c == '\n' {
                        break;
                    }
                    t.push(c);
                }
                comments.push(t);
            }
            '"' => {
                let mut t = String::new();
                loop {
                    match it.next() {
                        None => return Err("unterminated string".into()),
                        Some('"') => break,
                        Some('\n') => return Err(format!("line break in string {t:?}")),
                        Some(c) => t.push(c),
                    }
                }
                out.push(Tok::Str(t));
            }
            '(' | ')' | '=' | ':' | '[' | ']' | ',' => out.push(Tok::P(c)),
            c => {
                let mut t = String::from(c);
                while let Some(c) = it.peek() {
                    if " \t\r\n()=:[],\"".contains(*c) {
                        break;
                    }
                    t.push(*c);
                    it.next();
                }
                out.push(Tok::Word(t));
            }
        }
    }
    Ok(out)
}

struct P {
    t: Vec<Tok>,
    i: usize,
}
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn here(&self) -> String {
        format!("at token {} of {}: {:?}", self.i, self.t.len(), &self.t[self.i.min(self.t.len())..(self.i + 4).min(self.t.len())])
    }
    fn want(&mut self, c: char) -> Result<(), String> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?} {}", self.here()))
        }
    }
    fn word(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(Tok::Word(w)) => {
                self.i += 1;
                Ok(w.clone())
            }
            _ => Err(format!("expected a word {}", self.here())),
        }
    }
    fn string(&mut self) -> Result<String, String> {
        match self.t.get(self.i) {
            Some(Tok::Str(w)) => {
                self.i += 1;
                Ok(w.clone())
            }
            _ => Err(format!("expected a string {}", self.here())),
        }
    }
    fn val(&mut self) -> Result<Val, String> {
        match self.t.get(self.i).cloned() {
            Some(Tok::Str(w)) => {
                self.i += 1;
                Ok(Val::Str(w))
            }
            Some(Tok::Word(w)) => {
                self.i += 1;
                Ok(Val::Num(w))
            }
            _ => Err(format!("expected a value {}", self.here())),
        }
    }
}

pub fn parse(s: &str) -> Result<Doc, String> {
    let mut d = Doc::default();
    let t = lex(s, &mut d.comments)?;
    let mut p = P { t, i: 0 };
    while let Some(t) = p.peek().cloned() {
        let w = match t {
            Tok::Word(w) => w,
            _ => return Err(format!("expected @ {}", p.here())),
        };
        p.i += 1;
        if w.eq_ignore_ascii_case("@include") {
            d.includes.push(p.string()?);
            continue;
        }
        let mut c = Class { kind: w, meta: vec![], name: String::new(), desc: None, props: vec![] };
        while !p.eat('=') {
            let k = p.word()?;
            p.want('(')?;
            let mut a = vec![];
            while !p.eat(')') {
                a.push(p.word()?);
                if k != "color" && !p.eat(',') && p.peek() != Some(&Tok::P(')')) {
                    return Err(format!("expected ',' {}", p.here()));
                }
            }
            c.meta.push(match k.as_str() {
                "base" => Meta::Base(a),
                "color" => Meta::Color(a),
                "size" => Meta::Size(a),
                _ => return Err(format!("unknown class attribute {k:?}")),
            });
        }
        c.name = p.word()?;
        if p.eat(':') {
            c.desc = Some(p.string()?);
        }
        p.want('[')?;
        while !p.eat(']') {
            c.props.push(prop(&mut p)?);
        }
        d.classes.push(c);
    }
    Ok(d)
}
fn prop(p: &mut P) -> Result<Prop, String> {
    let name = p.word()?;
    p.want('(')?;
    let kind = p.word()?;
    p.want(')')?;
    let mut q = Prop { name, kind, ..Prop::default() };
    if p.eat(':') {
        q.short = Some(p.string()?);
        if p.eat(':') {
            if p.peek() != Some(&Tok::P(':')) {
                q.default = Some(p.val()?);
            }
            if p.eat(':') {
                q.long = Some(p.string()?);
            }
        }
    }
    if p.eat('=') {
        p.want('[')?;
        if q.kind == "flags" {
            let mut v = vec![];
            while !p.eat(']') {
                let bit = p.word()?;
                p.want(':')?;
                let label = p.string()?;
                p.want(':')?;
                v.push((bit, label, p.word()?));
            }
            q.flags = Some(v);
        } else {
            let mut v = vec![];
            while !p.eat(']') {
                let x = p.val()?;
                p.want(':')?;
                v.push((x, p.string()?));
            }
            q.choices = Some(v);
        }
    }
    Ok(q)
}
