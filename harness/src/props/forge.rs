//! C05 defaults, C23 FGD text, C24 saving.
use crate::fgd::{self, Val};
use crate::mapdoc::*;
use crate::runner::{Check, KnownFinding, Obs, Prop};
use crate::sut::{self, ChoiceVal, Cfg, FgdClass, FgdData, FgdDoc, FgdMeta, FgdProp, PVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- generators

fn ident() -> BoxedStrategy<String> {
    prop_oneof![160 => "[a-z_][a-z0-9_]{0,9}", 40 => "[A-Za-z][A-Za-z0-9_.-]{0,14}", 1 => long_s()].boxed()
}
/// Free text without quotes or line breaks.
fn prose() -> BoxedStrategy<String> {
    prop_oneof![
        80 => "[a-z ]{0,16}",
        40 => "[ !#-~]{0,40}",
        1 => long_s(),
        40 => prop::sample::select(vec!["", " ", ":", " : ", "[", "]", "= [", "@PointClass", "// no", "\\", "ü – 日本", "(1)", "base(a, b)", "1 : 2", ","])
            .prop_map(|s: &str| s.to_string()),
    ]
    .boxed()
}
fn num() -> BoxedStrategy<f32> {
    prop_oneof![
        3 => (-1000i32..1000).prop_map(|v| v as f32),
        2 => dy(-100000..100000, 64.0),
        2 => any::<f32>().prop_filter_map("finite", |v| if v.is_finite() { Some(v) } else { None }),
        1 => prop::sample::select(vec![0.0f32, -0.0, 0.1, 1e-7, 123456790.0, f32::MAX, f32::MIN_POSITIVE, 1e-45, 16777216.0, 0.3, 1.0 / 3.0]),
    ]
    .boxed()
}
fn int() -> BoxedStrategy<i32> {
    prop_oneof![3 => -100i32..1000, 1 => any::<i32>(), 1 => prop::sample::select(vec![i32::MIN, i32::MAX, 0, -1])].boxed()
}
fn color() -> BoxedStrategy<[f32; 3]> {
    let c = || prop_oneof![2 => dy(0..1025, 1024.0), 2 => (0i32..256).prop_map(|v| v as f32 / 255.0), 1 => 0.0f32..1.0, 1 => Just(1.0f32), 1 => Just(0.0f32)];
    [c(), c(), c()].boxed()
}
fn choice() -> BoxedStrategy<(String, ChoiceVal)> {
    (
        prose(),
        prop_oneof![int().prop_map(ChoiceVal::I), num().prop_map(ChoiceVal::F), prose().prop_map(ChoiceVal::S)],
    )
        .boxed()
}
fn data() -> BoxedStrategy<FgdData> {
    prop_oneof![
        int().prop_map(FgdData::Integer),
        num().prop_map(FgdData::Float),
        [num(), num(), num()].prop_map(FgdData::Vector3),
        prose().prop_map(FgdData::String),
        color().prop_map(FgdData::Color),
        (prop::collection::vec(choice(), 1..9), any::<u16>()).prop_map(|(c, d)| {
            let d = d as i32 % c.len() as i32;
            FgdData::Choices(c, d)
        }),
        (prop_oneof![2 => prop::collection::vec(prose(), 0..8), 1 => prop::collection::vec(prose(), 8..32)], any::<i32>())
            .prop_map(|(f, d)| FgdData::Flags(f, d)),
        Just(FgdData::TargetSource),
        Just(FgdData::TargetDestination),
    ]
    .boxed()
}
fn prop_s() -> BoxedStrategy<FgdProp> {
    (ident(), prose(), prose(), data()).prop_map(|(name, short, long, data)| FgdProp { name, short, long, data }).boxed()
}
fn meta() -> BoxedStrategy<FgdMeta> {
    prop_oneof![
        prop::collection::vec(ident(), 0..5).prop_map(FgdMeta::Base),
        color().prop_map(FgdMeta::Color),
        ([num(), num(), num()], [num(), num(), num()]).prop_map(|(a, b)| FgdMeta::Size(a, b)),
    ]
    .boxed()
}
fn class_s() -> BoxedStrategy<FgdClass> {
    (0u8..3, prop::collection::vec(meta(), 0..4), ident(), prose(), prop::collection::vec(prop_s(), 0..7))
        .prop_map(|(kind, meta, name, desc, props)| FgdClass { kind, meta, name, desc, props })
        .boxed()
}
fn doc_s() -> BoxedStrategy<FgdDoc> {
    (prose(), prop::collection::vec("[a-z0-9_./]{0,12}", 0..5), prop::collection::vec(class_s(), 0..6))
        .prop_map(|(name, includes, classes)| FgdDoc { name, includes, classes })
        .boxed()
}
fn text_of(d: &FgdDoc) -> Result<String, String> {
    sut::guard("to_string", || sut::qfgd(d).to_string())
}

// ---------------------------------------------------------------- C23

fn same_f32(t: &str, v: f32) -> bool {
    t.parse::<f32>().map_or(false, |x| x == v && x.is_sign_negative() == v.is_sign_negative())
}
fn same_color(t: &[&str], c: [f32; 3]) -> bool {
    t.len() == 3
        && (0..3).all(|i| match t[i].parse::<i64>() {
            // truncated, whichever precision the product is taken in
            Ok(v) => v == (c[i] * 255.0) as i64 || v == (c[i] as f64 * 255.0) as i64,
            Err(_) => false,
        })
}
fn same_choice(v: &Val, c: &ChoiceVal) -> bool {
    match (v, c) {
        (Val::Num(t), ChoiceVal::I(i)) => t.parse::<i32>() == Ok(*i),
        (Val::Num(t), ChoiceVal::F(f)) => same_f32(t, *f),
        (Val::Str(t), ChoiceVal::S(s)) => t == s,
        _ => false,
    }
}
fn check_prop(p: &FgdProp, g: &fgd::Prop) -> Check {
    let err = |m: &str| Err(format!("{m}: {p:?} reads back as {g:?}"));
    if g.name != p.name {
        return err("name");
    }
    let kind = match &p.data {
        FgdData::Integer(_) => "integer",
        FgdData::Float(_) => "float",
        FgdData::Vector3(_) | FgdData::String(_) => "string",
        FgdData::Color(_) => "color255",
        FgdData::Choices(..) => "choices",
        FgdData::Flags(..) => "flags",
        FgdData::TargetSource => "target_source",
        FgdData::TargetDestination => "target_destination",
    };
    if g.kind != kind {
        return err("kind");
    }
    let flags = matches!(p.data, FgdData::Flags(..));
    let choices = matches!(p.data, FgdData::Choices(..));
    if !flags && g.short.as_ref() != Some(&p.short) {
        return err("short description");
    }
    if !flags && !choices && g.long.as_ref() != Some(&p.long) {
        return err("long description");
    }
    // descriptions the format does not need must at least be right when given
    if g.short.as_ref().map_or(false, |s| *s != p.short) || g.long.as_ref().map_or(false, |s| *s != p.long) {
        return err("description");
    }
    let d = g.default.as_ref();
    let ok = match &p.data {
        FgdData::Integer(i) => d.map_or(false, |v| v.text().parse::<i32>() == Ok(*i)),
        FgdData::Float(f) => d.map_or(false, |v| same_f32(v.text(), *f)),
        FgdData::Vector3(v) => match d {
            Some(Val::Str(s)) => {
                let c: Vec<&str> = s.split(' ').collect();
                c.len() == 3 && (0..3).all(|i| same_f32(c[i], v[i]))
            }
            _ => false,
        },
        FgdData::String(s) => d == Some(&Val::Str(s.clone())),
        FgdData::Color(c) => match d {
            Some(Val::Str(s)) => same_color(&s.split(' ').collect::<Vec<_>>(), *c),
            _ => false,
        },
        FgdData::Choices(c, i) => match (d, &c[*i as usize].1) {
            (Some(v), ChoiceVal::I(i)) => v.text().parse::<i32>() == Ok(*i),
            (Some(v), ChoiceVal::F(f)) => same_f32(v.text(), *f),
            (Some(v), ChoiceVal::S(s)) => v.text() == s,
            _ => false,
        },
        FgdData::Flags(..) | FgdData::TargetSource | FgdData::TargetDestination => d.is_none(),
    };
    if !ok {
        return err("default");
    }
    match (&p.data, &g.choices) {
        (FgdData::Choices(c, _), Some(v)) => {
            if v.len() != c.len() || v.iter().zip(c).any(|(v, c)| v.1 != c.0 || !same_choice(&v.0, &c.1)) {
                return err("choices");
            }
        }
        (FgdData::Choices(..), None) => return err("choices are missing"),
        (_, None) => {}
        (_, Some(_)) => return err("choices out of place"),
    }
    match (&p.data, &g.flags) {
        (FgdData::Flags(f, def), Some(v)) => {
            if v.len() != f.len() {
                return err("number of flags");
            }
            for (i, (bit, label, on)) in v.iter().enumerate() {
                if bit.parse::<i64>() != Ok(1i64 << i) || *label != f[i] || on.parse::<i32>() != Ok((def >> i) & 1) {
                    return err(&format!("flag {i}"));
                }
            }
        }
        (FgdData::Flags(..), None) => return err("flags are missing"),
        (_, None) => {}
        (_, Some(_)) => return err("flags out of place"),
    }
    Ok(())
}
fn check_doc(d: &FgdDoc, g: &fgd::Doc) -> Check {
    if g.comments.first().map(|c| c.strip_prefix(' ').unwrap_or(c)) != Some(d.name.as_str()) {
        return Err(format!("name {:?} reads back as comments {:?}", d.name, g.comments));
    }
    if g.includes != d.includes {
        return Err(format!("includes {:?} read back as {:?}", d.includes, g.includes));
    }
    if g.classes.len() != d.classes.len() {
        return Err(format!("{} classes read back as {}", d.classes.len(), g.classes.len()));
    }
    for (c, k) in d.classes.iter().zip(&g.classes) {
        let kind = ["@baseclass", "@pointclass", "@solidclass"][c.kind as usize];
        if k.kind.to_lowercase() != kind || k.name != c.name || k.desc.as_ref() != Some(&c.desc) {
            return Err(format!("class {c:?} reads back as {k:?}"));
        }
        let same = |m: &FgdMeta, g: &fgd::Meta| match (m, g) {
            (FgdMeta::Base(a), fgd::Meta::Base(b)) => a == b,
            (FgdMeta::Color(c), fgd::Meta::Color(t)) => same_color(&t.iter().map(|s| s.as_str()).collect::<Vec<_>>(), *c),
            (FgdMeta::Size(a, b), fgd::Meta::Size(t)) => {
                t.len() == 6 && (0..6).all(|i| same_f32(&t[i], if i < 3 { a[i] } else { b[i - 3] }))
            }
            _ => false,
        };
        if k.meta.len() != c.meta.len() || c.meta.iter().zip(&k.meta).any(|(a, b)| !same(a, b)) {
            return Err(format!("class {}: {:?} reads back as {:?}", c.name, c.meta, k.meta));
        }
        if k.props.len() != c.props.len() {
            return Err(format!("class {}: {} properties read back as {}", c.name, c.props.len(), k.props.len()));
        }
        for (p, g) in c.props.iter().zip(&k.props) {
            check_prop(p, g).map_err(|m| format!("class {}: {m}", c.name))?;
        }
    }
    Ok(())
}

pub struct C23;
impl Prop for C23 {
    type Case = FgdDoc;
    const ID: &'static str = "C23";
    const CASES: (u64, u64) = (240_000, 3_600_000);
    const RULE: &'static str = "game data of 0-5 includes and 0-5 classes with 0-3 attributes and 0-6 properties of all nine kinds (any finite numbers, texts full of FGD punctuation, 1-8 choices of three kinds, 0-31 flags with any default bits), read back by an independent FGD reader and compared field by field; non-trivial: at least one property";
    const ASSUME: &'static [&'static str] = &["texts without quotes and line breaks, names of word characters, colours from 0 to 1, choice defaults in range"];
    fn strategy(_: bool) -> BoxedStrategy<FgdDoc> {
        doc_s()
    }
    fn fixed(_: bool) -> Vec<FgdDoc> {
        let p = |data: FgdData| FgdProp { name: "p".into(), short: "s".into(), long: "l".into(), data };
        let flags = |n: usize, d: i32| FgdData::Flags((0..n).map(|i| format!("f{i}")).collect(), d);
        let mut props = vec![];
        for n in [0, 1, 2, 8, 24, 30, 31] {
            for d in [0, 1, -1, i32::MAX, i32::MIN, 0x5555_5555, 1 << 30] {
                props.push(p(flags(n, d)));
            }
        }
        for k in 0..256 {
            props.push(p(FgdData::Color([k as f32 / 255.0, k as f32 / 256.0, 1.0 - k as f32 / 255.0])));
        }
        let many: Vec<(String, ChoiceVal)> = (0..100).map(|i| (format!("c{i}"), ChoiceVal::I(i - 50))).collect();
        for d in [0, 1, 50, 99] {
            props.push(p(FgdData::Choices(many.clone(), d)));
        }
        let class = FgdClass { kind: 1, meta: vec![], name: "c".into(), desc: "d".into(), props };
        let small = |i: usize| FgdClass { kind: (i % 3) as u8, meta: vec![FgdMeta::Base((0..i).map(|b| format!("b{b}")).collect())], name: format!("c{i}"), desc: String::new(), props: vec![] };
        let long = |i: usize| {
            let t = |c: &str| c.repeat(LENGTHS[i]);
            let data = [
                FgdData::String(t("v")),
                FgdData::Choices((0..300).map(|i| (format!("c{i}"), ChoiceVal::S(t("w")))).take(if i < 12 { 300 } else { 2 }).collect(), 1),
                FgdData::Flags(vec![t("f"); 31], 1 << 30),
            ];
            FgdClass {
                kind: (i % 3) as u8,
                meta: vec![FgdMeta::Base(vec![t("b")])],
                name: t("c"),
                desc: t("d"),
                props: data.into_iter().map(|data| FgdProp { name: t("n"), short: t("s"), long: t("l"), data }).collect(),
            }
        };
        vec![
            FgdDoc { name: "n".into(), includes: vec![], classes: vec![class] },
            FgdDoc { name: "".into(), includes: (0..40).map(|i| format!("i{i}.fgd")).collect(), classes: (0..40).map(small).collect() },
            FgdDoc { name: "".into(), includes: (0..300).map(|i| format!("i{i}.fgd")).collect(), classes: (0..300).map(small).collect() },
            FgdDoc { name: "l".repeat(70_000), includes: vec!["i".repeat(70_000)], classes: (0..LENGTHS.len()).map(long).collect() },
            FgdDoc::default(),
        ]
    }
    fn check(d: &FgdDoc, obs: &mut Obs) -> Check {
        for c in &d.classes {
            for p in &c.props {
                obs.nontrivial(true);
                let k = format!("{:?}", p.data);
                obs.label(k.split(|c| c == '(' || c == ' ').next().unwrap());
            }
            for m in &c.meta {
                let k = format!("{m:?}");
                obs.label(k.split('(').next().unwrap());
            }
        }
        let t = text_of(d)?;
        let g = fgd::parse(&t).map_err(|m| format!("the FGD text does not read: {m}\n{t}"))?;
        check_doc(d, &g)?;
        if text_of(d)? != t {
            return Err("printing twice gives two texts".into());
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Defaults {
    props: Vec<FgdProp>,
    /// which of them the first entity spells out
    spell: Vec<bool>,
    kind: u8,
    excluded: u32,
}
fn defaults_doc(props: &[FgdProp], kind: u8) -> FgdDoc {
    FgdDoc {
        name: "defaults".into(),
        includes: vec![],
        classes: vec![FgdClass { kind, meta: vec![], name: "thing".into(), desc: "d".into(), props: props.to_vec() }],
    }
}
/// The value an editor would write for the default the FGD text states.
fn spelled(p: &fgd::Prop) -> Option<String> {
    match &p.flags {
        Some(f) => Some(
            f.iter()
                .filter(|f| f.2 != "0")
                .map(|f| f.0.parse::<i64>().unwrap_or(0))
                .sum::<i64>()
                .to_string(),
        ),
        None => p.default.as_ref().map(|v| v.text().to_string()),
    }
}
fn compare_defaults(props: &[FgdProp], spell: &[bool], kind: u8) -> Check {
    let doc = defaults_doc(props, kind);
    let t = text_of(&doc)?;
    let g = fgd::parse(&t).map_err(|m| format!("the FGD text does not read: {m}\n{t}"))?;
    let gp = &g.classes.first().ok_or("the FGD text has no class")?.props;
    let mut with = Ent::new("thing");
    let mut said = vec![];
    for (i, p) in gp.iter().enumerate() {
        if spell.get(i) == Some(&true) {
            if let Some(s) = spelled(p) {
                said.push((p.name.clone(), s.clone()));
                with.props.push((p.name.clone(), s));
            }
        }
    }
    let ents = [Ent::new("worldspawn"), with, Ent::new("thing")];
    let cfg = Cfg { fgd: doc, ..Cfg::default() };
    let tree = sut::run_ok(&text(&ents), &cfg)?;
    let acts = flat_actors(&tree, &ents)?;
    let (a, b) = (&actor(acts[1]).props, &actor(acts[2]).props);
    for p in props {
        let (x, y) = (a.get(&p.name), b.get(&p.name));
        let same = match (x, y) {
            (Some(PVal::Color(x)), Some(PVal::Color(y))) => (0..3).all(|i| (x[i] - y[i]).abs() <= 1.0 / 255.0 + 1e-6),
            (Some(PVal::Float(x)), Some(PVal::Float(y))) => x == y,
            (Some(x), Some(y)) => x == y,
            _ => false,
        };
        if !same {
            let t = said.iter().find(|s| s.0 == p.name).map(|s| s.1.as_str());
            return Err(format!("{:?}: spelled out as {t:?} gives {x:?}, left out {y:?}", p));
        }
    }
    Ok(())
}

pub struct C05;
impl Prop for C05 {
    type Case = Defaults;
    const ID: &'static str = "C05";
    const CASES: (u64, u64) = (300_000, 4_500_000);
    const RULE: &'static str = "FGD classes of 1-8 properties of all nine kinds; the default is taken from the generated FGD text by an independent reader (flags: the sum of the bits that are on) and written into one map entity, left out in another; non-trivial: at least one default spelled out; choices whose default value differs from its position are known finding K1 and are generated with equal ones instead (counted as 'choices adjusted')";
    const ASSUME: &'static [&'static str] = &["flag defaults use only listed flags; colours from 0 to 1; texts without quotes and line breaks"];
    fn strategy(_: bool) -> BoxedStrategy<Defaults> {
        (prop::collection::vec((ident(), prose(), data()), 1..9), prop::collection::vec(any::<bool>(), 8), 0u8..3)
            .prop_map(|(v, mut spell, kind)| {
                let mut props: Vec<FgdProp> = vec![];
                let mut excluded = 0;
                for (name, short, mut data) in v {
                    if ["classname", "origin"].contains(&name.as_str()) || name.starts_with("_tb_") || props.iter().any(|p| p.name == name) {
                        continue;
                    }
                    match &mut data {
                        FgdData::Choices(c, d) => {
                            let def = &mut c[*d as usize].1;
                            let fine = match def {
                                ChoiceVal::I(i) => i == d,
                                ChoiceVal::F(f) => *f == *d as f32,
                                ChoiceVal::S(s) => *s == d.to_string(),
                            };
                            if !fine {
                                excluded += 1;
                                *def = match def {
                                    ChoiceVal::I(_) => ChoiceVal::I(*d),
                                    ChoiceVal::F(_) => ChoiceVal::F(*d as f32),
                                    ChoiceVal::S(_) => ChoiceVal::S(d.to_string()),
                                };
                            }
                        }
                        FgdData::Flags(f, d) => *d &= ((1i64 << f.len()) - 1) as i32,
                        _ => {}
                    }
                    props.push(FgdProp { name, short, long: String::new(), data });
                }
                spell[0] = true;
                Defaults { props, spell, kind, excluded }
            })
            .boxed()
    }
    fn fixed(_: bool) -> Vec<Defaults> {
        let prop = |i: usize| FgdProp {
            name: format!("key_{i}"),
            short: String::new(),
            long: String::new(),
            data: match i % 4 {
                0 => FgdData::Integer(i as i32 * 1000),
                1 => FgdData::String("d".repeat(i)),
                2 => FgdData::Flags((0..31).map(|f| format!("f{f}")).collect(), (i as i32).wrapping_mul(7_654_321) & i32::MAX),
                _ => FgdData::Float(i as f32 / 8.0),
            },
        };
        let long = FgdProp { name: "long".into(), short: String::new(), long: String::new(), data: FgdData::String("d".repeat(70_000)) };
        let mut props: Vec<FgdProp> = (0..1100).map(prop).collect();
        props.push(long);
        vec![Defaults { spell: (0..props.len()).map(|i| i % 2 == 0).collect(), props, kind: 1, excluded: 0 }]
    }
    fn check(c: &Defaults, obs: &mut Obs) -> Check {
        obs.add("choices adjusted (K1)", c.excluded as u64);
        for (p, s) in c.props.iter().zip(&c.spell) {
            if *s {
                let k = format!("{:?}", p.data);
                obs.label(k.split(|c| c == '(' || c == ' ').next().unwrap());
                obs.nontrivial(!matches!(p.data, FgdData::TargetSource | FgdData::TargetDestination));
            }
        }
        compare_defaults(&c.props, &c.spell, c.kind)
    }
    fn known(kf: &[KnownFinding]) -> Vec<String> {
        let mut out = vec![];
        for k in kf {
            let data: FgdData = serde_json::from_value(k.input.clone()).expect("known finding input");
            let p = FgdProp { name: "p".into(), short: String::new(), long: String::new(), data };
            if compare_defaults(&[p], &[true], 1).is_err() {
                out.push(format!("[{}] {}", k.id, k.what));
            }
        }
        out
    }
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum SaveFault {
    None,
    MissingDir,
    DirInTheWay,
    FullDevice,
    /// only this fraction (of 256) of the text fits
    Limit(u8),
    EmptyPath,
    FileAsDir,
    LongName,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Saves {
    docs: Vec<FgdDoc>,
    /// (document, path slot, fault)
    ops: Vec<(u8, u8, SaveFault)>,
}
/// Runs f with the size of written files limited to n bytes.
fn with_file_limit<T>(n: u64, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old = std::mem::zeroed::<libc::rlimit>();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let lim = libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max };
        libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}
/// Two files, one with a name that is easily mistaken.
const OUT: [&str; 2] = ["out0.fgd", " Ö\\out 1.FGD. \n"];

pub struct C24;
impl Prop for C24 {
    type Case = Saves;
    const ID: &'static str = "C24";
    const LEVEL: &'static str = "fault_enumeration";
    const CASES: (u64, u64) = (80_000, 1_200_000);
    const RULE: &'static str = "histories of 1-10 saves of 1-3 documents (empty to several KB) over 2 paths, some meeting a fault (missing directory, directory in the way, full device, partial write at any byte through a file-size limit, empty path, file used as directory, name too long); after every successful save the file equals the document's text, after every fault the call returned an error and other files are untouched; plus, for one document, a limit at every byte; non-trivial: a path saved to twice or a fault";
    fn strategy(_: bool) -> BoxedStrategy<Saves> {
        let fault = prop_oneof![
            6 => Just(SaveFault::None),
            1 => Just(SaveFault::MissingDir),
            1 => Just(SaveFault::DirInTheWay),
            1 => Just(SaveFault::FullDevice),
            3 => any::<u8>().prop_map(SaveFault::Limit),
            1 => Just(SaveFault::EmptyPath),
            1 => Just(SaveFault::FileAsDir),
            1 => Just(SaveFault::LongName),
        ];
        (prop::collection::vec(doc_s(), 1..4), any::<u8>(), prop::collection::vec((0u8..4, 0u8..2, fault), 1..11))
            .prop_map(|(mut docs, twin, ops)| {
                // often a document as long as the first, but not the same
                let mut d = docs[0].clone();
                match twin % 4 {
                    0 => d.classes.reverse(),
                    1 => d.includes.reverse(),
                    2 => {
                        let turned: Option<String> =
                            d.name.chars().next().filter(|c| c.is_ascii_alphabetic()).map(|c| {
                                let n = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
                                format!("{n}{}", &d.name[1..])
                            });
                        if let Some(n) = turned {
                            d.name = n;
                        }
                    }
                    _ => {}
                }
                if twin % 4 != 3 {
                    docs.insert(1, d);
                }
                Saves { docs, ops }
            })
            .boxed()
    }
    fn fixed(_: bool) -> Vec<Saves> {
        let class = |n: usize| FgdClass { kind: 1, meta: vec![], name: "c".into(), desc: "d".repeat(n), props: vec![] };
        let doc = |n: usize| FgdDoc { name: "n".into(), includes: vec![], classes: vec![class(n)] };
        let mut out = vec![Saves { docs: vec![doc(300)], ops: (0..=255).map(|b| (0, 0, SaveFault::Limit(b))).collect() }];
        // as long, but another text
        let named = |n: &str| FgdDoc { name: n.into(), ..doc(40) };
        out.push(Saves {
            docs: vec![named("ab"), named("ba")],
            ops: [0, 1, 1, 0, 1, 0].iter().enumerate().map(|(i, d)| (*d, (i / 4) as u8, SaveFault::None)).collect(),
        });
        // sizes around buffer boundaries, growing and shrinking
        let sizes = [1usize << 20, 10, 8192, 65536, 3, 4096, 200_000, 0];
        for w in sizes.windows(2) {
            out.push(Saves {
                docs: vec![doc(w[0]), doc(w[1])],
                ops: vec![(0, 0, SaveFault::None), (1, 0, SaveFault::None), (0, 0, SaveFault::FullDevice), (0, 0, SaveFault::None), (1, 0, SaveFault::Limit(255)), (1, 0, SaveFault::None)],
            });
        }
        out
    }
    fn check(c: &Saves, obs: &mut Obs) -> Check {
        let dir = sut::scratch().join("save");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("taken")).map_err(|e| e.to_string()).expect("scratch");
        std::fs::write(dir.join("plain"), b"plain file").expect("scratch");
        let path = |n: &str| dir.join(n).to_str().unwrap().to_string();
        let mut want: [Option<Vec<u8>>; 2] = [None, None];
        let mut saved = [0; 2];
        for (step, (d, slot, fault)) in c.ops.iter().enumerate() {
            let doc = &c.docs[*d as usize % c.docs.len()];
            let t = text_of(doc)?.into_bytes();
            let slot = *slot as usize % 2;
            let good = path(OUT[slot]);
            let file = match fault {
                SaveFault::None | SaveFault::Limit(_) => good.clone(),
                SaveFault::MissingDir => path("missing/out.fgd"),
                SaveFault::DirInTheWay => path("taken"),
                SaveFault::FullDevice => "/dev/full".to_string(),
                SaveFault::EmptyPath => String::new(),
                SaveFault::FileAsDir => path("plain/out.fgd"),
                SaveFault::LongName => path(&"n".repeat(300)),
            };
            let q = sut::qfgd(doc);
            let what = format!("step {step}: save with {fault:?} of {} bytes", t.len());
            let run = || sut::guard("save", || q.save(file.clone()).map_err(|e| e.to_string()));
            let mut must_fail = *fault != SaveFault::None;
            let r = match fault {
                SaveFault::Limit(f) => {
                    let n = t.len() * *f as usize / 255;
                    must_fail = n < t.len();
                    with_file_limit(n as u64, run)
                }
                _ => run(),
            };
            let r = r.map_err(|m| format!("{what}: {m}"))?;
            if matches!(fault, SaveFault::Limit(_)) && r.is_ok() && std::fs::read(&good).ok().as_ref() == Some(&t) {
                must_fail = false; // the text was there already
            }
            obs.label(&match fault {
                SaveFault::Limit(_) => "partial write".to_string(),
                f => format!("{f:?}"),
            });
            obs.nontrivial(must_fail || saved[slot] > 0);
            match (&r, must_fail) {
                (Ok(()), true) => return Err(format!("{what}: success reported although the file cannot be written")),
                (Err(e), false) => return Err(format!("{what}: failed: {e}")),
                _ => {}
            }
            if must_fail {
                if let SaveFault::Limit(_) = fault {
                    want[slot] = None; // contents after a failed save are not promised
                }
            } else {
                saved[slot] += 1;
                obs.label_if(saved[slot] > 1, "saved over a file");
                obs.label_if(
                    want[slot].as_ref().map_or(false, |w| w.len() == t.len() && *w != t),
                    "saved over a file of the same length",
                );
                if want[slot].as_ref() == Some(&t) {
                    obs.label("same data saved again");
                }
                want[slot] = Some(t);
            }
            for s in 0..2 {
                if let Some(w) = &want[s] {
                    let got = std::fs::read(path(OUT[s])).map_err(|e| format!("{what}: saved file cannot be read: {e}"))?;
                    if got != *w {
                        let at = got.iter().zip(w).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
                        return Err(format!("{what}: file {s} has {} bytes, its text {}; first difference at {at}", got.len(), w.len()));
                    }
                }
            }
            if std::fs::read(path("plain")).ok().as_deref() != Some(b"plain file") {
                return Err(format!("{what}: another file was changed"));
            }
        }
        Ok(())
    }
}
