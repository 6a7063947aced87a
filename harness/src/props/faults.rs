//! C31 unreadable input files.
use crate::mapdoc::*;
use crate::props::diff;
use crate::runner::{Check, Obs, Prop};
use crate::sut;
use crate::wadgen;
use proptest::prelude::*;
use quarchitect as q;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum State {
    Missing,
    Dir,
    /// a dangling symbolic link
    Dangling,
    /// a link to a directory
    DirLink,
    /// a map of k entities after worldspawn
    Map(u8),
    /// the same map, one byte replaced by an invalid one (position) or cut inside a character
    BadMap(u8, u16, u8),
    Wad(bool, u8),
    Palette(u8, u16),
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Set(u8, State),
    Run(u8),
    Diff(u8, u8),
    Wad(u8, u8),
    Pal(u8),
    /// a path that cannot exist: entry point, kind
    NoPath(u8, u8),
}
fn state() -> BoxedStrategy<State> {
    prop_oneof![
        2 => Just(State::Missing),
        1 => Just(State::Dir),
        1 => Just(State::Dangling),
        1 => Just(State::DirLink),
        4 => (0u8..4).prop_map(State::Map),
        3 => (0u8..4, any::<u16>(), 0u8..6).prop_map(|(k, p, b)| State::BadMap(k, p, b)),
        2 => (any::<bool>(), 0u8..4).prop_map(|(w, n)| State::Wad(w, n)),
        2 => (any::<u8>(), prop_oneof![2 => Just(768u16), 1 => 0u16..1200]).prop_map(|(s, n)| State::Palette(s, n)),
        1 => Just(State::Empty),
    ]
    .boxed()
}
fn map_text(k: u8) -> String {
    let mut e = vec![Ent::new("worldspawn").with("message", "größe")];
    for i in 0..k {
        e.push(Ent::new(&format!("thing_{i}")).with("origin", format!("{i} 2 3")));
    }
    text(&e)
}
impl State {
    fn bytes(&self) -> Option<Vec<u8>> {
        Some(match self {
            State::Missing | State::Dir | State::Dangling | State::DirLink => return None,
            State::Map(k) => map_text(*k).into_bytes(),
            State::BadMap(k, p, how) => {
                let mut b = map_text(*k).into_bytes();
                let i = *p as usize % b.len();
                match how {
                    0 => b[i] = 0xFF,
                    1 => b.insert(i, 0xC3),
                    2 => b.push(0xE2),
                    3 => b.splice(i..i, [0xED, 0xA0, 0x80]).for_each(drop),
                    4 => b.insert(0, 0x80),
                    _ => b.extend(b"// caf\xE9\n"),
                }
                b
            }
            State::Wad(w, n) => wadgen::simple_doc(*w, *n as usize, |i| (8 + 8 * i as u32, 16)).bytes(),
            State::Palette(s, n) => (0..*n as usize).map(|i| wadgen::px(*s as u32, 0, i)).collect(),
            State::Empty => vec![],
        })
    }
    fn set(&self, p: &std::path::Path) {
        let _ = std::fs::remove_dir(p);
        let _ = std::fs::remove_file(p);
        match self {
            State::Missing => {}
            State::Dir => std::fs::create_dir(p).unwrap(),
            State::Dangling => std::os::unix::fs::symlink("nowhere-at-all", p).unwrap(),
            State::DirLink => std::os::unix::fs::symlink(".", p).unwrap(),
            _ => std::fs::write(p, self.bytes().unwrap()).unwrap(),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            State::Missing => "missing",
            State::Dir => "directory",
            State::Dangling => "dangling link",
            State::DirLink => "link to a directory",
            State::Map(_) => "map",
            State::BadMap(..) => "invalid UTF-8",
            State::Wad(..) => "WAD",
            State::Palette(..) => "palette",
            State::Empty => "empty file",
        }
    }
}
/// Whether a file could hold an entity at all: any line beginning with a brace.
fn has_entity(s: &State) -> bool {
    s.bytes().map_or(false, |b| b.split(|c| *c == b'\n').any(|l| l.first() == Some(&b'{')))
}
fn no_path(kind: u8) -> String {
    let s = sut::scratch().to_str().unwrap();
    match kind % 6 {
        0 => String::new(),
        1 => format!("{s}/plain/child"),
        2 => format!("{s}/none/child"),
        3 => format!("{s}/{}", "x".repeat(300)),
        4 => format!("{s}/nul\0byte"),
        _ => format!("{s}/{}", "d/".repeat(4000)),
    }
}

const SLOTS: usize = 3;
/// A plain name, and others that are easily mistaken.
const NAMES: [&str; SLOTS] = ["f0", " Ö\\file 1.MAP. \n", "~$HOME%20日\\..\\f2 "];

/// Names of the actors of a tree.
fn names(t: &[sut::Node]) -> Vec<String> {
    let mut v = vec![];
    actors(t, &mut v);
    v.iter().map(|n| actor(n).name.clone()).collect()
}

fn call_run(path: &str) -> Result<Result<Vec<sut::Node>, String>, String> {
    sut::run_file(path, &basic_cfg(1))
}
fn call_diff(a: &str, b: &str) -> Result<(Result<(), String>, String), String> {
    let (r, out) = sut::capture_stdout(|| sut::guard("run_diff", || q::run_diff(a, b).map_err(|e| e.to_string())));
    Ok((r?, String::from_utf8_lossy(&out).into_owned()))
}
fn call_pal(p: &str) -> Result<Result<Vec<[u8; 3]>, String>, String> {
    sut::guard("read_palette", || {
        q::wad::palette::read_palette(p).map(|p| p.0.iter().map(|c| [c.0, c.1, c.2]).collect()).map_err(|e| e.to_string())
    })
}

pub struct C31;
impl Prop for C31 {
    type Case = Vec<Op>;
    const ID: &'static str = "C31";
    const LEVEL: &'static str = "fault_enumeration";
    const CASES: (u64, u64) = (240_000, 3_600_000);
    const RULE: &'static str = "sequences of up to 30 steps over three paths: a path becomes missing, a directory, a dangling link, a link to a directory, an empty file, a map, a map with invalid UTF-8 (first, last, any byte; truncated and overlong characters), a WAD or a palette of any length, or a scene build, diff, WAD read or palette read is made on it, or on a path that cannot exist (empty, below a file, too long, with a NUL); every call's outcome is predicted from the path's current contents, and successful ones are compared with the expected result; non-trivial: a failing call followed by a successful one on the same path";
    fn strategy(_: bool) -> BoxedStrategy<Vec<Op>> {
        let slot = || 0u8..SLOTS as u8;
        prop::collection::vec(
            prop_oneof![
                5 => (slot(), state()).prop_map(|(s, t)| Op::Set(s, t)),
                3 => slot().prop_map(Op::Run),
                2 => (slot(), slot()).prop_map(|(a, b)| Op::Diff(a, b)),
                2 => (slot(), 1u8..5).prop_map(|(a, l)| Op::Wad(a, l)),
                2 => slot().prop_map(Op::Pal),
                1 => (0u8..5, any::<u8>()).prop_map(|(e, k)| Op::NoPath(e, k)),
            ],
            4..31,
        )
        .boxed()
    }
    fn fixed(_: bool) -> Vec<Vec<Op>> {
        // every fault before and after a success, for every entry point
        let mut v = vec![];
        let good = [State::Map(2), State::Map(1), State::Wad(true, 2), State::Palette(3, 768)];
        let bad = [
            State::Missing, State::Dir, State::Dangling, State::DirLink, State::BadMap(2, 0, 0),
            State::BadMap(1, 70, 1), State::BadMap(0, 0, 2), State::BadMap(0, 9, 3), State::BadMap(3, 0, 4),
            State::BadMap(3, 0, 5), State::Empty, State::Palette(1, 767),
        ];
        for b in &bad {
            for (e, g) in good.iter().enumerate() {
                let call = || match e {
                    0 => vec![Op::Run(0)],
                    1 => vec![Op::Diff(0, 1), Op::Diff(1, 0), Op::Diff(0, 0)],
                    2 => vec![Op::Wad(0, 4)],
                    _ => vec![Op::Pal(0)],
                };
                let mut ops = vec![Op::Set(1, State::Map(3))];
                for s in [b, g, b, g] {
                    ops.push(Op::Set(0, s.clone()));
                    ops.extend(call());
                    ops.extend(call());
                }
                v.push(ops);
            }
        }
        v.push((0..30).map(|i| Op::NoPath(i % 5, i / 5)).collect());
        v
    }
    fn check(ops: &Vec<Op>, obs: &mut Obs) -> Check {
        let dir = sut::scratch().join("faults");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir(&dir).unwrap();
        std::fs::write(sut::scratch().join("plain"), b"file").unwrap();
        let path = |s: u8| dir.join(NAMES[s as usize]).to_str().unwrap().to_string();
        let mut st: Vec<State> = vec![State::Missing; SLOTS];
        let mut failed = [false; SLOTS];
        for (n, op) in ops.iter().enumerate() {
            let at = |m: String| format!("step {n} {op:?}: {m}");
            let what = |s: u8| st[s as usize].name();
            let err = |s: u8, e: &str| Err::<(), _>(at(format!("{} accepted: {e}", st[s as usize].name())));
            let mut outcome: Vec<(u8, bool)> = vec![];
            match op {
                Op::Set(s, t) => {
                    t.set(path(*s).as_ref());
                    st[*s as usize] = t.clone();
                    continue;
                }
                Op::Run(s) => {
                    let r = call_run(&path(*s)).map_err(at)?;
                    let content = st[*s as usize].bytes();
                    match (&st[*s as usize], content.map(|b| String::from_utf8(b).is_ok())) {
                        (_, None | Some(false)) => {
                            if let Ok(t) = r {
                                return err(*s, &format!("{:?}", names(&t)));
                            }
                            outcome.push((*s, false));
                        }
                        (State::Map(k), _) => {
                            let t = r.map_err(|e| at(format!("map refused: {e}")))?;
                            let mut want = vec!["worldspawn".to_string()];
                            want.extend((0..*k).map(|i| format!("thing_{i}")));
                            if names(&t) != want {
                                return Err(at(format!("actors {:?} instead of {want:?}", names(&t))));
                            }
                            outcome.push((*s, true));
                        }
                        // readable, but without a worldspawn
                        (_, _) if !has_entity(&st[*s as usize]) => {
                            if let Ok(t) = r {
                                return err(*s, &format!("{:?}", names(&t)));
                            }
                            outcome.push((*s, false));
                        }
                        // possibly a map by accident: only no panic is required here
                        _ => (),
                    }
                }
                Op::Diff(a, b) => {
                    let (r, out) = call_diff(&path(*a), &path(*b)).map_err(at)?;
                    let text = |s: u8| st[s as usize].bytes().and_then(|b| String::from_utf8(b).ok());
                    match (text(*a), text(*b)) {
                        (Some(x), Some(y)) => {
                            r.map_err(|e| at(format!("readable files refused: {e}")))?;
                            let (rem, add) = diff::parse(&out).map_err(at)?;
                            let (x, y) = (diff::tokens(&x), diff::tokens(&y));
                            let l = diff::lcs(&x, &y);
                            if (rem.len(), add.len()) != (x.len() - l, y.len() - l) {
                                return Err(at(format!("{} removed, {} added", rem.len(), add.len())));
                            }
                            outcome.push((*a, true));
                            outcome.push((*b, true));
                        }
                        (x, y) => {
                            if r.is_ok() {
                                return err(if x.is_none() { *a } else { *b }, "diff");
                            }
                            if diff::parse(&out).is_ok() {
                                return Err(at("failed, but printed a diff".into()));
                            }
                            if x.is_none() {
                                outcome.push((*a, false));
                            }
                            if y.is_none() {
                                outcome.push((*b, false));
                            }
                        }
                    }
                }
                Op::Wad(s, l) => {
                    let r = wadgen::read(&path(*s), None, *l as usize).map_err(at)?;
                    let want = st[*s as usize].bytes().ok_or("no file".to_string()).and_then(|b| wadgen::reference(&b, None, *l as usize));
                    match (r, want) {
                        (Ok(g), Ok(w)) => {
                            if let Some(d) = wadgen::differ(&w, &g) {
                                return Err(at(d));
                            }
                            outcome.push((*s, true));
                        }
                        (Err(_), Err(_)) => outcome.push((*s, false)),
                        (Ok(g), Err(_)) => return err(*s, &format!("{} textures", g.len())),
                        (Err(e), Ok(_)) => return Err(at(format!("WAD refused: {e}"))),
                    }
                }
                Op::Pal(s) => {
                    let r = call_pal(&path(*s)).map_err(at)?;
                    match (r, st[*s as usize].bytes().filter(|b| b.len() >= 768)) {
                        (Ok(p), Some(b)) => {
                            let w: Vec<[u8; 3]> = b[..768].chunks(3).map(|c| [c[0], c[1], c[2]]).collect();
                            if p != w {
                                return Err(at(format!("{} colours differ from the file", p.len())));
                            }
                            outcome.push((*s, true));
                        }
                        (Err(_), None) => outcome.push((*s, false)),
                        (Ok(p), None) => return err(*s, &format!("{} colours", p.len())),
                        (Err(e), Some(_)) => return Err(at(format!("palette refused: {e}"))),
                    }
                }
                Op::NoPath(e, k) => {
                    let p = no_path(*k);
                    let good = sut::scratch_file("good.map", map_text(1).as_bytes());
                    let ok = match e {
                        0 => call_run(&p).map_err(at)?.is_ok(),
                        1 => call_diff(&p, &good).map_err(at)?.0.is_ok(),
                        2 => call_diff(&good, &p).map_err(at)?.0.is_ok(),
                        3 => wadgen::read(&p, None, 1).map_err(at)?.is_ok(),
                        _ => call_pal(&p).map_err(at)?.is_ok(),
                    };
                    if ok {
                        return Err(at("impossible path accepted".into()));
                    }
                    obs.label("impossible path");
                    continue;
                }
            }
            for (s, ok) in outcome {
                let call = format!("{op:?}");
                let call = call.split('(').next().unwrap();
                obs.label(&format!("{call} on {}: {}", what(s), if ok { "succeeds" } else { "fails" }));
                obs.nontrivial(ok && failed[s as usize]);
                failed[s as usize] |= !ok;
            }
            // reading leaves the files alone
            for s in 0..SLOTS {
                let p = path(s as u8);
                let now = std::fs::read(&p).ok();
                if now != st[s].bytes() {
                    return Err(at(format!("file {s} ({}) was changed", st[s].name())));
                }
            }
        }
        Ok(())
    }
}
