//! Thin layer over the crate under test: scratch files, panic capture, output
//! capture, and copies of its results in plain comparable types.
use crate::runner::Check;
use quarchitect as q;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::fd::{FromRawFd, RawFd};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};

static IN_SUT: AtomicBool = AtomicBool::new(false);
static PANIC_MSG: Mutex<String> = Mutex::new(String::new());
static ERR_FD: AtomicI32 = AtomicI32::new(2);
static SCRATCH: OnceLock<PathBuf> = OnceLock::new();
static COUNTER: AtomicU64 = AtomicU64::new(0);

pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_SUT.load(SeqCst) {
            let mut m = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner());
            if m.is_empty() {
                *m = format!("{msg} ({loc})");
            }
        } else {
            let fd = ERR_FD.load(SeqCst);
            let s = format!("harness panic: {msg} at {loc}\n");
            unsafe {
                libc::write(fd, s.as_ptr() as *const _, s.len());
            }
        }
    }));
}

pub fn limit_memory() {
    crate::alloc::limit(3 << 30);
    unsafe {
        let core = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
    }
}

/// Sends stdout and stderr to /dev/null for the rest of the process.
pub fn quiet() {
    unsafe {
        let saved = libc::dup(2);
        ERR_FD.store(saved, SeqCst);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
        libc::close(n);
    }
}

pub fn hush() -> (RawFd, RawFd) {
    let _ = std::io::stdout().flush();
    unsafe {
        let s = (libc::dup(1), libc::dup(2));
        ERR_FD.store(s.1, SeqCst);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
        libc::close(n);
        s
    }
}
pub fn unhush(s: (RawFd, RawFd)) {
    let _ = std::io::stdout().flush();
    unsafe {
        libc::dup2(s.0, 1);
        libc::dup2(s.1, 2);
        libc::close(s.0);
        libc::close(s.1);
    }
    ERR_FD.store(2, SeqCst);
}

pub fn make_scratch(tag: &str) -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && is_writable("/dev/shm") {
        "/dev/shm"
    } else {
        "/tmp"
    };
    let p = PathBuf::from(format!(
        "{base}/qv-{tag}-{}-{}",
        std::process::id(),
        COUNTER.fetch_add(1, SeqCst)
    ));
    std::fs::create_dir_all(&p).expect("scratch dir");
    p
}
fn is_writable(p: &str) -> bool {
    let c = std::ffi::CString::new(p).unwrap();
    unsafe { libc::access(c.as_ptr(), libc::W_OK) == 0 }
}
pub fn remove_scratch(p: &Path) {
    let name = p.file_name().and_then(|n| n.to_str()).unwrap_or("");
    assert!(name.starts_with("qv-"));
    let _ = std::fs::remove_dir_all(p);
}
/// This process's own scratch directory.
pub fn scratch() -> &'static Path {
    SCRATCH.get_or_init(|| make_scratch("w"))
}
pub fn cleanup() {
    if let Some(p) = SCRATCH.get() {
        remove_scratch(p);
    }
}

/// Runs code under test; a panic becomes Err.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clear();
    IN_SUT.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_SUT.store(false, SeqCst);
    r.map_err(|_| {
        format!(
            "{what} panicked: {}",
            PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner())
        )
    })
}

/// Runs f with file descriptor 1 going to a memory file; returns its output.
pub fn capture_stdout<T>(f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::{Read, Seek};
    let _ = std::io::stdout().flush();
    unsafe {
        let mem = libc::memfd_create(c"qv-out".as_ptr(), 0);
        assert!(mem >= 0, "memfd_create");
        let saved = libc::dup(1);
        libc::dup2(mem, 1);
        let r = f();
        let _ = std::io::stdout().flush();
        libc::dup2(saved, 1);
        libc::close(saved);
        let mut file = std::fs::File::from_raw_fd(mem);
        file.seek(std::io::SeekFrom::Start(0)).unwrap();
        let mut out = vec![];
        file.read_to_end(&mut out).unwrap();
        (r, out)
    }
}

pub type V3 = [f32; 3];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum PVal {
    Integer(i32),
    Float(f32),
    Vector3(V3),
    String(String),
    Color(V3),
    Choices(i32),
    Flags(i32),
    TargetSource,
    TargetDestination,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EType {
    Placeholder,
    Class(String),
    Prefab(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pat {
    Properties,
    Dictionary,
    Metadata,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Actor {
    pub name: String,
    pub etype: EType,
    pub comp: Option<String>,
    pub pat: Pat,
    pub props: BTreeMap<String, PVal>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Surf {
    pub texture: Option<String>,
    pub verts: Vec<V3>,
    pub normals: Vec<V3>,
    pub tangents: Vec<(V3, f32)>,
    pub uvs: Option<Vec<[f32; 2]>>,
    pub colors: Option<Vec<V3>>,
    pub indices: Vec<usize>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Coll {
    None,
    /// (center, points)
    Convex(Vec<(V3, Vec<V3>)>),
    /// (center, vertices, indices)
    Concave(Vec<(V3, Vec<V3>, Vec<usize>)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    Actor(Actor, Vec<Node>),
    Visual(Option<Vec<Surf>>),
    Coll(Coll),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub origin: V3,
    pub data: Data,
}

fn v3(v: q::Vector3) -> V3 {
    [v.x(), v.y(), v.z()]
}
fn col(c: q::Color) -> V3 {
    [c.r, c.g, c.b]
}

fn conv(n: &q::scene_tree::SceneTreeNode) -> Node {
    use q::game_data::{EntityType, Property, PropertyApplicationType};
    use q::scene_tree::{CollisionGeometry, SceneTreeType, VisualGeometry};
    let data = match &n.data {
        SceneTreeType::Actor(a, ch) => Data::Actor(
            Actor {
                name: a.name.clone(),
                etype: match &a.entity_type {
                    EntityType::Placeholder => EType::Placeholder,
                    EntityType::Class(c) => EType::Class(c.clone()),
                    EntityType::Prefab(c) => EType::Prefab(c.clone()),
                },
                comp: a.component_class.clone(),
                pat: match a.property_application_type {
                    PropertyApplicationType::Properties => Pat::Properties,
                    PropertyApplicationType::Dictionary => Pat::Dictionary,
                    PropertyApplicationType::Metadata => Pat::Metadata,
                },
                props: a
                    .properties
                    .0
                    .iter()
                    .map(|(k, v)| {
                        (
                            k.clone(),
                            match v {
                                Property::Integer(i) => PVal::Integer(*i),
                                Property::Float(f) => PVal::Float(*f),
                                Property::Vector3(v) => PVal::Vector3(v3(*v)),
                                Property::String(s) => PVal::String(s.clone()),
                                Property::Color(c) => PVal::Color(col(*c)),
                                Property::Choices(i) => PVal::Choices(*i),
                                Property::Flags(i) => PVal::Flags(*i),
                                Property::TargetSource => PVal::TargetSource,
                                Property::TargetDestination => PVal::TargetDestination,
                            },
                        )
                    })
                    .collect(),
            },
            ch.iter().map(conv).collect(),
        ),
        SceneTreeType::VisualGeometry(v) => Data::Visual(match v {
            VisualGeometry::None => None,
            VisualGeometry::Mesh(m) => Some(
                m.surfaces
                    .iter()
                    .map(|s| Surf {
                        texture: s.texture.clone(),
                        verts: s.vertices.iter().map(|v| v3(*v)).collect(),
                        normals: s.normals.iter().map(|v| v3(*v)).collect(),
                        tangents: s.tangents.iter().map(|(v, w)| (v3(*v), *w)).collect(),
                        uvs: s
                            .uvs
                            .as_ref()
                            .map(|u| u.iter().map(|v| [v.x(), v.y()]).collect()),
                        colors: s.colors.as_ref().map(|c| c.iter().map(|c| col(*c)).collect()),
                        indices: s.indices.clone(),
                    })
                    .collect(),
            ),
        }),
        SceneTreeType::CollisionGeometry(c) => Data::Coll(match c {
            CollisionGeometry::None => Coll::None,
            CollisionGeometry::Convex(s) => Coll::Convex(
                s.iter()
                    .map(|s| (v3(s.center), s.points.iter().map(|p| v3(*p)).collect()))
                    .collect(),
            ),
            CollisionGeometry::Concave(s) => Coll::Concave(
                s.iter()
                    .map(|s| {
                        (
                            v3(s.center),
                            s.vertices.iter().map(|p| v3(*p)).collect(),
                            s.indices.clone(),
                        )
                    })
                    .collect(),
            ),
        }),
    };
    Node {
        origin: v3(n.origin),
        data,
    }
}

/// Everything but the map file.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Cfg {
    /// texture name, width, height
    pub textures: Vec<(String, u32, u32)>,
    pub black_brush: Vec<String>,
    pub black_plane: Vec<String>,
    pub classes: Vec<ClassDef>,
    pub layers: Vec<LayerDef>,
    pub fgd: FgdDoc,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ClassDef {
    pub name: String,
    /// Some((mesh, collision)) for brush classes; collision 0 none 1 convex 2 concave
    pub brush: Option<(bool, u8)>,
    pub etype: EType,
    pub script: Option<String>,
    pub pat: Pat,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LayerDef {
    pub name: String,
    pub texture: String,
    pub etype: EType,
    pub script: Option<String>,
    pub mesh: bool,
    pub coll: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct FgdDoc {
    pub name: String,
    pub includes: Vec<String>,
    pub classes: Vec<FgdClass>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FgdClass {
    /// 0 base, 1 point, 2 solid
    pub kind: u8,
    pub meta: Vec<FgdMeta>,
    pub name: String,
    pub desc: String,
    pub props: Vec<FgdProp>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FgdMeta {
    Base(Vec<String>),
    Color(V3),
    Size(V3, V3),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FgdProp {
    pub name: String,
    pub short: String,
    pub long: String,
    pub data: FgdData,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ChoiceVal {
    I(i32),
    F(f32),
    S(String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FgdData {
    Integer(i32),
    Float(f32),
    Vector3(V3),
    String(String),
    Color(V3),
    Choices(Vec<(String, ChoiceVal)>, i32),
    Flags(Vec<String>, i32),
    TargetSource,
    TargetDestination,
}

fn qv3(v: V3) -> q::Vector3 {
    q::Vector3::new(v[0], v[1], v[2])
}
fn qcol(v: V3) -> q::Color {
    q::Color::new(v[0], v[1], v[2])
}
fn qetype(e: &EType) -> q::game_data::EntityType {
    match e {
        EType::Placeholder => q::game_data::EntityType::Placeholder,
        EType::Class(c) => q::game_data::EntityType::class(c),
        EType::Prefab(c) => q::game_data::EntityType::prefab(c),
    }
}
fn qcomp(s: &Option<String>) -> q::game_data::ComponentType {
    match s {
        None => q::game_data::ComponentType::None,
        Some(s) => q::game_data::ComponentType::Script(s.clone()),
    }
}
fn qvis(m: bool) -> q::game_data::VisualType {
    if m {
        q::game_data::VisualType::Mesh
    } else {
        q::game_data::VisualType::None
    }
}
fn qcoll(c: u8) -> q::game_data::CollisionType {
    match c {
        0 => q::game_data::CollisionType::None,
        1 => q::game_data::CollisionType::Convex,
        _ => q::game_data::CollisionType::Concave,
    }
}

pub fn qfgd_prop(p: &FgdProp) -> q::game_data::forge::Property {
    use q::game_data::forge::{Choice, Property, PropertyData};
    Property::new(
        &p.name,
        &p.short,
        &p.long,
        match &p.data {
            FgdData::Integer(i) => PropertyData::Integer(*i),
            FgdData::Float(f) => PropertyData::Float(*f),
            FgdData::Vector3(v) => PropertyData::Vector3(qv3(*v)),
            FgdData::String(s) => PropertyData::String(s.clone()),
            FgdData::Color(c) => PropertyData::Color(qcol(*c)),
            FgdData::Choices(c, d) => PropertyData::Choices(
                c.iter()
                    .map(|(n, v)| match v {
                        ChoiceVal::I(i) => Choice::integer(n, *i),
                        ChoiceVal::F(f) => Choice::float(n, *f),
                        ChoiceVal::S(s) => Choice::string(n, s),
                    })
                    .collect(),
                *d,
            ),
            FgdData::Flags(f, d) => PropertyData::Flags(f.clone(), *d),
            FgdData::TargetSource => PropertyData::TargetSource,
            FgdData::TargetDestination => PropertyData::TargetDestination,
        },
    )
}

pub fn qfgd(f: &FgdDoc) -> q::game_data::forge::GameData {
    use q::game_data::forge::{ClassType, Entity, GameData, Metadata};
    GameData::new(
        f.name.clone(),
        f.includes.clone(),
        f.classes
            .iter()
            .map(|c| {
                Entity::new(
                    match c.kind {
                        0 => ClassType::BaseClass,
                        1 => ClassType::PointClass,
                        _ => ClassType::SolidClass,
                    },
                    c.meta
                        .iter()
                        .map(|m| match m {
                            FgdMeta::Base(b) => Metadata::base(b.clone()),
                            FgdMeta::Color(c) => Metadata::color(qcol(*c)),
                            FgdMeta::Size(a, b) => Metadata::size(qv3(*a), qv3(*b)),
                        })
                        .collect(),
                    &c.name,
                    &c.desc,
                    c.props.iter().map(qfgd_prop).collect(),
                )
            })
            .collect(),
    )
}

pub fn config(cfg: &Cfg, map_file: &str) -> q::Config {
    use q::game_data as g;
    let pat = |p: Pat| match p {
        Pat::Properties => g::PropertyApplicationType::Properties,
        Pat::Dictionary => g::PropertyApplicationType::Dictionary,
        Pat::Metadata => g::PropertyApplicationType::Metadata,
    };
    q::Config::new(
        map_file,
        q::TextureInfo(
            cfg.textures
                .iter()
                .map(|(n, w, h)| (n.clone(), q::Texture::new(*w, *h)))
                .collect(),
        ),
        q::TextureBlacklist::new(cfg.black_brush.clone(), cfg.black_plane.clone()),
        qfgd(&cfg.fgd),
        g::GameData {
            entities: cfg
                .classes
                .iter()
                .map(|c| match c.brush {
                    None => g::Entity::point(
                        c.name.clone(),
                        qetype(&c.etype),
                        qcomp(&c.script),
                        pat(c.pat),
                        g::Properties::default(),
                    ),
                    Some((mesh, coll)) => g::Entity::brush(
                        c.name.clone(),
                        qetype(&c.etype),
                        qcomp(&c.script),
                        pat(c.pat),
                        g::Properties::default(),
                        qvis(mesh),
                        qcoll(coll),
                    ),
                })
                .collect(),
            worldspawn_layers: cfg
                .layers
                .iter()
                .map(|l| {
                    g::WorldspawnLayer::new(
                        l.name.clone(),
                        l.texture.clone(),
                        qetype(&l.etype),
                        qcomp(&l.script),
                        qvis(l.mesh),
                        qcoll(l.coll),
                    )
                })
                .collect(),
        },
    )
}

/// Writes a scratch file (one name per process and slot).
pub fn scratch_file(slot: &str, bytes: &[u8]) -> String {
    let p = scratch().join(slot);
    std::fs::write(&p, bytes).expect("scratch file");
    p.to_str().unwrap().to_string()
}

/// Ok(Ok(tree)), Ok(Err(refusal)) or Err(panic).
pub fn run_file(path: &str, cfg: &Cfg) -> Result<Result<Vec<Node>, String>, String> {
    let c = config(cfg, path);
    guard("run", || match q::run(c) {
        Ok(t) => Ok(t.iter().map(conv).collect()),
        Err(e) => Err(e.to_string()),
    })
}
/// The tree without any harness state (safe on several threads at once).
pub fn run_plain(path: &str, cfg: &Cfg) -> Result<Vec<Node>, String> {
    q::run(config(cfg, path))
        .map(|t| t.iter().map(conv).collect())
        .map_err(|e| e.to_string())
}
pub fn run_bytes(bytes: &[u8], cfg: &Cfg) -> Result<Result<Vec<Node>, String>, String> {
    run_file(&scratch_file("m.map", bytes), cfg)
}
/// The tree of a map that must be accepted.
pub fn run_ok(text: &str, cfg: &Cfg) -> Result<Vec<Node>, String> {
    match run_bytes(text.as_bytes(), cfg)? {
        Ok(t) => Ok(t),
        Err(e) => Err(format!("well-formed map refused: {e}")),
    }
}

pub fn fail<T>(m: impl Into<String>) -> Result<T, String> {
    Err(m.into())
}
#[allow(dead_code)]
pub fn ensure(c: bool, m: impl FnOnce() -> String) -> Check {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
