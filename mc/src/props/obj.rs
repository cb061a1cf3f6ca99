//! C18 saving line strings to .obj files: contents, repeatability and write errors.
use crate::ensure;
use crate::for_3d;
use crate::fw::*;
use crate::geo::*;
use linestring::linestring_3d::{save_to_obj_file, Line3};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::RwLock;
use vector_traits::glam::DVec3;
use vector_traits::GenericVector3;

// ------------------------------------------------------------------ scratch space

/// Fault runs limit the file size of the whole process: they exclude all other file operations.
static LIMITED: RwLock<()> = RwLock::new(());
static NEXT: AtomicU64 = AtomicU64::new(0);

/// a scratch directory of this case, removed when dropped
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let n = NEXT.fetch_add(1, SeqCst);
        let base = if Path::new("/dev/shm").is_dir() {
            PathBuf::from("/dev/shm")
        } else {
            std::env::temp_dir()
        };
        let d = base.join(format!("mc-obj-{}-{n}", std::process::id()));
        if std::fs::create_dir(&d).is_err() {
            let d = std::env::temp_dir().join(format!("mc-obj-{}-{n}", std::process::id()));
            std::fs::create_dir(&d).expect("scratch directory");
            return Scratch(d);
        }
        Scratch(d)
    }
    fn file(&self) -> PathBuf {
        self.0.join("f.obj")
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.file());
        let _ = std::fs::remove_dir(&self.0);
    }
}

/// Runs `f` while no file of this process can grow beyond `limit` bytes (writes fail with EFBIG).
fn limited<R>(limit: u64, f: impl FnOnce() -> R) -> R {
    let _g = LIMITED.write().unwrap_or_else(|e| e.into_inner());
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        let new = libc::rlimit {
            rlim_cur: limit,
            rlim_max: old.rlim_max,
        };
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &new), 0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &old), 0);
        match r {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

// ------------------------------------------------------------------ reading the file back

type V = [f64; 3];

/// what an .obj file says: the object name, the vertices and the lines
#[derive(Debug, Default, PartialEq)]
struct Obj {
    name: Option<String>,
    v: Vec<V>,
    l: Vec<(usize, usize)>,
}

fn parse(txt: &str) -> Result<Obj, String> {
    let mut o = Obj::default();
    for (n, line) in txt.lines().enumerate() {
        let bad = |w: &str| Err(format!("line {}: {w}: {line:?}", n + 1));
        if let Some(name) = line.strip_prefix("o ") {
            if o.name.is_some() {
                return bad("a second object");
            }
            o.name = Some(name.to_string());
            continue;
        }
        let body = line.split('#').next().unwrap_or("");
        let mut w = body.split_whitespace();
        match w.next() {
            None => {}
            Some("v") => {
                let c: Vec<f64> = match w.map(|x| x.parse::<f64>()).collect() {
                    Ok(c) => c,
                    Err(_) => return bad("not a number"),
                };
                if c.len() != 3 {
                    return bad("not three coordinates");
                }
                o.v.push([c[0], c[1], c[2]]);
            }
            Some("l") => {
                let c: Vec<i64> = match w.map(|x| x.parse::<i64>()).collect() {
                    Ok(c) => c,
                    Err(_) => return bad("not an index"),
                };
                if c.len() < 2 {
                    return bad("not two indices");
                }
                let ix: Option<Vec<usize>> = c
                    .iter()
                    .map(|i| {
                        let k = if *i < 0 { o.v.len() as i64 + i } else { i - 1 };
                        (k >= 0).then_some(k as usize)
                    })
                    .collect();
                let Some(ix) = ix else {
                    return bad("index out of range");
                };
                o.l.extend(ix.windows(2).map(|p| (p[0], p[1])));
            }
            Some("g" | "s" | "usemtl" | "mtllib") => {}
            Some(_) => return bad("unknown element"),
        }
    }
    if o.l.iter().any(|l| l.0 >= o.v.len() || l.1 >= o.v.len()) {
        return Err("a line refers to a vertex that is not in the file".into());
    }
    Ok(o)
}

/// the coordinates of what is saved, in the precision of the scalar type
fn wide<T: GenericVector3>(p: T) -> V {
    [f(p.x()), f(p.y()), f(p.z())]
}
fn narrow<T: GenericVector3>(v: V) -> V {
    wide(T::new_3d(sc(v[0]), sc(v[1]), sc(v[2])))
}
/// parsed as f64; rounding to the scalar type must give the saved coordinate back exactly
fn verdict<T: GenericVector3>(
    txt: &str,
    name: &str,
    lines: &[Vec<Line3<T>>],
) -> Result<(), String> {
    let o = parse(txt)?;
    if o.name.as_deref() != Some(name) {
        return Err(format!(
            "the object is called {:?}, expected {name:?}",
            o.name
        ));
    }
    let want: Vec<(V, V)> = lines
        .iter()
        .flatten()
        .map(|l| (wide(l.start), wide(l.end)))
        .collect();
    let at = |i: usize| narrow::<T>(o.v[i]);
    let got: Vec<(V, V)> = o.l.iter().map(|l| (at(l.0), at(l.1))).collect();
    if got != want {
        return Err(format!(
            "the file contains the lines {got:?}, expected {want:?}"
        ));
    }
    let bits = |v: V| v.map(f64::to_bits);
    let mut seen: Vec<[u64; 3]> = (0..o.v.len()).map(|i| bits(at(i))).collect();
    seen.sort();
    if seen.windows(2).any(|w| w[0] == w[1]) {
        return Err(format!(
            "the file contains the same vertex more than once: {:?}",
            o.v
        ));
    }
    let mut used = vec![false; o.v.len()];
    o.l.iter().for_each(|l| [l.0, l.1].iter().for_each(|i| used[*i] = true));
    if let Some(i) = used.iter().position(|u| !u) {
        return Err(format!("the vertex {:?} belongs to no line", o.v[i]));
    }
    Ok(())
}

fn save<T: GenericVector3>(
    n: &str,
    name: &str,
    lines: &[Vec<Line3<T>>],
    old: Option<&str>,
    st: &mut Local,
) -> Option<String> {
    let s = Scratch::new();
    let _g = LIMITED.read().unwrap_or_else(|e| e.into_inner());
    if let Some(t) = old {
        std::fs::write(s.file(), t).expect("scratch file");
    }
    st.calls += 1;
    if let Err(e) = save_to_obj_file(s.file(), name, lines) {
        st.fail(format!("{n}: saving failed: {e:?}"));
        return None;
    }
    let txt = match std::fs::read_to_string(s.file()) {
        Ok(t) => t,
        Err(e) => {
            st.fail(format!("{n}: the saved file can't be read: {e}"));
            return None;
        }
    };
    if let Err(e) = verdict(&txt, name, lines) {
        st.fail(format!("{n}: {e}"));
    }
    Some(txt)
}

// ------------------------------------------------------------------ cases

fn corner(k: u64) -> P3 {
    [(0, 0, 0), (1, -2, 3), (1, -2, 0), (-7, 512, 33), (3, 1, -2)][k as usize]
}
/// the lines, distributed over groups: a bit per line says whether a new group starts before it
fn grouped<T: GenericVector3>(l: &[(P3, P3)], cuts: u64, empty: bool) -> Vec<Vec<Line3<T>>> {
    let mut g: Vec<Vec<Line3<T>>> = vec![Vec::new()];
    for (i, (a, b)) in l.iter().enumerate() {
        if i > 0 && cuts >> i & 1 == 1 {
            if empty {
                g.push(Vec::new());
            }
            g.push(Vec::new());
        }
        g.last_mut().unwrap().push(Line3::new(m3(*a), m3(*b)));
    }
    if l.is_empty() && empty {
        g.clear();
    }
    g
}

const VALUES: [f64; 16] = [
    0.0,
    -0.0,
    1.0,
    -1.0,
    0.1,
    1.0 / 3.0,
    -1e-300,
    5e-324,
    1e20,
    -1.7976931348623157e308,
    123456789.125,
    3.4028234663852886e38,
    1.401298464324817e-45,
    16777217.0,
    -2.5,
    1e15,
];

fn c18(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "two lines share a vertex";
    let k = t.pick(3u32, 4);
    v.push(fam(
        format!("every list of up to {k} lines between 4 points, in every grouping, empty groups included"),
        rule,
        seq_count(16, 0, k) << k,
        move |i| {
            let l: Vec<(P3, P3)> = seq_decode(i >> k, 16, 0, k).iter().map(|c| (corner(c % 4), corner(c / 4))).collect();
            (l, i & ((1 << k) - 1))
        },
        |(l, cuts): &(Vec<(P3, P3)>, u64), st| {
            if *cuts >> l.len().max(1) != 0 {
                return; // no such cut
            }
            let mut d: Vec<P3> = l.iter().flat_map(|l| [l.0, l.1]).collect();
            d.sort();
            d.dedup();
            if d.len() < 2 * l.len() {
                st.nontrivial += 1;
            }
            st.state(l);
            // bit 0 asks for empty groups between the others
            let g = grouped::<DVec3>(l, *cuts, cuts & 1 == 1);
            save("DVec3", "lines", &g, None, st);
        },
    ));
    v.push(fam(
        "every list of up to 2 lines between 5 points, every vector type, saved twice, over a longer file, under several names",
        rule,
        seq_count(25, 0, 2),
        |i| -> Vec<(P3, P3)> { seq_decode(i, 25, 0, 2).iter().map(|c| (corner(c % 5), corner(c / 5))).collect() },
        |l: &Vec<(P3, P3)>, st| {
            st.nontrivial += u64::from(l.len() == 2);
            for_3d!(T, n, {
                let g = grouped::<T>(l, 2, false);
                let mut first = None;
                for name in ["cube", "a name with spaces", "Ü#1", ""] {
                    let long = "o old\nv 1 2 3\nl 1 1\n".repeat(60);
                    for old in [None, Some(long.as_str()), Some("")] {
                        let Some(txt) = save(n, name, &g, old, st) else { return };
                        let body = txt.split_once('\n').map(|x| x.1.to_string()).unwrap_or_default();
                        let f = first.get_or_insert_with(|| body.clone());
                        ensure!(st, *f == body, "{n}: the same lines are saved differently, as {f:?} and {body:?}");
                    }
                }
            });
        },
    ));
    v.push(fam(
        "every combination of 16 awkward coordinates, every vector type",
        "always",
        16 * 16 * 16,
        |i| {
            [
                VALUES[(i % 16) as usize],
                VALUES[(i / 16 % 16) as usize],
                VALUES[(i / 256) as usize],
            ]
        },
        |c: &[f64; 3], st| {
            st.nontrivial += 1;
            for_3d!(T, n, {
                let (a, b): (T, T) = (v3(c[0], c[1], c[2]), v3(c[2], c[0], c[1]));
                if wide(a).iter().all(|x| x.is_finite()) {
                    save(
                        n,
                        "numbers",
                        &[
                            vec![Line3::new(a, b), Line3::new(b, b)],
                            vec![Line3::new(a, a)],
                        ],
                        None,
                        st,
                    );
                }
            });
        },
    ));
    let sizes: Vec<u64> = t.pick(
        vec![0, 1, 5, 60, 110, 250, 1000],
        vec![
            0, 1, 2, 5, 20, 60, 80, 90, 100, 110, 120, 250, 1000, 5000, 20000,
        ],
    );
    v.push(fam_list(
        "long line strings: chains, closed chains, separate lines and stars",
        rule,
        sizes
            .iter()
            .flat_map(|n| (0..4u64).map(move |k| (*n, k)))
            .collect(),
        |(n, k): &(u64, u64), st| {
            st.nontrivial += 1;
            st.state(&(n, k));
            save("DVec3", "long", &[long_case::<DVec3>(*n, *k)], None, st);
        },
    ));

    // nothing is left of an index that is too small for it
    v.push(fam_list("a file of more than 65536 vertices: a chain and separate lines", rule, vec![0u64, 2], |k: &u64, st| {
        st.nontrivial += 1;
        st.state(k);
        save("DVec3", "many", &[long_case::<DVec3>(70_000, *k)], None, st);
    }));

    // faults
    v.push(fam_list(
        "places that can't be written: every error is returned",
        "always",
        vec![
            "/dev/full",
            "no such directory",
            "the path is a directory",
            "a file as directory",
            "empty path",
            "/dev/full, long",
        ],
        |how: &&str, st| {
            st.nontrivial += 1;
            let s = Scratch::new();
            let _g = LIMITED.read().unwrap_or_else(|e| e.into_inner());
            let path: PathBuf = match *how {
                "no such directory" => s.0.join("d").join("f.obj"),
                "the path is a directory" => s.0.clone(),
                "a file as directory" => {
                    std::fs::write(s.file(), "x").expect("scratch file");
                    s.file().join("f.obj")
                }
                "empty path" => PathBuf::new(),
                _ => PathBuf::from("/dev/full"),
            };
            let n = if how.ends_with("long") { 2000 } else { 2 };
            for k in [0, n] {
                let l = vec![long_case::<DVec3>(k, 0)];
                st.calls += 1;
                let r = save_to_obj_file(&path, "x", &l);
                ensure!(
                    st,
                    matches!(r, Err(linestring::LinestringError::IoError(_))),
                    "{how}: saving {k} lines gave {r:?}"
                );
            }
        },
    ));
    let q = t.pick(vec![0u64, 2], vec![0, 1, 2, 3, 4]);
    v.push(fam_list(
        "a device that is full after any number of bytes: small files",
        "the file does not fit",
        q,
        |n: &u64, st| fill_up(*n, 1, st),
    ));
    let q = t.pick(
        vec![(250u64, 997u64)],
        vec![(250, 61), (250, 1), (1000, 499)],
    );
    v.push(fam_list(
        "a device that is full after any number of bytes: files of several write operations",
        "the file does not fit",
        q,
        |(n, step): &(u64, u64), st| fill_up(*n, *step, st),
    ));
    v
}

fn long_case<T: GenericVector3>(n: u64, kind: u64) -> Vec<Line3<T>> {
    let p = |i: u64| (((i * 37) % 1009) as i64, i as i64, -((i % 7) as i64));
    (0..n)
        .map(|i| {
            let (a, b) = match kind {
                0 => (p(i), p(i + 1)),
                1 => (p(i), p((i + 1) % n)),
                2 => (p(2 * i), p(2 * i + 1)),
                _ => (p(0), p(i + 1)),
            };
            Line3::new(m3(a), m3(b))
        })
        .collect()
}

/// saves under every limit from nothing to more than enough: an error is returned exactly when the
/// file does not fit, and what is reported as saved is complete
fn fill_up(n: u64, step: u64, st: &mut Local) {
    let l = vec![long_case::<DVec3>(n, 0)];
    let s = Scratch::new();
    let full = {
        let _g = LIMITED.read().unwrap_or_else(|e| e.into_inner());
        save_to_obj_file(s.file(), "full", &l).expect("save");
        std::fs::read(s.file()).expect("read")
    };
    let size = full.len() as u64;
    let mut limits: Vec<u64> = (0..size).step_by(step as usize).collect();
    for b in (0..=size).step_by(4096) {
        limits.extend((b.max(2) - 2..b + 3).filter(|x| *x < size));
    }
    limits.extend([size - 1, size, size + 1]);
    limits.sort();
    limits.dedup();
    for limit in limits {
        let _ = std::fs::remove_file(s.file());
        st.calls += 1;
        let r = limited(limit, || save_to_obj_file(s.file(), "full", &l));
        st.state(&(n, limit));
        tick();
        if limit < size {
            st.nontrivial += 1;
            ensure!(
                st,
                matches!(r, Err(linestring::LinestringError::IoError(_))),
                "the device is full after {limit} of {size} bytes, but saving {n} lines gave {r:?}"
            );
        } else {
            let got = std::fs::read(s.file()).unwrap_or_default();
            ensure!(st, r.is_ok() && got == full, "there is room for {limit} of {size} bytes, but saving {n} lines gave {r:?} and {} bytes", got.len());
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        families: |t| with_digits(c18(t), c18, &["every vector type, saved twice"]),
        bounds: "all lists of up to 3 (thorough 4) lines between 4 points in all groupings; up to 2 lines between 5 points for every vector type, over existing files, 4 names; all triples of 16 awkward coordinates; long line strings up to 1000 (20000) lines, chains and separate lines of 70000; write failure after every byte of small files, and after every 61st byte and around every 4 KiB boundary of larger ones, and 5 kinds of unusable paths",
        assumptions: &["coordinates are finite", "the object name is a single line"],
    }]
}
