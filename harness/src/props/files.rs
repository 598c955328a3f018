// P09: saving to a file is all-or-nothing; loading a broken file is an error.
use crate::eng::*;
use crate::fault::*;
use crate::fw::*;
use crate::model::*;
use crate::patchgen::*;
use crate::props::patchio::{canon_text, save_text, scratch};
use crate::state::*;
use hexodsp::matrix_repr::*;
use hexodsp::*;

struct Dir(String);
impl Dir {
    fn new() -> Dir {
        let d = scratch("p09");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch dir");
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn gen_state(s: &mut Src, c: &mut Ctx) -> Result<Eng, String> {
    let pool: Vec<NodeId> = audio_nodes().into_iter().filter(|n| !matches!(n, NodeId::Out(_))).collect();
    let (w, h) = (s.usz(1, 5), s.usz(1, 5));
    let f = gen_full(s, &pool, 2, w, h, false);
    let mut e = Eng::new(w, h);
    f.apply(&mut e)?;
    c.note(|| format!("a patch of {} cells", f.l.cells.len()));
    Ok(e)
}

/// the text of a patch as (canonical) content
fn content(b: &[u8]) -> Result<String, String> {
    let r = MatrixRepr::read_from_mem(b).map_err(|e| format!("{:?}", e))?;
    let mut r = r;
    canon_text(&r.serialize())
}

/// the content a matrix has after loading that text from memory (values pass through the user facing unit once)
fn reload(t: &[u8], size: (usize, usize)) -> Result<String, String> {
    let mut e = Eng::new(size.0, size.1);
    load_patch_from_mem(&mut e.m, t).map_err(|x| format!("load-from-memory: {:?}", x))?;
    canon_text(&save_text(&e))
}

fn gen_name(s: &mut Src) -> String {
    s.pickc(&["a.hxy", "p", "my patch ä.hxy", "x~", "a.b.c", ".hidden", "UPPER.HXY", "%s"]).to_string()
}

fn gen_old(s: &mut Src, path: &str, new: &str) -> Option<Vec<u8>> {
    let old: Option<Vec<u8>> = match s.below(5) {
        0 => None,
        1 => Some(vec![]),
        2 => Some((0..s.usz(1, 60)).map(|i| b'a' + (i % 26) as u8).collect()),
        3 => {
            // longer than what is saved
            let mut v = new.as_bytes().to_vec();
            v.extend((0..s.usz(1, 3000)).map(|_| b'#'));
            Some(v)
        }
        _ => Some(b"{\"VERSION\":2,\"atoms\":[],\"block_funs\":[],\"cells\":[],\"params\":[],\"patterns\":[],\"props\":[]}\n".to_vec()),
    };
    if let Some(o) = &old {
        std::fs::write(path, o).expect("old file");
    }
    old
}

fn look(path: &str) -> Option<Vec<u8>> {
    std::fs::read(path).ok()
}
fn brief(x: &Option<Vec<u8>>) -> String {
    match x {
        None => "no file".into(),
        Some(v) => format!("{} bytes {:?}", v.len(), String::from_utf8_lossy(&v[..v.len().min(30)])),
    }
}

fn save(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let d = Dir::new();
    let name = gen_name(s);
    let path = format!("{}/{}", d.0, name);
    let mut e = gen_state(s, c)?;
    let mut text = save_text(&e);
    let mut old = gen_old(s, &path, &text);
    c.note(|| format!("file {:?}, before: {}", name, brief(&old)));
    // other files of the directory are nobody's business
    let other = format!("{}/other.hxy", d.0);
    std::fs::write(&other, b"other").expect("other file");
    let rounds = s.usz(1, 4);
    for k in 0..rounds {
        if k > 0 && s.bool() {
            e = gen_state(s, c)?;
            text = save_text(&e);
        }
        let want = content(text.as_bytes()).map_err(|e| format!("own-text-unreadable: {}", e))?;
        let mut p = Plan::new(&d.0);
        let how = s.weighted(&[1, 2, 4, 4]);
        match how {
            0 => {}
            1 => {
                p.short = s.pickc(&[1usize, 7, 100, 1000]).max(text.len() / 500);
                p.intr = s.pickc(&[0usize, 2, 3, 5]);
            }
            _ => {
                let at = s.below(6);
                p.part = s.pickc(&[0usize, 1, 128, 200, 255, 256]);
                p.at = Some((at, if how == 2 { Kind::Fail(s.pickc(&[5, 28, 13, 122])) } else { Kind::Crash }));
                if s.chance(1, 4) {
                    p.short = s.usz(200, 4000);
                }
            }
        }
        c.note(|| format!("save with {:?} part {} short {} intr {}", p.at, p.part, p.short, p.intr));
        let (r, p) = with_plan(p, || if s.chance(1, 4) { e.m.to_repr().write_to_file(&path) } else { save_patch_to_file(&mut e.m, &path) });
        c.note(|| format!("-> {:?}; operations {:?}", r, p.log.iter().take(12).collect::<Vec<_>>()));
        let now = look(&path);
        let is_new = || -> Result<bool, String> {
            match &now {
                None => Ok(false),
                Some(b) => Ok(content(b).map(|x| x == want).unwrap_or(false)),
            }
        };
        if p.crashed {
            c.label("crash");
            if p.log.len() > 1 {
                c.nontrivial = true;
            }
            if now != old && !is_new()? {
                return Err(format!("crash-half-file: after {:?} the file is {} and was {}", p.log.last(), brief(&now), brief(&old)));
            }
        } else if p.hit {
            c.label("fault");
            c.nontrivial = true;
            match &r {
                Ok(()) => {
                    if !is_new()? {
                        return Err(format!("success-but-wrong: fault at {:?} was not reported, the file is {} and was {}", p.log.last(), brief(&now), brief(&old)));
                    }
                }
                Err(_) => {
                    if now != old {
                        return Err(format!("failed-but-changed: fault at {:?}: the file is {} and was {}", p.log.last(), brief(&now), brief(&old)));
                    }
                }
            }
        } else {
            c.label("no-fault");
            if let Err(x) = r {
                return Err(format!("save-failed: {:?} without a fault", x));
            }
            if !is_new()? {
                return Err(format!("saved-wrong: the file is {}", brief(&now)));
            }
            let mut e2 = Eng::new(e.m.size().0, e.m.size().1);
            load_patch_from_file(&mut e2.m, &path).map_err(|x| format!("load: {:?}", x))?;
            let (a, b) = (canon_text(&save_text(&e2))?, reload(text.as_bytes(), e.m.size())?);
            if a != b {
                return Err(format!("loaded-differs: {}", crate::props::patchio::diff(&a, &b)));
            }
        }
        if look(&other) != Some(b"other".to_vec()) {
            return Err("other-file-changed: an unrelated file in the directory changed".into());
        }
        old = now;
    }
    Ok(())
}

fn load(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let d = Dir::new();
    let path = format!("{}/{}", d.0, gen_name(s));
    let mut e = gen_state(s, c)?;
    let t = save_text(&e);
    let mut e2 = gen_state(s, c)?;
    e2.run(70);
    let before = canon_text(&save_text(&e2))?;
    let how = s.below(7);
    let mut p = Plan::new(&d.0);
    let mut expect_err = true;
    let mut full = t.clone().into_bytes();
    full.push(b'\n');
    match how {
        0 => {}
        1 => {
            let k = s.below(t.len());
            std::fs::write(&path, &full[..k]).unwrap();
        }
        2 => {
            let k = s.below(full.len());
            full[k] = 0xff;
            std::fs::write(&path, &full).unwrap();
        }
        3 => std::fs::create_dir_all(&path).unwrap(),
        4 => {
            std::fs::write(&path, &full).unwrap();
            p.at = Some((s.below(4), Kind::Fail(EIO)));
        }
        5 => {
            std::fs::write(&path, &full).unwrap();
            p.short = s.usz(1, 2000).max(full.len() / 500);
            p.intr = s.pickc(&[0usize, 2, 3]);
            expect_err = false;
        }
        _ => {
            std::fs::write(&path, &full).unwrap();
            expect_err = false;
        }
    }
    c.label(["missing", "truncated", "not-utf8", "directory", "read-error", "short-reads", "good"][how]);
    c.note(|| format!("load case {} plan {:?}", how, p.at));
    let (r, p) = with_plan(p, || load_patch_from_file(&mut e2.m, &path));
    if how == 4 && !p.hit {
        expect_err = false;
    }
    if expect_err {
        c.nontrivial = true;
        if r.is_ok() {
            return Err(format!("error-not-reported: load case {} operations {:?}", how, p.log));
        }
        let now = canon_text(&save_text(&e2))?;
        if now != before {
            return Err(format!("failed-load-changed-matrix: {}", crate::props::patchio::diff(&before, &now)));
        }
        // the matrix is still usable
        e2.run(70);
        let r2 = load_patch_from_mem(&mut e2.m, t.as_bytes());
        if e.m.size() == e2.m.size() {
            r2.map_err(|x| format!("unusable-after-error: {:?}", x))?;
            let now = canon_text(&save_text(&e2))?;
            if now != reload(t.as_bytes(), e.m.size())? {
                return Err("unusable-after-error: loading a good patch afterwards gives something else".into());
            }
        }
    } else {
        if how == 5 {
            c.nontrivial = true;
        }
        if e.m.size() == e2.m.size() || r.is_ok() {
            r.map_err(|x| format!("load-failed: {:?} (case {})", x, how))?;
        }
        if e.m.size() == e2.m.size() {
            let now = canon_text(&save_text(&e2))?;
            let want = reload(t.as_bytes(), e.m.size())?;
            if now != want {
                return Err(format!("loaded-differs: {}", crate::props::patchio::diff(&now, &want)));
            }
        }
    }
    let _ = &mut e;
    Ok(())
}

/// runs in a process of its own: saver <patch> <target> <limit> <die>
pub fn saver(a: &[String]) -> i32 {
    extern "C" {
        fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        fn signal(n: i32, h: usize) -> usize;
    }
    let mut e = Eng::new(5, 5);
    if load_patch_from_file(&mut e.m, &a[0]).is_err() {
        return 9;
    }
    let l: u64 = a[2].parse().unwrap();
    unsafe {
        if a[3] == "fail" {
            signal(25, 1); // SIGXFSZ ignored: writes fail
        }
        setrlimit(1, &[l, l]);
    }
    match save_patch_to_file(&mut e.m, &a[1]) {
        Ok(()) => 0,
        Err(_) => 3,
    }
}

/// the file system takes only the first bytes: the save fails or the process is killed in the write
fn limit(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use std::os::unix::process::ExitStatusExt;
    let d = Dir::new();
    let src = format!("{}/src.hxy", d.0);
    let path = format!("{}/{}", d.0, gen_name(s));
    let mut e = gen_state(s, c)?;
    save_patch_to_file(&mut e.m, &src).map_err(|x| format!("save-failed: {:?}", x))?;
    let full = look(&src).unwrap();
    let want = reload(&full, (5, 5))?;
    let old = gen_old(s, &path, std::str::from_utf8(&full).unwrap());
    let lim = match s.below(4) {
        0 => 0,
        1 => full.len() + 10,
        2 => full.len() - 1 - s.below(3),
        _ => s.below(full.len()),
    };
    let die = s.bool();
    c.note(|| format!("limit {} of {} bytes, die {}; before: {}", lim, full.len(), die, brief(&old)));
    let exe = std::env::current_exe().map_err(|e| format!("harness: {}", e))?;
    let st = std::process::Command::new(exe)
        .args(["saver", &src, &path, &lim.to_string(), if die { "die" } else { "fail" }])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| format!("harness: {}", e))?;
    let now = look(&path);
    let is_new = now.as_ref().map(|b| content(b).map(|x| x == want).unwrap_or(false)).unwrap_or(false);
    match (st.code(), st.signal()) {
        (Some(0), _) => {
            c.label("saved");
            if !is_new {
                return Err(format!("success-but-wrong: the file is {} (limit {} of {})", brief(&now), lim, full.len()));
            }
        }
        (Some(3), _) => {
            c.label("failed");
            c.nontrivial = true;
            if now != old {
                return Err(format!("failed-but-changed: the file is {} and was {}", brief(&now), brief(&old)));
            }
        }
        (None, Some(25)) => {
            c.label("killed");
            c.nontrivial = true;
            if now != old && !is_new {
                return Err(format!("crash-half-file: the file is {} and was {}", brief(&now), brief(&old)));
            }
        }
        x => return Err(format!("saver-ended: {:?}", x)),
    }
    Ok(())
}

pub fn p09() -> Prop {
    Prop {
        id: "P09",
        level: "exploration",
        rule: "a save counts as non-trivial when an injected fault or crash was reached after the first file operation (save), when the process was stopped or refused in its write (limit), or when the file was broken (load)",
        assumptions: &[
            "a process death is simulated by letting no file operation take effect from the crash point on, and for real by a file size limit that kills the process in its write; loss of power (unsynced data) is not considered",
            "faults reach the library through the libc functions open64, read, write, rename, link, unlink, fsync, fdatasync, ftruncate64",
        ],
        subs: vec![sub("save", 1000, 60000, save), sub("load", 600, 20000, load), sub("limit", 250, 8000, limit)],
    }
}
