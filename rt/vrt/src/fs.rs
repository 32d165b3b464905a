//! File system model: inodes, a name table, what has reached the disk, and crash points.
#[derive(Clone)]
pub struct Inode {
    pub data: Vec<u8>,
    pub synced: Vec<u8>,
}
#[derive(Clone)]
struct Fd {
    ino: usize,
    pos: usize,
    append: bool,
    open: bool,
    dir: bool,
}
pub struct Fs {
    pub inodes: Vec<Inode>,
    names: Vec<(Vec<u8>, usize)>,
    dirs: Vec<Vec<u8>>,
    /// symbolic links: path, what it points to
    links: Vec<(Vec<u8>, Vec<u8>)>,
    /// name tables after each namespace operation since the last sync of the directory
    history: Vec<Vec<(Vec<u8>, usize)>>,
    fds: Vec<Fd>,
    pub armed: bool,
    pub crashed: bool,
    /// mutating operations seen while armed
    pub ops: usize,
    pub read_limit: bool,
    pub fault_writes: bool,
    /// only a few torn lengths instead of all
    pub coarse: bool,
    pub log: Vec<&'static str>,
    /// relative paths (from /vfs) and those under /tmp, which is another file system, are of the model as well
    pub wide: bool,
}
static mut F: Option<Fs> = None;
pub const FD0: i32 = 1000;
pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EEXIST: i32 = 17;
pub const EXDEV: i32 = 18;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
const O_ACCMODE: i32 = 3;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;
const O_DIRECTORY: i32 = 0o200000;

pub fn fs() -> &'static mut Fs {
    unsafe { F.as_mut().unwrap() }
}
pub fn active() -> bool {
    unsafe { F.is_some() }
}
pub fn init() {
    unsafe {
        F = Some(Fs {
            inodes: Vec::new(),
            names: Vec::new(),
            dirs: vec![b"/vfs".to_vec()],
            links: Vec::new(),
            history: Vec::new(),
            fds: Vec::new(),
            armed: false,
            crashed: false,
            ops: 0,
            read_limit: false,
            fault_writes: false,
            coarse: false,
            log: Vec::new(),
            wide: false,
        })
    }
}
fn norm(p: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(p.len());
    let absolute: Vec<u8>;
    let p = if !p.is_empty() && p[0] != b'/' {
        absolute = [b"/vfs/", p].concat();
        &absolute[..]
    } else {
        p
    };
    let mut i = 0;
    while i < p.len() {
        if p[i] == b'/' {
            if v.last() == Some(&b'/') {
                i += 1;
                continue;
            }
            // "/./"
            if i + 2 <= p.len() && p.get(i + 1) == Some(&b'.') && (i + 2 == p.len() || p[i + 2] == b'/') {
                i += 2;
                continue;
            }
        }
        // "x/.."
        if p[i] == b'/' && p.get(i + 1) == Some(&b'.') && p.get(i + 2) == Some(&b'.') && (i + 3 == p.len() || p[i + 3] == b'/') {
            let k = v.iter().rposition(|c| *c == b'/').unwrap_or(0);
            v.truncate(k);
            i += 3;
            continue;
        }
        v.push(p[i]);
        i += 1;
    }
    if v.len() > 1 && v.last() == Some(&b'/') {
        v.pop();
    }
    v
}
/// paths of the model start with /vfs
pub fn owns(p: &[u8]) -> bool {
    active() && (p.starts_with(b"/vfs") || fs().wide && (p.first() != Some(&b'/') || p.starts_with(b"/tmp")))
}
/// From here on the program's relative paths and those under /tmp belong to the model.
pub fn widen() {
    fs().wide = true;
    fs().dirs.push(b"/tmp".to_vec());
}
/// Follow the symbolic links of a path: all of them, or only those of its directories.
fn follow(p: &[u8], last: bool) -> Vec<u8> {
    let mut p = norm(p);
    let mut n = 0;
    while n < 8 {
        let hit = fs().links.iter().find(|l| (last && l.0 == p) || (p.len() > l.0.len() && p.starts_with(&l.0) && p[l.0.len()] == b'/'));
        let Some((from, to)) = hit else { break };
        let mut q = Vec::new();
        if to.first() != Some(&b'/') {
            q.extend_from_slice(parent(from));
            q.push(b'/');
        }
        q.extend_from_slice(to);
        q.extend_from_slice(&p[from.len()..]);
        p = norm(&q);
        n += 1;
    }
    p
}
/// A symbolic link.
pub fn symlink(target: &str, path: &str) {
    let p = norm(path.as_bytes());
    fs().links.retain(|x| x.0 != p);
    fs().links.push((p, target.as_bytes().to_vec()));
}
fn lookup(p: &[u8]) -> Option<usize> {
    fs().names.iter().find(|x| x.0 == p).map(|x| x.1)
}
fn parent(p: &[u8]) -> &[u8] {
    let k = p.iter().rposition(|c| *c == b'/').unwrap_or(0);
    &p[..k]
}
/// Put a file there, fully on disk.
pub fn put(path: &str, data: Vec<u8>) {
    let p = norm(path.as_bytes());
    let f = fs();
    f.inodes.push(Inode { synced: data.clone(), data });
    let i = f.inodes.len() - 1;
    f.names.retain(|x| x.0 != p);
    f.names.push((p, i));
    f.history.clear();
}
pub fn mkdir(path: &str) {
    fs().dirs.push(norm(path.as_bytes()));
}
pub fn rmdir(path: &str) {
    let p = norm(path.as_bytes());
    fs().dirs.retain(|x| *x != p);
}
pub fn get(path: &str) -> Option<Vec<u8>> {
    lookup(&norm(path.as_bytes())).map(|i| fs().inodes[i].data.clone())
}
pub fn remove(path: &str) {
    let p = norm(path.as_bytes());
    fs().names.retain(|x| x.0 != p);
}
/// names in a directory
pub fn list(path: &str) -> Vec<Vec<u8>> {
    let p = norm(path.as_bytes());
    fs().names.iter().filter(|x| parent(&x.0) == &p[..]).map(|x| x.0[p.len() + 1..].to_vec()).collect()
}
/// how much of `n` bytes is kept
fn torn(name: &str, n: usize) -> usize {
    if fs().coarse && n > 4 {
        [0, 4, n / 2, n - 1, n][crate::choose(name, 5)]
    } else {
        crate::choose(name, n + 1)
    }
}
fn snapshot() {
    let n = fs().names.clone();
    fs().history.push(n);
}

pub fn crashed() -> bool {
    fs().crashed
}
/// A crash may happen before the operation.
fn crash_point(what: &'static str) -> bool {
    let f = fs();
    if f.crashed {
        return true;
    }
    if f.armed {
        f.ops += 1;
        f.log.push(what);
        if crate::choose_bool("crash") {
            crash_now();
        }
    }
    false
}
/// The process dies here: nothing of it runs any more. The process under test has to run in
/// tasks of its own; the harness waits for `crashed()` in task 0.
fn crash_now() {
    fs().crashed = true;
    crate::sched::kill_all_but_main();
}
/// Crash points and write faults are explored from here on.
pub fn arm(faults: bool) {
    fs().armed = true;
    fs().fault_writes = faults;
    let n = fs().names.clone();
    fs().history = vec![n];
}
pub fn disarm() {
    fs().armed = false;
}
/// The machine restarts. With `power` everything not synced may be lost.
pub fn restart(power: bool) {
    let f = fs();
    f.armed = false;
    f.crashed = false;
    for d in f.fds.iter_mut() {
        d.open = false;
    }
    if power {
        // the directory may be as it was after any operation since its last sync
        if f.history.len() > 1 {
            let k = crate::choose("lost names", f.history.len());
            let k = f.history.len() - 1 - k;
            f.names = f.history[k].clone();
        }
        for i in 0..f.inodes.len() {
            if f.inodes[i].data == f.inodes[i].synced {
                continue;
            }
            let live = f.names.iter().any(|x| x.1 == i);
            if !live {
                continue;
            }
            let n = f.inodes[i].data.len();
            // the synced content, or a prefix of the new one, the rest missing or zero
            match crate::choose("lost data", 3) {
                0 => f.inodes[i].data = f.inodes[i].synced.clone(),
                1 => {
                    let k = torn("kept bytes", n);
                    f.inodes[i].data.truncate(k);
                }
                _ => {
                    let k = torn("kept bytes", n);
                    for j in k..n {
                        f.inodes[i].data[j] = 0;
                    }
                }
            }
        }
    }
    for i in 0..f.inodes.len() {
        f.inodes[i].synced = f.inodes[i].data.clone();
    }
    f.history.clear();
}

// ---- system calls ---------------------------------------------------------
pub type R<T> = Result<T, i32>;

pub fn open(path: &[u8], flags: i32) -> R<i32> {
    let p = follow(path, true);
    // other threads may run before every operation that other threads can see
    crate::sched::point();
    let w = flags & O_ACCMODE != 0;
    if fs().dirs.iter().any(|d| *d == p) {
        if w {
            return Err(EISDIR);
        }
        fs().fds.push(Fd { ino: usize::MAX, pos: 0, append: false, open: true, dir: true });
        return Ok(FD0 + fs().fds.len() as i32 - 1);
    }
    if flags & O_DIRECTORY != 0 {
        return Err(if lookup(&p).is_some() { ENOTDIR } else { ENOENT });
    }
    let ino = match lookup(&p) {
        Some(i) => {
            if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                return Err(EEXIST);
            }
            if w && flags & O_TRUNC != 0 && !fs().inodes[i].data.is_empty() {
                if crash_point("truncate") {
                    return Err(EIO);
                }
                fs().inodes[i].data.clear();
            }
            i
        }
        None => {
            if flags & O_CREAT == 0 || !w {
                return Err(ENOENT);
            }
            if !fs().dirs.iter().any(|d| d == parent(&p)) {
                return Err(ENOENT);
            }
            if crash_point("create") {
                return Err(EIO);
            }
            fs().inodes.push(Inode { data: Vec::new(), synced: Vec::new() });
            let i = fs().inodes.len() - 1;
            fs().names.push((p, i));
            snapshot();
            i
        }
    };
    fs().fds.push(Fd { ino, pos: 0, append: flags & O_APPEND != 0, open: true, dir: false });
    Ok(FD0 + fs().fds.len() as i32 - 1)
}
fn fd(n: i32) -> R<&'static mut Fd> {
    match fs().fds.get_mut((n - FD0) as usize) {
        Some(f) if f.open => Ok(f),
        _ => Err(EBADF),
    }
}
pub fn read(n: i32, b: &mut [u8], at: Option<usize>) -> R<usize> {
    let d = fd(n)?;
    if d.dir {
        return Err(EISDIR);
    }
    let pos = at.unwrap_or(d.pos);
    let x = &fs().inodes[d.ino].data;
    let k = x.len().saturating_sub(pos).min(b.len());
    if k > 0 {
        b[..k].copy_from_slice(&x[pos..pos + k]);
    }
    if at.is_none() {
        d.pos += k;
    }
    Ok(k)
}
pub fn write(n: i32, b: &[u8], at: Option<usize>) -> R<usize> {
    crate::sched::point();
    let d = fd(n)?;
    if d.dir {
        return Err(EBADF);
    }
    let mut keep = b.len();
    if fs().crashed {
        return Err(EIO);
    }
    let mut die = 0;
    if fs().armed {
        fs().ops += 1;
        fs().log.push("write");
        // whole write, torn write then crash, short write then out of space
        die = crate::choose("crash in write", if fs().fault_writes { 3 } else { 2 });
        if die != 0 {
            keep = torn("written bytes", b.len());
        }
    }
    let x = &mut fs().inodes[d.ino].data;
    let pos = match at {
        Some(p) => p,
        None if d.append => x.len(),
        None => d.pos,
    };
    if x.len() < pos + keep {
        x.resize(pos + keep, 0);
    }
    x[pos..pos + keep].copy_from_slice(&b[..keep]);
    if at.is_none() {
        d.pos = pos + keep;
    }
    match die {
        1 => crash_now(),
        2 if keep == 0 => return Err(ENOSPC),
        _ => {}
    }
    Ok(keep)
}
pub fn lseek(n: i32, off: i64, whence: i32) -> R<i64> {
    let d = fd(n)?;
    let base = match whence {
        0 => 0,
        1 => d.pos as i64,
        2 => fs().inodes[d.ino].data.len() as i64,
        _ => return Err(EINVAL),
    };
    match base.checked_add(off) {
        Some(p) if p >= 0 => {
            d.pos = p as usize;
            Ok(p)
        }
        _ => Err(EINVAL),
    }
}
pub fn close(n: i32) -> R<()> {
    fd(n)?.open = false;
    Ok(())
}
pub fn fsync(n: i32) -> R<()> {
    let d = fd(n)?;
    if crash_point("fsync") {
        return Err(EIO);
    }
    if d.dir {
        let n = fs().names.clone();
        fs().history = vec![n];
    } else {
        let i = &mut fs().inodes[d.ino];
        i.synced = i.data.clone();
    }
    Ok(())
}
pub fn ftruncate(n: i32, len: usize) -> R<()> {
    let d = fd(n)?;
    if crash_point("ftruncate") {
        return Err(EIO);
    }
    fs().inodes[d.ino].data.resize(len, 0);
    Ok(())
}
pub fn rename(a: &[u8], b: &[u8]) -> R<()> {
    crate::sched::point();
    let (a, b) = (follow(a, false), follow(b, false));
    let i = lookup(&a).ok_or(ENOENT)?;
    if !fs().dirs.iter().any(|d| d == parent(&b)) {
        return Err(ENOENT);
    }
    if a.starts_with(b"/tmp") != b.starts_with(b"/tmp") {
        return Err(EXDEV);
    }
    if crash_point("rename") {
        return Err(EIO);
    }
    fs().links.retain(|x| x.0 != b);
    fs().names.retain(|x| x.0 != a && x.0 != b);
    fs().names.push((b, i));
    snapshot();
    Ok(())
}
pub fn link(a: &[u8], b: &[u8]) -> R<()> {
    crate::sched::point();
    let (a, b) = (follow(a, false), follow(b, false));
    let i = lookup(&a).ok_or(ENOENT)?;
    if lookup(&b).is_some() {
        return Err(EEXIST);
    }
    if a.starts_with(b"/tmp") != b.starts_with(b"/tmp") {
        return Err(EXDEV);
    }
    if crash_point("link") {
        return Err(EIO);
    }
    fs().names.push((b, i));
    snapshot();
    Ok(())
}
pub fn unlink(a: &[u8]) -> R<()> {
    crate::sched::point();
    let a = follow(a, false);
    if fs().links.iter().any(|x| x.0 == a) {
        fs().links.retain(|x| x.0 != a);
        return Ok(());
    }
    lookup(&a).ok_or(ENOENT)?;
    if crash_point("unlink") {
        return Err(EIO);
    }
    fs().names.retain(|x| x.0 != a);
    snapshot();
    Ok(())
}
pub fn make_dir(a: &[u8]) -> R<()> {
    let a = norm(a);
    if fs().dirs.iter().any(|d| *d == a) || lookup(&a).is_some() {
        return Err(EEXIST);
    }
    fs().dirs.push(a);
    Ok(())
}
/// (mode, size, inode)
pub type St = (u32, usize, usize);
const DIR_MODE: u32 = 0o040755;
const FILE_MODE: u32 = 0o100644;
const LINK_MODE: u32 = 0o120777;
fn stat_at(a: &[u8]) -> R<St> {
    if fs().dirs.iter().any(|d| d == a) {
        return Ok((DIR_MODE, 4096, 0));
    }
    let i = lookup(a).ok_or(ENOENT)?;
    Ok((FILE_MODE, fs().inodes[i].data.len(), i + 1))
}
pub fn stat(a: &[u8]) -> R<St> {
    stat_at(&follow(a, true))
}
/// of a symbolic link itself
pub fn lstat(a: &[u8]) -> R<St> {
    let a = follow(a, false);
    if let Some(k) = fs().links.iter().position(|x| x.0 == a) {
        return Ok((LINK_MODE, fs().links[k].1.len(), 100000 + k));
    }
    stat_at(&a)
}
/// what a symbolic link points to
pub fn readlink(a: &[u8]) -> R<Vec<u8>> {
    let a = follow(a, false);
    if let Some(x) = fs().links.iter().find(|x| x.0 == a) {
        return Ok(x.1.clone());
    }
    stat_at(&a)?;
    Err(EINVAL)
}
/// the path without links
pub fn realpath(a: &[u8]) -> R<Vec<u8>> {
    stat(a)?;
    Ok(follow(a, true))
}
pub fn fstat(n: i32) -> R<St> {
    let d = fd(n)?;
    if d.dir {
        return Ok((DIR_MODE, 4096, 0));
    }
    Ok((FILE_MODE, fs().inodes[d.ino].data.len(), d.ino + 1))
}
pub fn is_dir(a: &[u8]) -> bool {
    let a = follow(a, true);
    fs().dirs.iter().any(|d| *d == a)
}
pub fn dir_names(a: &[u8]) -> Vec<Vec<u8>> {
    let p = follow(a, true);
    let mut v: Vec<Vec<u8>> = Vec::new();
    let all = fs().names.iter().map(|x| &x.0).chain(fs().dirs.iter()).chain(fs().links.iter().map(|x| &x.0));
    for x in all {
        if parent(x) == &p[..] && x.len() > p.len() {
            v.push(x[p.len() + 1..].to_vec());
        }
    }
    v
}
