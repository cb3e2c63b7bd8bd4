//! Files live in a scratch directory of the harness. Every change is logged, can fail, can stall and
//! can be the last thing a process does. Nothing outside the scratch directory can be changed.
pub use ::std::fs::{canonicalize, exists, metadata, read_link, symlink_metadata, DirEntry, FileTimes, FileType, Metadata, Permissions};
use ::std::cell::{Cell, RefCell};
use ::std::ffi::OsString;
use ::std::io::{self, IoSlice, IoSliceMut, Read, Seek, SeekFrom, Write};
use ::std::os::unix::fs::MetadataExt;
use ::std::path::{Path, PathBuf};
use ::std::rc::Rc;
use ::std::{fmt, fs as real};

/// One change of the file system, as applied.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Create { path: PathBuf, ino: u64 },
    SetLen { ino: u64, len: u64 },
    Write { ino: u64, off: u64, data: Vec<u8> },
    Sync { ino: u64 },
    SyncDir,
    Rename { from: PathBuf, to: PathBuf, ino: u64 },
    Link { from: PathBuf, to: PathBuf, ino: u64 },
    Remove { path: PathBuf },
}

/// What is about to happen.
#[derive(Clone, Debug)]
pub enum Event {
    OpenRead(PathBuf),
    Create(PathBuf),
    SetLen(PathBuf, u64),
    Write(PathBuf, usize),
    Sync(PathBuf),
    Rename(PathBuf, PathBuf),
    Remove(PathBuf),
    Other(&'static str, PathBuf),
}
impl Event {
    pub fn label(&self) -> String {
        fn n(p: &Path) -> String {
            p.file_name().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default()
        }
        match self {
            Event::OpenRead(p) => format!("open {}", n(p)),
            Event::Create(p) => format!("create {}", n(p)),
            Event::SetLen(p, l) => format!("set length of {} to {}", n(p), l),
            Event::Write(p, l) => format!("write {} bytes to {}", l, n(p)),
            Event::Sync(p) => format!("sync {}", n(p)),
            Event::Rename(a, b) => format!("rename {} to {}", n(a), n(b)),
            Event::Remove(p) => format!("remove {}", n(p)),
            Event::Other(w, p) => format!("{} {}", w, n(p)),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Action {
    Proceed,
    /// errno
    Fail(i32),
    /// A write takes only this many bytes and reports that.
    Short(usize),
    /// A write takes only this many bytes, then the process dies.
    Torn(usize),
    /// The process dies before the operation.
    Crash,
    /// The operation takes until everything else is quiet, then proceeds.
    Stall,
}

type Hook = Rc<dyn Fn(&Event) -> Action>;

#[derive(Default)]
struct Fs {
    root: PathBuf,
    log: Vec<Op>,
    hook: Option<Hook>,
    order: usize,
}

thread_local! {
    static FS: RefCell<Fs> = RefCell::new(Fs::default());
    static ESCAPES: Cell<u64> = const { Cell::new(0) };
}

pub fn verif_set_root(p: PathBuf) {
    FS.with(|f| f.borrow_mut().root = p);
}
pub fn verif_root() -> PathBuf {
    FS.with(|f| f.borrow().root.clone())
}
pub fn verif_reset() {
    FS.with(|f| {
        let mut f = f.borrow_mut();
        f.log.clear();
        f.hook = None;
        f.order = 0;
    });
}
pub fn verif_hook(h: Option<Hook>) {
    FS.with(|f| f.borrow_mut().hook = h);
}
pub fn verif_log() -> Vec<Op> {
    FS.with(|f| f.borrow().log.clone())
}
pub fn verif_log_len() -> usize {
    FS.with(|f| f.borrow().log.len())
}
/// Order in which directories are listed: 0 sorted, 1 reversed, 2 rotated.
pub fn verif_dir_order(o: usize) {
    FS.with(|f| f.borrow_mut().order = o);
}
pub fn verif_escapes() -> u64 {
    ESCAPES.with(|e| e.get())
}

fn log(op: Op) {
    if ::rt::active() {
        FS.with(|f| f.borrow_mut().log.push(op));
    }
}

fn dead() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "process is gone")
}

fn absolute(p: &Path) -> PathBuf {
    if p.is_absolute() {
        p.to_path_buf()
    } else {
        verif_root().join(p)
    }
}

fn contained(p: &Path) -> io::Result<PathBuf> {
    let root = verif_root();
    let a = absolute(p);
    let parent = a.parent().map(|q| q.to_path_buf()).unwrap_or_default();
    let c = real::canonicalize(&parent)?;
    if root.as_os_str().is_empty() || !c.starts_with(&root) {
        ESCAPES.with(|e| e.set(e.get() + 1));
        return Err(io::Error::from_raw_os_error(13));
    }
    Ok(c.join(a.file_name().ok_or_else(|| io::Error::from_raw_os_error(22))?))
}

/// The directories `tmp` and `data` of the root are filesystems of their own.
fn mount(p: &Path) -> Option<&'static str> {
    let root = verif_root();
    ["tmp", "data"].into_iter().find(|d| p.starts_with(root.join(d)))
}

/// Asks the harness; `Ok(None)` means go on, `Ok(Some(n))` a short or (with `true`) a torn write.
fn ask(ev: Event, mutating: bool) -> io::Result<Option<(usize, bool)>> {
    if !::rt::active() {
        return Err(dead());
    }
    if mutating {
        ::rt::point("fs");
    }
    let h = FS.with(|f| f.borrow().hook.clone());
    let a = match h {
        Some(h) => h(&ev),
        None => Action::Proceed,
    };
    match a {
        Action::Proceed => Ok(None),
        Action::Fail(e) => Err(io::Error::from_raw_os_error(e)),
        Action::Short(n) => Ok(Some((n, false))),
        Action::Torn(n) => Ok(Some((n, true))),
        Action::Crash => ::rt::proc_exit(137),
        Action::Stall => {
            ::rt::stall();
            Ok(None)
        }
    }
}

// ------------------------------------------------------------ File

pub struct File {
    f: real::File,
    path: PathBuf,
    append: bool,
}

impl fmt::Debug for File {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "File({:?})", self.path)
    }
}

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> {
        OpenOptions::new().read(true).write(true).create_new(true).open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    fn ino(&self) -> u64 {
        self.f.metadata().map(|m| m.ino()).unwrap_or(0)
    }
    pub fn sync_all(&self) -> io::Result<()> {
        ask(Event::Sync(self.path.clone()), true)?;
        if self.f.metadata()?.is_dir() {
            log(Op::SyncDir);
        } else {
            log(Op::Sync { ino: self.ino() });
        }
        Ok(())
    }
    pub fn sync_data(&self) -> io::Result<()> {
        self.sync_all()
    }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        ask(Event::SetLen(self.path.clone(), n), true)?;
        self.f.set_len(n)?;
        log(Op::SetLen { ino: self.ino(), len: n });
        Ok(())
    }
    pub fn metadata(&self) -> io::Result<Metadata> {
        self.f.metadata()
    }
    pub fn try_clone(&self) -> io::Result<File> {
        Ok(File { f: self.f.try_clone()?, path: self.path.clone(), append: self.append })
    }
    pub fn set_permissions(&self, p: Permissions) -> io::Result<()> {
        self.f.set_permissions(p)
    }
    pub fn lock(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn unlock(&self) -> io::Result<()> {
        Ok(())
    }
    fn write_some(&self, buf: &[u8], at: Option<u64>) -> io::Result<usize> {
        let a = ask(Event::Write(self.path.clone(), buf.len()), true)?;
        let n = a.map(|(n, _)| n.min(buf.len())).unwrap_or(buf.len());
        let ino = self.ino();
        let off = match at {
            Some(o) => o,
            None if self.append => self.f.metadata()?.len(),
            None => (&self.f).stream_position()?,
        };
        if n > 0 {
            match at {
                Some(o) => ::std::os::unix::fs::FileExt::write_all_at(&self.f, &buf[..n], o)?,
                None => (&self.f).write_all(&buf[..n])?,
            }
            log(Op::Write { ino, off, data: buf[..n].to_vec() });
        }
        if let Some((_, true)) = a {
            ::rt::proc_exit(137);
        }
        Ok(n)
    }
    fn read_some(&self, buf: &mut [u8]) -> io::Result<usize> {
        (&self.f).read(buf)
    }
}

macro_rules! io_impl {
    ($($t:ty),*) => {$(
        impl Read for $t {
            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                self.read_some(buf)
            }
            fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
                (&self.f).read_vectored(bufs)
            }
            fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
                (&self.f).read_to_end(buf)
            }
        }
        impl Write for $t {
            fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
                self.write_some(buf, None)
            }
            fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
                let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
                self.write_some(&all, None)
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
        impl Seek for $t {
            fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
                (&self.f).seek(p)
            }
        }
    )*};
}
io_impl!(File, &File);

impl ::std::os::fd::AsRawFd for File {
    fn as_raw_fd(&self) -> ::std::os::fd::RawFd {
        self.f.as_raw_fd()
    }
}
impl ::std::os::fd::AsFd for File {
    fn as_fd(&self) -> ::std::os::fd::BorrowedFd<'_> {
        self.f.as_fd()
    }
}

pub trait FileExt {
    fn read_at(&self, buf: &mut [u8], offset: u64) -> io::Result<usize>;
    fn read_exact_at(&self, buf: &mut [u8], offset: u64) -> io::Result<()>;
    fn write_at(&self, buf: &[u8], offset: u64) -> io::Result<usize>;
    fn write_all_at(&self, buf: &[u8], offset: u64) -> io::Result<()>;
}
impl FileExt for File {
    fn read_at(&self, buf: &mut [u8], offset: u64) -> io::Result<usize> {
        ::std::os::unix::fs::FileExt::read_at(&self.f, buf, offset)
    }
    fn read_exact_at(&self, buf: &mut [u8], offset: u64) -> io::Result<()> {
        ::std::os::unix::fs::FileExt::read_exact_at(&self.f, buf, offset)
    }
    fn write_at(&self, buf: &[u8], offset: u64) -> io::Result<usize> {
        self.write_some(buf, Some(offset))
    }
    fn write_all_at(&self, mut buf: &[u8], mut offset: u64) -> io::Result<()> {
        while !buf.is_empty() {
            let n = self.write_some(buf, Some(offset))?;
            if n == 0 {
                return Err(io::ErrorKind::WriteZero.into());
            }
            buf = &buf[n..];
            offset += n as u64;
        }
        Ok(())
    }
}

// ------------------------------------------------------------ OpenOptions

#[derive(Clone, Debug)]
pub struct OpenOptions {
    o: real::OpenOptions,
    write: bool,
    append: bool,
    truncate: bool,
    create: bool,
    create_new: bool,
}

pub trait OpenOptionsExt {
    fn mode(&mut self, mode: u32) -> &mut Self;
    fn custom_flags(&mut self, flags: i32) -> &mut Self;
}
impl OpenOptionsExt for OpenOptions {
    fn mode(&mut self, mode: u32) -> &mut Self {
        ::std::os::unix::fs::OpenOptionsExt::mode(&mut self.o, mode);
        self
    }
    fn custom_flags(&mut self, _flags: i32) -> &mut Self {
        self
    }
}

impl OpenOptions {
    pub fn new() -> Self {
        OpenOptions { o: real::OpenOptions::new(), write: false, append: false, truncate: false, create: false, create_new: false }
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.o.read(v);
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.write = v;
        self.o.write(v);
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.append = v;
        self.o.append(v);
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.truncate = v;
        self.o.truncate(v);
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.create = v;
        self.o.create(v);
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.create_new = v;
        self.o.create_new(v);
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        let p = absolute(p.as_ref());
        if !(self.write || self.append) {
            ask(Event::OpenRead(p.clone()), false)?;
            let f = self.o.open(&p)?;
            return Ok(File { f, path: p, append: false });
        }
        let p = contained(&p)?;
        let existed = real::symlink_metadata(&p).is_ok();
        if !existed && (self.create || self.create_new) {
            ask(Event::Create(p.clone()), true)?;
            let f = self.o.open(&p)?;
            let ino = f.metadata()?.ino();
            log(Op::Create { path: p.clone(), ino });
            return Ok(File { f, path: p, append: self.append });
        }
        if self.truncate {
            ask(Event::SetLen(p.clone(), 0), true)?;
        } else {
            ask(Event::Other("open for writing", p.clone()), false)?;
        }
        let f = self.o.open(&p)?;
        if self.truncate {
            log(Op::SetLen { ino: f.metadata()?.ino(), len: 0 });
        }
        Ok(File { f, path: p, append: self.append })
    }
}

// ------------------------------------------------------------ functions

pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut f = File::open(p)?;
    let mut v = Vec::new();
    f.read_to_end(&mut v)?;
    Ok(v)
}

pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let v = read(p)?;
    String::from_utf8(v).map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "stream did not contain valid UTF-8"))
}

pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
    File::create(p)?.write_all(c.as_ref())
}

pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<()> {
    let from = contained(from.as_ref())?;
    let to = contained(to.as_ref())?;
    ask(Event::Rename(from.clone(), to.clone()), true)?;
    if mount(&from) != mount(&to) {
        return Err(io::Error::from_raw_os_error(18));
    }
    let ino = real::symlink_metadata(&from)?.ino();
    real::rename(&from, &to)?;
    log(Op::Rename { from, to, ino });
    Ok(())
}

pub fn hard_link<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<()> {
    let from = contained(from.as_ref())?;
    let to = contained(to.as_ref())?;
    ask(Event::Other("link", to.clone()), true)?;
    if mount(&from) != mount(&to) {
        return Err(io::Error::from_raw_os_error(18));
    }
    let ino = real::symlink_metadata(&from)?.ino();
    real::hard_link(&from, &to)?;
    log(Op::Link { from, to, ino });
    Ok(())
}

pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> io::Result<u64> {
    let data = read(from)?;
    write(to, &data)?;
    Ok(data.len() as u64)
}

pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let p = contained(p.as_ref())?;
    ask(Event::Remove(p.clone()), true)?;
    real::remove_file(&p)?;
    log(Op::Remove { path: p });
    Ok(())
}

pub fn create_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    real::create_dir(contained(p.as_ref())?)
}

pub fn create_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    let a = absolute(p.as_ref());
    if a.is_dir() {
        return Ok(());
    }
    if let Some(q) = a.parent() {
        create_dir_all(q)?;
    }
    create_dir(a)
}

pub fn remove_dir<P: AsRef<Path>>(p: P) -> io::Result<()> {
    real::remove_dir(contained(p.as_ref())?)
}

pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> io::Result<()> {
    real::remove_dir_all(contained(p.as_ref())?)
}

pub fn set_permissions<P: AsRef<Path>>(p: P, perm: Permissions) -> io::Result<()> {
    real::set_permissions(contained(p.as_ref())?, perm)
}

pub struct ReadDir(::std::vec::IntoIter<(OsString, DirEntry)>);
impl fmt::Debug for ReadDir {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ReadDir")
    }
}
impl Iterator for ReadDir {
    type Item = io::Result<DirEntry>;
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|(_, e)| Ok(e))
    }
}

pub fn read_dir<P: AsRef<Path>>(p: P) -> io::Result<ReadDir> {
    let p = absolute(p.as_ref());
    ask(Event::Other("read directory", p.clone()), false)?;
    let mut v = Vec::new();
    for e in real::read_dir(&p)? {
        let e = e?;
        v.push((e.file_name(), e));
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    match FS.with(|f| f.borrow().order) {
        1 => v.reverse(),
        2 if !v.is_empty() => {
            let n = v.len() / 2;
            v.rotate_left(n)
        }
        _ => {}
    }
    Ok(ReadDir(v.into_iter()))
}
