use crate::io::{err, poll_out_write};
use crate::mc::{self, FileObj, LeafKind, LeafSlot};
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct File {
    id: usize,
    slot: LeafSlot,
}

fn open_in(path: &str) -> std::io::Result<File> {
    mc::with(|w| {
        let spec = match w.in_files.get(path) {
            Some(s) => s.clone(),
            None => {
                w.op(20, 0, 2, true);
                return Err(err(2));
            }
        };
        if let Some(e) = spec.open_error {
            w.op(20, 0, e as u64, true);
            return Err(err(e));
        }
        w.op(21, 0, 0, true);
        w.files.push(FileObj::In { path: path.to_string(), spec, pos: 0 });
        Ok(File { id: w.files.len() - 1, slot: LeafSlot::new() })
    })
}
fn open_out(path: &str, truncate: bool) -> std::io::Result<File> {
    mc::with(|w| {
        let i = w.out_file(path);
        if let Some(e) = w.outs[i].spec.create_error {
            w.op(22, i as u64, e as u64, true);
            return Err(err(e));
        }
        if truncate {
            w.outs[i].content.clear();
            w.outs[i].pending.clear();
        }
        w.outs[i].opened += 1;
        w.outs[i].open_now += 1;
        w.op(23, i as u64, truncate as u64, true);
        w.files.push(FileObj::Out { out: i });
        Ok(File { id: w.files.len() - 1, slot: LeafSlot::new() })
    })
}

impl File {
    pub async fn set_len(&self, size: u64) -> std::io::Result<()> {
        let id = self.id;
        mc::with(|w| match w.files[id] {
            FileObj::Out { out } => {
                w.out_flush(out).map_err(err)?;
                w.outs[out].content.resize(size as usize, 0);
                w.op(27, out as u64, size, true);
                Ok(())
            }
            _ => Err(err(22)),
        })
    }
    pub async fn open<P: AsRef<Path>>(path: P) -> std::io::Result<File> {
        let p = path.as_ref();
        open_in(&p.to_string_lossy())
            .map_err(|e| std::io::Error::new(e.kind(), format!("could not open `{}`", p.display())))
    }
    pub async fn create<P: AsRef<Path>>(path: P) -> std::io::Result<File> {
        open_out(&path.as_ref().to_string_lossy(), true)
    }
    pub async fn metadata(&self) -> std::io::Result<Metadata> {
        mc::with(|w| {
            Ok(Metadata {
                len: match &w.files[self.id] {
                    FileObj::In { spec, .. } => spec.content.len() as u64,
                    FileObj::Out { out } => w.outs[*out].content.len() as u64,
                },
                dir: false,
            })
        })
    }
    pub async fn sync_all(&self) -> std::io::Result<()> {
        self.sync()
    }
    pub async fn sync_data(&self) -> std::io::Result<()> {
        self.sync()
    }
    fn sync(&self) -> std::io::Result<()> {
        mc::with(|w| match w.files[self.id] {
            FileObj::Out { out } => w.out_flush(out),
            _ => Ok(()),
        })
        .map_err(err)
    }
}

#[derive(Clone, Debug, Default)]
pub struct OpenOptions {
    read: bool,
    write: bool,
    append: bool,
    truncate: bool,
    create: bool,
    create_new: bool,
}
impl OpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn read(&mut self, v: bool) -> &mut Self {
        self.read = v;
        self
    }
    pub fn write(&mut self, v: bool) -> &mut Self {
        self.write = v;
        self
    }
    pub fn append(&mut self, v: bool) -> &mut Self {
        self.append = v;
        self
    }
    pub fn truncate(&mut self, v: bool) -> &mut Self {
        self.truncate = v;
        self
    }
    pub fn create(&mut self, v: bool) -> &mut Self {
        self.create = v;
        self
    }
    pub fn create_new(&mut self, v: bool) -> &mut Self {
        self.create_new = v;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, path: P) -> impl std::future::Future<Output = std::io::Result<File>> {
        let path = path.as_ref().to_string_lossy().to_string();
        let o = self.clone();
        async move {
            if o.write || o.append {
                let exists = mc::with(|w| w.out_specs.contains_key(&path) || w.out_index.contains_key(&path));
                if !exists && !o.create && !o.create_new {
                    return Err(err(2));
                }
                if exists && o.create_new {
                    return Err(err(17));
                }
                // writing without truncation starts at offset 0: modelled as overwrite below
                let f = open_out(&path, o.truncate)?;
                if !o.truncate && !o.append {
                    mc::with(|w| {
                        let i = w.out_file(&path);
                        w.outs[i].spec.initial.clear();
                    });
                }
                Ok(f)
            } else {
                open_in(&path)
            }
        }
    }
}

impl futures_io::AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let id = self.id;
        let leaf = mc::with(|w| match &w.files[id] {
            FileObj::In { spec, .. } => spec.leaf,
            _ => false,
        });
        if leaf && self.slot.poll(LeafKind::FileIo { file: id }, cx).is_none() {
            return Poll::Pending;
        }
        let r = mc::with(|w| {
            let (r, name) = match &mut w.files[id] {
                FileObj::In { spec, pos, path } => {
                    let mut n = (spec.content.len() - *pos).min(buf.len());
                    if let Some(m) = spec.max_read {
                        n = n.min(m);
                    }
                    if let Some(at) = spec.read_error_at {
                        if *pos >= at {
                            n = usize::MAX;
                        } else {
                            n = n.min(at - *pos);
                        }
                    }
                    if n == usize::MAX {
                        (Err(if spec.read_errno == 0 { 5 } else { spec.read_errno }), path.clone())
                    } else {
                        let v = spec.content[*pos..*pos + n].to_vec();
                        *pos += n;
                        (Ok(v), path.clone())
                    }
                }
                FileObj::Out { .. } => (Err(9), String::new()),
            };
            match &r {
                Ok(v) => {
                    let v = v.clone();
                    w.op(24, id as u64, mc::hash_bytes(0, &v), true);
                    w.event(&name, "sys-read", &v);
                }
                Err(e) => {
                    let e = *e;
                    w.op(25, id as u64, e as u64, true)
                }
            }
            r
        });
        match r {
            Ok(v) => {
                buf[..v.len()].copy_from_slice(&v);
                Poll::Ready(Ok(v.len()))
            }
            Err(e) => Poll::Ready(Err(err(e))),
        }
    }
}
impl futures_io::AsyncWrite for File {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        let id = self.id;
        match mc::with(|w| match w.files[id] {
            FileObj::Out { out } => Some(out),
            _ => None,
        }) {
            Some(i) => poll_out_write(&mut self.slot, i, cx, buf),
            None => Poll::Ready(Err(err(9))),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(self.sync())
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        self.poll_flush(cx)
    }
}
impl futures_io::AsyncSeek for File {
    fn poll_seek(self: Pin<&mut Self>, _cx: &mut Context<'_>, to: std::io::SeekFrom) -> Poll<std::io::Result<u64>> {
        use std::io::SeekFrom::*;
        Poll::Ready(mc::with(|w| match &mut w.files[self.id] {
            FileObj::In { spec, pos, .. } => {
                let n = match to {
                    Start(n) => n as i64,
                    End(n) => spec.content.len() as i64 + n,
                    Current(n) => *pos as i64 + n,
                };
                if n < 0 {
                    return Err(err(22));
                }
                *pos = (n as usize).min(spec.content.len());
                Ok(n as u64)
            }
            // only where it stands already
            FileObj::Out { out } => {
                let o = &w.outs[*out];
                let end = (o.content.len() + o.pending.len()) as u64;
                match to {
                    End(0) | Current(0) => Ok(end),
                    Start(n) if n == end => Ok(end),
                    _ => Err(err(29)),
                }
            }
        }))
    }
}
impl Drop for File {
    fn drop(&mut self) {
        let id = self.id;
        // like the real one: what the file object itself has accepted is written out
        let _ = mc::try_with(|w| {
            if w.finished {
                return;
            }
            if let FileObj::Out { out } = w.files[id] {
                w.outs[out].open_now -= 1;
                let _ = w.out_flush(out);
            }
        });
    }
}

pub async fn read<P: AsRef<Path>>(path: P) -> std::io::Result<Vec<u8>> {
    use real::io::ReadExt;
    let mut f = File::open(path).await?;
    let mut v = vec![];
    f.read_to_end(&mut v).await?;
    Ok(v)
}
pub async fn read_to_string<P: AsRef<Path>>(path: P) -> std::io::Result<String> {
    read(path).await.map(|v| String::from_utf8_lossy(&v).to_string())
}

/// Whole files, in one step.
pub async fn write<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> std::io::Result<()> {
    use real::io::WriteExt;
    let mut f = File::create(path).await?;
    f.write_all(contents.as_ref()).await?;
    f.flush().await
}
pub async fn remove_file<P: AsRef<Path>>(path: P) -> std::io::Result<()> {
    let p = path.as_ref().to_string_lossy().to_string();
    mc::with(|w| {
        let known = w.out_specs.contains_key(&p) || w.out_index.contains_key(&p);
        if !known {
            return Err(err(2));
        }
        let i = w.out_file(&p);
        w.outs[i].content.clear();
        w.outs[i].pending.clear();
        w.outs[i].spec.initial.clear();
        w.op(26, i as u64, 0, true);
        Ok(())
    })
}
/// What is known about a file of the model.
#[derive(Clone, Debug)]
pub struct Metadata {
    len: u64,
    dir: bool,
}
impl Metadata {
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn is_file(&self) -> bool {
        !self.dir
    }
    pub fn is_dir(&self) -> bool {
        self.dir
    }
}
fn metadata_of(p: &str) -> std::io::Result<Metadata> {
    mc::with(|w| {
        w.op(28, 0, 0, false);
        if let Some(i) = w.out_index.get(p).copied() {
            return Ok(Metadata { len: w.outs[i].content.len() as u64, dir: false });
        }
        if let Some(f) = w.in_files.get(p) {
            return match f.open_error {
                Some(2) => Err(err(2)),
                _ => Ok(Metadata { len: f.content.len() as u64, dir: f.read_error_at == Some(0) && f.content.is_empty() }),
            };
        }
        match w.out_specs.get(p) {
            Some(o) if o.create_error.is_none() => Ok(Metadata { len: o.initial.len() as u64, dir: false }),
            Some(o) if o.create_error == Some(21) => Ok(Metadata { len: 0, dir: true }),
            _ => Err(err(2)),
        }
    })
}
pub async fn metadata<P: AsRef<Path>>(path: P) -> std::io::Result<Metadata> {
    metadata_of(&path.as_ref().to_string_lossy())
}
pub async fn symlink_metadata<P: AsRef<Path>>(path: P) -> std::io::Result<Metadata> {
    metadata(path).await
}
pub async fn canonicalize<P: AsRef<Path>>(path: P) -> std::io::Result<real::path::PathBuf> {
    metadata(&path).await?;
    Ok(path.as_ref().to_path_buf().into())
}
pub async fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> std::io::Result<()> {
    let (from, to) = (from.as_ref().to_string_lossy().to_string(), to.as_ref().to_string_lossy().to_string());
    mc::with(|w| {
        let Some(i) = w.out_index.get(&from).copied() else { return Err(err(2)) };
        let j = w.out_file(&to);
        if let Some(e) = w.outs[j].spec.create_error {
            return Err(err(e));
        }
        // (whoever has it open writes to the new name from now on)
        let (c, p) = (std::mem::take(&mut w.outs[i].content), std::mem::take(&mut w.outs[i].pending));
        w.outs[j].content = c.clone();
        w.outs[j].pending = p;
        w.outs[j].opened += 1;
        for f in w.files.iter_mut() {
            if let FileObj::Out { out } = f {
                if *out == i {
                    *out = j
                }
            }
        }
        let n = w.outs[i].open_now;
        w.outs[i].open_now = 0;
        w.outs[j].open_now += n;
        w.event(&to, "visible", &c);
        w.op(29, i as u64, j as u64, true);
        Ok(())
    })
}
pub async fn copy<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> std::io::Result<u64> {
    let v = read(from).await?;
    write(to, &v).await?;
    Ok(v.len() as u64)
}
pub async fn create_dir<P: AsRef<Path>>(_path: P) -> std::io::Result<()> {
    Ok(())
}
pub async fn create_dir_all<P: AsRef<Path>>(_path: P) -> std::io::Result<()> {
    Ok(())
}
