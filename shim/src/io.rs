use crate::mc::{self, LeafKind, LeafSlot};
pub use real::io::prelude;
pub use real::io::{
    copy, empty, repeat, sink, BufRead, BufReader, BufWriter, Cursor, Empty, Error, ErrorKind, IoSlice, IoSliceMut,
    Read, Repeat, Result, Seek, SeekFrom, Sink, Write,
};
pub use real::io::prelude::{BufReadExt, SeekExt};
pub use real::io::{ReadExt, WriteExt};
use std::pin::Pin;
use std::task::{Context, Poll};

pub(crate) fn err(e: i32) -> std::io::Error {
    std::io::Error::from_raw_os_error(e)
}

/// Reads from a model pipe through a leaf slot.
pub(crate) fn poll_pipe_read(
    slot: &mut LeafSlot,
    pipe: usize,
    cx: &mut Context<'_>,
    buf: &mut [u8],
) -> Poll<std::io::Result<usize>> {
    if slot.poll(LeafKind::PipeRead { pipe, max: buf.len() }, cx).is_none() {
        return Poll::Pending;
    }
    match mc::with(|w| w.pipe_read(pipe, buf.len())) {
        Ok(v) => {
            buf[..v.len()].copy_from_slice(&v);
            Poll::Ready(Ok(v.len()))
        }
        Err(e) => Poll::Ready(Err(err(e))),
    }
}

#[derive(Debug)]
pub struct Stdin {
    slot: LeafSlot,
}
pub fn stdin() -> Stdin {
    Stdin { slot: LeafSlot::new() }
}
impl futures_io::AsyncRead for Stdin {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let Some(pipe) = mc::with(|w| w.stdin_pipe) else { return Poll::Ready(Ok(0)) };
        poll_pipe_read(&mut self.slot, pipe, cx, buf)
    }
}

macro_rules! out_stream {
    ($t:ident, $f:ident, $name:expr) => {
        #[derive(Debug)]
        pub struct $t {
            slot: LeafSlot,
        }
        pub fn $f() -> $t {
            $t { slot: LeafSlot::new() }
        }
        impl futures_io::AsyncWrite for $t {
            fn poll_write(
                mut self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                buf: &[u8],
            ) -> Poll<std::io::Result<usize>> {
                let i = mc::with(|w| w.out_file($name));
                poll_out_write(&mut self.slot, i, cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
                let i = mc::with(|w| w.out_file($name));
                Poll::Ready(mc::with(|w| w.out_flush(i)).map_err(err))
            }
            fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
                self.poll_flush(cx)
            }
        }
    };
}
pub(crate) fn poll_out_write(
    slot: &mut LeafSlot,
    i: usize,
    cx: &mut Context<'_>,
    buf: &[u8],
) -> Poll<std::io::Result<usize>> {
    let leaf = mc::with(|w| w.outs[i].spec.leaf);
    if leaf && slot.poll(LeafKind::FileIo { file: i }, cx).is_none() {
        return Poll::Pending;
    }
    Poll::Ready(mc::with(|w| w.out_write(i, buf)).map_err(err))
}
out_stream!(Stdout, stdout, "<stdout>");
out_stream!(Stderr, stderr, "<stderr>");
pub use real::io::timeout;

impl Stdin {
    /// One line, with its end (byte by byte: nothing is read ahead).
    pub async fn read_line(&self, buf: &mut String) -> std::io::Result<usize> {
        let mut own = Stdin { slot: LeafSlot::new() };
        let mut line = vec![];
        let mut b = [0u8; 1];
        loop {
            if own.read(&mut b).await? == 0 {
                break;
            }
            line.push(b[0]);
            if b[0] == b'\n' {
                break;
            }
        }
        let s = String::from_utf8(line)
            .map_err(|_| std::io::Error::new(ErrorKind::InvalidData, "stream did not contain valid UTF-8"))?;
        buf.push_str(&s);
        Ok(s.len())
    }
}
