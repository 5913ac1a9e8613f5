//! The reference for what a document should become: one call of the library in a process of its own
//! that has done nothing else.

use markdown_fmt::FormatBuilder;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Opts {
    pub max_width: Option<usize>,
    pub reflow: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Formatted {
    Ok(String),
    /// an error, a panic or a death of the process
    Failed,
}

/// Run `f` in a forked child and return the bytes it produced, or how it died.
pub fn in_child(cpu_s: u64, f: &mut dyn FnMut(&mut Vec<u8>)) -> Result<Vec<u8>, i32> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) < 0 {
            crate::harness_error("pipe failed");
        }
        let pid = libc::fork();
        if pid < 0 {
            crate::harness_error("fork failed");
        }
        if pid == 0 {
            libc::close(fds[0]);
            let l = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            // a dying child must not write to the check's output
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(null, 2);
            let mut out = vec![];
            f(&mut out);
            let mut b: &[u8] = &out;
            while !b.is_empty() {
                let r = libc::write(fds[1], b.as_ptr().cast(), b.len());
                if r <= 0 {
                    libc::_exit(3);
                }
                b = &b[r as usize..];
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let r = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if r > 0 {
                out.extend_from_slice(&buf[..r as usize]);
            } else if r == 0 {
                break;
            } else if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                break;
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Ok(out)
        } else {
            Err(st)
        }
    }
}

pub fn build(o: &Opts) -> FormatBuilder {
    let mut b = FormatBuilder::default();
    b.max_width(o.max_width).reflow_text(o.reflow);
    b
}

#[derive(Default)]
pub struct Oracle {
    cache: HashMap<(String, Opts), Formatted>,
}

impl Oracle {
    pub fn format(&mut self, doc: &str, o: &Opts) -> Formatted {
        let key = (doc.to_string(), o.clone());
        if let Some(f) = self.cache.get(&key) {
            return f.clone();
        }
        let r = in_child(6, &mut |out| {
            let r = std::panic::catch_unwind(|| build(o).build().format(doc));
            match r {
                Ok(Ok(s)) => {
                    out.push(1);
                    out.extend_from_slice(s.as_bytes());
                }
                _ => out.push(0),
            }
        });
        let f = match r {
            Ok(v) if v.first() == Some(&1) => Formatted::Ok(String::from_utf8_lossy(&v[1..]).into_owned()),
            _ => Formatted::Failed,
        };
        if self.cache.len() > 5000 {
            self.cache.clear();
        }
        self.cache.insert(key, f.clone());
        f
    }
    /// The formatting of bytes found in a file, if they can be formatted.
    pub fn bytes(&mut self, b: &[u8], o: &Opts) -> Option<Vec<u8>> {
        let s = std::str::from_utf8(b).ok()?;
        match self.format(s, o) {
            Formatted::Ok(s) => Some(s.into_bytes()),
            Formatted::Failed => None,
        }
    }
}
