//! Fork servers: one exec of a real binary under the shim, then one fork per simulated process.
use std::ffi::CString;
use std::io;
use std::mem;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

#[repr(C)]
#[derive(Clone, Copy)]
struct RunCmd {
    op: u32,
    pid: u32,
    rnd: u64,
    heap: u64,
    allocs: i64,
    cpu: u32,
    argc: u32,
    alen: u32,
    pid_no: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct RunRep {
    pid: i32,
    status: i32,
}

pub struct Server {
    ctl: i32,
    child: Child,
    exe: String,
    shim: String,
    extra: Vec<String>,
    pub forks: u64,
}

fn socketpair() -> io::Result<(i32, i32)> {
    let mut fds = [0i32; 2];
    let r = unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()) };
    if r != 0 {
        return Err(io::Error::last_os_error());
    }
    for fd in fds {
        let sz: i32 = 256 * 1024;
        unsafe {
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &sz as *const i32 as *const _, 4);
        }
    }
    Ok((fds[0], fds[1]))
}

const DUMMY_ARGS: usize = 60;

impl Server {
    pub fn start(exe: &str, shim: &str, extra: &[String]) -> io::Result<Server> {
        let (ctl, child) = Self::boot(exe, shim, extra)?;
        Ok(Server { ctl, child, exe: exe.into(), shim: shim.into(), extra: extra.to_vec(), forks: 0 })
    }
    fn boot(exe: &str, shim: &str, _extra: &[String]) -> io::Result<(i32, Child)> {
        let (a, b) = socketpair()?;
        let mut c = Command::new(exe);
        for _ in 0..DUMMY_ARGS {
            c.arg("x");
        }
        c.env_clear().env("LD_PRELOAD", shim).env("DST_CTL_FD", "3").current_dir("/");
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        unsafe {
            c.pre_exec(move || {
                libc::personality(0x0040000);
                let st = libc::rlimit { rlim_cur: 8 << 20, rlim_max: 8 << 20 };
                libc::setrlimit(libc::RLIMIT_STACK, &st);
                if b == 3 {
                    libc::fcntl(3, libc::F_SETFD, 0);
                } else if libc::dup2(b, 3) < 0 {
                    return Err(io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = c.spawn();
        unsafe { libc::close(b) };
        match child {
            Ok(ch) => Ok((a, ch)),
            Err(e) => {
                unsafe { libc::close(a) };
                Err(e)
            }
        }
    }
    pub fn restart(&mut self) -> io::Result<()> {
        unsafe { libc::close(self.ctl) };
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (ctl, child) = Self::boot(&self.exe, &self.shim, &self.extra)?;
        self.ctl = ctl;
        self.child = child;
        Ok(())
    }

    fn send(&self, cmd: &RunCmd, data: &[u8], fd: Option<i32>) -> io::Result<()> {
        unsafe {
            let mut iov = [
                libc::iovec { iov_base: cmd as *const _ as *mut _, iov_len: mem::size_of::<RunCmd>() },
                libc::iovec { iov_base: data.as_ptr() as *mut _, iov_len: data.len() },
            ];
            let mut m: libc::msghdr = mem::zeroed();
            m.msg_iov = iov.as_mut_ptr();
            m.msg_iovlen = 2;
            let mut cb = [0u64; 8];
            if let Some(fd) = fd {
                m.msg_control = cb.as_mut_ptr() as *mut _;
                m.msg_controllen = libc::CMSG_SPACE(4) as _;
                let c = libc::CMSG_FIRSTHDR(&m);
                (*c).cmsg_level = libc::SOL_SOCKET;
                (*c).cmsg_type = libc::SCM_RIGHTS;
                (*c).cmsg_len = libc::CMSG_LEN(4) as _;
                *(libc::CMSG_DATA(c) as *mut i32) = fd;
            }
            loop {
                let r = libc::sendmsg(self.ctl, &m, libc::MSG_NOSIGNAL);
                if r >= 0 {
                    return Ok(());
                }
                let e = io::Error::last_os_error();
                if e.kind() != io::ErrorKind::Interrupted {
                    return Err(e);
                }
            }
        }
    }
    fn reply(&self) -> io::Result<RunRep> {
        let mut r = RunRep::default();
        loop {
            let n = unsafe { libc::recv(self.ctl, &mut r as *mut _ as *mut _, mem::size_of::<RunRep>(), 0) };
            if n == mem::size_of::<RunRep>() as isize {
                return Ok(r);
            }
            if n < 0 && io::Error::last_os_error().kind() == io::ErrorKind::Interrupted {
                continue;
            }
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "fork server gone"));
        }
    }

    /// Forks one simulated process; returns (real pid, simulator end of its socket).
    pub fn run(&mut self, argv: &[String], rnd: u64, heap: u64, allocs: i64, cpu: u32, pid_no: u32) -> io::Result<(i32, i32)> {
        assert!(argv.len() < DUMMY_ARGS);
        let mut data = vec![];
        for a in argv {
            data.extend_from_slice(CString::new(a.as_str()).map_err(|_| io::Error::other("nul in argv"))?.as_bytes_with_nul());
        }
        let cmd = RunCmd { op: 1, pid: 0, rnd, heap, allocs, cpu, argc: argv.len() as u32, alen: data.len() as u32, pid_no };
        for attempt in 0..2 {
            let (a, b) = socketpair()?;
            let res = self.send(&cmd, &data, Some(b)).and_then(|_| self.reply());
            unsafe { libc::close(b) };
            match res {
                Ok(r) if r.pid > 0 => {
                    let tv = libc::timeval { tv_sec: 60, tv_usec: 0 };
                    unsafe {
                        libc::setsockopt(a, libc::SOL_SOCKET, libc::SO_RCVTIMEO, &tv as *const _ as *const _, mem::size_of_val(&tv) as u32);
                    }
                    self.forks += 1;
                    return Ok((r.pid, a));
                }
                other => {
                    unsafe { libc::close(a) };
                    if attempt == 1 {
                        return Err(io::Error::other(format!("fork server for {}: {:?}", self.exe, other.map(|r| r.pid))));
                    }
                    self.restart()?;
                }
            }
        }
        unreachable!()
    }
    pub fn wait(&mut self, pid: i32) -> io::Result<i32> {
        let cmd = RunCmd { op: 2, pid: pid as u32, rnd: 0, heap: 0, allocs: 0, cpu: 0, argc: 0, alen: 0, pid_no: 0 };
        self.send(&cmd, &[], None)?;
        Ok(self.reply()?.status)
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        unsafe { libc::close(self.ctl) };
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
