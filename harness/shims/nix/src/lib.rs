//! `nix` plus FreeBSD's `fspacectl_all`, which here tells the device model
//! that a range was deallocated.
pub use realnix::*;
pub mod fcntl {
    pub use realnix::fcntl::*;
    use realnix::libc::off_t;
    use std::os::unix::io::RawFd;
    pub fn fspacectl_all(fd: RawFd, offset: off_t, len: off_t) -> realnix::Result<()> {
        aiodev::erase(fd, offset as u64, len as u64)
            .map_err(|e| realnix::errno::Errno::from_raw(e.raw_os_error().unwrap_or(5)))
    }
}
/// Stand-ins that only record the call: the harness never (un)mounts anything.
pub mod mount {
    use std::path::{Path, PathBuf};
    use std::sync::Mutex;
    #[derive(Clone, Copy, Debug)]
    pub struct MntFlags(pub u32);
    impl MntFlags {
        pub const MNT_FORCE: MntFlags = MntFlags(1);
        pub fn empty() -> Self { MntFlags(0) }
        pub fn insert(&mut self, o: MntFlags) { self.0 |= o.0 }
    }
    pub static UNMOUNTED: Mutex<Vec<PathBuf>> = Mutex::new(Vec::new());
    pub fn unmount<P: AsRef<Path> + ?Sized>(p: &P, _flags: MntFlags) -> realnix::Result<()> {
        UNMOUNTED.lock().unwrap().push(p.as_ref().to_path_buf());
        Ok(())
    }
}
