//! `libc` with the FreeBSD-only items that bfffs names, so that it compiles on
//! Linux.  The FreeBSD-only errnos get values that Linux does not use.
#![allow(non_camel_case_types)]
pub use reallibc::*;
macro_rules! errnos { ($($n:ident = $v:expr),* $(,)?) => { $(pub const $n: c_int = $v;)* } }
errnos! { EAUTH = 9001, EBADRPC = 9002, ECAPMODE = 9003, EDOOFUS = 9004,
    EFTYPE = 9005, EINTEGRITY = 9006, ENEEDAUTH = 9007, ENOTCAPABLE = 9008,
    EPROCLIM = 9009, EPROCUNAVAIL = 9010, EPROGMISMATCH = 9011,
    EPROGUNAVAIL = 9012, ERPCMISMATCH = 9013, ENOATTR = 9014 }
pub const EXTATTR_NAMESPACE_USER: c_int = 1;
pub const EXTATTR_NAMESPACE_SYSTEM: c_int = 2;
pub const O_DIRECT: c_int = 0;
pub const O_EXLOCK: c_int = 0;
pub const S_IFMT: u16 = 0o170000;
pub const S_IFIFO: u16 = 0o010000;
pub const S_IFCHR: u16 = 0o020000;
pub const S_IFDIR: u16 = 0o040000;
pub const S_IFBLK: u16 = 0o060000;
pub const S_IFREG: u16 = 0o100000;
pub const S_IFLNK: u16 = 0o120000;
pub const S_IFSOCK: u16 = 0o140000;
#[derive(Clone, Copy)]
#[repr(C)]
pub struct dirent {
    pub d_fileno: u64,
    pub d_off: i64,
    pub d_reclen: u16,
    pub d_type: u8,
    pub d_pad0: u8,
    pub d_namlen: u16,
    pub d_pad1: u16,
    pub d_name: [c_char; 256],
}
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct statvfs {
    pub f_bavail: u64,
    pub f_bfree: u64,
    pub f_blocks: u64,
    pub f_favail: u64,
    pub f_ffree: u64,
    pub f_files: u64,
    pub f_bsize: c_ulong,
    pub f_flag: c_ulong,
    pub f_frsize: c_ulong,
    pub f_fsid: c_ulong,
    pub f_namemax: c_ulong,
}
