//! Memory shared between a worker and the child process executing one run. The child writes its
//! decisions here as it makes them, so they survive a crash of the child.

pub const MAX_DEC: usize = 1 << 18;
pub const MAX_FAULT: usize = 1 << 16;
pub const MAX_MSG: usize = 1 << 16;
pub const N_CNT: usize = 160;
pub const MAX_COV: usize = 1 << 15;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dec {
    pub task: u32,
    pub op: u32,
    pub step: u32,
    pub next: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct FaultRec {
    pub task: u32,
    pub op: u32,
    pub io: u32,
    pub kind: u32,
    pub a: i64,
}

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOL: u32 = 2;
pub const ST_HARNESS: u32 = 3;

#[repr(C)]
pub struct Shm {
    // per run
    pub status: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub n_dec: u32,
    pub n_fault: u32,
    pub log_hash: u64,
    pub switch_hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub clock: u64,
    pub bytes: u64,
    pub where_len: u32,
    pub out_len: u32,
    pub class: [u8; 64],
    pub where_: [u8; 1024],
    pub msg: [u8; MAX_MSG],
    pub out: [u8; 1 << 20],
    pub dec: [Dec; MAX_DEC],
    pub faults: [FaultRec; MAX_FAULT],
    // accumulated over all runs of the worker
    pub cnt: [u64; N_CNT],
    pub cov: [u8; MAX_COV],
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub fn alloc_shared(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0); // PROT_READ|WRITE, SHARED|ANON
        assert!(p as isize != -1, "mmap failed");
        p
    }
}

impl Shm {
    pub fn new() -> *mut Shm {
        alloc_shared(std::mem::size_of::<Shm>()) as *mut Shm
    }
    pub fn reset(&mut self) {
        self.status = ST_RUNNING;
        self.class_len = 0;
        self.msg_len = 0;
        self.n_dec = 0;
        self.n_fault = 0;
        self.log_hash = 0;
        self.switch_hash = 0;
        self.steps = 0;
        self.switches = 0;
        self.clock = 0;
        self.bytes = 0;
        self.where_len = 0;
        self.out_len = 0;
    }
    pub fn set_class(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(64);
        self.class[..n].copy_from_slice(&b[..n]);
        self.class_len = n as u32;
    }
    pub fn set_msg(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(MAX_MSG);
        self.msg[..n].copy_from_slice(&b[..n]);
        self.msg_len = n as u32;
    }
    pub fn set_where(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(1024);
        self.where_[..n].copy_from_slice(&b[..n]);
        self.where_len = n as u32;
    }
    pub fn where_str(&self) -> String {
        String::from_utf8_lossy(&self.where_[..self.where_len as usize]).into_owned()
    }
    pub fn class_str(&self) -> String {
        String::from_utf8_lossy(&self.class[..self.class_len as usize]).into_owned()
    }
    pub fn msg_str(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
}
