//! A scriptable stand-in for the `getrandom` crate (0.2 API).
//!
//! Each thread has its own source. The monitors install a script before driving the code under
//! test and read back every draw afterwards.
use std::cell::RefCell;
use std::mem::MaybeUninit;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(unsafe { NonZeroU32::new_unchecked(1 << 31) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Error({})", self.0)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "scripted generator failure")
    }
}
impl std::error::Error for Error {}

/// What the next draw returns.
#[derive(Clone, Debug)]
pub enum Draw {
    /// Exactly these bytes (repeated or cut to the requested length).
    Bytes(Vec<u8>),
    /// The generator fails.
    Fail,
}

#[derive(Default)]
pub struct Source {
    pub script: std::collections::VecDeque<Draw>,
    /// Seed of the stream used when the script is empty.
    pub seed: u64,
    pub counter: u64,
    /// Every draw made: `None` for a failure.
    pub log: Vec<Option<Vec<u8>>>,
}

thread_local! {
    static BUSY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static SRC: RefCell<Source> = RefCell::new(Source::default());
}

/// Whether this thread is inside the source (whose allocations are its own).
pub fn busy() -> bool {
    BUSY.try_with(|b| b.get()).unwrap_or(true)
}

/// Runs `f` with access to this thread's source.
pub fn with<R>(f: impl FnOnce(&mut Source) -> R) -> R {
    let old = BUSY.with(|b| b.replace(true));
    let r = SRC.with(|s| f(&mut s.borrow_mut()));
    BUSY.with(|b| b.set(old));
    r
}

/// Replaces the script and clears the log.
pub fn install(seed: u64, script: Vec<Draw>) {
    with(|s| {
        *s = Source { script: script.into(), seed, counter: 0, log: Vec::new() };
    })
}

pub fn take_log() -> Vec<Option<Vec<u8>>> {
    with(|s| std::mem::take(&mut s.log))
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    with(|s| {
        // for programs that are not linked to this crate
        match std::env::var_os("FAKERAND").as_deref().and_then(|v| v.to_str()) {
            Some("fail") => return Err(Error(NonZeroU32::new(5).unwrap())),
            Some("zero") => {
                dest.fill(0);
                return Ok(());
            },
            _ => (),
        }
        match s.script.pop_front() {
            Some(Draw::Fail) => {
                s.log.push(None);
                return Err(Error(NonZeroU32::new(5).unwrap()));
            },
            Some(Draw::Bytes(b)) => {
                for (i, d) in dest.iter_mut().enumerate() {
                    *d = b[i % b.len()];
                }
            },
            None => {
                let mut st = s.seed ^ s.counter.wrapping_mul(0xd1342543de82ef95) ^ 0x5bd1e995;
                s.counter += 1;
                for ch in dest.chunks_mut(8) {
                    let v = splitmix(&mut st).to_le_bytes();
                    ch.copy_from_slice(&v[..ch.len()]);
                }
            },
        }
        s.log.push(Some(dest.to_vec()));
        Ok(())
    })
}

pub fn getrandom_uninit(dest: &mut [MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for d in dest.iter_mut() {
        d.write(0);
    }
    // SAFETY: every byte was just initialised.
    let dest = unsafe { &mut *(dest as *mut [MaybeUninit<u8>] as *mut [u8]) };
    getrandom(dest)?;
    Ok(dest)
}
