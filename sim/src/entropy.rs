//! The seams below the library: what it could take from the process it runs in.
//!
//! Clocks: `clock_gettime`, `gettimeofday`, `time` and the sleeping calls answer from a clock of the
//! simulated thread (seeded start, seeded advance per reading, jumps; the wall clock also backwards).
//! The library reads no clock today; a version that does is driven by the simulator all the same.
//!
//! Locks: a task that would block on a futex hands the turn to the scheduler (src/conc.rs).
//!
//! Randomness: `getrandom` and `SYS_getrandom` of this process answer
//! from a per-thread stream that the simulator seeds. RandomState (std), ThreadRng (rand 0.9, used
//! by goban) and thread_rng (rand 0.7, used by oxymcts) all take their entropy here.
//! Faults: EINTR and short reads, which real callers have to survive.

use std::cell::Cell;

struct St {
    state: Cell<u64>,
    /// percent of calls answered with EINTR / shortened
    eintr: Cell<u32>,
    short: Cell<u32>,
    /// 0 = stream, 1 = all zero bytes, 2 = all ones, 3 = repeating the same 8 bytes
    mode: Cell<u32>,
    fault_state: Cell<u64>,
    calls: Cell<u64>,
    n_eintr: Cell<u64>,
    n_short: Cell<u64>,
    consecutive: Cell<u32>,
    /// the clock of this thread: on, state of its stream, monotonic ns, offset of the wall clock
    clock: Cell<bool>,
    clock_state: Cell<u64>,
    mono: Cell<u64>,
    wall: Cell<i64>,
    readings: Cell<u64>,
    jumps: Cell<u64>,
}

thread_local! {
    static ST: St = const { St {
        state: Cell::new(0x1234_5678_9abc_def1), eintr: Cell::new(0), short: Cell::new(0), mode: Cell::new(0),
        fault_state: Cell::new(7), calls: Cell::new(0), n_eintr: Cell::new(0), n_short: Cell::new(0), consecutive: Cell::new(0),
        clock: Cell::new(false), clock_state: Cell::new(0), mono: Cell::new(0), wall: Cell::new(0),
        readings: Cell::new(0), jumps: Cell::new(0),
    } };
}

#[derive(Clone, Copy, Debug, Default)]
pub struct EntropyCfg {
    pub seed: u64,
    pub mode: u32,
    pub eintr: u32,
    pub short: u32,
}

pub fn configure(c: EntropyCfg) {
    ST.with(|s| {
        s.state.set(c.seed);
        s.mode.set(c.mode);
        s.eintr.set(c.eintr);
        s.short.set(c.short);
        s.fault_state.set(c.seed ^ 0xDEAD_BEEF);
        s.calls.set(0);
        s.n_eintr.set(0);
        s.n_short.set(0);
        s.consecutive.set(0);
        let k = crate::rng::mix(c.seed ^ 0xC10C);
        s.clock.set(true);
        s.clock_state.set(k);
        s.mono.set(k % 1_000_000_000_000_000);
        s.wall.set(1_500_000_000_000_000_000 + (crate::rng::mix(k) % 400_000_000_000_000_000) as i64);
        s.readings.set(0);
        s.jumps.set(0);
    });
}

/// (readings of a clock, jumps) on this thread since `configure`.
pub fn clock_counters() -> (u64, u64) {
    ST.with(|s| (s.readings.get(), s.jumps.get()))
}

/// The simulator's own waiting uses the real clock.
pub fn real_time<R>(f: impl FnOnce() -> R) -> R {
    let on = ST.with(|s| s.clock.replace(false));
    let r = f();
    ST.with(|s| s.clock.set(on));
    r
}

/// The next reading of the simulated clock, in ns; None on threads outside the simulation.
fn reading(wall: bool) -> Option<i64> {
    ST.try_with(|s| {
        if !s.clock.get() {
            return None;
        }
        s.readings.set(s.readings.get() + 1);
        let x = crate::rng::mix(s.clock_state.get());
        s.clock_state.set(x);
        let mut by = 1_000 + x % 200_000;
        if x >> 32 & 31 == 0 {
            by += x >> 40; // up to about 16 ms
        }
        if x >> 37 & 127 == 0 {
            by += 1_000_000_000 * (1 + (x >> 44) % 5000);
            s.jumps.set(s.jumps.get() + 1);
        }
        if x >> 48 & 127 == 0 {
            // the wall clock is set, perhaps back
            s.wall.set(s.wall.get() + ((x >> 8) % 7_200_000_000_000) as i64 - 3_600_000_000_000);
            s.jumps.set(s.jumps.get() + 1);
        }
        s.mono.set(s.mono.get() + by);
        Some(s.mono.get() as i64 + if wall { s.wall.get() } else { 0 })
    })
    .ok()
    .flatten()
}

fn elapse(ns: u64) -> bool {
    ST.try_with(|s| {
        if s.clock.get() {
            s.mono.set(s.mono.get() + ns);
        }
        s.clock.get()
    })
    .unwrap_or(false)
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}

unsafe fn errno(ret: i64) -> i64 {
    if (-4095..0).contains(&ret) {
        *__errno_location() = -ret as i32;
        return -1;
    }
    ret
}

/// clocks: 0, 5, 8 (wall) and 1, 4, 6, 7 (monotonic, boot); the CPU clocks are monotonic too
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    match reading(matches!(id, 0 | 5 | 8 | 11)) {
        Some(ns) => {
            *ts = [ns / 1_000_000_000, ns % 1_000_000_000];
            0
        }
        None => errno(raw(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32,
    }
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], tz: *mut u8) -> i32 {
    match reading(true) {
        Some(ns) if !tv.is_null() => {
            *tv = [ns / 1_000_000_000, ns % 1_000_000_000 / 1000];
            0
        }
        _ => errno(raw(96, tv as i64, tz as i64, 0, 0, 0, 0)) as i32,
    }
}

#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut tv = [0i64; 2];
    gettimeofday(&mut tv, std::ptr::null_mut());
    if !t.is_null() {
        *t = tv[0];
    }
    tv[0]
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(want: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    if elapse(((*want)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*want)[1] as u64)) {
        crate::conc::give_way();
        return 0;
    }
    errno(raw(35, want as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, want: *const [i64; 2], rem: *mut [i64; 2]) -> i32 {
    let t = ((*want)[0] as u64).saturating_mul(1_000_000_000).saturating_add((*want)[1] as u64);
    let on = ST.try_with(|s| s.clock.get()).unwrap_or(false);
    if on {
        if flags & 1 == 0 {
            elapse(t);
        } else {
            ST.with(|s| {
                let now = s.mono.get() as i64 + if matches!(id, 0 | 5 | 8 | 11) { s.wall.get() } else { 0 };
                s.mono.set(s.mono.get() + (t as i64 - now).max(0) as u64);
            });
        }
        crate::conc::give_way();
        return 0;
    }
    (-raw(230, id as i64, flags as i64, want as i64, rem as i64, 0, 0)) as i32
}

#[no_mangle]
pub extern "C" fn sched_yield() -> i32 {
    if !crate::conc::give_way() {
        unsafe { raw(24, 0, 0, 0, 0, 0, 0) };
    }
    0
}

/// (calls, EINTR injected, short reads injected) on this thread since `configure`.
pub fn counters() -> (u64, u64, u64) {
    ST.with(|s| (s.calls.get(), s.n_eintr.get(), s.n_short.get()))
}

const EINTR: i32 = 4;

extern "C" {
    fn __errno_location() -> *mut i32;
}

fn fill(buf: *mut u8, len: usize) -> isize {
    if len == 0 {
        return 0;
    }
    ST.with(|s| {
        s.calls.set(s.calls.get() + 1);
        let f = crate::rng::mix(s.fault_state.get());
        s.fault_state.set(f);
        if s.consecutive.get() < 5 && (f % 100) < s.eintr.get() as u64 {
            s.consecutive.set(s.consecutive.get() + 1);
            s.n_eintr.set(s.n_eintr.get() + 1);
            unsafe { *__errno_location() = EINTR };
            return -1;
        }
        s.consecutive.set(0);
        let mut n = len;
        if len > 1 && ((f >> 32) % 100) < s.short.get() as u64 {
            n = 1 + ((f >> 40) as usize % (len - 1));
            s.n_short.set(s.n_short.get() + 1);
        }
        let mut x = s.state.get();
        for i in 0..n {
            let b = match s.mode.get() {
                1 => 0u8,
                2 => 0xff,
                3 => (x >> (8 * (i % 8))) as u8,
                _ => {
                    if i % 8 == 0 {
                        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
                    }
                    (crate::rng::mix(x) >> (8 * (i % 8))) as u8
                }
            };
            unsafe { *buf.add(i) = b };
        }
        s.state.set(x);
        n as isize
    })
}

#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    fill(buf, len)
}

/// The processor time this process has used so far, in ms, whatever the simulated clock says.
pub fn cpu_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { raw(228, 2, &mut ts as *mut _ as i64, 0, 0, 0, 0) };
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

/// glibc's `syscall`: SYS_getrandom is answered here, SYS_futex of a task by the scheduler, the rest
/// is forwarded.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 {
        return fill(a as *mut u8, b as usize) as i64;
    }
    if n == 202 && matches!(b & 0x7f, 0 | 9) {
        if let Some(ret) = crate::conc::futex_wait(a as *const u32, c as u32, d != 0) {
            return errno(ret);
        }
    }
    errno(raw(n, a, b, c, d, e, f))
}
