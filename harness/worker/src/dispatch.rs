//! CPUID interception (a CPU with fewer features) and an instruction-level monitor of a call.
use crate::exec::{fail, Fail};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

const ARCH_SET_CPUID: i64 = 0x1012;

/// extension bits
pub const SSE3: u32 = 1;
pub const SSE4: u32 = 2;
pub const POPCNT: u32 = 4;
pub const AVX: u32 = 8;
pub const FMA: u32 = 16;
pub const AVX2: u32 = 32;
pub const BMI: u32 = 64;
pub const F16C: u32 = 128;
pub const AVX512: u32 = 256;
pub const OTHER: u32 = 512;
const NOXSAVE: u32 = 1 << 20;
pub const NAMES: [&str; 10] = ["SSE3", "SSSE3/SSE4", "POPCNT", "AVX", "FMA", "AVX2", "BMI", "F16C", "AVX-512/EVEX", "XOP/other"];

static LEVEL: AtomicU32 = AtomicU32::new(u32::MAX);
static ON: AtomicBool = AtomicBool::new(false);
static CPUIDS: AtomicU32 = AtomicU32::new(0);

pub fn level_mask(name: &str) -> Option<u32> {
    let sse = SSE3 | SSE4 | POPCNT;
    Some(match name {
        "sse2" => 0,
        "avx" => sse | AVX,
        "fma" => sse | AVX | FMA | F16C | BMI,
        "avx2" => sse | AVX | AVX2 | BMI,
        // the processor has it all, but the operating system has not enabled the registers
        "noxsave" => sse | AVX | FMA | AVX2 | F16C | BMI | NOXSAVE,
        // compiled in, whatever the processor
        "+sse41" => SSE3 | SSE4,
        "+avx" => sse | AVX,
        "+avx2" => sse | AVX | AVX2,
        "+fma" => sse | AVX | FMA,
        "full" => !0,
        _ => return None,
    })
}
/// What may be executed on such a processor.
pub fn allowed(mask: u32) -> u32 { if mask != !0 && mask & NOXSAVE != 0 { mask & !(AVX | FMA | AVX2 | F16C) } else { mask } }

unsafe fn arch_prctl(code: i64, arg: i64) -> i64 { libc::syscall(libc::SYS_arch_prctl, code, arg) as i64 }

/// Make CPUID trap from here on. False when the machine cannot.
pub fn restrict(level: u32) -> bool {
    LEVEL.store(level, SeqCst);
    ON.store(true, SeqCst);
    unsafe { arch_prctl(ARCH_SET_CPUID, 0) == 0 }
}

pub fn cpuid_count() -> u32 { CPUIDS.load(SeqCst) }

/// From the SIGSEGV handler: emulate CPUID if that is what trapped.
pub unsafe fn emulate_cpuid(uc: &mut libc::ucontext_t) -> bool {
    if !ON.load(SeqCst) { return false }
    let g = &mut uc.uc_mcontext.gregs;
    let ip = g[libc::REG_RIP as usize] as *const u8;
    if !readable_code(ip as usize) || *ip != 0x0F || *ip.add(1) != 0xA2 { return false }
    let (leaf, sub) = (g[libc::REG_RAX as usize] as u32, g[libc::REG_RCX as usize] as u32);
    arch_prctl(ARCH_SET_CPUID, 1);
    let r = core::arch::x86_64::__cpuid_count(leaf, sub);
    arch_prctl(ARCH_SET_CPUID, 0);
    let (mut a, mut b, mut c, mut d) = (r.eax, r.ebx, r.ecx, r.edx);
    let has = LEVEL.load(SeqCst);
    let clear = |reg: &mut u32, bits: &[u32]| for x in bits { *reg &= !(1 << x) };
    match leaf {
        1 => {
            if has & SSE3 == 0 { clear(&mut c, &[0]) }
            if has & SSE4 == 0 { clear(&mut c, &[1, 9, 19, 20, 22, 25]) }
            if has & POPCNT == 0 { clear(&mut c, &[23]) }
            if has & AVX == 0 { clear(&mut c, &[26, 27, 28]) }
            if has != !0 && has & NOXSAVE != 0 { clear(&mut c, &[27]) }
            if has & FMA == 0 { clear(&mut c, &[12]) }
            if has & F16C == 0 { clear(&mut c, &[29]) }
        }
        7 if has != !0 => {
            let keep = if has & AVX2 != 0 { 1 << 5 } else { 0 } | if has & BMI != 0 && sub == 0 { (1 << 3) | (1 << 8) } else { 0 };
            b &= if sub == 0 { keep } else { 0 };
            c = 0;
            d = 0;
            a = 0;
        }
        0x8000_0001 if has != !0 => { c &= 1; d &= !(1 << 22 | 1 << 30 | 1 << 31) }
        0x14..=0x24 if has != !0 => { a = 0; b = 0; c = 0; d = 0 }
        _ => {}
    }
    let g = &mut uc.uc_mcontext.gregs;
    g[libc::REG_RAX as usize] = a as i64;
    g[libc::REG_RBX as usize] = b as i64;
    g[libc::REG_RCX as usize] = c as i64;
    g[libc::REG_RDX as usize] = d as i64;
    g[libc::REG_RIP as usize] += 2;
    CPUIDS.fetch_add(1, SeqCst);
    true
}

extern "C" { static __executable_start: u8; static etext: u8; }
fn exe() -> (usize, usize) { (std::ptr::addr_of!(__executable_start) as usize, std::ptr::addr_of!(etext) as usize) }

fn readable_code(ip: usize) -> bool {
    // executable text, or anywhere else code can be running: a fault at an address inside our own
    // data regions is never code
    let (s, e) = exe();
    ip >= s && ip < e || ip > 0x7000_0000_0000
}

/// Which extension an instruction needs (0: baseline x86-64).
pub unsafe fn classify(ip: *const u8) -> u32 {
    let mut p = ip;
    let (mut f2, mut f3, mut x66) = (false, false, false);
    loop {
        match *p { 0x66 => x66 = true, 0xF2 => f2 = true, 0xF3 => f3 = true, 0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 | 0x67 | 0xF0 => {}, _ => break }
        p = p.add(1);
    }
    if *p & 0xF0 == 0x40 { p = p.add(1) }
    match *p {
        0x62 => AVX512,
        0x8F => if *p.add(1) & 0x38 != 0 { OTHER } else { 0 },
        0xC4 | 0xC5 => {
            let (map, l, pp, op, q);
            if *p == 0xC5 { let x = *p.add(1); map = 1; l = x >> 2 & 1; pp = x & 3; op = *p.add(2); q = p.add(3) }
            else { let x = *p.add(2); map = *p.add(1) & 31; l = x >> 2 & 1; pp = x & 3; op = *p.add(3); q = p.add(4) }
            let modreg = *q >> 6 == 3;
            match map {
                1 => match op {
                    0x41..=0x4B | 0x90..=0x93 | 0x98 | 0x99 if pp <= 3 && !matches!(op, 0x51) => AVX512,
                    0x60..=0x6D | 0x71..=0x76 | 0xD1..=0xD5 | 0xD7..=0xE5 | 0xE8..=0xEF | 0xF1..=0xF6 | 0xF8..=0xFE if pp == 1 && l == 1 => AVX | AVX2,
                    0x70 if l == 1 => AVX | AVX2,
                    _ => AVX,
                },
                2 => match op {
                    0xF2 | 0xF3 | 0xF5..=0xF7 => BMI,
                    0x96..=0x9F | 0xA6..=0xAF | 0xB6..=0xBF if pp == 1 => AVX | FMA,
                    0x13 => AVX | F16C,
                    0x18 | 0x19 if modreg => AVX | AVX2,
                    0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5A | 0x78 | 0x79 | 0x8C | 0x8E | 0x90..=0x93 => AVX | AVX2,
                    0x00..=0x0B | 0x1C..=0x1E | 0x20..=0x25 | 0x28..=0x2B | 0x30..=0x35 | 0x37..=0x40 if l == 1 => AVX | AVX2,
                    0x50..=0x53 => AVX | AVX2 | OTHER,
                    _ => AVX,
                },
                3 => match op {
                    0xF0 => BMI,
                    0x1D => AVX | F16C,
                    0x00..=0x02 | 0x38 | 0x39 | 0x46 => AVX | AVX2,
                    0x0E | 0x0F | 0x42 | 0x4C if l == 1 => AVX | AVX2,
                    0x30..=0x33 => AVX512,
                    _ => AVX,
                },
                _ => OTHER,
            }
        }
        0x0F => match *p.add(1) {
            0x12 if f2 || f3 => SSE3,
            0x16 if f3 => SSE3,
            0x7C | 0x7D | 0xD0 if f2 || x66 => SSE3,
            0xF0 if f2 => SSE3,
            0x38 | 0x3A => SSE4,
            0xB8 if f3 => POPCNT,
            0x0F | 0x0E => OTHER,
            _ => 0,
        },
        _ => 0,
    }
}

static ALLOWED: AtomicU32 = AtomicU32::new(!0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static INEXE: AtomicU64 = AtomicU64::new(0);
static SEEN: AtomicU32 = AtomicU32::new(0);
static BAD_IP: AtomicUsize = AtomicUsize::new(0);
static BAD_NEED: AtomicU32 = AtomicU32::new(0);
static STOP: AtomicBool = AtomicBool::new(false);

extern "C" fn on_trap(_sig: i32, _info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let g = &mut uc.uc_mcontext.gregs;
        if STOP.load(SeqCst) { g[libc::REG_EFL as usize] &= !0x100; return }
        STEPS.fetch_add(1, SeqCst);
        let ip = g[libc::REG_RIP as usize] as usize;
        let (s, e) = exe();
        if ip >= s && ip < e {
            INEXE.fetch_add(1, SeqCst);
            let need = classify(ip as *const u8);
            if need != 0 {
                SEEN.fetch_or(need, SeqCst);
                if need & !ALLOWED.load(SeqCst) != 0 && BAD_IP.load(SeqCst) == 0 {
                    BAD_IP.store(ip, SeqCst);
                    BAD_NEED.store(need & !ALLOWED.load(SeqCst), SeqCst);
                }
            }
        }
    }
}

pub fn names(mask: u32) -> String {
    let v: Vec<&str> = (0..10).filter(|i| mask >> i & 1 == 1).map(|i| NAMES[i]).collect();
    if v.is_empty() { "none".into() } else { v.join("+") }
}

pub struct Seen { pub steps: u64, pub in_exe: u64, pub seen: u32 }

/// Single-step `f` on this thread, looking at every instruction of this executable.
pub fn monitor(allowed: u32, f: impl FnOnce()) -> Result<Seen, Fail> {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    // CPUID is not to be executed while stepping
    std::hint::black_box(std::is_x86_feature_detected!("avx"));
    ALLOWED.store(allowed, SeqCst);
    STEPS.store(0, SeqCst);
    INEXE.store(0, SeqCst);
    SEEN.store(0, SeqCst);
    BAD_IP.store(0, SeqCst);
    STOP.store(false, SeqCst);
    unsafe { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
    f();
    STOP.store(true, SeqCst);
    unsafe { core::arch::asm!("nop", "nop") }
    let ip = BAD_IP.load(SeqCst);
    if ip != 0 {
        let b: Vec<String> = (0..12).map(|i| format!("{:02x}", unsafe { *((ip + i) as *const u8) })).collect();
        return fail("isa", format!("executed an instruction that needs {} (bytes {})", names(BAD_NEED.load(SeqCst)), b.join(" ")));
    }
    Ok(Seen { steps: STEPS.load(SeqCst), in_exe: INEXE.load(SeqCst), seen: SEEN.load(SeqCst) })
}
