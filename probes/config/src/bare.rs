//! What a 32-bit build without libc needs from the kernel, by system calls.
//!
//! The std of zkVMs asks for a handful of functions, and nothing else.
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

core::arch::global_asm!(
    ".globl _start",
    "_start:",
    "mov eax, esp",
    "and esp, -16",
    "sub esp, 12",
    "push eax",
    "call bare_entry",
    "ud2",
    ".globl bare_syscall",
    "bare_syscall:",
    "push ebp",
    "push ebx",
    "push esi",
    "push edi",
    "mov eax, [esp + 20]",
    "mov ebx, [esp + 24]",
    "mov ecx, [esp + 28]",
    "mov edx, [esp + 32]",
    "mov esi, [esp + 36]",
    "mov edi, [esp + 40]",
    "mov ebp, [esp + 44]",
    "int 0x80",
    "pop edi",
    "pop esi",
    "pop ebx",
    "pop ebp",
    "ret",
);

extern "C" {
    fn bare_syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize;
    fn main(argc: i32, argv: *const *const u8) -> i32;
}

static ARGS: AtomicUsize = AtomicUsize::new(0);

fn exit(code: usize) -> ! {
    loop {
        unsafe { bare_syscall(252, code, 0, 0, 0, 0, 0) };
    }
}

#[no_mangle]
unsafe extern "C" fn bare_entry(sp: *const usize) -> ! {
    ARGS.store(sp as usize, Relaxed);
    exit(main(*sp as i32, sp.add(1).cast()) as usize)
}

#[no_mangle]
unsafe extern "C" fn sys_write(fd: u32, mut buf: *const u8, mut n: usize) {
    while n > 0 {
        let w = bare_syscall(4, fd as usize, buf as usize, n, 0, 0, 0);
        if w <= 0 {
            exit(102);
        }
        (buf, n) = (buf.add(w as usize), n - w as usize);
    }
}

#[no_mangle]
unsafe extern "C" fn sys_panic(_: *const u8, _: usize) -> ! {
    exit(101)
}

#[no_mangle]
extern "C" fn sys_halt() {
    exit(103)
}

#[no_mangle]
unsafe extern "C" fn sys_argc() -> usize {
    *(ARGS.load(Relaxed) as *const usize)
}

#[no_mangle]
unsafe extern "C" fn sys_argv(out: *mut u32, words: usize, i: usize) -> usize {
    let arg = *(ARGS.load(Relaxed) as *const *const u8).add(1 + i);
    let mut n = 0;
    while *arg.add(n) != 0 {
        if n < words * 4 {
            *out.cast::<u8>().add(n) = *arg.add(n);
        }
        n += 1;
    }
    n
}

#[no_mangle]
unsafe extern "C" fn sys_getenv(_: *mut u32, _: usize, _: *const u8, _: usize) -> usize {
    usize::MAX
}

#[no_mangle]
unsafe extern "C" fn sys_rand(out: *mut u32, words: usize) {
    for i in 0..words {
        *out.add(i) = 4;
    }
}

#[no_mangle]
unsafe extern "C" fn sys_alloc_aligned(n: usize, align: usize) -> *mut u8 {
    Heap.alloc(Layout::from_size_align_unchecked(n, align))
}

#[no_mangle]
unsafe extern "C" fn sys_alloc_words(n: usize) -> *mut u32 {
    sys_alloc_aligned(4 * n, 4).cast()
}

fn map(len: usize) -> usize {
    let p = unsafe { bare_syscall(192, 0, len, 3, 0x22, usize::MAX, 0) };
    if (-4095..0).contains(&p) {
        exit(104);
    }
    p as usize
}

/// Blocks of powers of two, reused by size; the large ones are mapped.
struct Heap;

static FREE: [AtomicUsize; 21] = [const { AtomicUsize::new(0) }; 21];
const CHUNK: usize = 1 << 22;
static NEXT: AtomicUsize = AtomicUsize::new(0);
static END: AtomicUsize = AtomicUsize::new(0);

fn class(l: Layout) -> u32 {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros()
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = class(l) as usize;
        if c >= FREE.len() {
            return map(l.size()) as *mut u8;
        }
        let head = FREE[c].load(Relaxed);
        if head != 0 {
            FREE[c].store(*(head as *const usize), Relaxed);
            return head as *mut u8;
        }
        let size = 1usize << c;
        let mut at = (NEXT.load(Relaxed) + size - 1) & !(size - 1);
        if at + size > END.load(Relaxed) {
            at = map(CHUNK);
            END.store(at + CHUNK, Relaxed);
            at = (at + size - 1) & !(size - 1);
        }
        NEXT.store(at + size, Relaxed);
        at as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(l) as usize;
        if c >= FREE.len() {
            bare_syscall(91, p as usize, l.size(), 0, 0, 0, 0);
            return;
        }
        *p.cast::<usize>() = FREE[c].load(Relaxed);
        FREE[c].store(p as usize, Relaxed);
    }
}

#[global_allocator]
static HEAP: Heap = Heap;
